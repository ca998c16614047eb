"""C51: blocks that fill in or repair annotation of single words."""
import os
import tempfile
from udapi.core.document import Document
from sx import api as sx
from harness.common import check_tree, check_wf
from harness.c26 import rule, NOT_AFTER, NOT_BEFORE
from harness.c40 import printed

CLOSED = ['PUNCT', 'SYM', 'ADP', 'CCONJ', 'SCONJ', 'PART', 'INTJ', 'X']
# the values of the features that the base form may have (undefined features do not matter)
BASE = {'ADV': dict(Degree='Pos', Polarity='Pos'), 'VERB': dict(VerbForm='Inf', Polarity='Pos'), 'AUX': dict(VerbForm='Inf', Polarity='Pos'),
        'NOUN': dict(Number='Sing', Case='Nom', Polarity='Pos'), 'PROPN': dict(Number='Sing', Case='Nom', Polarity='Pos'),
        'ADJ': dict(Gender='Masc', Number='Sing', Case='Nom', Degree='Pos', Polarity='Pos'),
        'PRON': dict(Gender='Masc', Number='Sing', Case='Nom'), 'DET': dict(Gender='Masc', Number='Sing', Case='Nom'),
        'NUM': dict(Gender='Masc', Case='Nom')}
VALUES = dict(Degree=['Pos', 'Cmp'], Polarity=['Pos', 'Neg'], VerbForm=['Inf', 'Fin'], Number=['Sing', 'Plur'], Case=['Nom', 'Gen'], Gender=['Masc', 'Fem'], Typo=['Yes'], Person=['1', '3'])


def sentence(forms):
    doc = Document()
    root = doc.create_bundle().create_tree()
    return doc, root, [root.create_child(form=f, feats='_', misc='_') for f in forms]


@sx.harness(quick=[dict(k=2)], thorough=[dict(k=3)], reach=['kept', 'lower', 'proper noun', 'unknown', 'typo'],
            bounds='a word with any form of one or two letters, each part of speech, any lemma, up to k features with base or other values')
def lemmatize(k):
    from udapi.block.ud.lemmatize import Lemmatize
    form = sx.str('form', 1, 2, 'alpha')
    doc, root, (x,) = sentence([form])
    x.upos = sx.choice('upos', CLOSED + sorted(BASE))
    lemma = sx.choice('lemma', ['_', 'given'])
    feats = {}
    names = sorted(set(BASE.get(x.upos, {})) | {'Typo', 'Person', 'Case', 'Polarity'}) if lemma == '_' else ['Typo']
    start = 0
    for i in range(k):
        j = sx.choice('feature%d' % i, range(start, len(names) + 1))
        if j == len(names):
            break
        feats[names[j]] = sx.choice('value%d' % i, VALUES[names[j]])
        start = j + 1
    for name in feats:
        x.feats[name] = feats[name]
    before = str(x.feats)
    x.lemma = lemma
    Lemmatize().process_document(doc)
    sx.check(sx.eq(x.form, form) and str(x.feats) == before, 'form and features stay')
    if lemma != '_' or 'Typo' in feats:
        sx.check(x.lemma == lemma, 'a known lemma, or the lemma of a typo, stays')
        sx.reach('kept' if lemma != '_' else 'typo')
        return
    ok = x.upos in CLOSED or (x.upos not in ('VERB', 'AUX') or 'VerbForm' in feats) and all(feats.get(n, v) == v for n, v in BASE[x.upos].items())
    if not ok:
        sx.check(x.lemma == '_', 'the lemma of another form is unknown')
        sx.reach('unknown')
    elif x.upos == 'PROPN':
        sx.check(sx.eq(x.lemma, form), 'the base form of a proper noun is its lemma')
        sx.reach('proper noun')
    else:
        sx.check(sx.eq(x.lemma, form.lower()), 'the base form is the lemma')
        sx.reach('lower')


@sx.harness(quick=[dict(size=3), dict(size=5, unreached=('plural',))], thorough=[dict(size=4), dict(size=5, unreached=('plural',))], reach=['kept', 'negated', 'question', 'copula', 'verb', 'plural', 'other', 'Cantonese'],
            bounds='a word of up to size characters (negations, copulas and others; with size 5, two characters, one and two), each of three parts of speech, any setting of the block')
def lemmatize_chinese(size, unreached=()):
    neg, cop = '不没沒未', '是爲為为'
    if size == 5:
        # two characters, one more and two other ones
        half = sx.str('half', 2, 2, '不是去')
        form = half + sx.str('middle', 1, 1, '不沒去') + (half if sx.bool('repeated') else sx.str('rest', 2, 2, '不去'))
    else:
        form = sx.str('form', 1, size, '不沒是爲去們我')
    doc, root, (x,) = sentence([form])
    x.upos = upos = sx.choice('upos', ['VERB', 'AUX', 'PRON'])
    lemma = sx.choice('lemma', ['_', 'form', '我'])
    x.lemma = form if lemma == 'form' else lemma
    if sx.bool('Cantonese'):
        from udapi.block.ud.yue.lemmatize import Lemmatize
        Lemmatize().process_document(doc)
        sx.reach('Cantonese')
        want = form if lemma in ('_', 'form') else '我'
        sx.check(sx.eq(x.lemma, want) and str(x.feats) == '_', 'an unknown lemma is the form')
        return
    from udapi.block.ud.zh.lemmatize import Lemmatize
    rewrite = sx.choice('rewrite', ['empty', 'form', 'all'])
    Lemmatize(rewrite=rewrite).process_document(doc)
    sx.check(sx.eq(x.form, form), 'the form stays')
    if not (rewrite == 'all' or lemma == '_' or rewrite == 'form' and x.form == (form if lemma == 'form' else lemma)):
        sx.check(sx.eq(x.lemma, form if lemma == 'form' else lemma) and str(x.feats) == '_', 'the lemma stays')
        sx.reach('kept')
        return
    n = len(form)
    if upos == 'PRON':
        if n == 2 and form == '我們':
            sx.check(x.lemma == '我', 'the plural suffix is removed')
            sx.reach('plural')
        else:
            sx.check(sx.eq(x.lemma, form), 'the lemma is the form')
            sx.reach('other')
        sx.check(str(x.feats) == '_', 'no features')
        return
    if n > 1 and form[0] in neg:
        sx.check(sx.eq(x.lemma, form[1:]) and str(x.feats) == 'Polarity=Neg', 'negated verbs')
        sx.reach('negated')
    elif n > 2 and n % 2 and form[n // 2] in neg and form[:n // 2] == form[n // 2 + 1:]:
        sx.check(sx.eq(x.lemma, form[:n // 2]) and str(x.feats) == 'Mood=Int', 'question verbs')
        sx.reach('question')
    else:
        sx.check(str(x.feats) == '_', 'no features')
        for i in range(n):
            if form[i] in cop:
                sx.check(sx.eq(x.lemma, '為' if form[i] == '爲' else form[i]), 'copulas')
                sx.reach('copula')
                return
        sx.check(sx.eq(x.lemma, form), 'the lemma of other verbs is the form')
        sx.reach('verb')


YUE = {'仲': '重', '企': '徛', '係咪': '係', '可': '可以', '啦': '喇', '喇': '嘑', '嚟': '唻', '老豆': '老頭'}
ZH = {'我們': '我', '我们': '我', '他們': '他', '他们': '他', '它們': '它', '牠們': '牠', '她們': '她', '她们': '她', '人們': '人', '人们': '人'}


@sx.harness(reach=['zh', 'yue'], bounds='the listed exceptions')
def chinese_exceptions():
    lang = sx.choice('language', ['zh', 'yue'])
    table = ZH if lang == 'zh' else YUE
    form = sx.choice('form', sorted(table))
    if lang == 'zh':
        from udapi.block.ud.zh.lemmatize import Lemmatize
    else:
        from udapi.block.ud.yue.lemmatize import Lemmatize
    doc, root, (x,) = sentence([form])
    x.lemma, x.upos = '_', 'PRON'
    Lemmatize().process_document(doc)
    sx.check(x.lemma == table[form] and x.form == form, 'the lemma of ' + form)
    sx.reach(lang)


# ------------------------------------------------------------ ud.SetTranslation
COMMENTS = {'none': '', 'other': ' abc = d\n', 'first': ' text_en = Old\n abc = d\n', 'last': ' abc = d\n text_en = Old\n', 'similar': ' text_en_x = Old\n', 'spaces': '  text_en= Old\n'}


@sx.harness(quick=[dict(b=2)], thorough=[dict(b=3)], reach=['added', 'kept', 'overwritten', 'too few', 'too many'],
            bounds='b sentences with any of six kinds of comments, files with fewer, as many or more lines')
def set_translation(b):
    from udapi.block.ud.settranslation import SetTranslation
    from udapi.block.write.conllu import Conllu
    doc = Document()
    kinds = []
    for i in range(b):
        root = doc.create_bundle().create_tree()
        root.create_child(form='w%d' % i)
        root.text = 'w%d' % i
        kinds.append(sx.choice('comment%d' % i, sorted(COMMENTS)))
        root.comment = COMMENTS[kinds[i]]
    n = sx.choice('lines', [1, b, b + 1])
    over = sx.bool('overwrite')
    folder = tempfile.mkdtemp()
    path = os.path.join(folder, 'translations.txt')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(''.join('Ž %d = x.\n' % i for i in range(n)))
    try:
        SetTranslation(file=path, overwrite=over).process_document(doc)
    finally:
        os.remove(path)
        os.rmdir(folder)
    sx.reach('too few' if n < b else 'too many' if n > b else 'added')
    text = printed(Conllu, doc)
    got = [[line for line in part.split('\n') if line[:1] == '#'] for part in text.split('\n\n') if part]
    for i, tree in enumerate(doc.trees):
        want = ['#' + line for line in COMMENTS[kinds[i]].split('\n') if line]
        new = '# text_en = Ž %d = x.' % i
        old = [j for j, line in enumerate(want) if line.replace(' ', '').startswith('#text_en=')]
        if i < n and not old:
            want.append(new)
        elif i < n and over:
            want[old[0]] = new
            sx.reach('overwritten')
        elif old:
            sx.reach('kept')
        sx.check([c for c in got[i] if not c.startswith('# sent_id') and not c.startswith('# text =')] == want, 'the comments')
        sx.check(tree.text == 'w%d' % i and [x.form for x in tree.descendants] == ['w%d' % i], 'the sentence stays')


# ------------------------------------------------------------ ud.AddPunctType
TYPES = {'Brck': '( ) [ ] { }', 'Peri': '.', 'Elip': '... …', 'Comm': ',', 'Semi': ';', 'Colo': ': /', 'Excl': '! ¡', 'Qest': '? ¿', 'Dash': '- – —',
         'Quot': '" \' ` “ ” „ ‘ ’ ‚ « » ‹ › 《 》 「 」 『 』'}
INI, FIN = '([{¡¿《「『', ')]}!?》」』'


@sx.harness(reach=['punct', 'other', 'unknown'], bounds='all listed punctuation and some unlisted, as punctuation or another part of speech, with or without former values')
def punct_type():
    from udapi.block.ud.addpuncttype import AddPunctType
    form = sx.choice('form', [f for t in sorted(TYPES) for f in TYPES[t].split(' ')] + ['..', '*', 'a', '((', '_'])
    doc, root, (x,) = sentence([form])
    x.upos = sx.choice('upos', ['PUNCT', 'SYM'])
    x.feats['A'] = 'b'
    if sx.bool('former'):
        x.feats['PunctType'] = 'Dash'
        x.feats['PunctSide'] = 'Fin'
    AddPunctType().process_document(doc)
    kind = [t for t in TYPES if form in TYPES[t].split(' ')]
    want = {'A': 'b'}
    if x.upos == 'PUNCT':
        if kind:
            want['PunctType'] = kind[0]
        if form in list(INI):
            want['PunctSide'] = 'Ini'
        if form in list(FIN):
            want['PunctSide'] = 'Fin'
        sx.reach('punct' if kind else 'unknown')
    else:
        sx.reach('other')
    sx.check(dict(x.feats) == want, 'the features of punctuation')


# ------------------------------------------------------------ SetSpaceAfter and multi-word tokens
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['token', 'inside', 'word', 'goeswith', 'text'],
            bounds='n words out of four, two or three of them in a multi-word token, one of them perhaps attached as goeswith')
def space_tokens(n):
    'No space after a multi-word token is marked at the token, and the words inside of it get no marks.'
    from udapi.block.ud.setspaceafter import SetSpaceAfter
    forms = [sx.choice('form%d' % k, ['w', '(', ',', '\u2019']) for k in range(1, n + 1)]
    doc, root, nodes = sentence(forms)
    first = sx.choice('first', range(1, n))
    last = sx.choice('last', [k for k in (first + 1, first + 2) if k <= n])
    m = root.create_multiword_token(words=nodes[first - 1:last], form='mwt', misc='_')
    g = sx.choice('goeswith', [None] + [k for k in (2, n) if k not in range(first, last + 1)])
    for k, x in enumerate(nodes, 1):
        x.deprel = 'goeswith' if k == g else 'dep'
    root.text = 'old text'
    SetSpaceAfter().process_document(doc)
    tight = [k for k in range(1, n) if rule(forms, k - 1, NOT_BEFORE, NOT_AFTER) and k + 1 != g]
    if any(rule(forms, k - 1, NOT_BEFORE, NOT_AFTER) and k + 1 == g for k in range(1, n)):
        sx.reach('goeswith')
    sx.check((m.misc['SpaceAfter'] == 'No') == (last in tight), 'the flag of the token')
    for k, x in enumerate(nodes, 1):
        if first <= k <= last:
            sx.check(x.misc['SpaceAfter'] == '', 'words within a token get no flags')
            sx.reach('inside' if k in tight and k < last else 'token' if k in tight else 'word')
        else:
            sx.check(x.misc['SpaceAfter'] == ('No' if k in tight else ''), 'the flags of other words')
    changed = [k for k in tight if not first <= k < last]
    sx.check(root.text == (root.compute_text() if changed else 'old text'), 'the text is updated')
    if changed:
        sx.reach('text')


# ------------------------------------------------------------ SetSpaceAfter of English and Romanian
@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['contraction', 'quote', 'hyphen', 'money', 'goeswith', 'loose'],
            bounds='every tree of n words out of eight kinds (contractions, quotes, hyphens, money, others), one of them perhaps attached as goeswith')
def space_english(n):
    from udapi.block.ud.en.setspaceafter import SetSpaceAfter
    t = sx.tree('t', n)
    kinds = []
    for k in range(1, n + 1):
        kind = sx.choice('form%d' % k, ['w', "'s", "n't", 'open', 'close', '-', '$', '5'])
        x = t.nodes[k]
        x.form = "'" if kind in ('open', 'close') else kind
        x.xpos = {'open': '``', 'close': "''"}.get(kind, 'X')
        x.upos = 'NUM' if kind == '5' else 'X'
        kinds.append(kind)
    g = sx.choice('goeswith', [None, 2])
    for k in range(1, n + 1):
        t.nodes[k].deprel = 'goeswith' if k == g else 'dep'
    for a, b in zip(kinds, kinds[1:]):
        sx.assume(a != '-' or b not in ("'s", "n't", 'close'))
    SetSpaceAfter().process_document(t.doc)
    check_tree(t, 'space')
    forms = [t.nodes[k].form for k in range(1, n + 1)]
    tight = []
    for i in range(n - 1):
        a, b = kinds[i], kinds[i + 1]
        yes = rule(forms, i, NOT_BEFORE, NOT_AFTER)
        if b in ("'s", "n't"):
            yes = True
            sx.reach('contraction')
        if a == 'open' or b == 'close':
            yes = True
            sx.reach('quote')
        if a == '$' and b == '5':
            yes = True
            sx.reach('money')
        near = lambda j, h: sx.or_(t.head(h) == j, t.head(j) == t.head(h))
        for h in (i + 1, i + 2):
            if kinds[h - 1] == '-' and 1 < h < n:
                both = sx.and_(near(h - 1, h), near(h + 1, h))
                if both:
                    yes = True
                    sx.reach('hyphen')
        if g == i + 2:
            yes = False
            sx.reach('goeswith')
        tight.append(yes)
    sx.check([t.nodes[k].misc['SpaceAfter'] for k in range(1, n + 1)] == ['No' if y else '' for y in tight] + [''], 'the flags')
    if not any(tight):
        sx.reach('loose')
    else:
        sx.check(t.root.text == t.root.compute_text(), 'the text is updated')


@sx.harness(quick=[dict(size=3)], thorough=[dict(size=4)], reach=['before', 'after', 'loose', 'number'],
            bounds='two words of up to size characters, the first with hyphens at its end, the second at its start, and digits')
def space_romanian(size):
    from udapi.block.ud.ro.setspaceafter import SetSpaceAfter
    a, b = sx.str('a', 1, size, '-a'), sx.str('b', 1, size, '-a5,')
    for i in range(1, len(b)):
        sx.assume(b[i] != '-')
    doc, root, (x, y) = sentence([a, b])
    SetSpaceAfter().process_document(doc)
    tight = rule([a, b], 0, NOT_BEFORE, NOT_AFTER)
    if a[-1] == '-' and len(a) > 1:
        tight = True
        sx.reach('after')
    if b[0] == '-' and len(b) > 1:
        if sx.or_(*[c == 'a' for c in b]):
            tight = True
            sx.reach('before')
        else:
            sx.reach('number')
    sx.check(x.misc['SpaceAfter'] == ('No' if tight else '') and y.misc['SpaceAfter'] == '', 'the flags')
    if not tight:
        sx.reach('loose')


# ------------------------------------------------------------ ud.bg.RemoveDotAfterAbbr
@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['removed', 'two dots', 'no abbreviation', 'no text', 'children'],
            bounds='every tree of n words, the last two with full stops or not, with any text of four kinds')
def remove_dot(n):
    from udapi.block.ud.bg.removedotafterabbr import RemoveDotAfterAbbr
    t = sx.tree('t', n)
    for k in range(1, n + 1):
        t.nodes[k].form = 'w%d' % k
    abbr = sx.choice('abbr', ['a', 'a.', '.'])
    last = sx.choice('last', ['.', 'b.', 'b'])
    t.nodes[n - 1].form, t.nodes[n].form = abbr, last
    text = sx.choice('text', [None, 'w a.', 'w a..', 'w a. .', 'w'])
    t.root.text = text
    RemoveDotAfterAbbr().process_document(t.doc)
    if text and last == '.' and abbr.endswith('.') and text[-2:] != '..' and text[-3:] != '. .':
        t.alive.discard(n)
        sx.reach('removed')
        for k in range(1, n):
            sx.check(t.current(k) == sx.ite(t.head(k) == n, t.head(n), t.head(k)), 'words under the full stop are attached to its head')
            if t.head(k) == n:
                sx.reach('children')
        sx.check(t.order() == list(range(1, n)), 'the full stop is removed')
    else:
        sx.check(t.order() == list(range(1, n + 1)), 'nothing is removed')
        for k in range(1, n + 1):
            sx.check(t.current(k) == t.head(k), 'heads stay')
        sx.reach('no text' if not text else 'two dots' if text[-2:] in ('..', ' .') else 'no abbreviation')
    sx.check(t.root.text == text, 'the text stays')
    check_tree(t, 'full stop')


# ------------------------------------------------------------ ud.es.FixExclamation
@sx.harness(quick=[dict(n=2, size=4)], thorough=[dict(n=3, size=4), dict(n=2, size=5)], reach=['before', 'after', 'both', 'none'],
            bounds='every tree of n words, one with any form of up to size characters out of letters, digits, commas and exclamation marks, with or without a space')
def exclamation(n, size):
    from udapi.block.ud.es.fixexclamation import FixExclamation
    t = sx.tree('t', n)
    for k in range(1, n + 1):
        t.nodes[k].form, t.nodes[k].misc, t.nodes[k].upos, t.nodes[k].lemma = 'w%d' % k, '_', 'X', 'l'
    k = sx.choice('k', range(1, n + 1))
    form = sx.str('form', 1, size, '¡!a9,')
    x = t.nodes[k]
    x.form = form
    if sx.bool('nospace'):
        x.misc['SpaceAfter'] = 'No'
    before = t.root.compute_text()
    FixExclamation().process_document(t.doc)
    sx.check(sx.eq(t.root.compute_text(), before), 'the text stays')
    m = len(form)
    left = m > 1 and sx.or_(form[0] == '¡', form[0] == '!') and sx.or_(form[1] == 'a', form[1] == '9')
    right = m > 1 and sx.or_(form[m - 1] == '¡', form[m - 1] == '!') and sx.or_(form[m - 2] == 'a', form[m - 2] == '9')
    left, right = True if left else False, True if right else False
    parts = ([form[0]] if left else []) + [form[1 if left else 0:m - 1 if right else m]] + ([form[m - 1]] if right else [])
    words = t.root.descendants
    sx.check(len(words) == n - 1 + len(parts), 'the number of words')
    ids = [t.add(y) if y not in t.nodes else t.nodes.index(y) for y in words]
    own = [i for i in ids if i <= n]
    sx.check(own == list(range(1, n + 1)), 'the words keep their order')
    check_tree(t, 'split')
    got = words[k - 1:k - 1 + len(parts)]
    sx.check(sx.and_(*[y.form == p for y, p in zip(got, parts)]), 'the parts')
    sx.check(got[1 if left else 0] is x, 'the word stays between')
    for y in got:
        if y is not x:
            sx.check(y.parent is x and y.upos == 'PUNCT' and y.deprel == 'punct' and sx.eq(y.lemma, y.form) and y.feats['PunctType'] == 'Excl', 'the mark is punctuation of the word')
            sx.check(y.feats['PunctSide'] == ('Ini' if y.form == '¡' else 'Fin'), 'the side of the mark')
    for j in range(1, n + 1):
        sx.check(t.current(j) == t.head(j), 'heads of words stay')
    sx.reach('both' if left and right else 'before' if left else 'after' if right else 'none')


# ------------------------------------------------------------ ud.de.FixGSD
@sx.harness(quick=[dict(n=3, unreached=('word',)), dict(n=2, words=True, unreached=('joined', 'children', 'space'))],
            thorough=[dict(n=4, unreached=('word',)), dict(n=3, words=True)], reach=['joined', 'ordinal', 'end', 'space', 'word', 'children', 'other'],
            bounds='every tree of n words out of numbers, full stops and others, with any space flags and relations of the number, perhaps a verbose ordinal number')
def ordinals(n, words=False, unreached=()):
    from udapi.block.ud.de.fixgsd import FixGSD
    t = sx.tree('t', n)
    forms, flags = [], []
    for k in range(1, n + 1):
        x = t.nodes[k]
        x.form = sx.choice('form%d' % k, ['5', '.', '12.', 'w'] if k < 3 else ['.', 'w'])
        x.lemma, x.upos, x.xpos, x.feats, x.misc, x.deprel = 'l', 'NUM', 'X', 'NumType=Card', '_', 'dep'
        forms.append(x.form)
        flags.append(sx.bool('nospace%d' % k))
        if flags[-1]:
            x.misc['SpaceAfter'] = 'No'
    rel = sx.choice('deprel', ['nummod', 'nmod', 'nummod:gov'])
    t.nodes[1].deprel = t.nodes[2].deprel = rel
    word = sx.choice('lemma', ['l', 'zweite', 'dritter', 'viert', 'erst', 'Achtzehnter']) if words else 'l'
    w = t.nodes[n]
    w.lemma = word
    w.upos = sx.choice('upos', ['ADV', 'NUM']) if words else 'NUM'
    before, tag = t.root.compute_text(), w.upos
    FixGSD().process_document(t.doc)
    joined = [k for k in range(2, n) if forms[k - 1] == '.' and forms[k - 2] == '5' and flags[k - 2]]
    for k in joined:
        t.alive.discard(k)
    check_tree(t, 'ordinals')
    left = [k for k in range(1, n + 1) if k not in joined]
    sx.check(t.order() == left, 'the full stops of ordinal numbers are joined')
    sx.check(t.root.compute_text() == before, 'the text stays')
    for k in left:
        x = t.nodes[k]
        if k + 1 in joined or forms[k - 1] == '12.':
            sx.check(x.form == ('5.' if k + 1 in joined else '12.') and x.lemma == x.form and x.upos == 'ADJ' and x.xpos == 'ADJA' and dict(x.feats) == {'NumType': 'Ord'}, 'ordinal numbers')
            sx.check(x.deprel == ('amod' if rel in ('nummod', 'nummod:gov') else rel), 'the relation of ordinal numbers')
            sx.reach('joined' if k + 1 in joined else 'ordinal')
        elif k == n and word in ('dritter', 'viert', 'Achtzehnter') or k == n and word == 'erst' and tag != 'ADV':
            sx.check(x.lemma == {'dritter': 'dritt', 'viert': 'viert', 'erst': 'erst', 'Achtzehnter': 'Achtzehnt'}[word] and x.upos == 'ADJ' and x.xpos == 'ADJA' and x.feats['NumType'] == 'Ord', 'verbose ordinal numbers')
            sx.reach('word')
        else:
            sx.check(x.form == forms[k - 1] and x.xpos == 'X' and x.feats['NumType'] == 'Card', 'other words')
            sx.reach('other')
        if k + 1 in joined:
            sx.reach('children' if sx.count([t.head(j) == k + 1 for j in range(1, n + 1)]) else 'other')
    if forms[n - 1] == '.':
        sx.reach('end')
    if any(forms[k] == '.' and forms[k - 1] == '5' and not flags[k - 1] for k in range(1, n - 1)):
        sx.reach('space')
    # attachment: words keep their heads, except those attached to a joined full stop
    for k in left:
        for j in [0] + left:
            turned = t.anc(k + 1, k) if k + 1 in joined else False
            sx.check(sx.implies(sx.and_(t.head(k) == j, sx.not_(turned)), t.current(k) == j), 'heads of words stay')
            if k + 1 in joined:
                sx.check(sx.implies(sx.and_(turned, t.head(k + 1) == j), t.current(k) == j), 'a number under its full stop gets the head of the full stop')
        for p in joined:
            if k != p - 1:
                sx.check(sx.implies(t.head(k) == p, t.current(k) == p - 1), 'words under the full stop are attached to the number')
