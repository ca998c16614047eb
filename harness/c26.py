"""C26: space flags and words from the raw text."""
from sx import api as sx
from harness.common import check_tree, heads_now

FLAG = 'SpaceAfter'
NOTHING = {'upos': None, 'xpos': None, 'lemma': None, 'deprel': None}


def snapshot(root):
    return [(id(x), id(x.root), x.ord, x.lemma, x.upos, x.deprel, str(x.feats)) for x in root.descendants]


def build(n, size, chars, mwt, flags=True, first=None):
    """A tree with symbolic forms, perhaps one multi-word token, perhaps space flags; its tokens and their forms."""
    t = sx.tree('t', n)
    lo = sx.choice('token from', range(0, n)) if mwt else 0
    hi = sx.choice('token to', range(lo + 1, n + 1)) if lo else 0
    tokens, forms = [], []
    for k in range(1, n + 1):
        t.nodes[k].deprel = 'dep'
        if lo <= k <= hi:
            t.nodes[k].form = 'w%d' % k
            if k > lo:
                continue
            f = sx.str('token', 1, size, chars)
            tokens.append(t.root.create_multiword_token(t.nodes[lo:hi + 1], form=f))
        else:
            f = sx.str('form%d' % k, 1, size, chars)
            t.nodes[k].form = f
            tokens.append(t.nodes[k])
        forms.append(f)
        if flags and sx.bool('flag%d' % k):
            tokens[-1].misc = 'A=1|SpaceAfter=No'
    return t, tokens, forms


def text_of(forms, spaces):
    s = forms[0] if forms else ''
    for f, sp in zip(forms[1:], spaces):
        s = s + ' ' * sp + f
    return s


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4, size=2)], reach=['tight', 'wide', 'token', 'empty node'],
            bounds='n words of any tree with any forms of up to size characters without white space, perhaps one multi-word token over any range, '
                   'any space flags before, an empty node with a space flag; any number 0-1 (or 2 at one place) of spaces between the tokens in the text')
def from_text(n, size=2):
    from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText
    t, tokens, forms = build(n, size, 'nospace', True)
    root = t.root
    if len(tokens) < n:
        sx.reach('token')
    spaces = [sx.choice('space%d' % k, [0, 1, 2] if k == 1 else [0, 1]) for k in range(len(forms) - 1)]
    root.text = text_of(forms, spaces)
    if sx.bool('empty'):
        sx.reach('empty node')
        e = t.nodes[1].create_empty_child('dep', after=True, form='e', misc={FLAG: 'No', 'B': '2'})
    before = snapshot(root)
    SetSpaceAfterFromText().process_tree(root)
    sx.check(root.compute_text() == text_of(forms, [min(s, 1) for s in spaces]), 'computed text')
    sx.check(root.text == text_of(forms, spaces), 'the stored text stays')
    if not all(spaces):
        sx.reach('tight')
    if 2 in spaces:
        sx.reach('wide')
    sx.check(snapshot(root) == before, 'words are not changed')
    sx.check([id(x) for x in root.token_descendants] == [id(x) for x in tokens], 'tokens stay')
    sx.check(sx.and_(*[x.form == f for x, f in zip(tokens, forms)]), 'forms stay')
    for x in tokens:
        if x.misc['A']:
            sx.check(str(x.misc) in ('A=1', 'A=1|SpaceAfter=No'), 'other entries of MISC stay')
        else:
            sx.check(str(x.misc) in ('_', 'SpaceAfter=No'), 'no other entries of MISC')
    for e in root.empty_nodes:
        sx.check(str(e.misc) == 'B=2', 'an empty node has no space flag')
    check_tree(t, 'space flags')


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=3)], reach=['one', 'more'],
            bounds='two words with any forms of 1-2 characters without white space, and any 1..size white space characters between and after them in the text')
def white_space(size):
    """White space of any kind separates two words."""
    from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText
    t = sx.tree('t', 2)
    forms = []
    for x in t.nodes[1:]:
        x.form = sx.str('form%d' % x.ord, 1, 2, 'nospace')
        forms.append(x.form)
        if sx.bool('flag%d' % x.ord):
            x.misc = 'SpaceAfter=No'
    gap = sx.str('gap', 1, size, ' \t\u00a0\u2003\u3000')
    sx.reach('one' if len(gap) == 1 else 'more')
    t.root.text = text = forms[0] + gap + forms[1] + sx.choice('end', ['', ' ', '\u00a0'])
    SetSpaceAfterFromText().process_tree(t.root)
    sx.check(t.root.compute_text() == forms[0] + ' ' + forms[1], 'computed text')
    sx.check(t.root.text == text, 'the stored text stays')
    sx.check(sx.and_(*[x.form == f for x, f in zip(t.nodes[1:], forms)]), 'forms stay')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3), dict(n=2, size=5)], reach=['matches', 'differs'],
            bounds='n words with any forms of 1-2 characters, any text of up to size characters (both without white space other than spaces)')
def any_text(n, size=4):
    from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText
    t, tokens, forms = build(n, 2, 'nospace', False)
    text = sx.str('text', 1, size, 'any')
    for c in text:
        sx.assume(sx.or_(c == ' ', sx.not_(c.isspace())))
    sx.assume(sx.not_(text[0] == ' '))
    t.root.text = text
    before = snapshot(t.root)
    squeezed = text.replace(' ', '') == ''.join(forms)
    tight = t.root.compute_text()
    SetSpaceAfterFromText().process_tree(t.root)
    got = t.root.compute_text()
    sx.check(snapshot(t.root) == before, 'words are not changed')
    sx.check(sx.and_(*[x.form == f for x, f in zip(tokens, forms)]), 'forms stay')
    sx.check(t.root.text == text, 'the stored text stays')
    # does the text consist of the forms in order, with spaces between them?
    want, rest = None, text
    ok = True
    for k, f in enumerate(forms):
        if not rest.startswith(f):
            ok = False
            break
        rest = rest[len(f):]
        want = f if k == 0 else want + (' ' if gap else '') + f
        gap = rest.startswith(' ')
        rest = rest.lstrip(' ')
    if ok and rest == '':
        sx.reach('matches')
        sx.check(got == want, 'computed text')
    else:
        sx.reach('differs')
        sx.check(got.replace(' ', '') == tight.replace(' ', ''), 'the words stay')


@sx.harness(reach=['refused'], bounds='one tree without text')
def no_text():
    from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText
    from udapi.block.ud.complywithtext import ComplyWithText
    t = sx.tree('t', 2)
    for block in (SetSpaceAfterFromText(), ComplyWithText()):
        sx.check(sx.raises(ValueError, block.process_tree, t.root) is not None, 'a tree without text is refused')
        sx.reach('refused')
    check_tree(t, 'refused')


NOT_AFTER = ['¡', '¿', '(', '[', '{', '„', '/']
NOT_BEFORE = ['.', ',', ';', ':', '!', '?', '}', ']', ')', '/', '??', '???', '!!', '!!!', '...', '…']


def rule(forms, i, before, after):
    """No space between the words i and i+1, as documented by the two lists and the rules for quotation marks."""
    a, b = forms[i], forms[i + 1]
    if a in after or b in before:
        return True
    if '„' in forms:
        if b == '“':
            return True
    elif a == '“':
        return True
    nq = forms.count('"')
    last = i + 1 == len(forms) - 1
    if nq % 2 == 0:
        # opening, closing, opening, ...
        if a == '"' and forms[:i].count('"') % 2 == 0:
            return True
        if b == '"' and forms[:i + 1].count('"') % 2 == 1:
            return True
    else:
        # only quotation marks at the edges of the sentence are unambiguous
        if i == 0 and a == '"' or last and b == '"':
            return True
    return False


@sx.harness(quick=[dict(n=4, forms=['w', '"']), dict(n=3, forms=['w', '(', '/', '“'], extra=True), dict(n=2, forms=['w', ')', '„', '“', '"']), dict(n=2, forms='any')],
            thorough=[dict(n=5, forms=['w', '"', '„', '“']), dict(n=4, forms=['w', '(', '.', '"', '“'], extra=True), dict(n=2, forms='all')],
            reach=['tight', 'loose'],
            bounds='n words out of the given forms (or any characters; all: any of the forms that the block knows), any of them attached as goeswith, a multi-word token over two words or none, '
                   'after a sentence with directed quotes or not, with further lists of forms or not')
def heuristic(n, forms, extra=False):
    from udapi.block.ud.setspaceafter import SetSpaceAfter
    t = sx.tree('t', n)
    root = t.root
    args = {}
    before, after = list(NOT_BEFORE), list(NOT_AFTER)
    if extra and sx.bool('extra'):
        args = {'extra_not_after': 'w', 'extra_not_before': '('}
        after.append('w')
        before.append('(')
    fs = []
    for k in range(1, n + 1):
        if forms == 'any':
            f = sx.str('form%d' % k, 1, 2, 'nospace')
        elif forms == 'all':
            f = sx.choice('form%d' % k, ['w', '“', '"'] + NOT_BEFORE + NOT_AFTER[:-1])
        else:
            f = sx.choice('form%d' % k, forms)
        fs.append(f)
        t.nodes[k].form = f
        t.nodes[k].deprel = 'dep'
    gw = sx.choice('goeswith', range(1, n + 1))
    if gw > 1:
        t.nodes[gw].deprel = 'goeswith'
    m = sx.choice('token', range(0, n)) if n > 2 else 0
    if m:
        # three words from the first one on
        wide = 2 if n == 4 and forms == ['w', '"'] and m == 1 and sx.bool('three words') else 1
        root.create_multiword_token(t.nodes[m:m + wide + 1], form='MM')
    fix = sx.bool('fix_text')
    block = SetSpaceAfter(fix_text=fix, **args)
    if sx.bool('earlier sentence'):
        u = sx.tree('u', 2)
        u.nodes[1].form, u.nodes[2].form = sx.choice('earlier', ['„', '“', '"']), 'x'
        for k in (1, 2):
            u.nodes[k].deprel = 'dep'
        block.process_tree(u.root)
    root.text = 'T'
    was = snapshot(root)
    block.process_tree(root)
    changed = False
    text = ''
    for k in range(1, n + 1):
        flag = t.nodes[k].misc[FLAG] == 'No'
        if m and m <= k <= m + wide:
            sx.check(not flag, 'a word of a multi-word token has no space flag')
            if k == m:
                text = text + 'MM'
            if k < m + wide:
                continue
            flag = t.nodes[k].multiword_token.misc[FLAG] == 'No'
        else:
            text = text + fs[k - 1]
        want = k < n and t.nodes[k + 1].deprel != 'goeswith' and rule(fs, k - 1, before, after)
        sx.check(flag == want, 'space after the word')
        sx.reach('tight' if want else 'loose')
        changed = changed or want
        if not want and k < n:
            text = text + ' '
    sx.check(root.text == (text if fix and changed else 'T'), 'stored text')
    sx.check(root.compute_text() == text, 'computed text')
    sx.check(snapshot(root) == was, 'words are not changed')
    check_tree(t, 'heuristic')


@sx.harness(reach=['space', 'no space'], bounds='a multi-word token of two words and two characters before a word, any space flags and spaces in the text')
def goeswith_token():
    from udapi.block.ud.goeswithfromtext import GoeswithFromText
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    xs = [root.create_child(form=f, lemma=f, upos='U') for f in 'ABCD']
    form = sx.str('form', 2, 2, 'letter')
    m = root.create_multiword_token(xs[1:3], form=form, misc='SpaceAfter=No' if sx.bool('flag') else None)
    if sx.bool('before'):
        xs[0].misc['SpaceAfter'] = 'No'
    first, inner, after = sx.choice('first', [0, 1]), sx.choice('inner', [0, 1]), sx.choice('after', [0, 1, 2])
    root.text = 'A' + ' ' * first + form[0] + ' ' * inner + form[1] + ' ' * after + 'D'
    GoeswithFromText().process_tree(root)
    sx.check([x.form for x in root.descendants] == list('ABCD') and m.form == form and [id(x) for x in m.words] == [id(x) for x in xs[1:3]], 'a token is not split')
    sx.check(root.compute_text() == 'A' + ' ' * first + form + ' ' * min(after, 1) + 'D', 'computed text')
    sx.reach('space' if after else 'no space')


@sx.harness(quick=[dict(n=2), dict(n=1, size=3, unreached=('token',))], thorough=[dict(n=3), dict(n=2, size=3), dict(n=1, size=4, unreached=('token',))], reach=['split', 'kept', 'token', 'mismatch'],
            bounds='n words of any tree with any forms of up to size characters without white space, perhaps one multi-word token, any space flags; spaces before any '
                   'character of the text (one or two at one place); or one character of the text differs')
def goeswith(n, size=2, unreached=()):
    from udapi.block.ud.goeswithfromtext import GoeswithFromText
    t, tokens, forms = build(n, size, 'nospace', True)
    root = t.root
    keep = sx.bool('keep_lemma')
    words = [x for x in t.nodes[1:n + 1]]
    for x in words:
        x.lemma, x.upos = 'L%d' % x.ord, 'U'
    spaces, text, parts = [], '', []
    differs = sx.bool('differs')
    for k, f in enumerate(forms):
        chunk = ''
        cut = []
        for j, c in enumerate(f):
            sp = 0 if k + j == 0 else sx.choice('sp%d.%d' % (k, j), [0, 1, 2] if k == 0 and j == 1 else [0, 1])
            text = text + ' ' * sp + (c if not differs or k + j else 'X')
            if sp and j:
                cut.append(chunk)
                chunk = ''
            chunk = chunk + c
            if j == 0:
                spaces.append(sp)
        parts.append(cut + [chunk])
    if differs:
        sx.assume(forms[0][0] != 'X')
    root.text = text
    was = snapshot(root)
    unit = len(tokens) < n and len(parts[[id(x) in [id(y) for y in words] for x in tokens].index(False)]) > 1
    normal = ' '.join(text.split(' '))
    before = root.compute_text()
    GoeswithFromText(keep_lemma=keep).process_tree(root)
    sx.check(root.text == text, 'the stored text stays')
    if differs:
        sx.reach('mismatch')
        sx.check(snapshot(root) == was and root.compute_text() == before, 'a mismatch changes nothing')
        return
    if unit:
        sx.reach('token')       # a multi-word token with a space is reported and not split
        parts = [[''.join(p)] if type(x).__name__ == 'MWT' else p for x, p in zip(tokens, parts)]
    want = ''
    for k, p in enumerate(parts):
        want = want + (' ' if k and spaces[k] else '') + ' '.join(p)
    sx.check(root.compute_text() == want, 'computed text')
    expect = []
    for x, f, p in zip(tokens, forms, parts):
        group = x.words if type(x).__name__ == 'MWT' else [x]
        for w in group:
            expect.append(w)
        if len(p) > 1:
            sx.reach('split')
            expect.extend([None] * (len(p) - 1))
        else:
            sx.reach('kept')
            sx.check(x.form == f, 'forms that agree are kept')
    now = root.descendants
    sx.check(len(now) == len(expect), 'number of words')
    head = None
    for x, e in zip(now, expect):
        if e is not None:
            sx.check(x is e, 'the words stay in order')
            head = x
            i = [id(w) for w in words].index(id(x)) + 1
        else:
            sx.check(x.parent is head and x.deprel == 'goeswith' and x.upos == 'U', 'added words are attached to the first part')
    flat = []
    for x, p in zip(tokens, parts):
        if type(x).__name__ == 'MWT':
            flat.extend([w.form for w in x.words])
        else:
            flat.extend(p)
            if len(p) == 1 or keep:
                sx.check(x.lemma == 'L%d' % ([id(w) for w in words].index(id(x)) + 1), 'lemma')
    sx.check(sx.and_(*[x.form == f for x, f in zip(now, flat)]), 'forms')
    for x in now:
        if not any(x is w for w in words):
            t.add(x)
    check_tree(t, 'goeswith')
    sx.check(sx.and_(*[t.current(k) == t.head(k) for k in range(1, n + 1)]), 'heads stay')


def register(t):
    """Tell the tree which words were added and removed."""
    now = t.root.descendants
    for x in now:
        if not any(x is w for w in t.nodes):
            t.add(x)
    for k in list(t.alive):
        if k and not any(x is t.nodes[k] for x in now):
            t.alive.discard(k)


def mwt_ok(root):
    now = root.descendants
    for m in root.multiword_tokens:
        sx.check(m.words and all(any(w is x for x in now) and w.multiword_token is m for w in m.words), 'a multi-word token consists of words of the tree')
    sx.check(all(x.multiword_token is None or any(x.multiword_token is m for m in root.multiword_tokens) for x in now), 'multi-word tokens are listed')


@sx.harness(quick=[dict(n=2, tsize=3)], thorough=[dict(n=2, tsize=4), dict(n=3, size=1, tsize=4), dict(n=1, size=3, tsize=5)], reach=['equal', 'fixed'],
            bounds='n words with any forms of up to size characters out of a, b, full stop; perhaps a multi-word token; any space flags; any text of up to tsize of these characters and spaces')
def comply(n, tsize, size=2):
    from udapi.block.ud.complywithtext import ComplyWithText
    t, tokens, fs = build(n, size, 'ab.', True)
    root = t.root
    text = sx.str('text', 1, tsize, 'ab. ')
    root.text = text
    agree = root.compute_text() == text
    was = snapshot(root)
    block = ComplyWithText()
    block.process_tree(root)
    sx.check(root.text == root.compute_text(), 'the stored text is the computed one')
    if root.text != ' '.join(text.split()):
        sx.check(any(line.startswith(' OrigText = ') for line in root.comment.split('\n')), 'the replaced text is kept in a comment')
    if agree:
        sx.reach('equal')
        sx.check(root.text == text and snapshot(root) == was and sx.and_(*[x.form == f for x, f in zip(root.token_descendants, fs)]), 'nothing to change')
    else:
        sx.reach('fixed')
    register(t)
    mwt_ok(root)
    check_tree(t, 'comply')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3, size=1), dict(n=3)], reach=['tight', 'wide'],
            bounds='n words with any forms of up to size characters, perhaps a multi-word token, any space flags; the text consists of the forms in order with 0-2 spaces between them; with and without preferring multi-word tokens')
def comply_flags(n, size=2):
    from udapi.block.ud.complywithtext import ComplyWithText
    t, tokens, forms = build(n, size, 'nospace', True)
    root = t.root
    spaces = [sx.choice('space%d' % k, [0, 1, 2] if k == 0 else [0, 1]) for k in range(len(forms) - 1)]
    root.text = text_of(forms, spaces)
    prefer = sx.bool('prefer_mwt')
    fs = [x.form for x in t.nodes[1:]]
    was = snapshot(root)
    ComplyWithText(prefer_mwt=prefer).process_tree(root)
    want = text_of(forms, [min(s, 1) for s in spaces])
    sx.check(root.compute_text() == want, 'computed text')
    sx.check(root.text == want, 'stored text')
    sx.check(snapshot(root) == was, 'words are not changed')
    sx.check(sx.and_(*[x.form == f for x, f in zip(t.nodes[1:], fs)]), 'forms are not changed')
    for x in root.token_descendants:
        sx.check(sx.not_(str(x.misc) == '') and not x.misc['CorrectForm'], 'no form is marked as corrected')
    sx.check([id(x) for x in root.token_descendants] == [id(x) for x in tokens], 'tokens stay')
    if not all(spaces):
        sx.reach('tight')
    if 2 in spaces:
        sx.reach('wide')
    mwt_ok(root)
    check_tree(t, 'comply')


PUNCT = '.,!-'


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=3)],
            reach=['typo', 'goeswith', 'number', 'hyphen', 'added', 'deleted', 'token', 'nothing'],
            bounds='a word or two between two other words of any tree, its form and the text in its place are any strings of up to size characters, '
                   'with the differences that the documentation says are solved; labels given or not')
def comply_cases(size):
    from udapi.block.ud.complywithtext import ComplyWithText
    case = sx.choice('case', ['typo', 'goeswith', 'number', 'hyphen', 'added', 'deleted', 'token'])
    letters = 'abc'
    mid = 2 if case in ('deleted', 'token') else 1
    t = sx.tree('t', mid + 2)
    root = t.root
    w, last = t.nodes[2], t.nodes[mid + 2]
    t.nodes[1].form, last.form = 'X', 'Y'
    f = sx.str('form', 1, size, '12' if case == 'number' else letters)
    w.form = f
    form_now, new, args = f, [], {}
    if case == 'typo':
        v = sx.str('typo', 1, size, sx.choice('letters', [letters, 'de']))
        if v[0] not in 'de':       # a difference at the beginning of a word that agrees otherwise is not always found
            sx.assume(v[0] == f[0])
        text, form_now = v, v
        if v == f:
            case = 'nothing'
    elif case in ('goeswith', 'number'):
        g = sx.str('second', 1, size, '12' if case == 'number' else letters)
        w.form = f + g
        text = f + ' ' + g
        h = None
        if sx.bool('three parts'):
            h = sx.str('third', 1, 1, '12' if case == 'number' else letters)
            w.form, text = w.form + h, text + ' ' + h
        if case == 'goeswith':
            form_now, new = f, [(g, 'goeswith')] + ([(h, 'goeswith')] if h is not None else [])
        else:
            form_now = text
    elif case == 'hyphen':
        g = sx.str('second', 1, size, letters)
        w.form = f + '-' + g
        text = f + ' ' + g
        form_now, new = f, [(g, 'goeswith')]
    elif case == 'added':
        pu = sx.str('punct', 1, 2, PUNCT)
        text = f + pu
        new = [(pu, 'punct')]
        if sx.bool('two marks'):
            pu = sx.str('mark', 1, 1, PUNCT)
            text = text + ' ' + pu
            new.append((pu, 'punct'))
    elif case == 'deleted':
        t.nodes[3].form = sx.str('punct', 1, 2, PUNCT)
        text = f
    else:
        t.nodes[3].form = sx.str('second', 1, size, letters)
        text = sx.str('token', 1, size, 'de')
    full = 'X ' + text + ' Y'
    label = sx.bool('label')
    if not label:
        args = {'previous_form_label': ''}
    root.text = full
    was = w.form
    ComplyWithText(**args).process_tree(root)
    sx.reach(case)
    sx.check(root.text == full and root.compute_text() == full, 'the text is reproduced')
    sx.check(not root.comment, 'no former text')
    words = root.descendants
    if case == 'deleted':
        sx.check([id(x) for x in words] == [id(t.nodes[k]) for k in (1, 2, 4)], 'the punctuation is deleted')
        heads = {k: t.current(k) for k in (1, 2, 4)}
    elif case == 'token':
        sx.check([id(x) for x in words] == [id(x) for x in t.nodes[1:5]], 'words stay')
        sx.check(len(root.multiword_tokens) == 1 and [id(x) for x in root.multiword_tokens[0].words] == [id(w), id(t.nodes[3])]
                 and root.multiword_tokens[0].form == text, 'multi-word token')
    else:
        sx.check(words[0] is t.nodes[1] and words[1] is w and words[-1] is last and len(words) == 3 + len(new), 'words stay')
        for x, (form, rel) in zip(words[2:-1], new):
            sx.check(x.form == form and x.deprel == rel and x.parent is w, 'added word')
            sx.check(('Added=1' in str(x.misc)) == (rel == 'punct'), 'added punctuation is marked')
    sx.check(w.form == form_now, 'form')
    corrected = case in ('typo', 'goeswith', 'number', 'hyphen')
    sx.check(w.misc['CorrectForm'] == (was if corrected and label else ''), 'the former form is kept in MISC')
    sx.check(w.feats['Typo'] == ('Yes' if corrected and label or case in ('goeswith', 'hyphen') else ''), 'typo')
    sx.check(t.nodes[1].form == 'X' and last.form == 'Y' and str(t.nodes[1].misc) == '_' == str(last.misc), 'the other words stay')
    register(t)
    mwt_ok(root)
    check_tree(t, 'comply')
    if case != 'deleted':
        sx.check(sx.and_(*[t.current(k) == t.head(k) for k in range(1, mid + 3)]), 'heads stay')


@sx.harness(quick=[dict(p=2, s=2)], thorough=[dict(p=3, s=2), dict(p=2, s=3)], reach=['prefix', 'whole'],
            bounds='the first word of a sentence of two words, any p letters followed by up to s letters, written with up to s other letters after the same beginning')
def comply_prefix(p, s):
    'A word which differs from the text only at its end gets the form of the text.'
    from udapi.block.ud.complywithtext import ComplyWithText
    t = sx.tree('t', 2)
    a = sx.str('prefix', p, p, 'ab')
    f, v = sx.str('end', 0, s, 'ab'), sx.str('typo', 1, s, 'de')
    t.nodes[1].form, t.nodes[2].form = a + f, 'Y'
    t.root.text = full = a + v + ' Y'
    ComplyWithText().process_tree(t.root)
    sx.check(t.root.text == full and not t.root.comment and t.root.compute_text() == full, 'the text is reproduced')
    sx.check([id(x) for x in t.root.descendants] == [id(x) for x in t.nodes[1:]], 'words stay')
    sx.check(t.nodes[1].form == a + v and t.nodes[1].misc['CorrectForm'] == a + f, 'the form is that of the text, the former one is kept')
    sx.reach('whole' if f == '' else 'prefix')
    check_tree(t, 'comply')
