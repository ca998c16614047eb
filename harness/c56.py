"""C56: ud.Google2ud converts relations, features, prepositions and split words of the Google treebanks."""
from udapi.core.document import Document
from udapi.block.ud.google2ud import Google2ud
from sx import api as sx
from harness.common import check_tree, check_wf
from harness.c52 import heads_of, below, compare

SIMPLE = {'ROOT': 'root', 'prep': 'case', 'ncomp': 'case:loc', 'p': 'punct', 'poss': 'nmod:poss', 'ps': 'case', 'num': 'nummod', 'number': 'nummod', 'tmod': 'nmod:tmod',
          'vmod': 'acl', 'rcmod': 'acl:relcl', 'npadvmod': 'advmod', 'preconj': 'cc:preconj', 'predet': 'det:predet', 'gobj': 'obj', 'postneg': 'neg', 'pronl': 'obj',
          'oblcomp': 'obl', 'mes': 'clf', 'mwn': 'compound:n', 'mwa': 'compound:a', 'mwv': 'compound:v', 'asp': 'aux', 'rcmodrel': 'mark:relcl', 'auxcaus': 'aux', 'topic': 'dep',
          'possessive': 'case', 'quantmod': 'det', 'agent': 'obl:agent', 'conjv': 'compound:conjv', 'advphmod': 'advmod', 'clas': 'clf', 'narg': 'nmod:arg'}
# relations whose result depends on more than the label (checked by the other harnesses)
COMPLEX = {'nn', 'compound', 'pobj', 'pcomp', 'infmod', 'partmod', 'suff', 'gmod', 'cc', 'parataxis', 'dislocated', 'appos', 'prt', 'redup', 'ig'}
OFF = 'upos,upos_copula,deprel_simple,neg,nmod,feats,remnants,goeswith,flat,coord,text'


def pair(upos='NOUN', above='VERB', deprel='x'):
    root = Document().create_bundle().create_tree()
    p = root.create_child(form='p', upos=above, deprel='root', lemma='p')
    x = p.create_child(form='x', upos=upos, deprel=deprel, lemma='x')
    return root, p, x


@sx.harness(quick=[dict(size=s) for s in (2, 3, 4, 5, 6, 7, 8, 10)], thorough=[dict(size=s) for s in (2, 3, 4, 5, 6, 7, 8, 10)] + [dict(size=1, unreached=('special',)), dict(size=9, unreached=('renamed',))] + [dict(size=s, unreached=('special', 'renamed')) for s in (11, 12, 13)],
            reach=['renamed', 'kept', 'special'], bounds='a word without dependents with any relation of size ASCII letters, any of several languages, parts of speech of the word and of its parent')
def labels(size, unreached=()):
    from harness.c56 import special
    lang = sx.choice('lang', ['unk', 'fr', 'tr', 'de', 'id'])
    rel = sx.str('rel', size, size, 'ascii')
    sx.assume(sx.and_(*[sx.not_(c == ':') for c in rel]))
    complex_ = any(len(w) == size and bool(rel == w) for w in sorted(COMPLEX))
    if complex_:
        name = next(w for w in sorted(COMPLEX) if len(w) == size and bool(rel == w))
        sx.reach('special')
        special(lang, name)
        return
    root, p, x = pair(deprel=rel)
    Google2ud(lang=lang).fix_deprel(x)
    want = rel
    for old in sorted(SIMPLE):
        if len(old) == size and bool(rel == old):
            want = SIMPLE[old]
            sx.reach('renamed')
            break
    else:
        sx.reach('kept')
    sx.check(x.deprel == want, 'new relation')
    sx.check(x.parent is p and p.parent is root and p.deprel == 'root' and str(x.feats) == '_' and str(x.misc) == '_' and x.form == 'x' and x.upos == 'NOUN', 'nothing else changes')


def special(lang, name):
    upos = sx.choice('upos', ['NOUN', 'PROPN', 'AUX', 'PUNCT'])
    above = sx.choice('above', ['NOUN', 'PROPN', 'AUX'])
    root, p, x = pair(upos=upos, above=above, deprel=name)
    feats = misc = ''
    moved = False
    if name == 'gmod':
        feats = sx.choice('case', ['', 'Case=Gen', 'Case=Acc'])
        x.feats = feats
    if name == 'cc':
        x.form = sx.choice('form', [',', 'x', ';'])
    if name == 'appos':
        p.form = sx.choice('form', ['M.', 'Mme', 'Dr', 'p', 'm.'])
    if name == 'dislocated':
        subject = sx.choice('subject', ['none', 'NOUN', 'PRON'])
        if subject != 'none':
            s = p.create_child(form='s', upos=subject, deprel='nsubj:pass' if sx.bool('passive') else 'nsubj')
            rel = s.deprel
    if name in ('infmod', 'partmod'):
        x.feats = 'VerbForm=Fin|A=b'
    Google2ud(lang=lang).fix_deprel(x)
    if name in ('nn', 'compound'):
        want = 'flat:name' if upos == above == 'PROPN' else 'compound'
    elif name in ('pobj', 'pcomp'):
        want, misc = 'obj', 'ToDo=' + name
    elif name == 'infmod':
        want, feats = 'xcomp', 'A=b|VerbForm=Inf'
    elif name == 'partmod':
        want, feats = 'ccomp', 'A=b|VerbForm=Part'
    elif name == 'suff':
        want, misc = 'dep', 'OrigDeprel=suff'
    elif name == 'gmod':
        want = 'nmod' if feats == 'Case=Gen' else 'nmod:gmod'
    elif name == 'cc':
        want = 'punct' if upos == 'PUNCT' and x.form == ',' else 'cc'
    elif name == 'parataxis':
        want = 'parataxis'
    elif name == 'dislocated':
        want = 'nsubj' if lang == 'fr' and subject != 'none' else 'dislocated'
        if subject != 'none':
            sx.check(s.deprel == (rel if lang != 'fr' else 'expl' if subject == 'PRON' else 'dislocated') and s.parent is p, 'dislocated subject')
    elif name == 'appos':
        want = 'flat:name' if lang == 'fr' and p.form in ('M.', 'Mme', 'Dr') else 'appos'
    elif name == 'prt':
        want = {'de': 'compound:prt', 'tr': 'advmod:emph'}.get(lang, 'dep:prt')
    elif name == 'redup':
        want = 'compound:plur' if lang == 'id' else 'compound:redup'
    else:
        if upos == 'AUX':
            want = 'cop'
        elif above == 'AUX':
            want, moved = 'root', True
        else:
            want = 'punct' if upos == 'PUNCT' else 'dep:ig'
    sx.check(x.deprel == want, 'new relation of ' + name)
    if moved:
        sx.check(x.parent is root and p.parent is x and p.deprel == 'cop', 'copula')
    else:
        sx.check(x.parent is p and p.parent is root and p.deprel == 'root', 'heads')
    sx.check(str(x.feats) == (feats or '_') and str(x.misc) == (misc or '_'), 'features and MISC')


REL = {'a': 'prep', 'x': 'pobj', 'y': 'pcomp', 'c': 'conj', 'n': 'nsubj', 'f': 'mwe', 'F': 'fixed:x', '.': 'p'}


@sx.harness(quick=[dict(n=4, kinds='axf'), dict(n=3, kinds='ayc.nF'), dict(n=3, kinds='xcn.')], thorough=[dict(n=5, kinds='axn'), dict(n=4, kinds='axync'), dict(n=4, kinds='axf.'), dict(n=4, kinds='ayF.'), dict(n=4, kinds='xcn.')],
            reach=['flipped', 'extra'],
            bounds='every tree of n words, each with one of the listed relations, where a preposition (or conjunct) has at most one object and an object no object of its own')
def prepositions(n, kinds):
    t = sx.tree('t', n)
    heads = heads_of(t, n)
    ks = [''] + [sx.choice('k%d' % k, list(kinds)) for k in range(1, n + 1)]
    words = range(1, n + 1)
    flips = {}
    for k in words:
        if ks[k] in 'xy' and heads[k]:
            sx.assume(ks[heads[k]] not in 'xy')
            if ks[heads[k]] in 'ac':
                sx.assume(heads[k] not in flips)
                flips[heads[k]] = k
    for k, x in enumerate(t.nodes[1:], 1):
        x.deprel = REL[ks[k]]
        x.upos = 'PUNCT' if ks[k] == '.' else 'NOUN'
        x.form = 'w%d' % k
    block = Google2ud()
    for x in t.root.descendants:
        block.fix_deprel(x)
    newheads, rels, todo = [0], [''], [None]
    for k in words:
        h = heads[k]
        extra = False
        if k in flips:
            newheads.append(flips[k])
        elif h in flips and ks[k] in 'fF':
            newheads.append(h)
        elif flips.get(h) == k:
            newheads.append(flips[heads[h]] if heads[h] in flips else heads[h])
        else:
            extra = h in flips
            newheads.append(flips[h] if extra else h)
        if flips.get(h) == k and heads[h] in flips and ks[h] not in 'fF':
            pass
        r = {'a': 'case', 'n': 'nsubj', 'f': 'mwe', 'F': 'fixed:x', '.': 'punct', 'c': 'conj'}.get(ks[k])
        if ks[k] == 'c' and k in flips:
            r = 'case'
        if ks[k] in 'xy':
            r = 'obj' if flips.get(h) != k else 'conj' if ks[h] == 'c' else 'nmod' if ks[k] == 'x' else 'xcomp'
        rels.append(r)
        if extra and ks[k] != '.':
            sx.reach('extra')
    if flips:
        sx.reach('flipped')
    compare(t, newheads, rels, 'prepositions and their objects')
    sx.check([x.form for x in t.nodes[1:]] == ['w%d' % k for k in words], 'forms')
    for k in words:
        marks = t.nodes[k].misc['ToDo']
        h = heads[k]
        if ks[k] in 'xy' and flips.get(h) != k:
            sx.check(marks.split(',')[-1] == REL[ks[k]] or REL[ks[k]] in marks.split(','), 'an object that has no preposition is reported')
        extra = h in flips and flips[h] != k and ks[k] not in 'fF.'
        if ks[k] == 'n' or ks[k] == '.':
            sx.check(marks == ('ex-adp-child' if extra else ''), 'moved dependents of prepositions are reported')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['siblings', 'fixed', 'nested', 'entre', 'para', 'no'],
            bounds='every tree of n words in which a preposition has an object that has an object, the upper one first; other words with other relations')
def double(n):
    lang = sx.choice('lang', ['unk', 'pt', 'es'])
    t = sx.tree('t', n)
    heads = heads_of(t, n)
    hi = sx.choice('hi', range(1, n + 1))
    lo = sx.choice('lo', range(1, n + 1))
    x = sx.choice('x', range(1, n + 1))
    sx.assume(hi < lo)
    sx.assume(heads[lo] == hi)
    sx.assume(heads[x] == lo)
    rels = [''] + ['dep'] * n
    rels[hi] = sx.choice('upper', ['prep', 'nmod'])
    rels[lo] = sx.choice('lower', ['pobj', 'pcomp'])
    rels[x] = sx.choice('object', ['pobj', 'pcomp'])
    for k, w in enumerate(t.nodes[1:], 1):
        w.deprel = rels[k]
        w.form = 'w%d' % k
    form = sx.choice('form', ['entre', 'para', 'w']) if lang == 'es' else 'w'
    t.nodes[lo].form = form
    block = Google2ud(lang=lang)
    for w in t.root.descendants:
        block.fix_multiword_prep(w)
    todo = ''
    if rels[hi] != 'prep':
        sx.reach('no')
    elif lo - hi > 1:
        sx.reach('siblings')
        heads[lo], rels[lo] = heads[hi], 'prep'
    elif lang == 'pt' or form == 'entre':
        sx.reach('nested' if lang == 'pt' else 'entre')
        heads[x], heads[lo], rels[lo] = hi, x, 'case'
    elif form == 'para':
        sx.reach('para')
        heads[x], rels[x] = heads[hi], 'obj'
        heads[lo] = heads[hi] = x
        rels[lo] = rels[hi] = 'mark'
    else:
        sx.reach('fixed')
        for k in range(1, n + 1):
            if heads[k] == lo:
                heads[k] = hi
        rels[lo] = 'fixed'
        todo = 'unsure-multi-prep'
    compare(t, heads, rels, 'an object of an object of a preposition')
    sx.check([w.misc['ToDo'] for w in t.nodes[1:]] == [todo if k == lo else '' for k in range(1, n + 1)], 'undecided cases are reported')


VALUES = {'case/case=prep': '', 'gender/gender=unsp_g': '', 'tense/tense=impf': 'Tense=Imp', 'mood/mood=sub2': 'Mood=Sub|Tense=Past', 'r/reciprocity=rcp': 'PronType=Rcp',
          'n/number_antecedent=plur_a': 'Number[psor]=Plur', 'g/gender_antecedent=unsp_g': '', 'p/person=reflex': 'Reflex=Yes', 'd/definiteness=indef': 'Definite=Ind', 'x/form=short': 'Variant=Short',
          'f/formality=fml': 'Polite=Form', 'e/Evidentiality=Nfh': 'Evident=Nfh', 'p/proper=false': '', 't/tense=cnd': 'Mood=Cnd'}


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=5)], reach=['listed', 'other', 'capital', 'inflection', 'pronoun', 'proper'],
            bounds='a word with any listed feature or any other feature with a lowercase or capitalized name and a value of up to size characters')
def features(size):
    root, p, x = pair(upos=sx.choice('upos', ['NOUN', 'PRON']))
    kind = sx.choice('kind', ['listed', 'other', 'capital', 'inflection', 'proper'])
    x.feats['z/z'] = 'q'
    want = {'Z': 'Q'}
    misc = {}
    if kind == 'listed':
        old = sx.choice('feature', sorted(VALUES))
        name, value = old.split('=')
        x.feats[name] = value
        want.update(v.split('=') for v in VALUES[old].split('|') if v)
        if '_antecedent' in name and x.upos == 'PRON':
            want['PronType'] = 'Prs'
            sx.reach('pronoun')
    elif kind == 'proper':
        x.feats['p/proper'] = 'true'
        x.xpos = sx.choice('xpos', ['NNP', 'NNPS', 'NN'])
        if x.xpos == 'NN':
            misc['Proper'] = 'True'
    elif kind == 'inflection':
        value = sx.str('value', 1, size, 'lower')
        x.feats['a/inflection_type'] = value
        misc['InflectionType'] = value.capitalize()
    else:
        name = 'polarity' if kind == 'other' else 'Polarity'
        value = sx.str('value', 1, size, 'lower')
        x.feats['neg/' + name] = value
        want['Polarity'] = value.capitalize() if kind == 'other' else value
    sx.reach(kind)
    Google2ud.fix_feats(x)
    sx.check(sorted(x.feats) == sorted(want) and all(bool(x.feats[k] == v) for k, v in want.items()), 'features')
    sx.check(sorted(x.misc) == sorted(misc) and all(bool(x.misc[k] == v) for k, v in misc.items()), 'MISC')
    sx.check(x.deprel == 'x' and x.parent is p and x.form == 'x', 'nothing else changes')


@sx.harness(quick=[dict(n=3, size=1)], thorough=[dict(n=4, size=2)], reach=['left', 'right', 'kept', 'compound'],
            bounds='every tree of n words with symbolic forms of up to size characters, one of which has the relation goeswith, with and without spaces after the words')
def goeswith(n, size):
    from harness.c20 import text_of
    lang = sx.choice('lang', ['fr', 'pt', 'de', 'es'])
    t = sx.tree('t', n)
    heads = heads_of(t, n)
    g = sx.choice('g', range(1, n + 1))
    sx.assume(heads[g] != 0)
    sx.assume(sx.count([h == g for h in heads[1:]]) <= 1)
    forms = [sx.str('f%d' % k, 1, size, "ab.'") if k in (g - 1, g, g + 1) else 'w' for k in range(1, n + 1)]
    glued = [sx.bool('glued%d' % k) if abs(k - g) < 2 else False for k in range(1, n + 1)]
    for k, w in enumerate(t.nodes[1:], 1):
        w.form = forms[k - 1]
        w.deprel = 'goeswith' if k == g else 'd%d' % k
        w.feats = 'A=%d|B%d=x' % (k, k)
        w.upos = 'X' if k == g else 'NUM'
        if glued[k - 1]:
            w.misc['SpaceAfter'] = 'No'
    text = t.root.compute_text()
    block = Google2ud(lang=lang)
    block.fix_goeswith(t.nodes[g])
    left = heads[g] < g
    near = g - 1 if left else g + 1        # the word it may be joined with
    joined = glued[min(g, near) - 1] and lang != 'es'
    if joined and lang == 'de':
        joined = bool(sx.or_(forms[near - 1] == '.', forms[near - 1] == "'", forms[near - 1] == ".'"))
    x = t.nodes[g]
    sx.check(t.root.compute_text() == text, 'the text changes')
    check_wf(t.root, 'after goeswith')
    if not joined:
        want = 'compound' if lang in ('pt', 'de') else 'goeswith'
        sx.reach('compound' if want == 'compound' else 'kept')
        sx.check([w.deprel for w in t.nodes[1:]] == [want if k == g else 'd%d' % k for k in range(1, n + 1)] and [w.parent.ord for w in t.nodes[1:]] == heads[1:], 'nothing is joined')
        sx.check([w.form for w in t.nodes[1:]] == forms, 'forms')
        return
    sx.reach('left' if left else 'right')
    y = t.nodes[near]
    rest = [w for w in t.nodes[1:] if w is not x]
    sx.check([id(w) for w in t.root.descendants] == [id(w) for w in rest], 'exactly one word is removed')
    sx.check(y.form == (forms[near - 1] + forms[g - 1] if left else forms[g - 1] + forms[near - 1]), 'joined form')
    sx.check(dict(y.feats) == {'A': str(near), 'B%d' % near: 'x', 'B%d' % g: 'x'}, 'features of both')
    sx.check((y.misc['SpaceAfter'] == 'No') == glued[max(g, near) - 1], 'space after the joined word')
    sx.check(y.upos == ('X' if lang == 'de' else 'NUM'), 'part of speech')
    for w in rest:
        k = t.nodes.index(w)
        h = heads[k]
        want = t.nodes[h if h != g else near]
        if k == near and h == g:
            want = t.nodes[heads[g]]
        if want is not w:
            sx.check(w.parent is want, 'heads of the other words')
        sx.check(w.deprel == 'd%d' % k and (w is y or bool(w.form == forms[k - 1])), 'relations and forms of the other words')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['copula', 'none'],
            bounds='every tree of n words with one root, of which one may be an attribute of its parent; the other steps find nothing to do')
def copula(n):
    t = sx.tree('t', n)
    heads = heads_of(t, n)
    a = sx.choice('a', range(1, n + 1))
    rel = sx.choice('rel', ['acomp', 'attr', 'amod'])
    sx.assume(heads[a] != 0)
    rels = [''] + ['d%d' % k for k in range(1, n + 1)]
    rels[a] = rel
    sx.assume(sx.count([h == 0 for h in heads[1:]]) == 1)
    rels[heads.index(0, 1)] = 'root'
    for k, w in enumerate(t.nodes[1:], 1):
        w.form, w.upos, w.deprel, w.lemma = 'w%d' % k, 'X', rels[k], 'l'
    lang = sx.choice('lang', ['unk', 'en'])
    lines = sx.choice('comments', [2, 3])
    t.root.comment = '\n'.join([' s 1 ', ' ' + ' '.join('w%d' % k for k in range(1, n + 1)), ' the translation'][:lines])
    Google2ud(lang=lang, skip=OFF).process_tree(t.root)
    if rel != 'amod':
        c = heads[a]
        sx.reach('copula')
        heads[a], rels[a] = heads[c], rels[c]
        rels[c] = 'cop'
        for k in range(1, n + 1):
            if heads[k] == c:
                heads[k] = a
        heads[c] = a
    else:
        sx.reach('none')
    compare(t, heads, rels, 'copula')
    sx.check(t.root.sent_id == 's-1' and t.root.text == ' '.join('w%d' % k for k in range(1, n + 1)), 'sentence id and text from the comments')
    sx.check(t.root.comment == (' the translation' if lines == 3 and lang != 'en' else ''), 'the translation stays a comment')
    sx.check([w.form for w in t.root.descendants] == ['w%d' % k for k in range(1, n + 1)], 'words')


DAYS = 'lundi mardi mercredi jeudi vendredi samedi dimanche janvier février mars avril mai juin juillet août septembre octobre novembre décembre'.split()


@sx.harness(quick=[dict(case=c, unreached=tuple(x for x in ('symbol', 'simple', 'numeral', 'zu', 'french', 'affix') if x != c)) for c in ('symbol', 'simple', 'numeral', 'zu', 'french', 'affix')],
            reach=['symbol', 'simple', 'numeral', 'zu', 'french', 'affix'],
            bounds='five words; any listed combination of part of speech, XPOS, relation, language and form (any character for symbols) of one of them')
def tags(case, unreached=()):
    """The parts of speech are changed by the listed rules only."""
    root = Document().create_bundle().create_tree()
    g = root.create_child(form='g', upos='VERB', xpos='V', deprel='root')
    p = g.create_child(form='p', upos='NOUN', xpos='N', deprel='dep')
    x = p.create_child(form='x', upos='X', xpos='T', deprel='dep')
    b = x.create_child(form='b', upos='NOUN', xpos='N', deprel='d2')
    lang = sx.choice('lang', {'zu': ['de', 'fr'], 'french': ['fr', 'de']}.get(case, ['unk', 'de']))
    want = dict(parent=p, todo='', gone=False)
    if case == 'symbol':
        x.form, x.xpos, x.deprel, x.upos = sx.str('form', 1, 1, 'any'), 'SYM', sx.choice('rel', ['punct', 'p', 'dep']), sx.choice('upos', ['X', 'NOUN', '.'])
        known = sx.or_(*[x.form == c for c in "_-.؟”'"])
        sx.assume(sx.not_(sx.or_(x.form == '$', x.form == '£')))
        want.update(upos='SYM', deprel=x.deprel)
        if x.deprel != 'dep':
            if known:
                want['upos'] = 'PUNCT'
            else:
                want['deprel'] = 'dep'
    elif case == 'simple':
        x.upos, x.xpos, x.deprel = sx.choice('upos', ['.', 'PRT', 'NOUN', 'VERB', 'CONJ', 'PUNCT', 'PROPN', 'ADJ']), sx.choice('xpos', ['NNP', 'NNPS', 'NN']), sx.choice('rel', ['neg', 'mark', 'dep', 'punct'])
        x.form = sx.choice('form', ['$', '£', 'x', 'zu', 'mai'])
        sx.assume(not (lang == 'de' and x.form == 'zu'))
        u = {'.': 'PUNCT', 'PRT': 'PART'}.get(x.upos, x.upos)
        if u == 'NOUN' and x.xpos != 'NN':
            u = 'PROPN'
        if u == 'VERB' and x.deprel == 'neg':
            u = 'AUX'
        if u == 'CONJ' and x.deprel == 'mark':
            u = 'SCONJ'
        if u == 'PUNCT' and x.form in '$£':
            u = 'SYM'
        want.update(upos=u, deprel=x.deprel)
    elif case == 'numeral':
        x.upos, x.deprel, x.form = 'NUM', sx.choice('rel', ['det', 'det:x', 'nummod']), sx.choice('form', ['5', '½', 'Ⅴ', 'five', '1.5', '²', '五', '5a'])
        digits = x.form in ('5', '½', 'Ⅴ', '²', '五')
        want.update(upos='DET' if x.deprel == 'det' and not digits else 'NUM', deprel=x.deprel)
    elif case == 'zu':
        x.upos, x.deprel, x.form = sx.choice('upos', ['CONJ', 'ADP']), sx.choice('rel', ['aux', 'x', 'mark']), sx.choice('form', ['zu', 'Zu', 'ZU', 'um'])
        p.deprel = sx.choice('above', ['aux', 'auxpass', 'xcomp'])
        if sx.bool('before'):
            p.shift_after_node(b, without_children=True)
        if lang == 'de' and x.upos == 'CONJ' and x.form != 'um':
            want.update(upos='PART', deprel='mark', xpos='RP')
            if p.deprel == 'aux':
                want['parent'] = g
        else:
            want.update(upos='SCONJ' if x.upos == 'CONJ' and x.deprel == 'mark' else x.upos, deprel=x.deprel)
    elif case == 'french':
        x.upos, x.form = sx.choice('upos', ['PROPN', 'NOUN', 'X']), sx.choice('form', [w for d in DAYS for w in (d, d.capitalize())] + ['États-Unis', 'états-unis', 'Paris', 'an'])
        u = x.upos
        if lang == 'fr':
            if x.form.lower() in DAYS and u == 'PROPN':
                u = 'NOUN'
            if x.form == 'États-Unis':
                u = 'PROPN'
        want.update(upos=u, deprel='dep')
    else:
        x.upos, x.deprel = 'AFFIX', sx.choice('rel', ['suff', 'pref', 'dep'])
        x.form = sx.str('form', 1, 2, 'letter')
        want.update(upos='PART', deprel=x.deprel, todo='affix')
        want['gone'] = x.deprel != 'dep'
    order, form, xpos, rel = [n.ord for n in (g, p, x, b)], x.form, want.pop('xpos', x.xpos), p.deprel
    Google2ud(lang=lang).fix_upos(x)
    check_wf(root, 'after fix_upos')
    sx.reach(case)
    sx.check(g.parent is root and p.parent is g and p.deprel == rel and (g.upos, p.upos, b.upos, b.deprel, g.form) == ('VERB', 'NOUN', 'NOUN', 'd2', 'g'), 'the other words')
    if want['gone']:
        sx.check([n is m for n, m in zip(root.descendants, (g, p, b))] == [True] * 3 and len(root.descendants) == 3, 'an affix is joined')
        sx.check(p.form == ('p' + form if want['deprel'] == 'suff' else 'p') and b.form == (form + 'b' if want['deprel'] == 'pref' else 'b'), 'the form with the affix')
        sx.check(b.parent is p, 'words below an affix')
        return
    sx.check([n.ord for n in (g, p, x, b)] == order and len(root.descendants) == 4 and b.parent is x and p.form == 'p' and b.form == 'b', 'words and their order')
    sx.check(x.form == form and x.xpos == xpos and x.parent is want['parent'], 'form, XPOS and head')
    sx.check(x.upos == want['upos'], 'part of speech')
    sx.check(x.deprel == want['deprel'], 'relation')
    sx.check(bool(x.misc['ToDo']) == bool(want['todo']), 'undecided affixes are reported')
