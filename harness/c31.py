"""C31: token editing blocks keep the surface text."""
from sx import api as sx
from harness.common import check_tree, check_wf

FORMS = ['a', 'b', 'c', 'd', 'e', 'f']


def prepare(n, forms=FORMS):
    t = sx.tree('t', n)
    for k in range(1, n + 1):
        t.nodes[k].form = forms[k - 1]
        t.nodes[k].lemma = 'l%d' % k
        t.nodes[k].deprel = 'd%d' % k
        t.nodes[k].upos = 'U%d' % k
    return t


def unlisted(t, k):
    t.alive.discard(k)


def span(t, name, n):
    """No multi-word token or one over two or three words."""
    i = sx.choice(name, range(0, n))
    if i == 0:
        return None
    j = sx.choice(name + ' end', range(i + 1, min(n, i + 2) + 1))
    return t.root.create_multiword_token([t.nodes[k] for k in range(i, j + 1)], form='MWT')


# ------------------------------------------------------------ ud.JoinToken
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5), dict(n=6)], reach=['joined', 'turned', 'first', 'space', 'mwt', 'other value', 'flag moves'],
            bounds='every tree of n words with one marked word, any space flags around it, perhaps one multi-word token')
def join_one(n):
    from udapi.block.ud.jointoken import JoinToken
    t = prepare(n)
    k = sx.choice('k', range(1, n + 1))
    x = t.nodes[k]
    m = span(t, 'mwt', n)
    for j in (k - 1, k):
        if j and sx.bool('nospace%d' % j):
            t.nodes[j].misc['SpaceAfter'] = 'No'
    x.misc['JoinToken'] = sx.choice('value', ['1', 'yes'])
    want = sx.choice('misc_value', [None, 'yes', 1])
    before = t.root.compute_text()
    nospace = k > 1 and t.nodes[k - 1].misc['SpaceAfter'] == 'No'
    flag = x.misc['SpaceAfter']
    inside = m is not None and any(w in (x, t.nodes[k - 1]) for w in m.words)
    misc = dict(x.misc)
    JoinToken(misc_value=want).process_document(t.doc)
    sx.check(t.root.compute_text() == before, 'the text stays')
    if want is not None and misc['JoinToken'] != str(want):
        sx.reach('other value')
        sx.check(dict(x.misc) == misc, 'another value joins nothing')
        joins = False
    elif k == 1:
        sx.reach('first')
        joins = False
    elif inside:
        sx.reach('mwt')
        joins = False
    else:
        joins = nospace
        if not joins:
            sx.reach('space')
    if not joins:
        check_tree(t, 'refused')
        sx.check(t.order() == list(range(1, n + 1)), 'the words stay')
        for j in range(1, n + 1):
            sx.check(t.current(j) == t.head(j) and t.nodes[j].form == FORMS[j - 1], 'heads and forms stay')
        if want is None or misc['JoinToken'] == str(want):
            sx.check(x.misc['JoinToken'] == misc['JoinToken'] and x.misc['Bug'] != '', 'the refused word is marked')
            if k == 1 or inside:
                sx.check(x.misc['Bug'] == 'JoiningTokenNotSupportedHere', 'reason')
            else:
                sx.check(x.misc['Bug'] == 'JoiningTokensWithSpaceNotSupported', 'reason')
        return
    sx.reach('joined')
    if flag == 'No':
        sx.reach('flag moves')
    unlisted(t, k)
    p = t.nodes[k - 1]
    sx.check(t.order() == [j for j in range(1, n + 1) if j != k], 'only the joined word disappears')
    check_tree(t, 'joined')
    sx.check(p.form == FORMS[k - 2] + FORMS[k - 1], 'the joined form')
    sx.check(p.misc['SpaceAfter'] == flag and p.misc['JoinToken'] == '', 'MISC of the joined word')
    turn = t.anc(k, k - 1)
    sx.check(t.current(k - 1) == sx.ite(turn, t.head(k), t.head(k - 1)), 'head of the joined word')
    for j in range(1, n + 1):
        if j not in (k, k - 1):
            sx.check(t.current(j) == sx.ite(t.head(j) == k, k - 1, t.head(j)), 'heads of other words')
            sx.check((t.nodes[j].form, t.nodes[j].deprel) == (FORMS[j - 1], 'd%d' % j), 'other words stay')
    sx.check(sx.ite(turn, p.deprel == 'd%d' % k, p.deprel == 'd%d' % (k - 1)), 'relation of the joined word')
    if p.deprel == 'd%d' % k:
        sx.reach('turned')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['one', 'two in a row', 'two apart'],
            bounds='every tree of n words, any subset of marked words and space flags')
def join_many(n):
    from udapi.block.ud.jointoken import JoinToken
    t = prepare(n)
    marks, flags = [], []
    for k in range(1, n + 1):
        marks.append(k > 1 and sx.bool('mark%d' % k))
        flags.append(sx.bool('nospace%d' % k) if k < n and True else False)
        if marks[-1]:
            t.nodes[k].misc['JoinToken'] = 'x'
        if flags[-1]:
            t.nodes[k].misc['SpaceAfter'] = 'No'
    before = t.root.compute_text()
    JoinToken().process_document(t.doc)
    sx.check(t.root.compute_text() == before, 'the text stays')
    groups = []
    for k in range(1, n + 1):
        if k > 1 and marks[k - 1] and flags[k - 2]:
            groups[-1].append(k)
            unlisted(t, k)
        else:
            groups.append([k])
    check_tree(t, 'joined')
    sx.check([x.form for x in t.root.descendants] == [''.join(FORMS[k - 1] for k in g) for g in groups], 'forms')
    sx.check(t.order() == [g[0] for g in groups], 'words')
    into = {k: g[0] for g in groups for k in g}
    for g in groups:
        if len(g) == 1:
            k = g[0]
            sx.check(sx.or_(*[sx.and_(t.head(k) == j, t.current(k) == into.get(j, 0)) for j in range(n + 1)]), 'heads of other words')
    big = [g for g in groups if len(g) > 1]
    if len(big) == 1 and len(big[0]) == 2:
        sx.reach('one')
    elif len(big) == 1:
        sx.reach('two in a row')
    elif big:
        sx.reach('two apart')


# ------------------------------------------------------------ ud.JoinAsMwt
@sx.harness(quick=[dict(n=3, size=1)], thorough=[dict(n=4, size=1), dict(n=3, size=2)], reach=['joined', 'all', 'reverted', 'kept orig', 'old token', 'not alphabetic'],
            bounds='n words with any forms of up to size characters, any space flags, perhaps OrigForm at the second word, perhaps a multi-word token')
def join_as_mwt(n, size):
    from udapi.block.ud.joinasmwt import JoinAsMwt
    from udapi.core.document import Document
    root = Document().create_bundle().create_tree()
    forms = [sx.str('form%d' % k, 1, size, 'text') for k in range(n)]
    nodes = [root.create_child(form=f) for f in forms]
    old = sx.choice('old token', range(0, n))
    covered = [False] * n
    if old:
        m = root.create_multiword_token(nodes[old - 1:old + 1], form='MWT')
        covered[old - 1] = covered[old] = True
        sx.reach('old token')
        if sx.bool('old nospace'):
            m.misc['SpaceAfter'] = 'No'
    flags = []
    for k in range(n):
        flags.append(not covered[k] and sx.bool('nospace%d' % k))
        if flags[-1]:
            nodes[k].misc['SpaceAfter'] = 'No'
    orig = sx.choice('orig', [None, 'O'])
    if orig:
        nodes[1].misc['OrigForm'] = orig
    revert = sx.bool('revert')
    before = root.compute_text()
    JoinAsMwt(revert_orig_form=revert).process_document(root.document)
    check_wf(root, 'joined')
    sx.check(root.descendants == nodes, 'the words stay')
    sx.check(root.compute_text() == before, 'the text stays')
    groups, k = [], 0
    while k < n:
        g = [k]
        while not covered[k] and k + 1 < n and not covered[k + 1] and flags[k]:
            if not (forms[k][-1].isalpha() and forms[k + 1][0].isalpha()):
                sx.reach('not alphabetic')
                break
            k += 1
            g.append(k)
        if len(g) > 1:
            groups.append(g)
        k += 1
    new = [m for m in root.multiword_tokens if m.form != 'MWT' or len(m.words) != 2 or not (old and m.words[0] is nodes[old - 1])]
    new.sort(key=lambda m: m.words[0].ord)
    sx.check([[w.ord - 1 for w in m.words] for m in new] == groups, 'the multi-word tokens')
    for m, g in zip(new, groups):
        sx.reach('all' if len(g) == n else 'joined')
        form = ''
        for i in g:
            form = form + forms[i]
        sx.check(m.form == form, 'form of the token')
        sx.check((m.misc['SpaceAfter'] == 'No') == flags[g[-1]] and all(nodes[i].misc['SpaceAfter'] == '' for i in g), 'space flags')
    joined = [i for g in groups for i in g]
    for i in range(n):
        if i == 1 and orig and revert and 1 in joined:
            sx.reach('reverted')
            sx.check(nodes[1].form == 'O' and nodes[1].misc['OrigForm'] == '', 'the original form is restored')
        else:
            sx.check(nodes[i].form == forms[i], 'forms stay')
            if i == 1 and orig:
                sx.reach('kept orig')
                sx.check(nodes[1].misc['OrigForm'] == 'O', 'OrigForm stays')


# ------------------------------------------------------------ ud.SplitUnderscoreTokens
def pieces(s):
    return s.split('_')


@sx.harness(quick=[dict(n=3, size=3, unreached=('three',)), dict(n=2, size=5, three=True, unreached=('split', 'not split'))],
            thorough=[dict(n=3, size=5), dict(n=4, size=3, unreached=('three',))],
            reach=['split', 'three', 'not split', 'mwt', 'lemma unset', 'lemma differs', 'lemma=form', 'flag'],
            bounds='every tree of n words, one of them with any form of up to size characters out of two letters and underscore, several lemmas, with or without space flag and multi-word token')
def split_underscore(n, size, three=False, unreached=()):
    from udapi.block.ud.splitunderscoretokens import SplitUnderscoreTokens
    t = prepare(n)
    k = sx.choice('k', range(1, n + 1))
    x = t.nodes[k]
    form = sx.str('form', 1 if not three else size, size, 'ab_')
    if three:
        sx.assume(sx.and_(form[1] == '_', form[3] == '_'))
    x.form = form
    option = sx.choice('option', ['split', 'form'])
    lemma = sx.choice('lemma', ['same', 'x', 'x_y', None, '_'] if option == 'split' else ['x', None])
    x.lemma = form if lemma == 'same' else lemma
    x.upos = upos = sx.choice('upos', ['PROPN', 'ADP', 'X'])
    m = span(t, 'mwt', n) if sx.bool('with mwt') else None
    if m is None and sx.bool('nospace'):
        x.misc['SpaceAfter'] = 'No'
        sx.reach('flag')
    inside = m is not None and x in m.words
    deprel = sx.choice('deprel', [None, 'compound']) if upos == 'X' else None
    words = None if m is None else list(m.words)
    before = t.root.compute_text()
    SplitUnderscoreTokens(deprel=deprel, lemma=option).process_document(t.doc)
    forms = pieces(form)
    if option == 'form':
        lemmas = forms
        sx.reach('lemma=form')
    elif lemma in (None, '_'):
        lemmas = [lemma] * len(forms)
        sx.reach('lemma unset')
    else:
        lemmas = pieces(form if lemma == 'same' else lemma)
    if len(forms) < 2 or len(forms) != len(lemmas) or '' in forms or '' in lemmas:
        if len(forms) > 1 and len(forms) != len(lemmas):
            sx.reach('lemma differs')
        sx.reach('not split')
        check_tree(t, 'not split')
        sx.check(t.order() == list(range(1, n + 1)) and x.form == form, 'words stay')
        sx.check(t.root.compute_text() == before, 'the text stays')
        return
    sx.reach('split' if len(forms) == 2 else 'three')
    new = t.root.descendants[k:k + len(forms) - 1]
    ids = [t.add(y) for y in new]
    check_tree(t, 'split')
    sx.check(t.order() == list(range(1, k + 1)) + ids + list(range(k + 1, n + 1)), 'the new words follow the split one')
    sx.check([y.form for y in [x] + new] == forms and [y.lemma for y in [x] + new] == lemmas, 'forms and lemmas')
    rel = deprel or {'PROPN': 'flat', 'ADP': 'fixed', 'X': 'flat'}[upos]
    for y in new:
        sx.check(y.parent is x and y.deprel == rel and y.upos == upos, 'the new words depend on the first part')
    for j in range(1, n + 1):
        sx.check(t.current(j) == t.head(j), 'heads of other words')
        sx.check(j == k or (t.nodes[j].form, t.nodes[j].lemma) == (FORMS[j - 1], 'l%d' % j), 'other words stay')
    if inside:
        sx.reach('mwt')
        sx.check(t.root.compute_text() == before, 'the text stays')
        i = words.index(x)
        sx.check([id(w) for w in m.words] == [id(w) for w in words[:i + 1] + new + words[i + 1:]], 'the multi-word token covers the new words')
        sx.check(all(y.multiword_token is m for y in new), 'the new words belong to the token')
    else:
        sx.check(t.root.compute_text() == before.replace('_', ' '), 'the underscores become spaces in the text')
        sx.check(all(y.multiword_token is None for y in new), 'the new words belong to no token')



@sx.harness(reach=['fixed', 'flat', 'given'], bounds='every part of speech, with the default relation or one given')
def underscore_relation():
    from udapi.block.ud.splitunderscoretokens import SplitUnderscoreTokens
    from udapi.core.document import Document
    root = Document().create_bundle().create_tree()
    upos = sx.choice('upos', ['ADJ', 'ADP', 'ADV', 'AUX', 'CCONJ', 'DET', 'INTJ', 'NOUN', 'NUM', 'PART', 'PRON', 'PROPN', 'PUNCT', 'SCONJ', 'SYM', 'VERB', 'X'])
    x = root.create_child(form='a_b_c', lemma='d_e_f', upos=upos, deprel='root')
    default = sx.choice('default', [None, 'compound'])
    given = sx.choice('given', [None, 'dep'])
    args = {} if default is None else dict(default_deprel=default)
    SplitUnderscoreTokens(deprel=given, **args).process_tree(root)
    rel = given or ('flat' if upos == 'PROPN' else 'fixed' if upos in ('ADP', 'AUX', 'CCONJ', 'DET', 'PART', 'PRON', 'SCONJ') else default or 'flat')
    sx.check([(y.form, y.lemma, y.upos, y.deprel, y.parent.ord) for y in root.descendants] ==
             [('a', 'd', upos, 'root', 0), ('b', 'e', upos, rel, 1), ('c', 'f', upos, rel, 1)], 'the relation of the new words')
    sx.reach('given' if given else 'fixed' if rel == 'fixed' else 'flat')


# ------------------------------------------------------------ ud.RemoveMwt
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5), dict(n=6)], reach=['none', 'one', 'two', 'three words', 'head inside'],
            bounds='every tree of n words with up to two multi-word tokens and any space flags of them')
def remove_mwt(n):
    from udapi.block.ud.removemwt import RemoveMwt
    t = prepare(n)
    mwts, k = [], 1
    while k <= n:
        size = sx.choice('size%d' % k, [s for s in (1, 2, 3) if k + s - 1 <= n])
        if size > 1:
            m = t.root.create_multiword_token([t.nodes[j] for j in range(k, k + size)], form='M%d' % k)
            if sx.bool('nospace%d' % k):
                m.misc['SpaceAfter'] = 'No'
            m.misc['X'] = 'y'
            mwts.append((k, size, m.misc.copy()))
        k += size
    t.nodes[1].feats = 'A=1'
    t.nodes[2].feats = 'A=2|B=1'
    for j in range(1, n + 1):
        t.nodes[j].deprel = 'r%d' % j
    before = t.root.compute_text()
    RemoveMwt().process_document(t.doc)
    gone = [j for k, size, misc in mwts for j in range(k + 1, k + size)]
    for j in gone:
        unlisted(t, j)
    left = [j for j in range(1, n + 1) if j not in gone]
    sx.check(t.order() == left, 'one word remains for each token')
    check_tree(t, 'removed')
    sx.check(t.root.compute_text() == before, 'the text stays')
    sx.check(t.root.multiword_tokens == [], 'no multi-word token remains')
    for k, size, misc in mwts:
        x = t.nodes[k]
        sx.check(x.form == 'M%d' % k and dict(x.misc) == dict(misc) and x.multiword_token is None and x.upos == 'U%d' % k, 'the word gets the form and MISC of the token')
        if k == 1:
            sx.check(str(x.feats) == 'A=2|B=1', 'features of the parts are merged')
    for k in left:
        sx.check(t.nodes[k].deprel == 'r%d' % k, 'the relation is that of the first part')
        if not any(k == m[0] for m in mwts):
            sx.check(t.nodes[k].form == FORMS[k - 1] and str(t.nodes[k].misc) == '_', 'other words stay')
        for j in left:
            if j != k:
                near = sx.and_(t.anc(j, k), *[sx.implies(t.anc(i, k), t.anc(i, j)) for i in left if i not in (j, k)])
                sx.check(sx.implies(near, t.current(k) == j), 'the head is the nearest remaining ancestor')
                if any(k == m[0] for m in mwts):
                    sx.reach('head inside')
        sx.check(sx.implies(sx.and_(*[sx.not_(t.anc(i, k)) for i in left if i != k]), t.current(k) == 0), 'words without remaining ancestors are attached to the root')
    sx.reach(['none', 'one', 'two', 'two'][len(mwts)])
    if any(m[1] == 3 for m in mwts):
        sx.reach('three words')


# ------------------------------------------------------------ ud.FixMwtSpace
@sx.harness(quick=[dict(size=1)], thorough=[dict(size=2)], reach=['removed', 'kept', 'flag'],
            bounds='four words, the middle two in a token with any form of up to 2*size+2 characters, forms of the words of up to size characters')
def fix_mwt_space(size):
    from udapi.block.ud.fixmwtspace import FixMwtSpace
    from udapi.core.document import Document
    root = Document().create_bundle().create_tree()
    forms = ['a', sx.str('form1', 1, size, 'ab'), sx.str('form2', 1, size, 'ab'), 'd']
    nodes = [root.create_child(form=f) for f in forms]
    form = sx.str('token', 1, 2 * size + 2, 'ab ')
    m = root.create_multiword_token(nodes[1:3], form=form)
    flag = sx.bool('nospace')
    if flag:
        m.misc['SpaceAfter'] = 'No'
    before = root.compute_text()
    FixMwtSpace().process_document(root.document)
    check_wf(root, 'fixed')
    sx.check(root.descendants == nodes and [x.form for x in nodes] == forms, 'the words stay')
    sx.check(root.compute_text() == before, 'the text stays')
    ok = form == forms[1] + ' ' + forms[2]
    sx.check((root.multiword_tokens == []) == ok, 'exactly the tokens equal to their words are removed')
    sx.reach('removed' if ok else 'kept')
    if flag and ok:
        sx.reach('flag')


# ------------------------------------------------------------ ud.AddMwt
ATTRS = ['*', 'new']


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4), dict(n=5)],
            reach=['two', 'three', 'subtree', 'siblings', 'main last', 'old token', 'misc kept', 'misc moved', 'entity', 'upper', 'title'],
            bounds='every tree of n words, one of them split into two or three words with any main word, both shapes, copied or new attributes; lower, upper or title case; perhaps already in a multi-word token')
def add_mwt(n):
    from udapi.block.ud.addmwt import AddMwt
    t = prepare(n)
    k = sx.choice('k', range(1, n + 1))
    x = t.nodes[k]
    case = sx.choice('case', ['xyz', 'XYZ', 'Xyz'])
    x.form = case
    parts = sx.choice('parts', [2, 3])
    main = sx.choice('main', [None] + list(range(1, parts)))
    shape = sx.choice('shape', ['siblings', 'subtree'])
    misc = sx.choice('misc', [None, '*'])
    old = sx.choice('old', [0] + [j for j in (k - 1, k) if 1 <= j < n]) if misc is None else 0
    m = None
    if old:
        m = t.root.create_multiword_token([t.nodes[old], t.nodes[old + 1]], form='MWT')
        m.misc['M'] = '1'
        if sx.bool('old nospace'):
            m.misc['SpaceAfter'] = 'No'
        sx.reach('old token')
    elif sx.bool('nospace'):
        x.misc['SpaceAfter'] = 'No'
    x.misc['X'] = 'y'
    entity = sx.bool('entity')
    if entity:
        x.misc['Entity'] = '(e1)'
    x.feats = 'A=1'
    before = t.root.compute_text()
    words = None if m is None else list(m.words)
    flag = x.misc['SpaceAfter'] if m is None else m.misc['SpaceAfter']
    names = ['p', 'q', 'r'][:parts]
    mi = main or 0
    analysis = {'form': ' '.join(names), 'upos': ' '.join('*' if i == mi else 'N%d' % i for i in range(parts)),
                'feats': ' '.join('*' if i == mi else ['_', 'B=2', 'A=*'][i] for i in range(parts))}
    if main is not None:
        analysis['main'] = main
    if shape is not None:
        analysis['shape'] = shape
    if misc is not None:
        analysis['misc'] = ' '.join('*' if i == mi else '_' for i in range(parts))

    class Add(AddMwt):
        def multiword_analysis(self, node):
            return analysis if node is x else None
    Add().process_document(t.doc)
    first = k - mi
    now = t.root.descendants
    sx.check(len(now) == n + parts - 1, 'number of words')
    mine = now[k - 1:k - 1 + parts]
    sx.check(mine[mi] is x, 'the main part is the original word')
    for y in mine:
        if y is not x:
            t.add(y)
    check_tree(t, 'split')
    ids = [t.index[id(y)] for y in mine]
    sx.check(t.order() == list(range(1, k)) + ids + list(range(k + 1, n + 1)), 'the other words stay around the new ones')
    want = {'xyz': names, 'XYZ': [f.upper() for f in names], 'Xyz': [names[0].upper()] + names[1:]}[case]
    sx.check([y.form for y in mine] == want, 'forms of the parts')
    sx.reach('upper' if case == 'XYZ' else 'title')
    for j in range(1, n + 1):
        sx.check(t.current(j) == t.head(j), 'heads of the old words')
        sx.check(j == k or (t.nodes[j].form, t.nodes[j].lemma, t.nodes[j].deprel) == (FORMS[j - 1], 'l%d' % j, 'd%d' % j), 'other words stay')
    for i, y in enumerate(mine):
        sx.check(y.upos == ('U%d' % k if i == mi else 'N%d' % i), 'UPOS of the parts')
        sx.check(str(y.feats) == ('A=1' if i == mi else ['_', 'B=2', 'A=1'][i]), 'features of the parts')
        if y is not x:
            sx.check(t.current(ids[i]) == (k if shape == 'subtree' else t.head(k)), 'heads of the new words')
    sx.reach('subtree' if shape == 'subtree' else 'siblings')
    sx.reach('two' if parts == 2 else 'three')
    if mi == parts - 1:
        sx.reach('main last')
    new = x.multiword_token
    sx.check(t.root.multiword_tokens == [new], 'one multi-word token')
    if words is None:
        cover = mine
        form = case
    else:
        i = words.index(x)
        cover = words[:i] + mine + words[i + 1:]
        form = 'MWT'
        sx.check(new.misc['M'] == '1', 'MISC of the old token')
    sx.check([id(w) for w in new.words] == [id(w) for w in cover] and new.form == form, 'the token covers the parts')
    sx.check(t.root.compute_text() == before, 'the text stays')
    sx.check(new.misc['SpaceAfter'] == flag and all(w.misc['SpaceAfter'] == '' for w in cover), 'space flag')
    if misc == '*':
        sx.reach('misc kept')
        sx.check(x.misc['X'] == 'y' and new.misc['X'] == '' and new.misc['Entity'] == '', 'MISC is copied to the main word only')
        sx.check(x.misc['Entity'] == ('(e1)' if entity else ''), 'Entity')
    else:
        sx.reach('misc moved')
        sx.check(all(y.misc['X'] == '' for y in mine) and new.misc['X'] == 'y', 'MISC moves to the token')
        sx.check([y.misc['Entity'] for y in cover].count('(e1)') == (1 if entity else 0) and new.misc['Entity'] == '', 'Entity stays at a word')
        if entity:
            sx.reach('entity')


LANGS = ['ca', 'cs', 'de', 'el', 'es', 'fr', 'la', 'pt']


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=LANGS + ['split', 'clitic', 'same'],
            bounds='every tree of n words with one contraction out of those known for the language or a verb with a clitic (any stem of one or two letters), three relations and two parts of speech')
def languages(n):
    import importlib
    lang = sx.choice('lang', LANGS)
    mod = importlib.import_module('udapi.block.ud.%s.addmwt' % lang)
    sx.reach(lang)
    t = prepare(n)
    k = sx.choice('k', range(1, n + 1))
    x = t.nodes[k]
    known = sorted(mod.MWTS)
    # the first, middle and last contraction: the rules do not depend on which of them it is, and those that have rules of their own
    some = [w for i, w in enumerate(known) if i in (0, len(known) // 2, len(known) - 1) or w in ('al', 'del', 'du', 'des', 'au', 'nos', 'nonne', 'duquel', 'dela', 'no')]
    clitics = {'es': ['me', 'los'], 'pt': ['-se', '-los', '-o'], 'la': ['.']}.get(lang, [])
    word = sx.choice('word', some + clitics)
    kw = {}
    if word in clitics:
        sx.reach('clitic')
        form = sx.str('stem', 1, 2, 'lower') + word
        sx.assume(sx.not_(sx.or_(*[form == w for w in known])))
        x.upos = 'VERB'
        if lang == 'es':
            kw['verbpron'] = True
            x.feats = 'VerbForm=Inf'
            sx.assume(form != 'pese')
    else:
        form = word
        x.upos = sx.choice('upos', ['ADP', 'NOUN'])
        if word in (known[0], 'du', 'del') and sx.bool('title'):
            form = word.title()
    x.form = form
    rel = sx.choice('deprel', ['case', 'fixed', 'root'] if word not in clitics else ['case'])
    x.deprel = rel
    for j in range(1, n + 1):
        if j != k:
            t.nodes[j].upos = 'NOUN' if j > 1 else 'VERB'
            t.nodes[j].deprel = 'fixed' if j == n else 'obl'
    if sx.bool('nospace'):
        x.misc['SpaceAfter'] = 'No'
    before = t.root.compute_text()
    mod.AddMwt(**kw).process_document(t.doc)
    now = t.root.descendants
    sx.check(t.root.compute_text() == before, 'the text stays')
    if len(now) == n:
        sx.reach('same')
        sx.check(lang == 'fr' and x.upos != 'ADP', 'contractions are split, in French only those that are adpositions')
        sx.check(t.root.multiword_tokens == [], 'nothing changes')
        sx.check(x.form == form, 'the form stays')
        sx.check(sx.and_(*[t.current(j) == t.head(j) for j in range(1, n + 1)]), 'heads stay')
        return
    sx.reach('split')
    mine = now[k - 1:k + 1]
    sx.check(len(now) == n + 1 and x in mine, 'one word more')
    y = mine[1] if mine[0] is x else mine[0]
    t.add(y)
    check_tree(t, 'split')
    sx.check(len(t.root.multiword_tokens) == 1 and [id(w) for w in t.root.multiword_tokens[0].words] == [id(w) for w in mine], 'the token')
    sx.check(t.root.multiword_tokens[0].form == form, 'the form of the token')
    for j in range(1, n + 1):
        if j != k:
            sx.check(t.current(j) == t.head(j), 'heads of other words')
            sx.check(t.nodes[j].form == FORMS[j - 1], 'other words stay')


CLITICS = {'jsi': ('být', 'AUX', 'aux'), 'i': ('i', 'CCONJ', 'cc'), 'ť': ('ť', 'PART', 'discourse'), 'tě': ('ť', 'PART', 'discourse'), 'ti': ('ť', 'PART', 'discourse')}


@sx.harness(reach=['pronoun', 'relative', 'clitic', 'kept', 'verb'],
            bounds='a word marked by MISC AddMwt out of prepositions with clitic pronouns and hosts of five other clitics (or of none), in three cases, with five genders, in a sentence of three words')
def old_czech():
    'Words of Old Czech are split only as asked in MISC; the text stays.'
    from udapi.block.ud.cs.addmwt import AddMwt
    from udapi.core.document import Document
    root = Document().create_bundle().create_tree()
    v = root.create_child(form='v', lemma='lv', upos='VERB', deprel='root')
    x = v.create_child(lemma='lx', upos='X', deprel='obl')
    c = x.create_child(form='c', lemma='lc', upos='NOUN', deprel='nmod')
    if sx.bool('pronoun'):
        stem = sx.choice('stem', ['na', 'o', 'pro', 'přěde', 'skrze', 'skirzě', 'za', 'do'])
        end = sx.choice('end', ['n', 'ň'])
        rel = sx.choice('rel', ['', 'ž'])
        form = stem + end + rel
        x.form = sx.choice('case', [form, form.capitalize()])
        mark = stem + ' ' + end
        gender = sx.choice('gender', ['_', 'Gender=Neut', 'Animacy=Inan|Gender=Masc', 'Animacy=Anim|Gender=Masc', 'Gender=Fem'])
        asked = sx.choice('asked', [True, False])
        x.feats = gender
        split = asked and stem != 'do'
        mine = [{'přěde': 'přěd'}.get(stem, stem), 'něj' + rel]
        lemmas = [{'přěde': 'před', 'skrze': 'skrz', 'skirzě': 'skrz'}.get(stem, stem), 'jenž' if rel else 'on']
        main, new = 1, ('ADP', 'case')
        voc = stem in ('přěde', 'skrze', 'skirzě')
        animacy = {'Gender=Neut': {'Gender': 'Neut'}, 'Animacy=Inan|Gender=Masc': {'Gender': 'Masc', 'Animacy': 'Inan'}}.get(gender, {'Gender': 'Masc', 'Animacy': 'Anim'})
        feats = [{'AdpType': 'Voc' if voc else 'Prep', 'Case': 'Acc'}, dict({'Case': 'Acc', 'Number': 'Sing', 'PrepCase': 'Pre', 'PronType': 'Rel' if rel else 'Prs'}, **animacy)]
        if not rel:
            feats[1]['Person'] = '3'
        tags = ['X', 'PRON']
    else:
        asked = True
        end = sx.choice('clitic', sorted(CLITICS) + ['x'])
        host = sx.choice('host', ['dal', 'byl'])
        x.upos = sx.choice('upos', ['VERB', 'NOUN'])
        fits = sx.bool('fits')
        form = host + end + ('' if fits else 'q')
        x.form = sx.choice('case', [form, form.capitalize()]) if end in ('jsi', 'i') else form
        mark = host + ' ' + end
        three = sx.bool('three')
        if three:
            mark = mark + ' z'
        split = not three and end in CLITICS and (fits or end in ('jsi', 'i'))
        mine = [host, end]
        main, new = 0, ()
        if split:
            lemmas, new = ['lx', CLITICS[end][0]], CLITICS[end][1:]
        feats = [{'A': 'b'}, dict(Aspect='Imp', Mood='Ind', Number='Sing', Person='2', Polarity='Pos', Tense='Pres', VerbForm='Fin', Voice='Act') if end == 'jsi' else {}]
        x.feats = 'A=b'
        if x.upos == 'VERB':
            sx.reach('verb')
    if asked:
        x.misc['AddMwt'] = mark
    nospace = sx.bool('nospace')
    if nospace:
        x.misc['SpaceAfter'] = 'No'
    form, text, upos, f = x.form, root.compute_text(), x.upos, dict(x.feats)
    AddMwt().process_document(root.document)
    check_wf(root, 'old Czech')
    sx.check(root.compute_text() == text, 'the text stays')
    now = root.descendants
    sx.check((v.form, v.lemma, v.upos, v.parent is root, c.form, c.lemma, c.parent is x) == ('v', 'lv', 'VERB', True, 'c', 'lc', True), 'other words stay')
    if not split:
        sx.reach('kept')
        sx.check(len(now) == 3 and not root.multiword_tokens and x.form == form and x.lemma == 'lx' and dict(x.feats) == f, 'words that are not split stay')
        sx.check(x.misc['AddMwt'] == (mark if asked else ''), 'the mark stays')
        return
    sx.check(len(now) == 4 and len(root.multiword_tokens) == 1, 'a token of two words')
    m = root.multiword_tokens[0]
    y = now[1] if now[2] is x else now[2]
    sx.check([w is z for w, z in zip(now, [v, x, y, c] if main == 0 else [v, y, x, c])] == [True] * 4, 'the order of words')
    sx.check(m.form == form and m.words == now[1:3] and (m.misc['SpaceAfter'] == 'No') == nospace and m.misc['AddMwt'] == '' and x.misc['AddMwt'] == '', 'the token')
    forms = [mine[0].capitalize() if form[0].isupper() else mine[0], mine[1]]
    sx.check([w.form for w in now[1:3]] == forms and [w.lemma for w in now[1:3]] == lemmas, 'forms and lemmas of the parts')
    sx.check([dict(w.feats) for w in now[1:3]] == feats, 'features of the parts')
    below = main == 1 or end != 'jsi' or upos == 'VERB'
    sx.check(x.parent is v and x.deprel == 'obl' and y.parent is (x if below else v), 'heads of the parts')
    sx.check((y.upos, y.deprel) == new and x.upos == ('PRON' if main else upos), 'part of speech and relation of the parts')
    sx.reach('clitic' if main == 0 else 'relative' if rel else 'pronoun')
