"""C57: enhanced dependencies that blocks derive from the basic tree."""
from sx import api as sx
from harness.common import check_tree
from harness.c52 import heads_of

SHARED = ('subj', 'subjpass', 'dobj', 'iobj', 'compl')


def shared(t, heads, rels, a):
    """The dependents of the parent of a that a shares: their relation is one that a has no dependent of."""
    own = [rels[k] for k in range(1, len(heads)) if heads[k] == a]
    return [c for c in range(1, len(heads)) if heads[c] == heads[a] and rels[c] in SHARED and rels[c] not in own]


@sx.harness(quick=[dict(n=4, kinds=('conj', 'subj', 'x')), dict(n=3, kinds=('conj', 'dobj', 'iobj', 'compl', 'subjpass', 'conj:and')), dict(n=3, kinds=('conj', 'dobj', 'x'), given=True), dict(n=5, kinds=('conj', 'subj', 'x'), two=True, unreached=('chain',))],
            thorough=[dict(n=5, kinds=('conj', 'subj')), dict(n=4, kinds=('conj', 'dobj', 'subj', 'x')), dict(n=4, kinds=('conj', 'dobj', 'x'), given=True)], reach=['shared', 'own', 'chain'],
            bounds='every tree of n words, each with one of the listed relations; with two, all words depend on the first one or on one that depends on it; with given, one word already has an enhanced dependency on any word with any of the relations')
def coordination(n, kinds, given=False, two=False, unreached=()):
    from udapi.block.zellig_harris.enhancedeps import EnhanceDeps
    t = sx.tree('t', n)
    if two:
        # decided at once, so that other trees are not enumerated
        a = sx.choice('a', range(2, n + 1))
        sx.assume(sx.and_(t.head(1) == 0, t.head(a) == 1, *[sx.or_(t.head(k) == 1, t.head(k) == a) for k in range(2, n + 1)]))
    heads = heads_of(t, n)
    rels = [''] + [sx.choice('r%d' % k, list(kinds)) for k in range(1, n + 1)]
    for x, r in zip(t.nodes[1:], rels[1:]):
        x.deprel = r
    want = [[] for _ in range(n + 1)]
    if given:
        g, p, r = sx.choice('given', range(1, n + 1)), sx.choice('on', range(0, n + 1)), sx.choice('rel', list(kinds))
        sx.assume(p != g)
        t.nodes[g].raw_deps = '%d:%s' % (p, r)
        want[g].append((p, r))
    for a in range(1, n + 1):
        b = heads[a]
        if rels[a] != 'conj' or b == 0:
            continue
        new = [(a, heads[b], rels[b])] + [(c, a, rels[c]) for c in shared(t, heads, rels, a)]
        if len(new) > 1:
            sx.reach('shared')
        if any(heads[k] == a and rels[k] in SHARED for k in range(1, n + 1)):
            sx.reach('own')
        if rels[b] == 'conj' and heads[b]:
            sx.reach('chain')
        for c, p, r in new:
            if (p, r) not in want[c]:
                want[c].append((p, r))
    EnhanceDeps().apply_on_document(t.doc)
    got = [[]] + [[(d['parent'].ord, d['deprel']) for d in x.deps] for x in t.nodes[1:]]
    sx.check([sorted(g) for g in got] == [sorted(w) for w in want], 'enhanced dependencies')
    sx.check(all(d['parent'] is t.nodes[d['parent'].ord] for x in t.nodes[1:] for d in x.deps), 'parents are the nodes of the tree')
    sx.check([x.raw_deps for x in t.nodes[1:]] == ['|'.join('%d:%s' % d for d in sorted(g, key=lambda d: d[0])) or '_' for g in got[1:]] or
             [sorted(x.raw_deps.split('|')) for x in t.nodes[1:]] == [sorted('%d:%s' % d for d in g) or ['_'] for g in got[1:]], 'text of the dependencies')
    check_tree(t, 'after the block')
    sx.check([x.parent.ord for x in t.nodes[1:]] == heads[1:] and [x.deprel for x in t.nodes[1:]] == rels[1:], 'the basic tree')
    EnhanceDeps().apply_on_document(t.doc)
    sx.check([[]] + [[(d['parent'].ord, d['deprel']) for d in x.deps] for x in t.nodes[1:]] == got, 'a second time adds nothing')


@sx.harness(quick=[dict(size=4)] + [dict(size=s, unreached=('conjunct',)) for s in (5, 8)], thorough=[dict(size=4)] + [dict(size=s, unreached=('conjunct',)) for s in (3, 5, 6, 7, 8, 9)], reach=['plain', 'conjunct'],
            bounds='a verb, its conjunct and two dependents with relations of size characters')
def labels(size, unreached=()):
    from udapi.block.zellig_harris.enhancedeps import EnhanceDeps
    from udapi.core.document import Document
    root = Document().create_bundle().create_tree()
    b = root.create_child(form='b', deprel='root')
    a = b.create_child(form='a', deprel='conj')
    c = b.create_child(form='c')
    d = a.create_child(form='d')
    c.deprel, d.deprel = sx.str('c', size, size, 'lower'), sx.str('d', size, size, 'lower')
    EnhanceDeps().apply_on_document(root.document)
    deps = lambda x: [(e['parent'], e['deprel']) for e in x.deps]
    sx.check(deps(b) == [], 'deps of the first conjunct')
    want = [(root, 'root')]
    sx.check(len(deps(a)) >= 1 and deps(a)[0][0] is root and bool(deps(a)[0][1] == 'root'), 'the conjunct gets the head of the first conjunct')
    share = sx.and_(sx.or_(*[c.deprel == s for s in SHARED if len(s) == size] or [False]), sx.not_(c.deprel == d.deprel))
    if bool(c.deprel == 'conj'):
        # both conjuncts of one word: the dependents of the word are a and c, neither is shared
        sx.reach('conjunct')
        sx.check(len(deps(c)) == 1 and deps(c)[0][0] is root, 'the other conjunct')
        return
    sx.reach('plain')
    sx.check(len(deps(c)) == (1 if share else 0), 'shared dependents')
    if share:
        sx.check(deps(c)[0][0] is a and bool(deps(c)[0][1] == c.deprel), 'the shared dependent depends on the conjunct too')
    sx.check(len(deps(d)) == (1 if d.deprel == 'conj' else 0), 'dependents of the conjunct')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['conjunct', 'word'],
            bounds='every tree of n words and each word of it below a word, with a relation of up to 4 characters')
def effective(n):
    from udapi.block.zellig_harris.enhancedeps import eparent
    t = sx.tree('t', n)
    a = sx.choice('a', range(1, n + 1))
    sx.assume(sx.not_(t.head(a) == 0))
    x = t.nodes[a]
    x.deprel = sx.str('rel', 0, 4, 'lower')
    p = x.parent
    conj = bool(x.deprel == 'conj')
    sx.reach('conjunct' if conj else 'word')
    sx.check(eparent(x) is (p.parent if conj else p), 'effective parent')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['copied', 'kept'],
            bounds='every tree of n words with any relations of one character, each with or without enhanced dependencies')
def missing(n):
    from udapi.block.ud.basic2enhanced import Basic2Enhanced
    t = sx.tree('t', n)
    heads = heads_of(t, n)
    given = [None] + [sx.bool('has%d' % k) for k in range(1, n + 1)]
    for k, x in enumerate(t.nodes[1:], 1):
        x.deprel = sx.str('r%d' % k, 1, 1, 'lower')
        if given[k]:
            x.raw_deps = '0:q|%d:z' % (1 if k != 1 else 2)
    Basic2Enhanced().apply_on_document(t.doc)
    for k, x in enumerate(t.nodes[1:], 1):
        sx.reach('kept' if given[k] else 'copied')
        got = [(d['parent'], d['deprel']) for d in x.deps]
        want = [(t.nodes[0], 'q'), (t.nodes[1 if k != 1 else 2], 'z')] if given[k] else [(t.nodes[heads[k]], x.deprel)]
        sx.check(len(got) == len(want) and all(p is q and bool(r == s) for (p, r), (q, s) in zip(got, want)), 'enhanced dependencies')
    sx.check([x.parent.ord for x in t.nodes[1:]] == heads[1:], 'the basic tree')
