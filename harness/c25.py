"""C25: projectivization, its inverse, flattening."""
from sx import api as sx
from harness.common import check_wf


def heads_of(nodes):
    return [x.parent.ord for x in nodes[1:]]


def ancestors(heads, k):
    out = []
    while k:
        k = heads[k - 1]
        out.append(k)
    return out


def nonprojective(heads, k):
    """From the definition: a word between k and its head that the head does not dominate."""
    h = heads[k - 1]
    if h == 0:
        return False
    return any(h not in ancestors(heads, m) for m in range(min(h, k) + 1, max(h, k)))


RELS = {True: ['a', 'b:x:z', 'c', 'd', 'e:y', 'f', 'g'], False: ['a', 'b:x:z', 'a', 'b', 'a:y', 'b', 'a']}


def prepare(n, unique):
    t = sx.tree('t', n)
    rels = RELS[unique]
    for k in range(1, n + 1):
        t.nodes[k].form = 'w%d' % k
        t.nodes[k].deprel = rels[k - 1]
        if k == 2:
            t.nodes[k].misc = 'A=1'
    return t


def udep(r):
    return r.split(':')[0]


def check_words(t, heads, n, msg):
    check_wf(t.root, msg)
    sx.check([id(x) for x in t.root.descendants] == [id(x) for x in t.nodes[1:n + 1]], msg + ': words and their order stay')
    sx.check([x.form for x in t.root.descendants] == ['w%d' % k for k in range(1, n + 1)], msg + ': forms stay')


def lift(heads, k):
    steps = 0
    while nonprojective(heads, k):
        heads[k - 1] = heads[heads[k - 1] - 1]
        steps += 1
    return steps


def projected(heads, order):
    """The heads after lifting: the edges that need most steps, or the shortest ones, first."""
    heads = list(heads)
    while True:
        bad = [k for k in range(1, len(heads) + 1) if nonprojective(heads, k)]
        if not bad:
            return heads
        bad.sort(key=lambda k: abs(k - heads[k - 1]) if order == 'shortest' else -lift(list(heads), k))
        for k in bad:
            lift(heads, k)


def leaves(heads):
    n = len(heads)
    return len([k for k in range(1, n + 1) if k not in heads])


@sx.harness(quick=[dict(n=4), dict(n=6, leaf=2, unreached=('projective',))], thorough=[dict(n=5), dict(n=6), dict(n=7, leaf=2, unreached=('projective',))],
            reach=['nonprojective', 'projective', 'two lifted', 'restored'],
            bounds='every tree of n words (leaf: only non-projective ones with one word under the root and that many leaves), both lifting orders, marks in MISC or '
                   'in the relation, distinct or repeated relations; then the inverse')
def proj(n, leaf=0, unreached=()):
    from udapi.block.transform.proj import Proj
    from udapi.block.transform.deproj import Deproj
    unique = sx.bool('unique') if not leaf else True
    t = prepare(n, unique)
    if leaf:
        sx.assume(sx.count([t.head(k) == 0 for k in range(1, n + 1)]) == 1)
        sx.assume(sx.count([sx.and_(*[t.head(j) != k for j in range(1, n + 1) if j != k]) for k in range(1, n + 1)]) == leaf)
    label = sx.choice('label', ['misc', 'deprel'] if not leaf else ['misc'])
    order = sx.choice('order', ['deepest', 'shortest'])
    Proj(lifting_order=order, label=label).process_tree(t.root)
    old = [sx.fix(t.head(k)) for k in range(1, n + 1)]
    rel = [None] + RELS[unique][:n]
    new = heads_of(t.nodes[:n + 1])
    check_words(t, new, n, 'projectivized')
    bad = [k for k in range(1, n + 1) if nonprojective(old, k)]
    sx.check(not any(nonprojective(new, k) for k in range(1, n + 1)), 'every edge is projective')
    sx.check(new == projected(old, order), 'the edges are lifted in the asked order')
    sx.reach('nonprojective' if bad else 'projective')
    lifted = [k for k in range(1, n + 1) if old[k - 1] != new[k - 1]]
    if not bad:
        sx.check(not lifted, 'a projective tree stays')
    if len(lifted) > 1:
        sx.reach('two lifted')
    for k in range(1, n + 1):
        node = t.nodes[k]
        misc = 'A=1' if k == 2 else '_'
        if k in lifted:
            sx.check(new[k - 1] in ancestors(old, old[k - 1]), 'a word is lifted to an ancestor of its head')
            head = udep(rel[old[k - 1]])
            if label == 'misc':
                sx.check(node.misc['pproj'] == head and node.deprel == rel[k], 'the mark is the relation of the original head')
                del node.misc['pproj']
                sx.check(str(node.misc) == misc, 'other MISC attributes stay')
                node.misc['pproj'] = head
            else:
                sx.check(node.deprel.startswith(udep(rel[k]) + ':') and node.deprel.endswith('+' + head), 'the mark is the relation of the original head')
                sx.check(node.deprel == '%s:%s+%s' % (udep(rel[k]), rel[k][2:], head), 'one mark')
                sx.check(str(node.misc) == misc, 'MISC stays')
        else:
            sx.check(node.deprel == rel[k] and str(node.misc) == misc, 'nothing else is marked')
    # and back
    Deproj(label=label).process_tree(t.root)
    back = heads_of(t.nodes[:n + 1])
    check_words(t, back, n, 'deprojectivized')
    for k in range(1, n + 1):
        sx.check(t.nodes[k].deprel == rel[k], 'the marks on relations are removed')
        if k not in lifted:
            sx.check(back[k - 1] == old[k - 1], 'words that were not lifted keep their heads')
        elif unique:
            sx.check(back[k - 1] in (old[k - 1], new[k - 1]), 'a lifted word goes back to its head or stays')
        else:
            h = back[k - 1]
            sx.check(h == new[k - 1] or udep(rel[h]) == udep(rel[old[k - 1]]), 'a lifted word goes to a word with the marked relation or stays')
    if unique and len(lifted) == 1:
        sx.reach('restored')
        sx.check(back == old, 'a single lifted word is restored')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['found', 'not found', 'not marked'],
            bounds='every tree of n words, one of them marked with any relation of one character, repeated relations')
def deproj(n):
    from udapi.block.transform.deproj import Deproj
    t = prepare(n, False)
    k = sx.choice('node', range(1, n + 1))
    mark = sx.str('mark', 0, 1, 'abc')
    label = sx.choice('label', ['misc', 'deprel'])
    if mark != '':
        if label == 'misc':
            t.nodes[k].misc['pproj'] = mark
        else:
            sub = sx.choice('sub', ['', 'q', 'q:r'])
            t.nodes[k].deprel = 'z:' + sub + '+' + mark
    Deproj(label=label).process_tree(t.root)
    old = [sx.fix(t.head(j)) for j in range(1, n + 1)]
    new = heads_of(t.nodes[:n + 1])
    check_words(t, new, n, 'deprojectivized')
    for j in range(1, n + 1):
        if j != k:
            sx.check(new[j - 1] == old[j - 1], 'words without a mark keep their heads')
    if mark == '':
        sx.reach('not marked')
        sx.check(new == old, 'no mark, no change')
        return
    rel = ['', 'a', 'b', 'a', 'b', 'a', 'b'][:n + 1]
    # breadth first over the siblings and what they dominate
    level = [j for j in range(1, n + 1) if old[j - 1] == old[k - 1] and j != k]
    while level:
        hits = [j for j in level if rel[j] == mark]
        if hits:
            sx.reach('found')
            sx.check(new[k - 1] in hits, 'the new head is a nearest one with the marked relation')
            break
        level = [j for j in range(1, n + 1) if old[j - 1] in level]
    else:
        sx.reach('not found')
        sx.check(new == old, 'without such a word the tree stays')
    if label == 'deprel':
        sx.check(t.nodes[k].deprel == ('z:' + sub if sub else 'z'), 'the mark is removed')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['oneroot', 'empty'], bounds='every tree of n words or none, with and without oneroot')
def flatten(n):
    from udapi.block.transform.flatten import Flatten
    size = sx.choice('size', [0, 1, n])
    one = sx.bool('oneroot')
    if size == 0:
        from udapi.core.document import Document
        root = Document().create_bundle().create_tree()
        Flatten(oneroot=one).process_tree(root)
        sx.check(not root.descendants and not root.children, 'an empty tree stays empty')
        sx.reach('empty')
        return
    t = prepare(size, True)
    Flatten(oneroot=one).process_tree(t.root)
    if one:
        sx.reach('oneroot')
    new = heads_of(t.nodes[:size + 1])
    check_words(t, new, size, 'flattened')
    if one:
        sx.check(new == [0] + [1] * (size - 1), 'all words depend on the first one')
        sx.check([x.deprel for x in t.nodes[1:size + 1]] == ['root'] + ['dep'] * (size - 1), 'relations')
    else:
        sx.check(new == [0] * size, 'all words depend on the root')
        sx.check([x.deprel for x in t.nodes[1:size + 1]] == ['root'] * size, 'relations')
