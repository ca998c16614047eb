"""Oracles shared by the harnesses, written from the documentation, independent of udapi's code."""
from sx import api as sx


def wellformed(root):
    """None if the tree is well-formed, else what is wrong (concrete trees only)."""
    seen, stack = {id(root)}, [root]
    allnodes = []
    while stack:
        node = stack.pop()
        kids = node.children
        for a, b in zip(kids, kids[1:]):
            if not a.ord < b.ord:
                return 'children of %s not in word order' % node.ord
        for k in kids:
            if id(k) in seen:
                return 'node %s listed twice or cycle' % k.ord
            seen.add(id(k))
            if k.parent is not node:
                return 'parent of %s is not the node that lists it' % k.ord
            allnodes.append(k)
            stack.append(k)
    desc = root.descendants
    if [id(x) for x in sorted(allnodes, key=lambda n: n.ord)] != [id(x) for x in desc]:
        return 'descendants of the root differ from the reachable nodes'
    for i, node in enumerate(desc):
        if node.ord != i + 1:
            return 'word %d has ord %s' % (i + 1, node.ord)
        if node.root is not root:
            return 'word %s does not belong to its root' % node.ord
    if root.parent is not None:
        return 'root has a parent'
    return None


def check_wf(root, msg=''):
    w = wellformed(root)
    sx.check(w is None, '%s: %s' % (msg, w))


def reaches_root(heads):
    """heads: {word: head}, numbers or terms.  Every word reaches 0: unrolled as often as there are words."""
    ok = {k: h == 0 for k, h in heads.items()}
    for _ in range(len(heads) - 1):
        ok = {k: sx.or_(h == 0, *[sx.and_(h == j, ok[j]) for j in heads if j != k]) for k, h in heads.items()}
    return sx.and_(*ok.values())


def check_tree(t, msg):
    """The tree is well-formed; looks at heads without deciding those that the code did not touch."""
    root = t.root
    desc = root.descendants
    nodes = [t.nodes[k] for k in sorted(t.alive) if k]
    sx.check(sorted(id(x) for x in desc) == sorted(id(x) for x in nodes), msg + ': wrong set of words')
    sx.check([x.ord for x in desc] == list(range(1, len(desc) + 1)), msg + ': ords are not 1..n')
    for x in nodes:
        sx.check(x.root is root, msg + ': a word does not belong to its root')
    sx.check(root.parent is None and root.ord == 0, msg + ': the root has a parent or an ord')
    sx.check(t.lists_ok(), msg + ': children lists and heads disagree')
    heads = {k: t.current(k) for k in sorted(t.alive) if k}
    sx.check(sx.and_(*[sx.or_(*[h == j for j in t.alive]) for h in heads.values()]), msg + ': head outside of the tree')
    sx.check(reaches_root(heads), msg + ': a word does not reach the root')


def heads_now(t):
    return [t.current(k) for k in sorted(t.alive) if k]


def unchanged_heads(t, except_for=()):
    return sx.and_(*[t.current(k) == t.head(k) for k in sorted(t.alive) if k and k <= t.n and k not in except_for])
