from sx import api as sx
from harness.common import check_tree


def _treelet(t, ks):
    from udapi.core.node import find_minimal_common_treelet
    n = t.n
    nca, added = find_minimal_common_treelet(*[t.nodes[k] for k in ks])
    a = t.index.get(id(nca), -1)
    ad = [t.index.get(id(x), -1) for x in added]
    sx.check(a >= 0 and -1 not in ad, 'not nodes of the tree')
    covers = lambda m: sx.and_(*[True if m == k else t.anc(m, k) for k in ks])
    sx.check(covers(a), 'the ancestor does not dominate all nodes')
    for m in range(0, n + 1):
        if m != a:
            sx.check(sx.not_(sx.and_(covers(m), t.anc(a, m))), 'not the lowest common ancestor')
    sx.check(len(set(ad)) == len(ad), 'added node listed twice')
    for m in range(0, n + 1):
        on_path = sx.or_(*[t.anc(m, k) for k in ks])
        inside = sx.and_(on_path, sx.or_(m == a, t.anc(a, m)), m not in ks)
        sx.check(sx.iff(m in ad, inside), 'added nodes are not exactly the nodes on the paths')
    sx.observe([a, sorted(ad)])
    sx.reach('%d added' % min(2, len(ad)))


@sx.harness(quick=[dict(n=4, k=2), dict(n=4, k=3), dict(n=3, k=1, unreached=('1 added', '2 added'))], thorough=[dict(n=5, k=2), dict(n=5, k=3), dict(n=4, k=4, unreached=('2 added',))],
            reach=['0 added', '1 added', '2 added'],
            bounds='any k different nodes (possibly the root) in any order, tree of n words of any shape')
def treelet(n, k, unreached=()):
    t = sx.tree('t', n)
    ks = []
    for i in range(k):
        ks.append(sx.choice('n%d' % i, [m for m in range(0, n + 1) if m not in ks]))
    _treelet(t, ks)
    check_tree(t, 'after asking')
