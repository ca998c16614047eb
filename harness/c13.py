from sx import api as sx
from harness.common import check_tree


@sx.harness(quick=[dict(n=4), dict(n=5)], thorough=[dict(n=6)], reach=['yes', 'no'],
            bounds='any word of a tree of n words of any shape')
def edge(n):
    t = sx.tree('t', n)
    k = sx.choice('node', range(1, n + 1))
    got = t.nodes[k].is_nonprojective()
    sx.reach('yes' if got else 'no')
    cases = []
    for j in range(1, n + 1):
        if j != k:
            between = range(min(k, j) + 1, max(k, j))
            cases.append(sx.and_(t.head(k) == j, sx.or_(*[sx.not_(t.anc(j, m)) for m in between])))
    sx.check(sx.iff(got, sx.or_(*cases)), 'is_nonprojective')
    check_tree(t, 'after asking')
    sx.observe(bool(got))


@sx.harness(quick=[dict(n=4), dict(n=5)], thorough=[dict(n=6)], reach=['yes', 'no'],
            bounds='any word of a tree of n words of any shape')
def gap(n):
    t = sx.tree('t', n)
    k = sx.choice('node', range(1, n + 1))
    got = t.nodes[k].is_nonprojective_gap()
    sx.reach('yes' if got else 'no')
    cases = []
    for x in range(1, n + 1):
        if x == k:
            continue
        inx = [x == m or t.anc(x, m) for m in range(1, n + 1)]
        inx = [True if x == m else t.anc(x, m) for m in range(1, n + 1)]
        cases.append(sx.and_(sx.not_(inx[k - 1]), sx.or_(*inx[:k - 1]), sx.or_(*inx[k:])))
    sx.check(sx.iff(got, sx.or_(*cases)), 'is_nonprojective_gap')
    sx.check(not t.root.is_nonprojective_gap(), 'the root is in no gap')
    sx.check(not t.root.is_nonprojective(), 'the root is never attached non-projectively')
    sx.observe(bool(got))
