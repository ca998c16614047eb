from sx import api as sx
from harness.common import check_tree, unchanged_heads

OPS = ['shift_before_node', 'shift_after_node', 'shift_before_subtree', 'shift_after_subtree']


def expected(t, k, j, op, alone):
    """Orders that the documentation allows, as a predicate on the resulting order."""
    n = t.n
    block = [k] if alone else [m for m in range(1, n + 1) if m == k or t.anc(k, m)]
    rest = [m for m in range(1, n + 1) if m not in block]
    if op.endswith('node'):
        refs = [j]
    else:
        refs = [m for m in range(0, n + 1) if m == j or t.anc(j, m)]
    others = [m for m in refs if m not in block]
    return block, rest, refs, others


@sx.harness(quick=[dict(n=3), dict(n=4)], thorough=[dict(n=5)], reach=['moved', 'skipped', 'refused', 'kept'],
            bounds='one tree of n words of any shape; any word, any reference word or the root, all four shifts, with '
                   'and without children')
def shift(n):
    t = sx.tree('t', n)
    op = sx.choice('op', OPS)
    k = sx.choice('node', range(1, n + 1))
    j = sx.choice('ref', range(0, n + 1))
    alone = sx.bool('alone')
    skip = sx.bool('skip')
    node, ref = t.nodes[k], t.nodes[j]
    alone = bool(alone)
    inside = (not alone) and bool(t.anc(k, j))
    skip = bool(skip) if inside or n < 4 else False
    try:
        getattr(node, op)(ref, without_children=alone, skip_if_descendant=skip)
    except ValueError:
        sx.reach('refused')
        sx.check(inside or (j == 0 and 'before' in op), 'a possible shift was refused')
        sx.check(not (inside and skip), 'refused although skipping was asked')
        sx.check(t.order() == list(range(1, n + 1)), 'a refused shift changed the order')
    else:
        order = t.order()
        if inside:
            sx.reach('skipped')
            sx.check(skip, 'an impossible shift was accepted')
            sx.check(order == list(range(1, n + 1)), 'a skipped shift changed the order')
        else:
            sx.check(not (j == 0 and 'before' in op), 'a shift before the root was accepted')
            block, rest, refs, others = expected(t, k, j, op, alone)
            sx.check(sorted(order) == list(range(1, n + 1)), 'words lost or doubled')
            sx.check([m for m in order if m not in block] == rest, 'the other words changed their order')
            sx.check([m for m in order if m in block] == block, 'the moved words changed their order')
            pos = {m: i for i, m in enumerate([0] + order)}
            if j == k and (op.endswith('node') or not others):
                # relative to itself: nothing to do
                sx.reach('kept')
                if alone or len(block) == block[-1] - block[0] + 1:
                    sx.check(order == list(range(1, n + 1)), 'shifting next to itself changed the order')
            else:
                p = [pos[m] for m in block]
                sx.reach('moved')
                sx.check(p == list(range(p[0], p[0] + len(p))), 'the moved words are not one block')
                q = [pos[m] for m in others]
                if 'after' in op:
                    sx.check(p[0] > max(q), 'not after the reference')
                    if j != k and (len(others) == len(refs) or alone):
                        sx.check(p[0] == max(q) + 1, 'not immediately after the reference')
                else:
                    sx.check(p[-1] < min(q), 'not before the reference')
                    if j != k and (len(others) == len(refs) or alone):
                        sx.check(p[-1] == min(q) - 1, 'not immediately before the reference')
    sx.check(unchanged_heads(t), 'a shift changed a head')
    check_tree(t, 'after shift')
    sx.observe(t.order())


@sx.harness(quick=[dict(n=3, m=1), dict(n=2, m=2)], thorough=[dict(n=4, m=1), dict(n=3, m=2)], reach=['some empty'],
            bounds='as shift, with 0..m empty nodes in every gap: they stay between the same unmoved words')
def shift_empty(n, m):
    t = sx.tree('t', n)
    op = sx.choice('op', OPS)
    k = sx.choice('node', range(1, n + 1))
    j = sx.choice('ref', range(0, n + 1))
    alone = bool(sx.bool('alone'))
    sx.assume(j or 'after' in op)
    inside = (not alone) and (j == k or bool(t.anc(k, j)))
    sx.assume(not inside)
    seq = []
    for g in range(n + 1):
        seq.append(t.nodes[g])
        for i in range(sx.choice('gap%d' % g, range(m + 1))):
            seq.append(t.nodes[g].create_empty_child('dep') if g else t.nodes[1].create_empty_child('dep', after=False))
    empties = [x for x in seq if x.is_empty()]
    if empties:
        sx.reach('some empty')
    getattr(t.nodes[k], op)(t.nodes[j], without_children=alone)
    block = [k] if alone else [m for m in range(1, n + 1) if m == k or t.anc(k, m)]
    blocknodes = [t.nodes[m] for m in block]
    sx.check(t.root.empty_nodes == empties, 'list of empty nodes changed')
    unmoved = [x for x in seq if not any(x is b for b in blocknodes)]
    for a, b in zip(unmoved, unmoved[1:]):
        sx.check(a.ord < b.ord, 'order of unmoved words and empty nodes changed')
    for x in empties:
        sx.check(x.ord != int(x.ord) and len(str(x.ord)) == 3, 'malformed ord of an empty node: %s' % x.ord)
    sx.check(len({str(x.ord) for x in empties}) == len(empties), 'two empty nodes with one ord')
    sx.check(sorted(t.order()) == list(range(1, n + 1)), 'words lost')
    sx.observe([str(x.ord) for x in t.root.empty_nodes])
