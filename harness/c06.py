from sx import api as sx
from harness.common import check_tree, heads_now

MODES = [None, 'rehang', 'warn', 'rehang_warn']


def removed_set(t, k, mode):
    if mode and mode.startswith('rehang'):
        return {k}
    return {k} | {m for m in range(1, t.n + 1) if m != k and t.anc(k, m)}


def expected_head(t, m, k, mode):
    if mode and mode.startswith('rehang'):
        return sx.ite(t.head(m) == k, t.head(k), t.head(m))
    return t.head(m)


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['alone', 'with subtree', 'rehang'],
            bounds='one tree of n words of any shape, any word removed in each of the four modes')
def remove(n):
    t = sx.tree('t', n)
    k = sx.choice('node', range(1, n + 1))
    mode = sx.choice('mode', MODES)
    t.nodes[k].remove(children=mode) if mode is not None else t.nodes[k].remove()
    gone = removed_set(t, k, mode)
    sx.reach('rehang' if mode and mode.startswith('rehang') else 'alone' if len(gone) == 1 else 'with subtree')
    t.alive -= gone
    left = [m for m in range(1, n + 1) if m not in gone]
    sx.check(t.order() == left, 'wrong words or order after removal')
    for m in left:
        sx.check(t.current(m) == expected_head(t, m, k, mode), 'wrong head after removal')
    check_tree(t, 'after removal')
    sx.observe(heads_now(t))


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['twice'],
            bounds='one tree of n words of any shape, a word removed, then a remaining word (or the same leaf again)')
def remove_two(n):
    t = sx.tree('t', n)
    k = sx.choice('first', range(1, n + 1))
    mode = sx.choice('mode', [None, 'rehang'])
    again = sx.bool('again')
    t.nodes[k].remove(children=mode)
    gone = removed_set(t, k, mode)
    t.alive -= gone
    heads = {m: expected_head(t, m, k, mode) for m in range(1, n + 1) if m not in gone}
    if again:
        # a node that was removed and has no children any more
        sx.assume(len(gone) == 1)
        sx.reach('twice')
        t.nodes[k].remove()
        left = [m for m in range(1, n + 1) if m not in gone]
    else:
        left = [m for m in range(1, n + 1) if m not in gone]
        sx.assume(left)
        j = sx.choice('second', left)
        down = {j}
        for _ in range(n):
            down |= {m for m in left if heads[m] in down}
        t.nodes[j].remove()
        t.alive -= down
        left = [m for m in left if m not in down]
    sx.check(t.order() == left, 'wrong words or order after two removals')
    for m in left:
        sx.check(t.current(m) == heads[m], 'wrong head after two removals')
    check_tree(t, 'after two removals')


@sx.harness(quick=[dict(n=3, m=1), dict(n=2, m=2)], thorough=[dict(n=3, m=2), dict(n=4, m=1)], reach=['some empty'],
            bounds='as remove, with 0..m empty nodes in every gap')
def remove_empty(n, m):
    t = sx.tree('t', n)
    seq = []
    for g in range(n + 1):
        seq.append(t.nodes[g])
        for i in range(sx.choice('gap%d' % g, range(m + 1))):
            seq.append(t.nodes[g].create_empty_child('dep') if g else t.nodes[1].create_empty_child('dep', after=False))
    empties = [x for x in seq if x.is_empty()]
    if empties:
        sx.reach('some empty')
    k = sx.choice('node', range(1, n + 1))
    mode = sx.choice('mode', [None, 'rehang'])
    t.nodes[k].remove(children=mode)
    gone = removed_set(t, k, mode)
    t.alive -= gone
    left = [x for x in seq if t.index.get(id(x)) not in gone]
    sx.check(t.root.empty_nodes == empties, 'list of empty nodes changed')
    last = left[0]
    sx.check(last.ord == 0, 'ord of the root')
    for x in left[1:]:
        sx.check(last.ord < x.ord, 'order of words and empty nodes changed')
        if not x.is_empty():
            sx.check(x.ord == int(x.ord), 'ord of a word')
            last_word = x
        else:
            sx.check(x.ord > int(x.ord), 'ord of an empty node')
        last = x
    word = 0
    for x in left[1:]:
        if x.is_empty():
            sx.check(word < x.ord < word + 1, 'empty node not in its gap')
        else:
            word += 1
            sx.check(x.ord == word, 'words not renumbered')
    sx.observe([str(x.ord) for x in t.root.empty_nodes])
