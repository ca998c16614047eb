from sx import api as sx
from harness.common import check_tree, wellformed, check_wf, heads_now

SHIFTS = ['shift_before_node', 'shift_after_node', 'shift_before_subtree', 'shift_after_subtree']


def step(t, s, ops=()):
    """One arbitrary edit of the tree t; returns its name."""
    live = [k for k in sorted(t.alive) if k]
    op = sx.choice('op' + s, list(ops) or ['parent', 'create', 'create_root', 'remove', 'rehang', 'flatten', 'shift', 'shift_alone', 'feed'])
    if op == 'flatten':
        t.root.flatten()
        for k in live:
            sx.check(t.current(k) == 0, 'flatten left a word attached elsewhere')
            sx.check(t.nodes[k].deprel == 'root', 'flatten left another deprel')
        return op
    if op == 'create_root' or not live:
        t.add(t.root.create_child(form='new' + s))
        return 'create'
    k = sx.choice('k' + s, live)
    node = t.nodes[k]
    if op == 'create':
        t.add(node.create_child(form='new' + s))
    elif op in ('remove', 'rehang'):
        before = list(t.order())
        node.remove(children='rehang' if op == 'rehang' else None)
        t.alive &= {0} | set(t.order())
        sx.check(k not in t.alive, 'removed word still there')
        sx.check(t.order() == [m for m in before if m in t.alive], 'order changed by removal')
    elif op == 'feed':
        # the children list given to the caller is a copy
        node.children(add_self=True)
        node.descendants(add_self=True)
        node.children.append(node)
        t.root.descendants(add_self=True)
    else:
        j = sx.choice('j' + s, [0] + live)
        try:
            if op == 'parent':
                node.parent = t.nodes[j]
            else:
                getattr(node, SHIFTS[sx.choice('sh' + s, range(4))])(t.nodes[j], without_children=op == 'shift_alone')
        except Exception:
            sx.reach('refused')
            op = op + '-refused'
    return op


EDITS = ['refused', 'parent', 'create', 'remove', 'rehang', 'flatten', 'shift', 'shift_alone']


@sx.harness(quick=[dict(n=3), dict(n=4, ops=('parent', 'rehang', 'remove', 'create', 'flatten'), unreached=('shift', 'shift_alone'))],
            thorough=[dict(n=4), dict(n=1, steps=2), dict(n=2, steps=2)],
            reach=EDITS,
            bounds='any one edit (inductive step: from any well-formed tree of n words), or two edits in a row')
def edit(n, steps=1, ops=(), unreached=()):
    t = sx.tree('t', n)
    for s in range(steps):
        sx.reach(step(t, str(s), ops))
        check_tree(t, 'after edit')


@sx.harness(quick=[dict(n=2, steps=2, eager=True)], thorough=[dict(n=3, steps=2, eager=True)], reach=['done'],
            bounds='two edits in a row, judged through the public navigation of the tree')
def edit_public(n, steps, eager):
    t = sx.tree('t', n)
    for s in range(steps):
        step(t, str(s))
        check_wf(t.root, 'after edit')
    sx.reach('done')
    sx.observe([(x.ord, x.parent.ord) for x in t.root.descendants])


@sx.harness(quick=[dict(n=3, m=1)], thorough=[dict(n=4, m=1), dict(n=3, m=2)], reach=['all', 'some', 'mwt'],
            bounds='moving any non-empty set of words of a tree of n words to a tree of m words, any shapes, '
                   'with a multi-word token over two neighbouring words or none, nodes given in any order')
def steal(n, m):
    t = sx.tree('t', n)
    u = sx.tree('u', m)
    mw = sx.choice('mwt', range(n))          # 0: none, i: words i, i+1
    stolen = [k for k in range(1, n + 1) if sx.bool('steal%d' % k)]
    sx.assume(stolen)
    backwards = sx.bool('backwards')
    heads = {k: t.current(k) for k in range(1, n + 1)}
    if mw:
        words = [t.nodes[mw], t.nodes[mw + 1]]
        t.root.create_multiword_token(words, form='mwt', misc='A=b')
        sx.reach('mwt')
    sx.reach('all' if len(stolen) == n else 'some')
    nodes = [t.nodes[k] for k in stolen]
    u.root.steal_nodes(nodes[::-1] if backwards else nodes)
    check_wf(t.root, 'source after stealing')
    check_wf(u.root, 'target after stealing')
    sx.check([id(x) for x in t.root.descendants] == [id(t.nodes[k]) for k in range(1, n + 1) if k not in stolen],
             'wrong words left in the source tree')
    sx.check([id(x) for x in u.root.descendants] == [id(x) for x in u.nodes[1:]] + [id(x) for x in nodes],
             'wrong words in the target tree')
    for k in range(1, n + 1):
        h = heads[k]
        new = t.nodes[k].parent
        if k in stolen:
            sx.check(sx.or_(*[sx.and_(h == j, new is (t.nodes[j] if j in stolen else u.root)) for j in range(n + 1)]),
                     'wrong head of a moved word')
        else:
            sx.check(sx.or_(*[sx.and_(h == j, new is (t.root if j in stolen else t.nodes[j])) for j in range(n + 1)]),
                     'wrong head of a word that stayed')
    if mw:
        moved = [w for w in words if t.index[id(w)] in stolen]
        for r in (t.root, u.root):
            for x in r.multiword_tokens:
                sx.check(x.root is r, 'a multi-word token belongs to another tree')
                for w in x.words:
                    sx.check(w.root is r and w.multiword_token is x, 'a multi-word token covers a word of another tree')
        if len(moved) == 2:
            sx.check(len(u.root.multiword_tokens) == 1 and not t.root.multiword_tokens, 'multi-word token not moved')
            x = u.root.multiword_tokens[0]
            sx.check(x.words == words and x.form == 'mwt' and x.misc['A'] == 'b', 'multi-word token changed')
        elif not moved:
            sx.check(len(t.root.multiword_tokens) == 1 and not u.root.multiword_tokens, 'multi-word token of other words lost')
            sx.check(t.root.multiword_tokens[0].words == words, 'multi-word token of other words changed')
