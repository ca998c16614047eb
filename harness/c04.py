from sx import api as sx
from harness.common import check_tree, unchanged_heads, heads_now, check_wf


@sx.harness(quick=[dict(n=3), dict(n=4)], thorough=[dict(n=4), dict(n=5)], reach=['accepted', 'refused'],
            bounds='one tree of n words of any shape, any node attached to any node or to the root')
def attach(n):
    t = sx.tree('t', n)
    k = sx.choice('node', range(1, n + 1))
    j = sx.choice('target', range(0, n + 1))
    node, target = t.nodes[k], t.nodes[j]
    bad = sx.or_(j == k, t.anc(k, j))
    try:
        node.parent = target
    except Exception:
        sx.reach('refused')
        sx.check(bad, 'a possible attachment was refused')
        sx.check(unchanged_heads(t), 'a refused attachment changed a head')
    else:
        sx.reach('accepted')
        sx.check(sx.not_(bad), 'an impossible attachment was accepted')
        sx.check(t.current(k) == j, 'wrong head after re-attachment')
        sx.check(unchanged_heads(t, [k]), 'the attachment changed another head')
    sx.check(t.order() == list(range(1, n + 1)), 'word order changed')
    check_tree(t, 'after attachment')
    sx.observe(heads_now(t))


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['refused'],
            bounds='a tree of n words of any shape and a second one of 2 words; targets: nothing, an empty node of '
                   'the same or the other tree, a word or root of the other tree; also attaching a root; the two trees without '
                   'a bundle, in one bundle, in two bundles of one document, in two documents')
def attach_impossible(n):
    where = sx.choice('where', ['no bundle', 'one bundle', 'two bundles', 'two documents'])
    doc = zone = None
    if where != 'no bundle':
        from udapi.core.document import Document
        doc = Document()
    t = sx.tree('t', n, doc=doc)
    if where == 'one bundle':
        u = sx.tree('u', 2)
        u.root.zone = 'x'
        t.bundle.add_tree(u.root)
    elif where == 'two documents':
        u = sx.tree('u', 2, doc=Document())
    else:
        u = sx.tree('u', 2, doc=doc)
    kind = sx.choice('kind', ['none', 'empty', 'empty2', 'other', 'otherroot', 'root', 'root2', 'rootnone', 'emptychild'])
    e1 = t.nodes[1].create_empty_child('dep')
    e2 = u.nodes[1].create_empty_child('dep')
    k = sx.choice('node', range(1, n + 1))
    node = t.nodes[k]
    if kind == 'none':
        target = None
    elif kind == 'empty':
        target = e1
    elif kind == 'empty2':
        target = e2
    elif kind == 'other':
        target = u.nodes[sx.choice('target', [1, 2])]
    elif kind == 'otherroot':
        target = u.root
    elif kind == 'root':
        node, target = t.root, t.nodes[k]
    elif kind == 'root2':
        node, target = t.root, u.nodes[1]
    elif kind == 'rootnone':
        node, target = t.root, None
    elif kind == 'emptychild':
        node, target = e1, t.nodes[k]
    try:
        node.parent = target
    except Exception:
        sx.reach('refused')
    else:
        sx.fail('an impossible attachment was accepted: %s, %s' % (kind, where))
    sx.check(unchanged_heads(t) if True else None, 'a refused attachment changed a head')
    sx.check(unchanged_heads(u), 'a refused attachment changed a head of the other tree')
    check_tree(t, 'after refusal')
    check_tree(u, 'after refusal, other tree')
    sx.check([x is e1 for x in t.root.empty_nodes] == [True], 'empty nodes changed')
    sx.check([x is e2 for x in u.root.empty_nodes] == [True], 'empty nodes changed')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['refused', 'accepted'],
            bounds='two attachments one after the other in a tree of n words of any shape (the first may be refused)')
def attach_twice(n):
    t = sx.tree('t', n)
    heads = {k: t.head(k) for k in range(1, n + 1)}
    for step in '12':
        k = sx.choice('node' + step, range(1, n + 1))
        j = sx.choice('target' + step, range(0, n + 1))
        # is j inside the subtree of k, given the current heads?
        up = {m: m == k for m in range(0, n + 1)}
        for _ in range(n):
            up = {m: sx.or_(m == k, *[sx.and_(heads[m] == x, up[x]) for x in range(1, n + 1) if x != m]) if m else False
                  for m in range(0, n + 1)}
        if sx.raises(Exception, setattr, t.nodes[k], 'parent', t.nodes[j]):
            sx.reach('refused')
            sx.check(up[j], 'a possible attachment was refused')
        else:
            sx.reach('accepted')
            sx.check(sx.not_(up[j]), 'an impossible attachment was accepted')
            heads[k] = j
    for k in range(1, n + 1):
        sx.check(t.current(k) == heads[k], 'wrong heads after two attachments')
    check_tree(t, 'after two attachments')
