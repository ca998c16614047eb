from sx import api as sx
from harness.common import check_tree


def place(words, gaps, msg):
    """The positions are those that the model asks for; the list of empty nodes is in order."""
    root = words[0]
    flat = [e for g in gaps for e in g]
    sx.check([id(e) for e in root.empty_nodes] == [id(e) for e in flat], msg + ': list of empty nodes')
    for i, g in enumerate(gaps):
        for j, e in enumerate(g):
            sx.check(str(e.ord) == '%d.%d' % (i, j + 1), msg + ': wrong position of an empty node')
    seq = [x for i, g in enumerate(gaps) for x in [words[i]] + g]
    for a, b in zip(seq, seq[1:]):
        sx.check(a < b and a.ord < b.ord and not b.ord < a.ord and b.ord > a.ord, msg + ': positions not increasing')
        sx.check(a.ord != b.ord, msg + ': equal positions')
    sx.check([id(x) for x in root.descendants_and_empty] == [id(x) for x in seq[1:]], msg + ': words and empty nodes not in order')


def create(words, gaps, empties, name, kind, who):
    if kind == 'after':
        e = words[who].create_empty_child('dep', form=name)
        gaps[who].append(e)
    elif kind == 'before':
        e = words[who].create_empty_child('dep', after=False, form=name)
        gaps[who - 1].append(e)
    else:                       # a child of an empty node
        old = empties[who]
        i = [k for k, g in enumerate(gaps) if old in g][0]
        at = gaps[i].index(old)
        if kind == 'e-after':
            e = old.create_empty_child('dep', form=name)
            gaps[i].append(e)
        else:
            e = old.create_empty_child('dep', after=False, form=name)
            gaps[i].insert(at, e)
    empties.append(e)
    sx.check(e.is_empty() and e.form == name and e.root is words[0], 'attributes of the created empty node')
    sx.check(e.deps == [{'parent': words[who] if kind in ('after', 'before') else old, 'deprel': 'dep'}],
             'enhanced dependency of the created empty node')
    return e


def step(words, gaps, empties, i, n, some=lambda n: range(n)):
    kinds = ['after', 'before'] + (['remove'] if empties else []) + \
        (['e-after', 'e-before'] if empties else [])
    kind = sx.choice('op%d' % i, kinds)
    if kind in ('after', 'before'):
        create(words, gaps, empties, 'E%d' % i, kind, sx.choice('w%d' % i, range(1, n + 1)))
    elif kind in ('e-after', 'e-before'):
        create(words, gaps, empties, 'E%d' % i, kind, sx.choice('w%d' % i, some(len(empties))))
    else:
        e = empties.pop(sx.choice('w%d' % i, some(len(empties))))
        for g in gaps:
            if e in g:
                g.remove(e)
        e.remove()
        if sx.bool('twice%d' % i):
            e.remove()
    sx.reach(kind)
    place(words, gaps, 'after step %d (%s)' % (i, kind))


@sx.harness(quick=[dict(n=2, k=3)], thorough=[dict(n=2, k=4), dict(n=3, k=3)],
            reach=['after', 'before', 'remove', 'e-after', 'e-before'],
            bounds='any history of k creations and removals of empty nodes, before or after any of n words or any empty node')
def history(n, k):
    t = sx.tree('t', n)
    words = t.nodes
    gaps = [[] for _ in range(n + 1)]
    empties = []
    for i in range(k):
        step(words, gaps, empties, i, n)
    check_tree(t, 'after editing empty nodes')
    sx.observe([str(e.ord) for e in words[0].empty_nodes])


@sx.harness(quick=[dict(m=12, k=2)], thorough=[dict(m=12, k=3), dict(m=101, k=1)],
            reach=['after', 'before', 'remove', 'e-after', 'e-before', 'ten'],
            bounds='0..m empty nodes in one gap of a sentence with two words, then any k creations and removals')
def many(m, k):
    t = sx.tree('t', 2)
    words = t.nodes
    gaps = [[] for _ in range(3)]
    empties = []
    gap = sx.choice('gap', range(3))
    m = sx.choice('m', [x for x in range(m + 1) if x < 2 or 8 < x])
    for i in range(m):
        create(words, gaps, empties, 'M%d' % i, 'after' if gap else 'before', gap or 1)
    place(words, gaps, 'at the beginning')
    if m >= 10:
        sx.reach('ten')
    for i in range(k):
        step(words, gaps, empties, i, 2, lambda n: sorted({x for x in (0, 7, 8, 9, 10, n - 1) if x < n}))
    sx.observe([str(e.ord) for e in words[0].empty_nodes])


@sx.harness(quick=[dict(m=3), dict(m=12)], thorough=[dict(m=5), dict(m=12)], reach=['raw', 'parsed', 'own', 'dropped all'],
            bounds='m empty nodes after the first of two words, a word and an empty node with two enhanced dependencies each on '
                   'any of them (with any relation names up to 4 characters), in text or parsed form; one empty node removed')
def references(m):
    t = sx.tree('t', 2)
    w = t.nodes
    empties = [w[1].create_empty_child('dep') for _ in range(m)]
    pool = [w[0], w[2]] + (empties if m < 6 else [empties[0], empties[8], empties[9], empties[10]])
    holder = sx.choice('holder', [w[1], w[2], empties[0], empties[-1]])
    targets, rels = [], []
    for i in range(2):
        targets.append(sx.choice('to%d' % i, pool))
        rels.append(sx.str('rel%d' % i, 1, 4 if m < 6 else 2, 'value'))
    form = sx.choice('form', ['raw', 'parsed'])
    sx.reach(form)
    if form == 'raw':
        holder.raw_deps = '|'.join('%s:%s' % (x.ord, r) for x, r in zip(targets, rels))
    else:
        holder.deps = [{'parent': x, 'deprel': r} for x, r in zip(targets, rels)]
    gone = sx.choice('removed', [x for x in pool if x.is_empty()])
    gone.remove()
    if gone is holder:
        sx.reach('own')
        return
    left = [e for e in empties if e is not gone]
    place(w, [[], left, []], 'after removal')
    want = [(x, r) for x, r in zip(targets, rels) if x is not gone]
    if not want:
        sx.reach('dropped all')
    sx.check(holder.raw_deps == ('|'.join('%s:%s' % (x.ord, r) for x, r in want) or '_'), 'text form of the dependencies')
    got = holder.deps
    sx.check([id(d['parent']) for d in got] == [id(x) for x, _ in want], 'targets of the dependencies')
    sx.check(sx.and_(*[d['deprel'] == r for d, (_, r) in zip(got, want)]), 'relations of the dependencies')
    sx.check(holder.raw_deps == ('|'.join('%s:%s' % (x.ord, r) for x, r in want) or '_'), 'text form after parsing')
    for e in left:
        if e is not holder:
            sx.check(e.raw_deps == '1:dep', 'dependencies of another empty node changed')


@sx.harness(quick=[dict(digits=3)], thorough=[dict(digits=6)], reach=['ordered', 'tuple'],
            bounds='positions x.y with x of up to digits decimal digits, 10<=y<=999 (and five smaller ones) parsed from text: order and equality as numbers of two levels')
def ordering(digits):
    from udapi.core.node import EmptyNode, Node
    from udapi.core.root import Root
    root = Root()
    a, b = EmptyNode(root), EmptyNode(root)
    xs = []
    for i, e in enumerate((a, b)):
        if sx.bool('tuple%d' % i):
            major = sx.str('major%d' % i, 1, digits, 'digit')
            minor = sx.str('minor%d' % i, 2, 3, 'digit', first='123456789')
            sx.assume(sx.or_(len(major) == 1, major[0] != '0'))
            sx.reach('tuple')
        else:
            major, minor = sx.choice('float%d' % i, [('0', '1'), ('1', '9'), ('3', '3'), ('99', '9'), ('100', '1')])
        e.ord = '%s.%s' % (major, minor)
        xs.append((major, minor))
    (p, q), (r, s) = [(int(x), int(y)) for x, y in xs]
    less = sx.or_(p < r, sx.and_(p == r, q < s))
    same = sx.and_(p == r, q == s)
    sx.check(sx.iff(a.ord < b.ord, less), 'order of two positions')
    sx.check(sx.iff(a.ord == b.ord, same), 'equality of two positions')
    sx.check(sx.iff(a.ord > b.ord, sx.not_(sx.or_(less, same))), 'order of two positions')
    sx.reach('ordered')
    w = sx.int('word', 0, 10 ** digits)
    sx.check(sx.iff(a.ord < w, p < w), 'order of an empty node and a word')
    sx.check(sx.iff(a.ord > w, sx.not_(p < w)), 'order of an empty node and a word')
