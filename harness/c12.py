from sx import api as sx
from harness.common import check_tree

VARIANTS = [dict(), dict(add_self=True), dict(preceding_only=True), dict(following_only=True),
            dict(preceding_only=True, add_self=True), dict(following_only=True, add_self=True)]


def is_set(t, got, k, member, variant, msg):
    """got lists exactly the words m with member(m), plus self, restricted by the variant, in word order."""
    idx = [t.index.get(id(x), -1) for x in got]
    sx.check(idx == sorted(set(idx)) and -1 not in idx, msg + ': not in word order or doubled')
    for m in range(0, t.n + 1):
        want = member(m) if m else False
        if m == k:
            want = bool(variant.get('add_self'))
        if variant.get('preceding_only') and m > k or variant.get('following_only') and m < k:
            want = False
        sx.check(want if m in idx else sx.not_(want), '%s: wrong member' % msg)


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['children', 'descendants', 'siblings'],
            bounds='any word or the root of a tree of n words of any shape, all variants of the three lists')
def lists(n):
    t = sx.tree('t', n)
    what = sx.choice('what', ['children', 'descendants', 'siblings'])
    k = sx.choice('node', range(0 if what != 'siblings' else 1, n + 1))
    v = sx.choice('variant', VARIANTS)
    node = t.nodes[k]
    if what == 'children':
        got = node.children(**v) if v else node.children
        is_set(t, got, k, lambda m: t.head(m) == k, v, 'children')
    elif what == 'descendants':
        got = node.descendants(**v) if v else node.descendants
        is_set(t, got, k, lambda m: t.anc(k, m), v, 'descendants')
    else:
        got = node.siblings(**v) if v else node.siblings
        is_set(t, got, k, lambda m: t.head(m) == t.head(k), v, 'siblings')
    sx.reach(what)
    sx.observe([x.ord for x in got])
    # the answers are copies: changing them does not change the tree
    if isinstance(got, list):
        got.append(node)
        got.reverse()
    check_tree(t, 'after asking')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['yes', 'no'],
            bounds='any pair of nodes of a tree of n words of any shape')
def relations(n):
    t = sx.tree('t', n)
    k = sx.choice('a', range(0, n + 1))
    j = sx.choice('b', range(0, n + 1))
    a, b = t.nodes[k], t.nodes[j]
    q = sx.choice('what', ['desc', 'leaf', 'order', 'unordered'])
    if q == 'desc':
        r = a.is_descendant_of(b)
        sx.check(sx.iff(r, t.anc(j, k)), 'is_descendant_of')
        sx.reach('yes' if r else 'no')
        sx.observe(bool(r))
        sx.check(not a.is_descendant_of(None), 'descendant of nothing')
    elif q == 'leaf':
        sx.check(sx.iff(a.is_leaf(), sx.not_(sx.or_(*[t.head(m) == k for m in range(1, n + 1) if m != k]))), 'is_leaf')
    elif q == 'unordered':
        got = [t.index[id(x)] for x in a.unordered_descendants()]
        sx.check(len(got) == len(set(got)), 'doubled descendant')
        for m in range(0, n + 1):
            want = t.anc(k, m)
            sx.check(want if m in got else sx.not_(want), 'unordered_descendants')
    else:
        sx.check((a < b) == (k < j) and (a > b) == (k > j) and (a <= b) == (k <= j) and (a >= b) == (k >= j),
                 'comparison of nodes')
        sx.check(a.precedes(b) == (k < j), 'precedes')
        sx.check((a == b) == (k == j) and (a != b) == (k != j), 'equality of nodes')
        sx.check(a.prev_node is (t.nodes[k - 1] if k else None), 'prev_node')
        sx.check(a.next_node is (t.nodes[k + 1] if k < n else None), 'next_node')
        sx.check(a.is_root() == (k == 0) and not a.is_empty() and not a.is_mwt(), 'kind of node')
        sx.check([x.ord for x in sorted([b, a])] == sorted([k, j]), 'sorting nodes')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['left', 'right', 'root'],
            bounds='pseudo-attributes of any word, its head, children and neighbours in a tree of n words of any shape')
def pseudo(n):
    t = sx.tree('t', n)
    k = sx.choice('node', range(1, n + 1))
    node = t.nodes[k]
    what = sx.choice('what', ['dir', 'edge', 'children', 'siblings', 'depth', 'p_form', 'c_form', 'l_form', 'r_form',
                              'p_depth', 'c_dir'])
    got = node.get_attrs([what], stringify=False)
    head = t.head(k)
    nchildren = sx.count([t.head(m) == k for m in range(1, n + 1) if m != k])
    if what not in ('c_form', 'c_dir', 'r_form'):
        sx.check(len(got) == 1, 'one value expected')
    if what == 'dir':
        sx.reach(got[0])
        sx.check(sx.and_(sx.iff(got[0] == 'root', head == 0), sx.iff(got[0] == 'left', head > k),
                         sx.iff(got[0] == 'right', sx.and_(head != 0, head < k))), 'dir')
    elif what == 'edge':
        sx.check(got[0] == sx.ite(head == 0, 0, k - head), 'edge')
    elif what == 'children':
        sx.check(got[0] == nchildren, 'number of children')
    elif what == 'siblings':
        sx.check(got[0] == sx.count([t.head(m) == head for m in range(1, n + 1) if m != k]), 'number of siblings')
    elif what == 'depth':
        sx.check(got[0] == t.depth(k), 'depth')
    elif what == 'p_depth':
        sx.check(got[0] == t.depth(k) - 1, 'depth of the head')
    elif what == 'p_form':
        sx.check(sx.or_(*[sx.and_(head == j, got[0] == ('w%d' % j if j else '<ROOT>')) for j in range(n + 1)]), 'p_form')
    elif what == 'c_form':
        sx.check(len(got) == nchildren and got == sorted(got), 'c_form')
        for m in range(1, n + 1):
            sx.check(sx.iff('w%d' % m in got, t.head(m) == k if m != k else False), 'c_form')
    elif what == 'c_dir':
        sx.check(got.count('left') == sx.count([t.head(m) == k for m in range(1, k)]), 'c_dir')
        sx.check(got.count('right') == sx.count([t.head(m) == k for m in range(k + 1, n + 1)]), 'c_dir')
    elif what == 'l_form':
        sx.check(got == ['w%d' % (k - 1) if k > 1 else '<ROOT>'], 'l_form')
    elif what == 'r_form':
        sx.check(got == (['w%d' % (k + 1)] if k < n else []), 'r_form')
    sx.observe(got)


@sx.harness(quick=[dict()], reach=['across', 'refused'],
            bounds='two bundles with any ids and with zones a and b, two words each, and a second document')
def precedes_across():
    from udapi.core.document import Document
    docs, nodes = [], []
    ids = [sx.str('id0', 1, 1, 'ident'), sx.str('id1', 1, 2, 'ident')]
    for d in range(2):
        doc = Document()
        docs.append(doc)
        for b in range(2):
            bundle = doc.create_bundle()
            bundle.bundle_id = ids[b] if d == 0 else 'i%d' % b
            for z in 'ab':
                root = bundle.create_tree(zone=z)
                for i in (1, 2):
                    nodes.append((d, b, z, i, root.create_child(form='x')))
    x = sx.choice('x', nodes)
    y = sx.choice('y', nodes)
    same = x[0] == y[0] and x[2] == y[2]
    try:
        r = x[4].precedes(y[4])
    except ValueError:
        sx.reach('refused')
        sx.check(not same, 'comparison refused')
    else:
        sx.check(same, 'words of different zones or documents compared')
        sx.reach('across')
        sx.check(r == ((x[1], x[3]) < (y[1], y[3])), 'precedes')


@sx.harness(quick=[dict()], bounds='one value or unset per attribute; undefs and stringify as documented')
def attrs_values():
    from udapi.core.document import Document
    root = Document().create_bundle().create_tree()
    unset = sx.bool('unset')
    v = None if unset else sx.str('form', 1, 2, 'field')
    node = root.create_child(form='a', lemma=v, feats='Case=Nom|Num=Sg', misc='A=1|B')
    sx.check(sx.eq(node.get_attrs(['form', 'lemma']), ['a', v]), 'get_attrs')
    sx.check(sx.eq(node.get_attrs(['lemma', 'form'], undefs='?'), ['?' if v is None else v, 'a']), 'undefs')
    sx.check(sx.eq(node.get_attrs(['upos', 'ord', 'lemma'], undefs='', stringify=True), ['', '1', '' if v is None else v]), 'undefs')
    want = ['0', '0', '1', '', '' if v is None else v]
    if v is None:
        want[4] = '?'
    sx.check(sx.eq(node.get_attrs(['children', 'edge', 'depth', 'feats[X]', 'lemma'], undefs='?'), want), 'zero and empty values are not undefined')
    sx.check(sx.eq(node.get_attrs(['children', 'upos', 'misc[X]'], undefs=7, stringify=False), [0, 7, '']), 'zero and empty values are not undefined')
    sx.check(node.get_attrs(['feats_split']) == ['Case=Nom', 'Num=Sg'], 'feats_split')
    sx.check(node.get_attrs(['misc_split']) == ['A=1', 'B'], 'misc_split')
    sx.check(node.get_attrs(['feats[Case]', 'misc[A]', 'misc[X]']) == ['Nom', '1', ''], 'feats[..]')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['children', 'descendants', 'siblings'],
            bounds='one list of any word or the root of a tree of n words, asked twice for its preceding or following nodes')
def twice(n):
    t = sx.tree('t', n)
    what = sx.choice('what', ['children', 'descendants', 'siblings'])
    k = sx.choice('node', range(0 if what != 'siblings' else 1, n + 1))
    plain = [v for v in VARIANTS if 'add_self' not in v]
    v, w = sx.choice('first', plain), sx.choice('second', plain)
    member = {'children': lambda m: t.head(m) == k, 'descendants': lambda m: t.anc(k, m), 'siblings': lambda m: t.head(m) == t.head(k)}[what]
    got = getattr(t.nodes[k], what)
    is_set(t, got(**v), k, member, v, what + ', first')
    is_set(t, got(**w), k, member, w, what + ', second')
    is_set(t, got, k, member, {}, what + ', the list itself')
    sx.reach(what)
