"""C32: filtering and marking blocks."""
from sx import api as sx
from harness.common import check_wf, check_tree

KINDS = ['delete_tree', 'delete_tree_if_node', 'keep_tree', 'keep_tree_if_node']


def documents(bundles, zones, words):
    from udapi.core.document import Document
    doc = Document()
    for b in range(bundles):
        bundle = doc.create_bundle()
        for z in zones:
            root = bundle.create_tree(zone=z)
            prev = root
            for i in range(words):
                prev = prev.create_child(form='%d%s%d' % (b, z, i))
    return doc


@sx.harness(quick=[dict(bundles=2, words=2)], thorough=[dict(bundles=3, words=2), dict(bundles=2, words=4)],
            reach=KINDS + ['removed', 'kept', 'other zone', 'mark'],
            bounds='documents with the given number of bundles, two zones and words per tree; any outcome of the condition on each root or word; the block restricted to one zone or not')
def trees(bundles, words):
    import udapi.block.util.filter as mod
    zones = ['', 'a']
    doc = documents(bundles, zones, words)
    kind = sx.choice('kind', KINDS)
    zone = sx.choice('zone', ['all', 'a'])
    mark = sx.choice('mark', [None, 'x']) if kind == 'keep_tree_if_node' else None
    sx.reach(kind)
    before = [(b, t, list(t.descendants)) for b in doc.bundles for t in b.trees]
    cond = {}
    for b, t, nodes in before:
        for i, x in enumerate([t] + nodes):
            if kind.endswith('node') == (i > 0):
                cond[id(x)] = sx.bool('c%s%s%d' % (b.bundle_id, t.zone, i))
    mod.cond = lambda x: cond[id(x)]
    kw = {kind: 'cond(node)' if kind.endswith('node') else 'cond(tree)', 'zones': zone}
    if mark:
        kw['mark'] = mark
    mod.Filter(**kw).process_document(doc)
    sx.check([b for b in doc.bundles] == [b for b in dict.fromkeys(b for b, t, n in before)], 'the bundles stay')
    for b, t, nodes in before:
        if zone == 'a' and t.zone != 'a':
            keep = True
            sx.reach('other zone')
        else:
            some = sx.or_(*[cond[id(x)] for x in ([t] + nodes) if id(x) in cond])
            keep = sx.not_(some) if kind.startswith('delete') else some
        is_in = any(x is t for x in b.trees)
        sx.check(sx.iff(keep, is_in), 'exactly the asked trees are kept')
        if is_in:
            sx.reach('kept')
            check_wf(t, 'kept tree')
            sx.check([id(x) for x in t.descendants] == [id(x) for x in nodes], 'words of a kept tree')
            for p, x in zip([t] + nodes, nodes):
                sx.check(x.parent is p, 'heads of a kept tree')
                if mark and not (zone == 'a' and t.zone != 'a'):
                    sx.check(sx.iff(cond[id(x)], x.misc['Mark'] == 'x'), 'exactly the matching words are marked')
                    sx.reach('mark')
                else:
                    sx.check(str(x.misc) == '_', 'nothing is marked')
        else:
            sx.reach('removed')
    for b in doc.bundles:
        order = [t for bb, t, n in before if bb is b and any(x is t for x in b.trees)]
        sx.check([id(x) for x in b.trees] == [id(x) for x in order], 'the order of trees stays')


def flags(t, name):
    c = [None] + [sx.bool('%s%d' % (name, k)) for k in range(1, t.n + 1)]
    return c, lambda x: c[t.index[id(x)]]


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5), dict(n=6)], reach=['some', 'nested', 'all', 'none'],
            bounds='every tree of n words and any outcome of the condition on each word')
def delete_subtree(n):
    import udapi.block.util.filter as mod
    t = sx.tree('t', n)
    c, mod.cond = flags(t, 'c')
    mod.Filter(delete_subtree='cond(node)').process_document(t.doc)
    left = t.order()
    gone = {k: sx.or_(c[k], *[sx.and_(c[j], t.anc(j, k)) for j in range(1, n + 1) if j != k]) for k in range(1, n + 1)}
    for k in range(1, n + 1):
        sx.check(sx.iff(gone[k], k not in left), 'exactly the matching subtrees are deleted')
    sx.check(left == sorted(left), 'word order')
    t.alive = {0} | set(left)
    check_tree(t, 'delete_subtree')
    for k in left:
        sx.check(t.current(k) == t.head(k), 'heads of the kept words')
    sx.check(t.bundle.trees == [t.root], 'the tree is kept')
    sx.reach('none' if len(left) == n else 'all' if not left else 'some')
    if n - len(left) >= 2:
        sx.reach('nested')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5), dict(n=6)], reach=['some', 'all', 'none', 'nested'],
            bounds='every tree of n words and any outcome of the condition on each word')
def keep_subtree(n):
    import udapi.block.util.filter as mod
    t = sx.tree('t', n)
    c, mod.cond = flags(t, 'c')
    mod.Filter(keep_subtree='cond(node)').process_document(t.doc)
    some = sx.or_(*c[1:])
    sx.check(sx.iff(some, t.bundle.trees == [t.root]), 'a tree without any matching word is deleted')
    if t.bundle.trees == []:
        sx.reach('none')
        return
    left = t.order()
    kept = {k: sx.or_(c[k], *[sx.and_(c[j], t.anc(j, k)) for j in range(1, n + 1) if j != k]) for k in range(1, n + 1)}
    for k in range(1, n + 1):
        sx.check(sx.iff(kept[k], k in left), 'exactly the matching subtrees are kept')
    sx.check(left == sorted(left), 'word order')
    t.alive = {0} | set(left)
    check_tree(t, 'keep_subtree')
    for k in left:
        sx.check(sx.ite(c[k], t.current(k) == 0, t.current(k) == t.head(k)), 'matching words are attached to the root, the others stay')
    sx.reach('all' if len(left) == n else 'some')
    sx.reach('nested')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5), dict(n=6)], reach=['some', 'all', 'none', 'chain'],
            bounds='every tree of n words and any outcome of the condition on each word')
def keep_node(n):
    import udapi.block.util.filter as mod
    t = sx.tree('t', n)
    c, mod.cond = flags(t, 'c')
    mod.Filter(keep_node='cond(node)').process_document(t.doc)
    sx.check(sx.iff(sx.or_(*c[1:]), t.bundle.trees == [t.root]), 'a tree without any matching word is deleted')
    if t.bundle.trees == []:
        sx.reach('none')
        return
    left = t.order()
    for k in range(1, n + 1):
        sx.check(sx.iff(c[k], k in left), 'exactly the matching words are kept')
    sx.check(left == sorted(left), 'word order')
    t.alive = {0} | set(left)
    check_tree(t, 'keep_node')
    for k in left:
        for j in left:
            # j is the nearest kept ancestor of k: each kept ancestor of k is j or an ancestor of j
            near = sx.and_(t.anc(j, k), *[sx.implies(t.anc(i, k), t.anc(i, j)) for i in left if i not in (j, k)])
            sx.check(sx.implies(sx.and_(near, j != k), t.current(k) == j), 'the head is the nearest kept ancestor')
            if j != k and n - len(left) > 1:
                sx.reach('chain')
        sx.check(sx.implies(sx.and_(*[sx.not_(t.anc(i, k)) for i in left if i != k]), t.current(k) == 0), 'words without kept ancestors are attached to the root')
    sx.reach('all' if len(left) == n else 'some')


@sx.harness(quick=[dict(n=3), dict(n=3, grand=True)], thorough=[dict(n=4), dict(n=4, grand=True)], reach=['keep_node', 'keep_subtree', 'delete_subtree'],
            bounds='every tree of n words, a condition with any outcome for each head, or each head of the head')
def about_heads(n, grand=False):
    'The condition looks at the heads (or the heads of the heads) that the words had before.'
    import udapi.block.util.filter as mod
    t = sx.tree('t', n)
    f = [sx.bool('f%d' % k) for k in range(n + 1)]
    mod.cond = lambda x: f[t.index[id((x.parent.parent or t.root) if grand else x.parent)]]
    case = sx.choice('case', ['keep_node', 'keep_subtree', 'delete_subtree'])
    sx.reach(case)
    mod.Filter(**{case: 'cond(node)'}).process_document(t.doc)
    def judged(k):
        if not grand:
            return sx.or_(*[sx.and_(t.head(k) == j, f[j]) for j in range(n + 1) if j != k])
        some = [sx.and_(t.head(k) == 0, f[0])]
        for i in range(1, n + 1):
            some += [sx.and_(t.head(k) == i, t.head(i) == j, f[j]) for j in range(n + 1) if i != k and i != j != k]
        return sx.or_(*some)
    c = [None] + [judged(k) for k in range(1, n + 1)]
    up = {k: sx.or_(c[k], *[sx.and_(c[j], t.anc(j, k)) for j in range(1, n + 1) if j != k]) for k in range(1, n + 1)}
    keep = {k: c[k] if case == 'keep_node' else up[k] if case == 'keep_subtree' else sx.not_(up[k]) for k in range(1, n + 1)}
    if t.bundle.trees == []:
        sx.check(case != 'delete_subtree' and not sx.or_(*keep.values()), 'a tree without any matching word is deleted')
        return
    left = t.order()
    for k in range(1, n + 1):
        sx.check(sx.iff(keep[k], k in left), case + ': exactly the asked words are kept')
    t.alive = {0} | set(left)
    check_tree(t, case)
    if case == 'keep_subtree':
        for k in left:
            sx.check(sx.ite(c[k], t.current(k) == 0, t.current(k) == t.head(k)), 'matching words are attached to the root, the others stay')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['subtree+node', 'if_node+node', 'if_node+subtree', 'if_node+delete'],
            bounds='every tree of n words, two conditions with any outcome')
def combined(n):
    import udapi.block.util.filter as mod
    t = sx.tree('t', n)
    c, mod.cond = flags(t, 'c')
    d, mod.cond2 = flags(t, 'd')
    case = sx.choice('case', ['subtree+node', 'if_node+node', 'if_node+subtree', 'if_node+delete'])
    sx.reach(case)
    first, second = {'subtree+node': ('delete_subtree', 'keep_node'), 'if_node+node': ('keep_tree_if_node', 'keep_node'),
                     'if_node+subtree': ('keep_tree_if_node', 'keep_subtree'), 'if_node+delete': ('delete_tree_if_node', 'delete_subtree')}[case]
    mod.Filter(**{first: 'cond(node)', second: 'cond2(node)'}).process_document(t.doc)
    def up(c, k):
        return sx.or_(c[k], *[sx.and_(c[j], t.anc(j, k)) for j in range(1, n + 1) if j != k])
    some = sx.or_(*c[1:])
    if case == 'subtree+node':
        keep = {k: sx.and_(d[k], sx.not_(up(c, k))) for k in range(1, n + 1)}
        gone = sx.not_(sx.or_(*keep.values()))
    elif case == 'if_node+node':
        keep = {k: d[k] for k in range(1, n + 1)}
        gone = sx.or_(sx.not_(some), sx.not_(sx.or_(*d[1:])))
    elif case == 'if_node+subtree':
        keep = {k: up(d, k) for k in range(1, n + 1)}
        gone = sx.or_(sx.not_(some), sx.not_(sx.or_(*d[1:])))
    else:
        keep = {k: sx.not_(up(d, k)) for k in range(1, n + 1)}
        gone = some
    sx.check(sx.iff(gone, t.bundle.trees == []), case + ': is the tree kept')
    if t.bundle.trees:
        left = t.order()
        for k in range(1, n + 1):
            sx.check(sx.iff(keep[k], k in left), case + ': kept words')
        t.alive = {0} | set(left)
        check_tree(t, case)


OLD = ['_', 'Mark=old', 'ToDo=x|X=1', 'Bug=b']


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['marked', 'cleaned', 'kept', 'empty'],
            bounds='n words and one empty node with four kinds of MISC and any outcome of the condition, all options')
def mark(n):
    import udapi.block.util.mark as mod
    from udapi.core.document import Document
    t = Document().create_bundle().create_tree()
    nodes = [t.create_child(form='w%d' % k, misc=sx.choice('misc%d' % k, OLD)) for k in range(n)]
    nodes.append(nodes[0].create_empty_child('dep', form='e', misc=sx.choice('misc%d' % n, OLD)))
    olds = [dict(x.misc) for x in nodes]
    c = [sx.bool('c%d' % k) for k in range(n + 1)]
    mod.cond = lambda x: c[[id(y) for y in nodes].index(id(x))]
    value = sx.choice('mark', [1, 'x'])
    attr = sx.choice('attr', ['Mark', 'Y'])
    add, empty = sx.bool('add'), sx.bool('empty')
    block = mod.Mark('cond(node)', mark=value, mark_attr=attr, add=add, empty=empty, print_stats=True)
    block.process_document(t.document)
    for k, x in enumerate(nodes):
        now = dict(x.misc)
        if x.is_empty() and not empty:
            sx.check(now == olds[k], 'empty nodes are left alone')
            continue
        if x.is_empty():
            sx.reach('empty')
        if c[k]:
            sx.check(now == dict(olds[k], **{attr: str(value)}) or now == dict(olds[k], **{attr: value}), 'a matching word gets the mark')
            sx.reach('marked')
        elif add:
            sx.check(now == olds[k], 'other words stay')
            sx.reach('kept')
        else:
            sx.check(now == {a: b for a, b in olds[k].items() if a not in (attr, 'ToDo', 'Bug')}, 'old marks of other words are deleted')
            sx.reach('cleaned')
    import sys
    old, out = sys.stdout, sx.out()
    sys.stdout = out
    try:
        block.process_end()
    finally:
        sys.stdout = old
    count = sum(1 for k, x in enumerate(nodes) if c[k] and (empty or not x.is_empty()))
    sx.check(out.getvalue() == 'util.Mark marked %d nodes\n' % count, 'number of marked words')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['equal', 'heads differ', 'words differ', 'lengths differ'],
            bounds='two trees of up to n words with any one-letter forms out of three and heads among three shapes; with and without alignment, ignored heads, old marks')
def markdiff(n):
    from udapi.core.document import Document
    from udapi.block.util.markdiff import MarkDiff
    bundle = Document().create_bundle()
    lens = [sx.choice('pred words', range(1, n + 1)), sx.choice('gold words', range(1, n + 1))]
    trees = []
    forms = []
    for z in (0, 1):
        t = bundle.create_tree(zone='pg'[z])
        trees.append(t)
        shape = sx.choice('shape%d' % z, ['chain', 'flat', 'left'])
        forms.append([sx.str('form%d%d' % (z, k), 1, 1, 'abc' if n < 4 else 'ab') for k in range(lens[z])])
        nodes = [t.create_child(form=f, misc='Bug=1') for f in forms[z]]
        for k, x in enumerate(nodes):
            if shape == 'chain' and k:
                x.parent = nodes[k - 1]
            elif shape == 'left' and k + 1 < len(nodes):
                x.parent = nodes[k + 1]
    ignore = sx.bool('ignore_parent')
    add = sx.bool('add')
    MarkDiff('g', attributes='form', ignore_parent=ignore, add=add, align='both', print_stats=0).process_document(bundle.document)
    p, g = trees[0].descendants, trees[1].descendants
    sx.check([x.form for x in p] == forms[0] and [x.form for x in g] == forms[1], 'words stay')
    marked = [[x.misc['Mark'] != '' for x in y] for y in (p, g)]
    same_heads = ignore or [x.parent.ord for x in p] == [x.parent.ord for x in g]
    same_forms = forms[0] == forms[1]
    for x in p + g:
        sx.check((x.misc['Bug'] == '1') == add, 'old marks')
    differ = lens[0] != lens[1]
    sx.check((trees[0].comment != '') == differ and (trees[1].comment != '') == differ, 'trees of different lengths are marked')
    al = [[int(x.misc['Align'] or 0) for x in y] for y in (p, g)]
    for z in (0, 1):
        used = [a for a in al[z] if a]
        sx.check(used == sorted(set(used)) and all(a <= lens[1 - z] for a in used), 'the alignment is one-to-one and keeps the order')
        for k, a in enumerate(al[z]):
            sx.check(not a or al[1 - z][a - 1] == k + 1, 'the alignment is the same from both sides')
    for k, x in enumerate(p):
        a = al[0][k]
        ok = a > 0 and x.form == g[a - 1].form
        if ok and not ignore:
            h, o = x.parent.ord, g[a - 1].parent.ord
            ok = (h == 0 and o == 0) or (h > 0 and o > 0 and al[0][h - 1] == o)
        sx.check(marked[0][k] == (not ok), 'the marked words are those that differ from the aligned ones')
        if a:
            sx.check(marked[1][a - 1] == (not ok), 'aligned words are marked both or neither')
    for k, a in enumerate(al[1]):
        sx.check(a or marked[1][k], 'unaligned words are marked')
    if differ:
        sx.reach('lengths differ')
    elif not same_forms:
        sx.reach('words differ')
    else:
        sx.reach('equal' if same_heads else 'heads differ')
        sx.check(al[0] == list(range(1, lens[0] + 1)), 'equal sentences are aligned word by word')
        if same_heads:
            sx.check(not any(marked[0]), 'nothing is marked in equal trees')


@sx.harness(quick=[dict(n=2, kinds='ab'), dict(n=3, kinds='ab', flat=True)], thorough=[dict(n=3, kinds='abc', flat=True), dict(n=3, kinds='ab')], reach=['same', 'changed', 'added', 'deleted'],
            bounds='two trees of one to n words with forms out of two or three and heads among three shapes (or flat), with and without ignored heads')
def diff_stats(n, kinds, flat=False):
    'The numbers of changed, added and deleted words agree with the stored alignment.'
    from udapi.core.document import Document
    from udapi.block.util.markdiff import MarkDiff
    bundle = Document().create_bundle()
    trees = []
    for z in 'pg':
        t = bundle.create_tree(zone=z)
        trees.append(t)
        shape = 'flat' if flat else sx.choice('shape' + z, ['chain', 'flat', 'left'])
        nodes = []
        for k in range(sx.choice('words' + z, range(1, n + 1))):
            f = sx.choice('form%s%d' % (z, k), list(kinds))
            nodes.append(t.create_child(form=f, lemma=f.upper()))
        for k, x in enumerate(nodes):
            if shape == 'chain' and k:
                x.parent = nodes[k - 1]
            elif shape == 'left' and k + 1 < len(nodes):
                x.parent = nodes[k + 1]
    ignore = sx.bool('ignore_parent')
    block = MarkDiff('g', attributes='form,lemma', ignore_parent=ignore, align='both', print_stats=-1)
    block.process_document(bundle.document)
    p, g = trees[0].descendants, trees[1].descendants
    al = {x.ord: int(x.misc['Align']) for x in p if x.misc['Align'] != ''}
    al[0] = 0
    want = {}

    def count(name):
        want[name] = want.get(name, 0) + 1
    for x in p:
        if x.ord not in al:
            count('DELETE-WORD'), count('DELETE-LEMMA: ' + x.lemma)
            sx.reach('deleted')
            continue
        y = g[al[x.ord] - 1]
        turned = not ignore and al.get(x.parent.ord) != y.parent.ord
        if x.form == y.form:
            sx.reach('same')
            if turned:
                count('ONLY-PARENT-CHANGED')
        else:
            sx.reach('changed')
            count('FORM: %s -> %s' % (x.form, y.form)), count('LEMMA: %s -> %s' % (x.lemma, y.lemma))
            if turned:
                count('PARENT-CHANGED')
    for y in g:
        if y.ord not in al.values():
            count('ADD-WORD'), count('ADD-LEMMA: ' + y.lemma)
            sx.reach('added')
    sx.check(dict(block.stats) == want, 'statistics')


@sx.harness(reach=['copied', 'joined', 'present', 'outside'], bounds='four words, one multi-word token, any Bug texts of one to two characters')
def mwt_bugs():
    from udapi.core.document import Document
    from udapi.block.util.markmwtbugsatnodes import MarkMwtBugsAtNodes
    t = Document().create_bundle().create_tree()
    nodes = [t.create_child(form='w%d' % k) for k in range(4)]
    m = t.create_multiword_token(nodes[1:3], form='mwt')
    bug = sx.str('bug', 0, 2, 'ab')
    old = sx.str('old', 0, 1, 'ab')
    m.misc['Bug'] = bug
    for x in nodes:
        x.misc['Bug'] = old
    MarkMwtBugsAtNodes().process_document(t.document)
    for k, x in enumerate(nodes):
        if k in (1, 2) and bug != '':
            if old == '':
                sx.check(x.misc['Bug'] == bug, 'the bug of the token is copied')
                sx.reach('copied')
            elif old == bug:
                sx.check(x.misc['Bug'] == bug, 'the same bug is not repeated')
                sx.reach('present')
            else:
                sx.check(x.misc['Bug'] == old + '+' + bug, 'the bug of the token is added')
                sx.reach('joined')
        else:
            sx.check(x.misc['Bug'] == old, 'other words stay')
            sx.reach('outside')
