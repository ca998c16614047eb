"""C43: util.Normalize changes the order of attributes, sentence ids and numbers of empty nodes, and nothing else."""
from sx import api as sx
from harness.c20 import same


def bundles(sizes):
    from udapi.core.document import Document
    doc = Document()
    trees = []
    for k, zones in enumerate(sizes):
        b = doc.create_bundle()
        for z in zones:
            t = b.create_tree(zone=z)
            t.create_child(form='w%d' % k)
            trees.append(t)
    return doc, trees


def pairs(text, sep='|'):
    return [] if text == '_' else [p.partition('=')[::2] for p in text.split(sep)]


@sx.harness(quick=[dict(size=1)], thorough=[dict(size=2)], reach=['sorted', 'reordered', 'off', 'empty'],
            bounds='a word and an empty node with two or three FEATS or MISC entries in any order, keys and values of up to size characters; the block for both, one or none of the columns, '
                   'for all zones or one')
def attributes(size):
    from udapi.block.util.normalize import Normalize
    doc, (a, b) = bundles([['', 'z']])
    a.zone = 'y'
    column = sx.choice('column', ['feats', 'misc'])
    n = sx.choice('entries', [0, 2, 3])
    keys = [sx.str('k%d' % i, 1, size, 'AaBbz') for i in range(n)]
    vals = [sx.str('v%d' % i, 1, size, 'value') for i in range(2)] + ['v']
    for i in range(n):
        for j in range(i):
            sx.assume(keys[i] != keys[j])
    text = '|'.join(k + '=' + v for k, v in zip(keys, vals)) or '_'
    w, other, e = a.children[0], b.children[0], a.create_empty_child(form='e')
    e.ord = '1.1'
    for x in (w, other):
        setattr(x, column, text)
    kw = {}
    if sx.bool('switched off'):
        kw[column] = False
        sx.reach('off')
    zone = sx.choice('zones', ['all', 'y'])
    Normalize(zones=zone, **kw).apply_on_document(doc)
    sx.check(w.form == 'w0' and str(e.ord) == '1.1', 'the words stay')
    for x, done in ((w, not kw), (other, not kw and zone == 'all')):
        got = str(getattr(x, column))
        if not done or not n:
            sx.check(got == text, 'what is not to be changed stays')
            sx.reach('empty') if not n else None
            continue
        now = pairs(got)
        sx.check(len(now) == n, 'number of entries')
        for k, v in zip(keys, vals):
            sx.check(sx.or_(*[sx.and_(p == k, q == v) for p, q in now]), 'the entries stay')
        sx.check(sx.and_(*[p[0].lower() <= q[0].lower() for p, q in zip(now, now[1:])]), 'the entries are sorted regardless of case')
        sx.reach('sorted' if got == text else 'reordered')
    sx.check(str(w.misc if column == 'feats' else w.feats) == '_', 'the other column stays')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['numbers', 'prefix', 'file', 'reset', 'kept', 'newdoc', 'refused'],
            bounds='n sentences, each beginning a document or not, in one or two zones; any first number, any prefix of one character, ids from the file name, restarted at documents')
def ids(n):
    from udapi.block.util.normalize import Normalize
    doc, trees = bundles([['a', 'b']] + [['a']] * (n - 1))
    doc.meta['loaded_from'] = 'dir/some.name.conllu'
    marks = [sx.choice('newdoc%d' % i, [None, True, 'd%d' % i]) if i < 2 else [None, True][sx.bool('newdoc%d' % i)] for i in range(n)]
    second = sx.bool('newdoc in the second zone')
    for i, b in enumerate(doc.bundles):
        b.trees[second if i == 0 else 0].newdoc = marks[i]
        b.bundle_id = 'old%d' % i
    kw = {}
    start = 1
    if sx.bool('sent_id'):
        kw['sent_id'] = True
    if sx.bool('start'):
        kw['start_sent_id'] = start = sx.int('first', 0, 3)
    prefix = ''
    if sx.bool('prefix'):
        kw['sent_id_prefix'] = prefix = sx.str('prefix string', 1, 1, 'ident')
        sx.reach('prefix')
    name, reset, newdoc = sx.bool('from filename'), sx.bool('reset'), sx.bool('newdoc from filename')
    if name:
        kw['sent_id_from_filename'] = True
        sx.reach('file')
    if reset:
        kw['sent_id_reset_at_newdoc'] = True
    if newdoc:
        kw['newdoc_from_filename'] = True
    if reset and not name:
        sx.check(sx.raises(ValueError, Normalize, **kw) is not None, 'restarting without the names of files is refused')
        sx.reach('refused')
        return
    on = bool(kw.get('sent_id')) or name or prefix != '' or ('start_sent_id' in kw and start != 1)
    Normalize(**kw).apply_on_document(doc)
    sx.check(len(doc.bundles) == n, 'the sentences stay')
    number = start
    for i, b in enumerate(doc.bundles):
        if reset and marks[i]:
            number = 1
            sx.reach('reset')
        want = ('some.name' if name else '') + prefix + str(sx.fix(number)) if on else 'old%d' % i
        sx.check(b.bundle_id == want, 'sentence ids')
        number = number + 1
        sx.reach('numbers' if on else 'kept')
        for k, t in enumerate(b.trees):
            mark = marks[i] if k == (1 if second and i == 0 else 0) else None
            sx.check(t.newdoc == ('some.name' if newdoc and mark else mark), 'marks of documents')
            if newdoc and mark:
                sx.reach('newdoc')


@sx.harness(quick=[dict(n=2, m=2), dict(n=1, m=3), dict(n=2, m=4, few=True)], thorough=[dict(n=2, m=3), dict(n=3, m=2), dict(n=1, m=11)], reach=['renumbered', 'kept', 'text', 'parsed', 'off'],
            bounds='n words, m empty nodes with any increasing numbers after any of them, enhanced dependencies of a word and of an empty node on any node, in text or parsed form')
def empties(n, m, few=False):
    from udapi.block.util.normalize import Normalize
    doc, (root,) = bundles([['']])
    words = [root, root.children[0]] + [root.create_child(form='w%d' % k) for k in range(1, n)]
    after, made, minor = 0, [], 0
    for i in range(m):
        at = sx.choice('after%d' % i, range(after, n + 1)) if few or i < 3 else after
        minor = (0 if at > after else minor) + sx.choice('step%d' % i, [2] if few else [1, 2, 9] if i < 2 else [1])
        after = at
        e = root.create_empty_child(form='e%d' % i)
        e.ord = '%d.%d' % (at, minor)
        made.append((e, at))
    nodes = words + [e for e, _ in made]
    raw = sx.bool('raw')
    sx.reach('text' if raw else 'parsed')
    x, y, z = words[n], made[0][0], made[-1][0]
    tx, ty, tz = sx.choice('tx', nodes[-1:] if few else nodes), sx.choice('ty', nodes[-2:]), words[0]
    targets = [(x, tx), (y, ty)] + ([(z, tz)] if z is not y else [])
    for a, b in targets:
        a.raw_deps = '%s:r' % b.ord
        if not raw:
            a.deps
    old = [str(e.ord) for e, _ in made]
    on = sx.bool('empty_node_ord')
    Normalize(empty_node_ord=on).apply_on_document(doc)
    want, count = [], {}
    for e, at in made:
        count[at] = count.get(at, 0) + 1
        want.append('%d.%d' % (at, count[at]))
    if not on:
        want = old
        sx.reach('off')
    sx.reach('kept' if want == old else 'renumbered')
    sx.check([str(e.ord) for e, _ in made] == want, 'numbers of the empty nodes')
    sx.check(same(root.descendants, words[1:]) and [w.ord for w in words] == list(range(n + 1)), 'the words stay')
    seq = [v for i, w in enumerate(words) for v in [w] + [e for e, at in made if at == i]][1:]
    sx.check(same(root.descendants_and_empty, seq) and same(root.empty_nodes, [e for e, _ in made]), 'order of the nodes')
    for a, b in targets:
        sx.check(a.raw_deps == '%s:r' % b.ord, 'text of the enhanced dependencies')
        sx.check(len(a.deps) == 1 and a.deps[0]['parent'] is b and a.deps[0]['deprel'] == 'r', 'enhanced dependencies')
