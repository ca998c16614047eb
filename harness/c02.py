"""C02: documents built through the API, stored and loaded."""
from sx import api as sx
from harness.common import check_wf


def norm(v):
    return '_' if v is None else v


def dump_node(n):
    return [n.ord if not n.is_empty() else '%d.%d' % (n.ord[0], n.ord[1]) if isinstance(n.ord, tuple) else str(n.ord), norm(n.form), norm(n.lemma), norm(n.upos), norm(n.xpos), str(n.feats),
            n.parent.ord if n.parent is not None and not n.is_empty() else None, norm(n.deprel), n.raw_deps, str(n.misc)]


def dump_tree(t):
    return {'id': t.sent_id, 'zone': t.zone, 'text': t.text, 'newdoc': t.newdoc, 'newpar': t.newpar, 'json': t.json,
            'words': [dump_node(n) for n in t.descendants],
            'children': [[c.ord for c in n.children] for n in t.descendants],
            'empty': [dump_node(n) for n in t.empty_nodes],
            'mwt': [[m.ord_range, norm(m.form), str(m.misc)] for m in sorted(t.multiword_tokens, key=lambda m: m.words[0].ord)]}


NAMES = ['ord', 'form', 'lemma', 'upos', 'xpos', 'feats', 'head', 'deprel', 'deps', 'misc']


def compare_rows(a, b, what):
    sx.check(len(a) == len(b), 'number of ' + what)
    for x, y in zip(a, b):
        for name, v, w in zip(NAMES, x, y):
            sx.check(v == w, '%s of %s' % (name, what))


def compare(a, b):
    """The dumped trees a (built) and b (loaded)."""
    for k in ('id', 'zone', 'text', 'newdoc', 'newpar', 'json', 'children'):
        sx.check(a[k] == b[k], k)
    compare_rows(a['words'], b['words'], 'words')
    compare_rows(a['empty'], b['empty'], 'empty nodes')
    sx.check(len(a['mwt']) == len(b['mwt']), 'number of multi-word tokens')
    for x, y in zip(a['mwt'], b['mwt']):
        for name, v, w in zip(('range', 'form', 'misc'), x, y):
            sx.check(v == w, name + ' of multi-word tokens')


def reload(doc):
    from udapi.core.document import Document
    text = doc.to_conllu_string()
    new = Document()
    new.from_conllu_string(text)
    return new


def check_reload(doc):
    before = [[dump_tree(t) for t in b.trees] for b in doc.bundles]
    ids = [b.bundle_id for b in doc.bundles]
    new = reload(doc)
    sx.check(len(doc.bundles) == len(before) and all(len(b.trees) == len(x) for b, x in zip(doc.bundles, before)), 'storing changes nothing')
    for b, x in zip(doc.bundles, before):
        for t, y in zip(b.trees, x):
            compare(y, dump_tree(t))
    sx.check(len(new.bundles) == len(before), 'number of bundles')
    for b, x, i in zip(new.bundles, before, ids):
        sx.check(b.bundle_id == i, 'bundle id')
        sx.check(len(b.trees) == len(x), 'number of trees')
        for t, y in zip(b.trees, x):
            check_wf(t)
            compare(y, dump_tree(t))
    return new


ATTRS = ['form', 'lemma', 'upos', 'xpos', 'deprel', 'feats', 'misc', 'feature', 'misc entry', 'two features']


@sx.harness(quick=[dict(size=3)], thorough=[dict(size=5)], reach=ATTRS + ['empty', 'token', 'unset'],
            bounds='one word, empty node or multi-word token with one attribute of up to size characters (any but tab and line break) set by '
                   'the constructor or later, all others unset')
def attributes(size):
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    root.text = 't'
    what = sx.choice('what', ['word', 'empty', 'token'])
    attr = sx.choice('attr', ATTRS + ['unset'])
    sx.reach(attr)
    if what != 'word':
        sx.reach(what)
    if what == 'token':
        sx.assume(attr in ('form', 'misc', 'misc entry', 'unset'))
    if what == 'empty':
        sx.assume(attr != 'deprel')
    v = None
    if attr in ('form', 'lemma', 'upos', 'xpos', 'deprel', 'feats', 'misc'):
        v = sx.str('v', 1, size, 'text')
    later = sx.bool('later')
    kw = {attr: v} if v is not None and not later else {}
    if what == 'word':
        node = root.create_child(**kw)
    elif what == 'empty':
        node = root.create_child(form='a').create_empty_child('edep', **kw)
    else:
        node = root.create_multiword_token([root.create_child(form='a'), root.create_child(form='b')], **kw)
    if later and v is not None:
        setattr(node, attr, v)
    if attr in ('feature', 'misc entry', 'two features'):
        d = node.feats if attr != 'misc entry' else node.misc
        key = sx.str('key', 1, 2, 'key')
        sx.assume(key != '_')
        d[key] = sx.str('value', 1, 1 if attr == 'two features' else 2, 'value')
        if attr == 'two features':
            key2 = sx.str('key2', 1, 1, 'key')
            sx.assume(key2 != '_')
            d[key2] = 'x'
        want = dict(d)
    new = check_reload(doc)
    root2 = new.bundles[0].trees[0]
    node2 = root2.descendants[0] if what == 'word' else root2.empty_nodes[0] if what == 'empty' else root2.multiword_tokens[0]
    if attr in ('feature', 'misc entry', 'two features'):
        d = node2.feats if attr != 'misc entry' else node2.misc
        sx.check(len(d) == len(want) and all(d[k] == x for k, x in want.items()), 'mapping after loading')


@sx.harness(quick=[dict(n=3, ops=2)], thorough=[dict(n=3, ops=3), dict(n=4, ops=2)],
            reach=['shift', 'remove', 'attach', 'token', 'empty', 'deps', 'child'],
            bounds='n words created under any earlier node, then any ops operations out of attaching, shifting, removing, creating multi-word '
                   'tokens and empty nodes, and enhanced dependencies')
def structure(n, ops):
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    root.text = 't'
    nodes = [root]
    for k in range(1, n + 1):
        nodes.append(nodes[sx.choice('parent%d' % k, range(k))].create_child(form='f%d' % k, deprel='dep'))
    for i in range(ops):
        words = root.descendants
        op = sx.choice('op%d' % i, ['shift', 'remove', 'attach', 'token', 'empty', 'deps', 'child'])
        if not words:
            break
        a = words[sx.choice('a%d' % i, range(len(words)))]
        if op == 'shift':
            b = words[sx.choice('b%d' % i, range(len(words)))]
            sx.assume(not b.is_descendant_of(a) and a is not b)
            getattr(a, sx.choice('how%d' % i, ['shift_before_node', 'shift_after_node', 'shift_before_subtree']))(b)
        elif op == 'remove':
            # multi-word tokens and dependencies of removed words are not updated, see DESIGN.md
            sx.assume(not root.multiword_tokens and not any(w._deps or w._raw_deps not in ('_', None) for w in root.descendants))
            a.remove(children=sx.choice('how%d' % i, [None, 'rehang']))
        elif op == 'attach':
            b = words[sx.choice('b%d' % i, range(len(words)))]
            sx.assume(not b.is_descendant_of(a) and a is not b)
            a.parent = b
        elif op == 'token':
            b = sx.choice('b%d' % i, range(len(words)))
            sx.assume(a.ord <= b + 1)
            root.create_multiword_token(words[a.ord - 1:b + 1], form='tok', misc='A=1')
        elif op == 'empty':
            if sx.bool('after%d' % i):
                a.create_empty_child('edep', after=True, form='e')
            else:
                a.create_empty_child('edep', after=False, form='e')
        elif op == 'deps':
            pool = root.descendants_and_empty + [root]
            b = pool[sx.choice('b%d' % i, range(len(pool)))]
            a.deps = [{'parent': b, 'deprel': 'x:' + 'ab'[i]}]
        else:
            a.create_child(form='new')
        sx.reach(op)
    check_reload(doc)


@sx.harness(quick=[dict(most=12)], thorough=[dict(most=30)], reach=['many', 'few'],
            bounds='8 up to most empty nodes in any gap of two words, in the order of creation or the opposite, one of them head of a word and of another empty node')
def many_empty(most):
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    root.text = 't'
    words = [root.create_child(form='a'), root.create_child(form='b')]
    k = sx.choice('number', range(8, most + 1))
    place = sx.choice('place', ['before', 'between', 'after'])
    back = sx.bool('backwards')
    made = []
    for i in range(k):
        if place == 'before' and not made:
            e = words[0].create_empty_child('dep', after=False, form='e0')
        elif not made:
            e = words[0 if place == 'between' else 1].create_empty_child('dep', form='e0')
        else:
            e = made[-1].create_empty_child('dep', after=not back, form='e%d' % i)
        made.append(e)
    order = made[::-1] if back else made
    h = sx.choice('head', range(k))
    words[1].deps = [{'parent': order[h], 'deprel': 'x'}]
    order[0].deps = [{'parent': order[h], 'deprel': 'y'}]
    before = [x.form for x in root.descendants_and_empty]
    at = {'before': 0, 'between': 1, 'after': 2}[place]
    want = ['a', 'b']
    want[at:at] = [e.form for e in order]
    sx.check(before == want, 'order of the empty nodes')
    new = check_reload(doc).bundles[0].trees[0]
    sx.check([x.form for x in new.descendants_and_empty] == want, 'order of the loaded nodes')
    sx.check(new.descendants[1].deps[0]['parent'].form == order[h].form, 'head of the word')
    rows = [l.split('\t')[1] for l in doc.to_conllu_string().split('\n') if '\t' in l]
    sx.check(rows == want, 'order of the lines')
    sx.reach('many' if k > 9 else 'few')


STRUCT, CONTENT = ('zones', 'empty tree', 'two bundles'), ('newdoc', 'newpar', 'comment', 'json')


@sx.harness(quick=[dict(n=3, contents=False, unreached=CONTENT), dict(n=1, contents=True, unreached=STRUCT)],
            thorough=[dict(n=4, contents=False, unreached=CONTENT), dict(n=2, contents=True)], reach=STRUCT + CONTENT,
            bounds='n trees in one or more bundles and zones, with or without words; newdoc, newpar (with id of up to 2 characters), texts of up '
                   'to 2 characters, added comments of up to 2 characters, json')
def documents(n, contents, unreached=()):
    from udapi.core.document import Document
    doc = Document()
    comments = {}
    ids = []
    for i in range(n):
        if i and sx.bool('zone%d' % i):
            bundle = doc.bundles[-1]
            sx.reach('zones')
        else:
            bundle = doc.create_bundle()
            if len(doc.bundles) > 1:
                sx.reach('two bundles')
            bid = sx.str('id%d' % i, 1, 1, 'ident') if i < 2 and sx.bool('own id%d' % i) else None
            if bid is not None:
                bundle.bundle_id = bid
            for b in doc.bundles[:-1]:
                sx.assume(b.bundle_id != bundle.bundle_id)
        tree = bundle.create_tree(zone='z' + 'abcde'[i] if bundle.trees or sx.bool('zoned%d' % i) else None)
        tree.text = 't'
        if sx.bool('words%d' % i):
            tree.create_child(form='a')
        else:
            sx.reach('empty tree')
    which = sx.choice('what', ['plain', 'newdoc', 'newpar', 'text', 'comment', 'two comments', 'json'] if contents else ['plain'])
    tree = list(doc.trees)[-1]
    want = []
    if which in ('newdoc', 'newpar'):
        sx.reach(which)
        v = True
        if sx.bool('with id'):
            v = sx.str('val', 1, 2, 'text')
            sx.assume(sx.not_(v[0].isspace()))
        setattr(tree, which, v)
    elif which == 'text':
        t = sx.str('text', 0, 2, 'text')
        if len(t):
            sx.assume(sx.not_(sx.or_(t[0].isspace(), t[-1].isspace())))
        tree.text = t
    elif which in ('comment', 'two comments'):
        sx.reach('comment')
        for i in range(1 if which == 'comment' else 2):
            c = sx.str('comment%d' % i, 1, 2, 'text')
            sx.assume(sx.not_(c[-1].isspace()))
            tree.add_comment(c)
            want.append(' ' + c)
    elif which == 'json':
        sx.reach('json')
        tree.json[sx.str('key', 1, 2, 'ident')] = sx.choice('json', [1, 'a', {'x': [True, None]}, '\u2028'])
    new = check_reload(doc)
    got = [c for c in list(new.trees)[-1].comment.split('\n') if c and c[0] != '$']
    sx.check(len(got) == len(want) and all(a == b for a, b in zip(got, want)), 'comments')


@sx.harness(quick=[dict()], reach=['computed'], bounds='two words with forms of one character, space flags, no text')
def no_text():
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    for i in range(2):
        form = sx.str('form%d' % i, 1, 1, 'nospace')
        n = root.create_child(form=form)
        if sx.bool('nospace%d' % i):
            n.misc['SpaceAfter'] = 'No'
    want = root.compute_text()
    new = reload(doc)
    sx.reach('computed')
    sx.check(new.bundles[0].trees[0].text == want, 'a missing text is stored as the computed text')


@sx.harness(quick=[dict(size=3)], thorough=[dict(size=5)], reach=['file'], bounds='one word with any form of up to size characters, stored to and loaded from a file')
def files(size):
    import udapi.core.basewriter as bw
    import udapi.core.files as files
    from udapi.core.document import Document
    import io
    store = {}

    def write(name, mode='r', encoding=None, newline=None):
        sx.check(name == 'x.conllu' and encoding in ('utf-8', 'utf8') and newline == '\n', 'the file is written in UTF-8 as it is')
        out = sx.out()

        def close():
            store['text'] = out.getvalue()
        out.close = close
        return out

    def read(name, mode='r', encoding=None):
        sx.check(name == 'x.conllu' and encoding == 'utf-8-sig', 'the file is read in UTF-8')
        return io.StringIO(store['text'])

    class P:
        def __init__(self, name):
            self.parent = self

        def mkdir(self, **kw):
            pass
    bw.open, bw.Path, files.open = write, P, read
    doc = Document()
    root = doc.create_bundle().create_tree()
    root.text = 't'
    root.create_child(form=sx.str('form', 1, size, 'text'))
    doc.store_conllu('x.conllu')
    new = Document()
    new.load_conllu('x.conllu')
    sx.reach('file')
    compare(dump_tree(root), dump_tree(new.bundles[0].trees[0]))
    again = Document('x.conllu')
    compare(dump_tree(root), dump_tree(again.bundles[0].trees[0]))


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=4)], reach=['conllu', 'txt', 'refused', 'options'],
            bounds='a document made from a file whose name ends in any of seven ways and that has one line with any text of up to size characters (no white space)')
def named(size):
    import io
    import udapi.core.files as files
    from udapi.core.document import Document
    name = 'dir/a' + sx.choice('end', ['.conllu', '.txt', '.conllu.txt', '.txt.conllu', '.conll', '', '.TXT'])
    line = sx.str('line', 1, size, 'nospace')
    kind = 'conllu' if name.endswith('.conllu') else 'txt' if name.endswith('.txt') else 'refused'
    sx.reach(kind)
    opened = []

    def read(file, mode='r', encoding=None):
        opened.append(file)
        return io.StringIO('# text = ' + line + '\n1\ta' + '\t_' * 4 + '\t0\troot\t_\t_\n\n' if kind == 'conllu' else line + '\n\n')
    files.open = read
    kw = {}
    if kind == 'txt' and sx.bool('options'):
        kw['ignore_empty_lines'] = True
        sx.reach('options')
    got = []
    e = sx.raises(ValueError, lambda: got.append(Document(name, **kw)))
    sx.check((e is not None) == (kind == 'refused'), 'exactly the known kinds of files are accepted')
    if e is not None:
        sx.check(opened == [], 'a refused file is not opened')
        return
    doc = got[0]
    sx.check(opened == [name], 'the file is opened once')
    trees = list(doc.trees)
    sx.check(len(trees) == (1 if kind == 'conllu' or kw else 2) and trees[0].text == line, 'the sentences of the file')
    sx.check(len(trees[0].descendants) == (1 if kind == 'conllu' else 0), 'the words of the file')
