from sx import api as sx

POLICIES = ['process', 'skip', 'skip_warn', 'delete', 'fail']


def build(bundles, zones, shapes):
    """A document; shapes[b][z] is None (no such tree) or the number of words, negative: words and an empty node."""
    from udapi.core.document import Document
    doc = Document()
    for b in range(bundles):
        bundle = doc.create_bundle()
        for z in zones:
            w = shapes[b][z]
            if w is None:
                continue
            root = bundle.create_tree(zone=z)
            prev = root
            for i in range(abs(w)):
                prev = prev.create_child(form='%d%s%d' % (b, z, i))
            if w < 0:
                prev.create_empty_child('dep', form='%d%sE' % (b, z))
    return doc


def make_block(kind, log, edit=None, **kw):
    from udapi.core.block import Block
    if kind == 'node':
        class B(Block):
            def process_node(self, node):
                log.append(node)
                if edit:
                    edit(node)
    elif kind == 'empty':
        class B(Block):
            def process_empty_node(self, node):
                log.append(node)
    elif kind == 'both':
        class B(Block):
            def process_node(self, node):
                log.append(node)

            def process_empty_node(self, node):
                log.append(node)
    elif kind == 'tree':
        class B(Block):
            def process_tree(self, tree):
                log.append(tree)
    elif kind == 'tree+node':
        class B(Block):
            def process_tree(self, tree):
                super().process_tree(tree)

            def process_node(self, node):
                log.append(node)
    elif kind == 'bundle':
        class B(Block):
            def process_bundle(self, bundle):
                log.append(bundle)
    else:
        class B(Block):
            def process_bundle(self, bundle):
                super().process_bundle(bundle)

            def process_tree(self, tree):
                log.append(tree)
    return B(**kw)


@sx.harness(quick=[dict(bundles=2)], thorough=[dict(bundles=3)],
            reach=['node', 'tree', 'empty', 'both', 'bundle', 'tree+node', 'bundle+tree', 'fail', 'delete', 'skip'],
            bounds='documents of the given number of bundles with zones (none), a and ab, each tree missing, empty, with two words or with a word and an '
                   'empty node; any zone list of up to 4 characters (2 for blocks other than tree blocks), every policy for empty trees, every kind of block')
def visits(bundles):
    kind = sx.choice('kind', ['node', 'tree', 'empty', 'both', 'bundle', 'tree+node', 'bundle+tree'])
    policy = sx.choice('policy', POLICIES)
    names = ['', 'a', 'ab']
    zones = 'all' if sx.bool('all zones') else sx.str('zones', 0, 4 if kind == 'tree' else 2, 'abc,')
    shapes = [{z: None for z in names} for _ in range(bundles)]
    shapes[0] = {'': 2, 'a': sx.choice('0a', [None, 0, -1]), 'ab': sx.choice('0b', [0, 2])}
    shapes[1] = {'': sx.choice('1', [None, 0, -1]), 'a': -1, 'ab': None}
    if bundles > 2:
        shapes[2] = {'': None, 'a': sx.choice('2a', [None, 0, 2]), 'ab': sx.choice('2b', [0, -1])}
    doc = build(bundles, names, shapes)
    trees = [t for b in doc.bundles for t in b.trees]
    keep_bundles = list(doc.bundles)
    wanted = ['' if zones == '' else None] if zones == '' else zones.split(',')
    want, left, failed = [], [], False
    for t in trees:
        empty = len(t.descendants) == 0
        chosen = zones == 'all' or sx.or_(*[sx.eq(t.zone, z) for z in wanted])
        if kind == 'bundle':
            left.append(t)
            continue
        if empty and policy == 'fail':
            failed = True
            break
        if empty and policy == 'delete':
            continue
        left.append(t)
        if empty and policy.startswith('skip') or not chosen:
            continue
        if kind in ('tree', 'bundle+tree'):
            want.append(t)
        if kind in ('node', 'both', 'tree+node'):
            want += t.descendants
        if kind in ('empty', 'both'):
            want += t.empty_nodes
    if kind == 'bundle':
        want = keep_bundles
    sx.reach(kind)
    log = []
    block = make_block(kind, log, zones=zones, if_empty_tree=policy)
    if failed:
        # what was seen before the failure is not specified beyond its order
        sx.check(sx.raises(Exception, lambda: block.apply_on_document(doc)) is not None, 'an empty tree does not fail')
        sx.check([id(x) for x in log] == [id(x) for x in want], 'visited before the failure')
        sx.reach('fail')
        return
    block.apply_on_document(doc)
    if policy in ('delete', 'skip'):
        sx.reach(policy)
    sx.check([id(x) for x in log] == [id(x) for x in want], 'visited objects')
    sx.check([id(t) for b in doc.bundles for t in b.trees] == [id(t) for t in left], 'trees left in the document')
    sx.check([id(b) for b in doc.bundles] == [id(b) for b in keep_bundles], 'bundles left in the document')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['remove', 'create', 'shift', 'rehang'],
            bounds='a block that edits the tree of n words of any shape while it visits it, at any word')
def editing(n):
    t = sx.tree('t', n)
    root = t.root
    at = sx.choice('at', range(1, n + 1))
    what = sx.choice('what', ['remove', 'create', 'create first', 'shift', 'rehang'])
    order = list(root.descendants)
    log = []

    def edit(node):
        if node is not t.nodes[at] or log.count(node) > 1:
            return
        if what == 'remove':
            node.remove(children='rehang')
        elif what == 'create':
            node.create_child(form='new')
        elif what == 'create first':
            node.create_child(form='new').shift_before_node(order[0])
        elif what == 'shift':
            if node is not order[0]:
                node.shift_before_node(order[0], without_children=True)
        else:
            for c in list(node.children):
                c.parent = root
    kind = sx.choice('kind', ['node', 'tree+node'])
    from udapi.core.block import Block

    class B(Block):
        def process_node(self, node):
            log.append(node)
            edit(node)

    class C(B):
        def process_tree(self, tree):
            super().process_tree(tree)
    (B if kind == 'node' else C)().apply_on_document(t.doc)
    sx.reach('create' if what.startswith('create') else what)
    sx.check([id(x) for x in log] == [id(x) for x in order], 'words visited while editing')


@sx.harness(quick=[dict()], reach=['tree', 'bundle', 'nothing'],
            bounds='a block that removes any tree or bundle of a document with 3 bundles of two zones while it visits it; a block that does nothing')
def removing():
    from udapi.core.block import Block
    doc = build(3, ['', 'a'], [{'': 1, 'a': 1}] * 3)
    trees = [t for b in doc.bundles for t in b.trees]
    victims = [i for i in range(6) if sx.bool('remove%d' % i)]
    what = sx.choice('what', ['tree', 'bundle', 'nothing'])
    sx.reach(what)
    log = []
    if what == 'nothing':
        sx.check(sx.raises(Exception, lambda: Block().apply_on_document(doc)) is not None, 'a block without any processing is accepted')
        return
    if what == 'tree':
        class B(Block):
            def process_tree(self, tree):
                log.append(tree)
                if trees.index(tree) in victims:
                    tree.remove()
        B().apply_on_document(doc)
        sx.check([id(x) for x in log] == [id(x) for x in trees], 'trees visited while removing')
        sx.check([id(t) for b in doc.bundles for t in b.trees] == [id(t) for i, t in enumerate(trees) if i not in victims], 'trees left')
    else:
        bundles = list(doc.bundles)

        class B(Block):
            def process_bundle(self, bundle):
                log.append(bundle)
                if bundles.index(bundle) in victims:
                    bundle.remove()
        B().apply_on_document(doc)
        sx.check([id(x) for x in log] == [id(x) for x in bundles], 'bundles visited while removing')
        sx.check([id(b) for b in doc.bundles] == [id(b) for i, b in enumerate(bundles) if i not in victims], 'bundles left')


@sx.harness(quick=[dict()], thorough=[dict(n=4)], reach=['entity', 'mention', 'entity calls mentions'],
            bounds='up to n mentions in two entities on three words, visited by blocks for entities and for mentions')
def coreference(n=3):
    from udapi.core.block import Block
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    words = [root.create_child(form='w%d' % i) for i in range(3)]
    ents = [doc.create_coref_entity('e1'), doc.create_coref_entity('e2')]
    for i in range(n):
        e = sx.choice('entity%d' % i, [0, 1]) if i > 1 else i
        ents[e].create_mention(words=[words[sx.choice('word%d' % i, [0, 1, 2])]])
    kind = sx.choice('kind', ['entity', 'mention', 'entity calls mentions', 'both'])
    log = []

    class M(Block):
        def process_coref_mention(self, mention):
            log.append(mention)

    class E(Block):
        def process_coref_entity(self, entity):
            log.append(entity)

    class EM(M):
        def process_coref_entity(self, entity):
            super().process_coref_entity(entity)
    want = list(ents) if kind in ('entity', 'both') else [m for e in ents for m in e.mentions]

    class Both(M):
        def process_coref_entity(self, entity):
            log.append(entity)
    {'entity': E, 'mention': M, 'entity calls mentions': EM, 'both': Both}[kind]().apply_on_document(doc)
    if kind != 'both':
        sx.reach(kind)
    sx.check([id(x) for x in log] == [id(x) for x in want], 'visited entities or mentions')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['removed', 'moved', 'reordered', 'added'],
            bounds='n mentions of one entity and one of another; a block for mentions that removes any of them, gives one to the other entity, moves one to other words or creates one')
def coreference_edits(n):
    from udapi.core.block import Block
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    words = [root.create_child(form='w%d' % i) for i in range(n + 1)]
    first, second = doc.create_coref_entity('e1'), doc.create_coref_entity('e2')
    ms = [first.create_mention(words=[words[i]]) for i in range(n)]
    last = second.create_mention(words=[words[n]])
    kind = sx.choice('kind', ['removed', 'moved', 'reordered', 'added'])
    when = sx.choice('when', range(n))
    victims = [m for i, m in enumerate(ms) if sx.bool('victim%d' % i)] if kind == 'removed' else []
    log, new = [], []

    class M(Block):
        def process_coref_mention(self, mention):
            log.append(mention)
            if mention in victims:
                mention.remove()
            if mention is ms[when]:
                if kind == 'moved':
                    mention.entity = second
                elif kind == 'reordered':
                    mention.words = [mention.head] + words[n:]
                    first._mentions.sort()
                elif kind == 'added':
                    new.append(first.create_mention(words=[words[0], words[1]]))
    M().apply_on_document(doc)
    sx.reach(kind)
    got = [id(x) for x in log]
    for m in ms + [last]:
        sx.check(got.count(id(m)) == (2 if kind == 'moved' and m is ms[when] and got.count(id(m)) == 2 else 1), 'every mention is visited')
    sx.check(len([x for x in log if x not in ms and x is not last]) == 0, 'no other mention is visited')
    sx.check([id(x) for x in log if x.entity is first or x in victims][:len(ms)] == [id(m) for m in ms if m.entity is first or m in victims], 'order of the visits')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['removed', 'added', 'moved'],
            bounds='n empty nodes in one of two trees; a block for empty nodes that removes any of them, creates another one at one of them or turns their order')
def empty_edits(n):
    from udapi.core.block import Block
    doc = build(2, [''], [{'': -1}, {'': 2}])
    root = doc.bundles[0].trees[0]
    words = root.descendants
    while len(root.empty_nodes) < n:
        words[0].create_empty_child('dep', form='E%d' % len(root.empty_nodes))
    nodes = list(root.empty_nodes)
    with_words = sx.bool('with words')
    kind = sx.choice('kind', ['removed', 'added', 'moved'])
    when = sx.choice('when', range(n)) if kind != 'removed' else 0
    victims = [x for i, x in enumerate(nodes) if sx.bool('victim%d' % i)] if kind == 'removed' else []
    sx.reach(kind)
    log = []

    class B(Block):
        def process_empty_node(self, node):
            if len(log) > 3 * n:
                sx.fail('endless processing')
            log.append(node)
            if node in victims:
                root.empty_nodes.remove(node)
            if node is nodes[when] and kind == 'added':
                words[0].create_empty_child('dep', form='new')
            if node is nodes[when] and kind == 'moved':
                root.empty_nodes.reverse()

    class C(B):
        def process_node(self, node):
            log.append(node)
    (C if with_words else B)().apply_on_document(doc)
    want = [id(x) for x in words] * with_words + [id(x) for x in nodes]
    if with_words:
        want += [id(x) for x in doc.bundles[1].trees[0].descendants]
    sx.check([id(x) for x in log] == want, 'empty nodes visited while editing')
    sx.check([id(x) for x in root.empty_nodes if x in nodes] == [id(x) for x in (reversed(nodes) if kind == 'moved' else nodes) if x not in victims], 'empty nodes left')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['doc', 'bundle', 'tree', 'node', 'mwt', 'around', 'empty', 'shortcut', 'entities', 'removing'],
            bounds='util.Eval with code at every position (start, before and after documents and bundles, documents, bundles, trees, nodes, multi-word tokens, '
                   'entities, mentions, end), any one or all of them, over two documents of two bundles and three trees with words in any head assignment, an empty '
                   'node and a multi-word token; any zone list of one zone')
def evaluated(n):
    import udapi.block.util.eval as module
    from udapi.block.util.eval import Eval
    import udapi.core.coref as coref
    coref.highest_doc_n = 0
    from udapi.core.document import Document
    log, sentences = [], []
    docs = []
    for d in range(2):
        t = sx.tree('d%d' % d, n) if d == 0 else sx.tree('d1', 1)
        doc = t.doc
        other = doc.create_bundle()
        empty = other.create_tree()
        second = other.create_tree(zone='b')
        w = second.create_child(form='x', deprel='root')
        v = second.create_child(form='y', deprel='root')
        e = v.create_empty_child('dep', form='E')
        second.create_multiword_token([w, v], form='xy')
        e1, e2 = doc.create_coref_entity('e1'), doc.create_coref_entity('e2')
        m1 = e1.create_mention(words=[w], head=w)
        m2 = e2.create_mention(words=[w, v], head=w)
        m3 = e2.create_mention(words=[v], head=v)
        docs.append((doc, t.root, second, [w, v], e, (e1, e2), empty))
    kind = sx.choice('kind', ['doc', 'bundle', 'tree', 'node', 'mwt', 'around', 'empty', 'shortcut', 'entities', 'removing', 'all'])
    zones = sx.choice('zones', ['all', 'b', ''])
    module.LOG = log
    put = "LOG.append((%r, this))"
    kw = {}
    everything = kind == 'all'
    around = ['before_doc', 'after_doc', 'before_bundle', 'after_bundle', 'start', 'end']
    if kind == 'around':
        around = [sx.choice('around', around)]
    for name in ['doc', 'bundle', 'tree', 'node', 'mwt'] + around:
        if everything or kind == name or name in around and kind == 'around':
            kw[name] = "LOG.append((%r, None))" % name if name in ('start', 'end') else put % name
    if kind == 'empty' or everything:
        kw['node'] = put % 'node'
        kw['empty_nodes'] = True
    if kind == 'entities' or everything:
        kw['coref_entity'] = put % 'entity'
        kw['coref_mention'] = put % 'mention'
    if kind == 'shortcut':
        kw['node'] = "count_$.form += 1; count_'all' += 1; LOG.append(('node', $.root.bundle.document.bundles and this))"
    if kind == 'removing':
        kw['node'] = "LOG.append(('node', node)); this.remove(children='rehang')"
        kw['tree'] = put % 'tree'
    if not everything:
        sx.reach(kind)
    block = Eval(zones=zones, **kw)
    want = []

    def wish(name, obj):
        if name in kw:
            want.append((name, obj))
    wish('start', None)
    for doc, root, second, (w, v), e, (e1, e2), empty in docs:
        wish('before_doc', doc)
        wish('doc', doc)
        if set(kw) & {'bundle', 'before_bundle', 'after_bundle', 'tree', 'node', 'mwt'}:
            for bundle in doc.bundles:
                wish('before_bundle', bundle)
                wish('bundle', bundle)
                for tree in bundle.trees:
                    if zones != 'all' and tree.zone != zones:
                        continue
                    wish('tree', tree)
                    for node in (tree.descendants_and_empty if kw.get('empty_nodes') else tree.descendants):
                        wish('node', node)
                    for mwt in tree.multiword_tokens:
                        wish('mwt', mwt)
                wish('after_bundle', bundle)
        if 'coref_entity' in kw:
            # entities by their first mentions, as the document lists them
            for entity in doc.coref_entities:
                want.append(('entity', entity))
                for mention in entity.mentions:
                    want.append(('mention', mention))
        wish('after_doc', doc)
    wish('end', None)
    forms = [x.form for name, x in want if name == 'node']
    block.process_start()
    for doc, *_ in docs:
        block.apply_on_document(doc)
    block.process_end()
    sx.check([(a, id(b)) for a, b in log] == [(a, id(b)) for a, b in want], 'what the code of util.Eval was run on')
    if kind == 'shortcut':
        sx.check(block.count['all'] == len(forms) and all(block.count[f] == forms.count(f) for f in forms)
                 and sum(block.count.values()) == 2 * len(forms), 'counts')
    if kind == 'removing' and zones == 'all':
        sx.check(all(not t.descendants for doc, *_ in docs for b in doc.bundles for t in b.trees), 'a word left')
