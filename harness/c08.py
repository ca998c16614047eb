from sx import api as sx


def sentence(n, empties):
    """n words and empty nodes after the given words."""
    t = sx.tree('t', n)
    es = []
    for w in empties:
        if w:
            es.append(t.nodes[w].create_empty_child('dep'))
        else:
            es.append(t.nodes[1].create_empty_child('dep', after=False))
    return t, es


def text(targets, rels):
    return '|'.join('%s:%s' % (x.ord, r) for x, r in zip(targets, rels)) or '_'


def agree(node, targets, rels, msg, raw_first=False):
    if raw_first:
        sx.check(node.raw_deps == text(targets, rels), msg + ': text form')
    got = node.deps
    sx.check([id(d['parent']) for d in got] == [id(x) for x in targets], msg + ': heads')
    for d, r in zip(got, rels):
        sx.check(d['deprel'] == r, msg + ': relations')
    sx.check(node.raw_deps == text(targets, rels), msg + ': text form')
    sx.check(node.deps is got, msg + ': the list of dependencies is not kept')


@sx.harness(quick=[dict(n=11, k=1), dict(n=3, k=2)], thorough=[dict(n=11, k=2), dict(n=3, k=3)], reach=['word', 'empty', 'error'],
            bounds='k dependencies; each head any text of up to 4 digits and dots, each relation up to 4 characters; n words, '
                   'empty nodes 0.1 1.1 1.2, holder a word or an empty node')
def parse(n, k):
    t, es = sentence(n, [0, 1, 1])
    by_text = {str(x.ord): x for x in t.nodes[:n + 1] + es}
    holder = sx.choice('holder', [t.nodes[2], es[1]])
    heads, rels = [], []
    for i in range(k):
        heads.append(sx.str('head%d' % i, 1, 4 if k == 1 else 3, '0123456789.' if k == 1 else '0123.'))
        rels.append(sx.str('rel%d' % i, 1, 4 if k == 1 else 2, 'value'))
    raw = '|'.join(h + ':' + r for h, r in zip(heads, rels))
    holder.raw_deps = raw
    targets = []
    for h in heads:
        found = [x for s, x in by_text.items() if h == s]
        targets += found
        if found:
            sx.reach('empty' if found[0].is_empty() else 'word')
    sx.check(holder.raw_deps == raw, 'text form before parsing')
    if len(targets) == k:
        agree(holder, targets, rels, 'after parsing')
        return
    # what is not the canonical name of a node: a number with leading zeros is accepted as a word, the rest is an error
    sx.assume(sx.and_(*[sx.or_(len(h) == 1, h[0] != '0', '.' in h) for h in heads]))
    for _ in range(2):
        e = sx.raises((ValueError, IndexError), lambda: holder.deps)
        sx.check(e is not None, 'a dependency on a missing node was accepted')
        sx.check(holder.raw_deps == raw, 'a refused dependency changed the text form')
    sx.reach('error')


@sx.harness(quick=[dict(k=2)], thorough=[dict(k=3)], reach=['raw', 'list', 'append', 'delete', 'replace', 'clear'],
            bounds='three words, empty nodes 1.1 2.1; two assignments (text, list, or changes of the list) of up to k '
                   'dependencies on any nodes with relations of up to 3 characters')
def assign(k):
    t, es = sentence(3, [1, 2])
    pool = t.nodes[:4] + es
    holder = sx.choice('holder', [t.nodes[2], es[0]])
    if holder is es[0]:
        targets, rels = [t.nodes[1]], ['dep']
    else:
        targets, rels = [], []
    for step in range(2):
        op = sx.choice('op%d' % step, ['raw', 'list', 'clear'] if step == 0 else ['raw', 'list', 'append', 'delete', 'replace', 'clear'])
        if op in ('clear', 'delete'):
            new, rel = [], []
        else:
            new = [sx.choice('to%d' % step, [t.nodes[1], es[1]] if step == 0 else pool[::2])]
            rel = [sx.str('rel%d' % step, 1, 2 if step else 3, 'value')]
        if k > 1 and op in ('raw', 'list') and step == 0:
            new += pool[1:k]
            rel += ['a:b:c', 'x'][:k - 1]
        if op == 'raw':
            holder.raw_deps = text(new, rel)
            targets, rels = new, rel
        elif op == 'list':
            holder.deps = [{'parent': x, 'deprel': r} for x, r in zip(new, rel)]
            targets, rels = new, rel
        elif op == 'append':
            holder.deps.append({'parent': new[0], 'deprel': rel[0]})
            targets, rels = targets + new, rels + rel
        elif op == 'delete':
            sx.assume(targets)
            del holder.deps[0]
            targets, rels = targets[1:], rels[1:]
        elif op == 'replace':
            sx.assume(targets)
            holder.deps[0]['parent'] = new[0]
            holder.deps[0]['deprel'] = rel[0]
            targets, rels = new + targets[1:], rel + rels[1:]
        else:
            if sx.bool('how%d' % step):
                holder.raw_deps = '_'
            else:
                holder.deps = []
            targets, rels = [], []
        sx.reach(op)
        if sx.bool('look%d' % step) or step == 1:
            agree(holder, targets, rels, 'after ' + op, raw_first=sx.bool('raw_first%d' % step))
    for x in t.nodes[:4]:
        if x is not holder:
            sx.check(x.raw_deps == '_' and x.deps == [], 'dependencies of another node changed')


@sx.harness(quick=[dict()], reach=['append', 'delete', 'replace', 'clear', 'shift', 'assign'],
            bounds='three words, empty nodes 1.1 2.1; a text of one or two dependencies is assigned, read or not, the list or the order of '
                   'words is changed, the same text (or the same list) is assigned again')
def restore():
    t, es = sentence(3, [1, 2])
    pool = [t.nodes[0], t.nodes[3], es[1]]
    holder = sx.choice('holder', [t.nodes[2], es[0]])
    targets = [sx.choice('to', pool)] + ([t.nodes[1]] if sx.bool('two') else [])
    rels = [sx.str('rel', 1, 2, 'value'), 'a:b'][:len(targets)]
    raw = text(targets, rels)
    holder.raw_deps = raw
    if sx.bool('look'):
        agree(holder, targets, rels, 'after the first assignment')
    op = sx.choice('op', ['append', 'delete', 'replace', 'clear', 'shift', 'assign'])
    if op == 'append':
        holder.deps.append({'parent': t.nodes[1], 'deprel': 'new'})
    elif op == 'delete':
        del holder.deps[0]
    elif op == 'replace':
        holder.deps[0]['parent'] = t.nodes[1]
        holder.deps[0]['deprel'] = 'new'
    elif op == 'clear':
        holder.deps.clear()
    elif op == 'assign':
        holder.deps = [{'parent': t.nodes[1], 'deprel': 'new'}]
    else:
        holder.deps
        t.nodes[3].shift_before_node(t.nodes[1], without_children=True)
        sx.check(holder.raw_deps == text(targets, rels), 'text form after the shift')
        names = {str(x.ord): x for x in t.nodes[:4] + es}
        before = {id(t.nodes[0]): '0', id(t.nodes[1]): '1', id(t.nodes[3]): '3', id(es[1]): '2.1'}
        old = [before[id(x)] for x in targets]
        sx.assume(all(o in names for o in old))
        targets = [names[o] for o in old]       # the same text now names other words
    sx.reach(op)
    if sx.bool('look again') and op != 'shift':
        holder.raw_deps
    holder.raw_deps = raw
    agree(holder, targets, rels, 'after the second assignment', raw_first=sx.bool('raw first'))


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)],
            reach=['shift', 'shift subtree', 'insert', 'remove', 'insert empty', 'remove empty', 'before node'],
            bounds='n words in a tree of any shape, empty nodes 0.1 1.1 2.1, parsed dependencies of a word and of an empty node on '
                   'any node, then one edit of the sentence')
def after_edit(n):
    t, es = sentence(n, [0, 1, 2])
    pool = t.nodes[:n + 1] + es
    a, b = t.nodes[2], es[1]
    rel = sx.str('rel', 1, 3, 'value')
    x, y = sx.choice('to', pool), sx.choice('to2', pool[:3] + es[:1])
    a.deps = [{'parent': x, 'deprel': rel}, {'parent': b, 'deprel': 'p:q:r'}]
    b.raw_deps = '%s:%s|%s:x' % (y.ord, rel, a.ord)
    b.deps
    op = sx.choice('op', ['shift', 'shift subtree', 'insert', 'remove', 'insert empty', 'remove empty', 'before node'])
    gone = []
    if op in ('shift', 'shift subtree'):
        i, j = sx.choice('moved', range(1, n + 1)), sx.choice('ref', range(1, n + 1))
        if op == 'shift':
            sx.assume(i != j)
            t.nodes[i].shift_after_node(t.nodes[j], without_children=True)
        else:
            sx.assume(sx.and_(i != j, sx.not_(t.anc(i, j))))
            t.nodes[i].shift_before_subtree(t.nodes[j])
    elif op == 'before node':
        i = sx.choice('moved', range(2, n + 1))
        t.nodes[i].shift_before_node(t.nodes[1], without_children=True)
    elif op == 'insert':
        new = t.root.create_child(form='new')
        new.shift_before_node(t.nodes[sx.choice('ref', range(1, n + 1))])
    elif op == 'remove':
        i = sx.choice('removed', [1, 3])
        t.nodes[i].remove(children='rehang')
        gone = [t.nodes[i]]
    elif op == 'insert empty':
        t.nodes[sx.choice('ref', range(1, n + 1))].create_empty_child('dep', after=sx.bool('after'))
    else:
        gone = [es[sx.choice('removed', [0, 2])]]
        gone[0].remove()
    sx.reach(op)
    for z in (x, y):
        if z in gone and not z.is_empty():
            return                  # what becomes of a dependency on a removed word is not claimed
    pairs = [(z, r) for z, r in ((x, rel), (b, 'p:q:r')) if z not in gone]
    agree(a, [z for z, _ in pairs], [r for _, r in pairs], 'word after ' + op, raw_first=True)
    pairs = [(z, r) for z, r in ((y, rel), (a, 'x')) if z not in gone]
    agree(b, [z for z, _ in pairs], [r for _, r in pairs], 'empty node after ' + op, raw_first=True)
    # reading the text form again finds the same nodes
    raw = a.raw_deps
    want = [id(d['parent']) for d in a.deps]
    a.raw_deps = raw
    sx.check([id(d['parent']) for d in a.deps] == want, 'the text form does not name the same nodes')


@sx.harness(quick=[dict(m=3)], thorough=[dict(m=11)], reach=['of a word', 'of an empty node'],
            bounds='m empty nodes before or after the first of two words, a dependency of any node on any other still in text form, with any relation of up to two characters; one empty '
                   'node created before or after any node')
def insert_raw(m):
    t = sx.tree('t', 2)
    after = sx.bool('side')
    es = [t.nodes[1].create_empty_child('dep', after=after) for _ in range(m)]
    es.sort(key=lambda e: int(str(e.ord).split('.')[1]))
    some = es if m < 6 else [es[0], es[8], es[9], es[-1]]
    holder = sx.choice('holder', t.nodes[1:] + some[:1] + some[-1:])
    x = sx.choice('to', t.nodes + some)
    rel = sx.str('rel', 1, 2, 'value')
    holder.raw_deps = '%s:%s' % (x.ord, rel)
    at = sx.choice('at', t.nodes[1:] + some)
    at.create_empty_child('dep', after=sx.bool('after'))
    sx.reach('of an empty node' if at.is_empty() else 'of a word')
    agree(holder, [x], [rel], 'after inserting', raw_first=True)
