"""C20: mentions, their spans, heads, order and back-links."""
from udapi.core.document import Document
from udapi.core.coref import span_to_nodes, nodes_to_span
from sx import api as sx


def sentence(n, empties=(), doc=None):
    """n words; empties: number of empty nodes after each position 0..n."""
    doc = Document() if doc is None else doc
    root = doc.create_bundle().create_tree()
    for k in range(n):
        root.create_child(form='w%d' % (k + 1))
    words = [root] + list(root.descendants)
    for i, many in enumerate(empties):
        for _ in range(many):
            if i:
                words[i].create_empty_child('dep', form='e')
            else:
                e = root.create_empty_child(form='e')
                e.ord = '0.%d' % len(root.empty_nodes)
                e.raw_deps = '0:root'
    return doc, root


def subset(name, nodes, some=True):
    """Any set of the nodes, in their order."""
    chosen = [x for k, x in enumerate(nodes) if sx.bool('%s%d' % (name, k))]
    if some:
        sx.assume(bool(chosen))
    return chosen


def text_of(nodes, everything):
    """The text form of a span, by its definition."""
    parts, run = [], []
    for x in everything + [None]:
        if x is not None and any(x is y for y in nodes):
            run.append(x)
        elif run:
            parts.append(str(run[0].ord) if len(run) == 1 else '%s-%s' % (run[0].ord, run[-1].ord))
            run = []
    return ','.join(parts)


def same(a, b):
    return [id(x) for x in a] == [id(x) for x in b]


# ------------------------------------------------------------ spans
@sx.harness(quick=[dict(n=3, empties=(1, 0, 2, 0)), dict(n=2, empties=(0, 11), unreached=('all',)), dict(n=7)],
            thorough=[dict(n=3, empties=(0, 12, 1, 1), unreached=('all',)), dict(n=5, empties=(1, 0, 2, 0, 0, 1)), dict(n=11, unreached=('all',))], reach=['gap', 'all'],
            bounds='every set of the words and empty nodes of a sentence with n words and the given numbers of empty nodes after each of them '
                   '(of eleven and more empty nodes: the last five)')
def span_roundtrip(n, empties=(), unreached=()):
    doc, root = sentence(n, empties)
    nodes = root.descendants_and_empty
    many = [x for x in nodes if x.is_empty()]
    if len(many) > 10:
        always = subset('first', many[:1], False)[:1]
        free = [x for x in nodes if not any(x is y for y in many[:-5])]
    elif n > 10:
        always, free = [], nodes[3:]
    else:
        always, free = [], nodes
    chosen = subset('s', free, False)
    chosen = [x for x in nodes if any(x is y for y in chosen + always)]
    sx.assume(bool(chosen))
    span = nodes_to_span(chosen)
    sx.check(span == text_of(chosen, nodes), 'text form of a set of nodes')
    sx.check(same(span_to_nodes(root, span), chosen), 'the text form reads back as the same nodes')
    sx.check(nodes_to_span(chosen[::-1]) == span, 'the order in which the nodes are given does not matter')
    if ',' in span:
        sx.reach('gap')
    if len(chosen) == len(nodes):
        sx.reach('all')


@sx.harness(quick=[dict(size=5)], thorough=[dict(size=7)], reach=['refused', 'some', 'none'],
            bounds='every text of up to size characters out of 1, 2, 3, hyphen, comma and full stop, over three words and two empty nodes')
def span_text(size):
    doc, root = sentence(3, (0, 1, 1, 0))
    text = sx.str('span', 0, size, '123-,.')
    parts = [p for p in text.split(',')]
    want, bad = [], False
    ranges = []
    for p in parts:
        ends = p.split('-')
        if len(ends) > 2:
            bad = True
            break
        key = []
        for e in ends:
            major, dot, minor = e.partition('.')
            if major == '' or '.' in minor:
                bad = True
                break
            key.append((sx.fix(int(major)), sx.fix(int(minor)) if minor != '' else 0))
        if bad:
            break
        ranges.append((key[0], key[-1]))
    try:
        got = span_to_nodes(root, text)
    except ValueError:
        sx.check(bad, 'a valid span is read')
        sx.reach('refused')
        return
    if bad:
        # texts such as ".1" are numbers for the reader, which may take them
        sx.check('.' in text, 'a span that is no span is refused')
        return
    keys = {0: (1, 0), 1: (1, 1), 2: (2, 0), 3: (2, 1), 4: (3, 0)}
    nodes = root.descendants_and_empty
    want = [x for k, x in enumerate(nodes) if any(lo <= keys[k] <= hi for lo, hi in ranges)]
    sx.check(same(got, want), 'the nodes within the ranges')
    sx.reach('some' if want else 'none')


# ------------------------------------------------------------ order
def key(words, eid=None):
    return words[0].ord, -len(words), words[-1].ord


@sx.harness(quick=[dict(n=3, empties=(0, 1, 0)), dict(n=4, shift=True)], thorough=[dict(n=4, empties=(1, 0, 1, 0), shift=True), dict(n=5)],
            reach=['earlier', 'longer', 'eid'],
            bounds='two mentions over any sets of words and empty nodes, entities with any ids; with shift, any word was moved to any place afterwards')
def order(n, empties=(), shift=False):
    doc, root = sentence(n, empties)
    nodes = root.descendants_and_empty
    ea, eb = sx.str('a', 1, 2, 'ab'), sx.str('b', 1, 2, 'ab')
    sx.assume(ea != eb)
    A, B = doc.create_coref_entity(ea), doc.create_coref_entity(eb)
    wa, wb = subset('x', nodes), subset('y', nodes)
    a = A.create_mention(words=wa)
    b = B.create_mention(words=wb)
    if shift:
        words = root.descendants
        words[sx.choice('who', range(n))].shift_after_node(root) if sx.bool('front') else words[sx.choice('who', range(n - 1))].shift_after_node(words[n - 1])
    wa, wb = sorted(wa, key=lambda x: x.ord), sorted(wb, key=lambda x: x.ord)
    ka, kb = key(wa), key(wb)
    if ka == kb:
        less = ea < eb
        sx.reach('eid')
    else:
        less = ka < kb
        sx.reach('earlier' if ka[0] != kb[0] else 'longer')
    sx.check(sx.iff(a < b, less), 'order of two mentions')
    sx.check(sx.iff(b < a, sx.not_(less)), 'exactly one of two mentions precedes the other')
    sx.check(sx.iff(a > b, sx.not_(less)) and sx.iff(a <= b, less), 'the other comparisons')
    first, second = (a, b) if less else (b, a)
    sx.check(same(doc.coref_mentions, [first, second]), 'the mentions of the document are sorted')
    sx.check(sx.iff(A < B, less) and sx.iff(B < A, sx.not_(less)), 'entities are ordered by their first mentions')
    C, D = doc.create_coref_entity('c'), doc.create_coref_entity('d')
    sx.check(C < A and not A < C and C < D and not D < C, 'entities without mentions precede the others')


# ------------------------------------------------------------ histories
class Model:
    def __init__(self):
        self.mentions = []       # [mention, entity, words, head]


def verify(doc, root, entities, model, msg, ids=True):
    nodes = root.descendants_and_empty
    live = [m for m in model if m[1] is not None]
    for m, e, words, head in live:
        sx.check(m.entity is e, msg + ': entity of a mention')
        sx.check(same(m.words, [x for x in nodes if any(x is y for y in words)]), msg + ': words of a mention, in order')
        sx.check(m.head is head, msg + ': head of a mention')
        sx.check(any(m.head is x for x in m.words), msg + ': the head is one of the words')
        sx.check(m.span == text_of(words, nodes), msg + ': span of a mention')
    def place(m):
        w = [x for x in nodes if any(x is y for y in m[2])]
        return (w[0].ord, -len(w), w[-1].ord, m[1].eid)
    for e in entities:
        mine = sorted([m for m in live if m[1] is e], key=place)
        sx.check(sorted(id(m) for m in e.mentions) == sorted(id(m[0]) for m in mine), msg + ': mentions of an entity')
        sx.check([place([q for q in mine if q[0] is m][0]) for m in e.mentions] == [place(m) for m in mine], msg + ': the mentions of an entity are sorted')
    for x in nodes:
        mine = sorted([m for m in live if any(x is y for y in m[2])], key=place)
        sx.check(sorted(id(m) for m in x.coref_mentions) == sorted(id(m[0]) for m in mine), msg + ': mentions of a word')
        top = 4 if ids else 3
        sx.check([place([q for q in mine if q[0] is m][0])[:top] for m in x.coref_mentions] == [place(m)[:top] for m in mine], msg + ': the mentions of a word are sorted')
        sx.check(same(x.coref_entities, [m.entity for m in x.coref_mentions]), msg + ': entities of a word')
    got = doc.coref_mentions
    sx.check(len(got) == len(live) and all(any(m[0] is g for g in got) for m in live), msg + ': mentions of the document')
    sx.check([place([q for q in live if q[0] is g][0]) for g in got] == sorted(place(m) for m in live), msg + ': the mentions of the document are sorted')
    sx.check(same(doc.coref_entities, entities), msg + ': entities of the document')


def create(doc, root, entities, model, i, how=None):
    nodes = root.descendants_and_empty
    e = entities[sx.choice('entity%d' % i, range(len(entities)))]
    words = subset('m%dw' % i, nodes)
    if how == 'span':
        head = words[sx.choice('head%d' % i, range(len(words)))]
        m = e.create_mention(head=head, span=text_of(words, nodes))
    elif how == 'both':
        head = words[sx.choice('head%d' % i, range(len(words)))]
        m = e.create_mention(head=head, words=words[::-1])
    elif how == 'node':
        head, words = words[0], words[:1]
        m = e.create_mention(head=head)
    else:
        head = words[0]
        m = e.create_mention(words=list(words))
    model.append([m, e, words, head])
    return m


@sx.harness(quick=[dict(n=2, empties=(0, 1))], thorough=[dict(n=3), dict(n=2, ops=2), dict(n=3, empties=(0, 1))],
            reach=['words', 'span', 'head', 'entity', 'remove', 'refused', 'span-head', 'both', 'node', 'create-refused'],
            bounds='two entities, two mentions over any sets of words and empty nodes of one sentence, then ops edits of any kind')
def edit(n, empties=(), ops=1):
    doc, root = sentence(n, empties)
    nodes = root.descendants_and_empty
    entities = [doc.create_coref_entity(), doc.create_coref_entity('x', 'person')]
    sx.check(entities[0].eid == 'e1' and entities[0].etype is None and entities[1].eid == 'x' and entities[1].etype == 'person', 'created entities')
    model = []
    create(doc, root, entities, model, 0)
    create(doc, root, entities, model, 1)
    verify(doc, root, entities, model, 'created')
    for i in range(ops):
        if change(doc, root, entities, model, nodes, i) == 'entity':
            break


def change(doc, root, entities, model, nodes, i):
    if model[0][1] is None:
        model.reverse()
    if model[0][1] is None:
        return
    m, e, words, head = model[0]
    kind = sx.choice('op%d' % i, ['words', 'span', 'head', 'entity', 'remove', 'span-head', 'both', 'node', 'create-refused'])
    if kind in ('words', 'span'):
        new = subset('new%d' % i, nodes)
        def act():
            if kind == 'words':
                m.words = new[::-1] + new[:1]
            else:
                m.span = text_of(new, nodes)
        if any(x is head for x in new):
            act()
            model[0][2] = new
        else:
            sx.check(sx.raises(ValueError, act), 'a span without the head is refused')
            sx.reach('refused')
    elif kind == 'head':
        new = nodes[sx.choice('newhead%d' % i, range(len(nodes)))]
        if any(x is new for x in words):
            m.head = new
            model[0][3] = new
        else:
            sx.check(sx.raises(ValueError, lambda: setattr(m, 'head', new)), 'a head outside of the words is refused')
            sx.reach('refused')
    elif kind == 'entity':
        new = entities[sx.choice('newentity%d' % i, range(2))]
        m.entity = new
        model[0][1] = new
    elif kind == 'remove':
        m.remove()
        model[0][1] = None
    elif kind == 'create-refused':
        new, out = subset('new%d' % i, nodes[:-1]), nodes[-1]
        args = sx.choice('args%d' % i, [dict(words=new, head=out), dict(span=text_of(new, nodes), head=out), dict(words=new, span='1'), dict(span='1'), dict(span='x', head=out)])
        sx.check(sx.raises(ValueError, lambda: entities[0].create_mention(**args)), 'contradictory arguments are refused')
    else:
        create(doc, root, entities, model, 2 + i, {'span-head': 'span'}.get(kind, kind))
    sx.reach(kind)
    # a word does not learn that a same-span mention of it has got an entity with another id
    verify(doc, root, entities, model, kind, kind != 'entity')
    return kind


# ------------------------------------------------------------ entities
@sx.harness(quick=[dict(k=3)], thorough=[dict(k=5)], reach=['free', 'taken', 'bad', 'given'],
            bounds='any k entities whose ids are generated or given (up to three characters out of e, 1, 2 and those that are forbidden), one renamed')
def entity_ids(k):
    doc, root = sentence(1)
    ids = []
    for i in range(k):
        if sx.bool('auto%d' % i):
            e = doc.create_coref_entity()
            sx.check(e.eid[0] == 'e' and sx.and_(*[e.eid != x for x in ids]), 'a generated id is new')
            sx.reach('free')
            ids.append(e.eid)
            continue
        s = sx.str('eid%d' % i, 2, 2, 'e12-=| \t()')
        bad = sx.or_(*[c in s for c in '-=| \t()'])
        taken = sx.or_(*[s == x for x in ids])
        if sx.or_(bad, taken):
            sx.check(sx.raises(ValueError, lambda: doc.create_coref_entity(s)), 'a forbidden or used id is refused')
            sx.reach('taken' if not bad else 'bad')
            continue
        e = doc.create_coref_entity(s)
        sx.check(e.eid == s, 'given id')
        sx.reach('given')
        ids.append(s)
    got = doc.coref_entities
    sx.check(len(got) == len(ids) and [e.eid for e in got] == ids, 'entities in the order of creation')
    for e in got:
        sx.check(doc.eid_to_entity[e.eid] is e, 'the id leads to its entity')
