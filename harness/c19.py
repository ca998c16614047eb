"""C19: coreference annotation is stored and loaded."""
from itertools import permutations

from udapi.core.document import Document
from udapi.core.coref import store_coref_to_misc
from sx import api as sx
from harness.c20 import sentence, subset, text_of, same


def twin(doc, empties=()):
    """A document with the same words and MISC columns, whose coreference has not been loaded yet."""
    new = Document()
    new.meta['global.Entity'] = doc.meta['global.Entity']
    for bundle in doc:
        for old in bundle.trees:
            sentence(len(old.descendants), empties, new)
            tree = new.bundles[-1].trees[0]
            tree.newdoc = old.newdoc
            for a, b in zip(old.descendants_and_empty, tree.descendants_and_empty):
                b.misc = str(a.misc)
    return new


def place(m):
    return (m.head.root.bundle.number, m.words[0].ord, -len(m.words), m.words[-1].ord)


def expected(entities, model):
    """What is to be loaded: for each entity its id, type and mentions as (sentence, span, head, other)."""
    out = []
    for e in entities:
        mine = [m for m in model if m.entity is e]
        if mine:
            out.append((e, mine))
    return out


def compare(new, doc, msg):
    got = new.coref_entities
    want = [e for e in doc.coref_entities if e.mentions]
    sx.check(len(got) == len(want), msg + ': number of entities')
    for e in want:
        g = [x for x in got if x.eid == e.eid]
        sx.check(len(g) == 1, msg + ': entity with the id')
        g = g[0]
        sx.check(sx.eq(g.etype or '', e.etype or ''), msg + ': type of the entity')
        a, b = sorted(e.mentions, key=place), sorted(g.mentions, key=place)
        sx.check([(place(m), m.span) for m in a] == [(place(m), m.span) for m in b], msg + ': spans of the mentions')
        for x, y in zip(a, b):
            sx.check(y.head.ord == x.head.ord, msg + ': head of a mention')
            sx.check(sx.eq(str(y.other), str(x.other)), msg + ': attributes of a mention')
            sx.check(y.entity is g, msg + ': entity of a mention')
    backlinks(new, msg)
    first = [min(place(m) for m in g.mentions) for g in got]
    sx.check(first == sorted(first), msg + ': entities in the order of their first mentions')


def backlinks(doc, msg):
    every = [m for e in doc.coref_entities for m in e.mentions]
    for x in doc.nodes_and_empty:
        mine = [m for m in every if any(x is y for y in m.words)]
        sx.check(len(x.coref_mentions) == len(mine) and all(any(m is q for q in x.coref_mentions) for m in mine), msg + ': each word lists exactly the mentions that cover it')
        sx.check([place(m) for m in x.coref_mentions] == sorted(place(m) for m in mine), msg + ': mentions of a word are sorted')


def hull(words, nodes):
    pos = [k for k, x in enumerate(nodes) if any(x is y for y in words)]
    return pos[0], pos[-1]


def representable(a, b, nodes):
    """Two mentions of one entity that the format can distinguish: apart, or continuous and nested."""
    (i, j), (k, l) = hull(a, nodes), hull(b, nodes)
    if j < k or l < i:
        return True
    if same(a, b):
        return False
    ca, cb = len(a) == j - i + 1, len(b) == l - k + 1
    sa, sb = set(id(x) for x in a), set(id(x) for x in b)
    return (ca or cb) and (sa <= sb or sb <= sa or not sa & sb)


def strings(doc):
    return [str(x.misc) for x in doc.nodes_and_empty]


def roundtrip(doc, empties, msg):
    store_coref_to_misc(doc)
    new = twin(doc, empties)
    compare(new, doc, msg)
    before = strings(doc)
    store_coref_to_misc(new)
    sx.check(sx.and_(*[sx.eq(a, b) for a, b in zip(strings(new), before)]), msg + ': the text stays when it is loaded and stored')
    store_coref_to_misc(doc)
    sx.check(sx.and_(*[sx.eq(a, b) for a, b in zip(strings(doc), before)]), msg + ': storing twice changes nothing')
    return new


@sx.harness(quick=[dict(n=4, k=2), dict(n=2, k=2, empties=(1, 1, 1), unreached=()), dict(n=3, k=3)],
            thorough=[dict(n=5, k=2), dict(n=4, k=3), dict(n=2, k=3, empties=(0, 1, 1))],
            reach=['nested', 'crossing', 'discontinuous', 'single', 'same-entity', 'same-span', 'nested-same'],
            bounds='every k mentions with any sets of words and empty nodes of a sentence, of one or of different entities (two mentions of one entity are not both discontinuous unless one ends before the other starts, do not cross and have different spans)')
def spans(n, k, empties=(), unreached=()):
    doc, root = sentence(n, empties)
    nodes = root.descendants_and_empty
    entities = [doc.create_coref_entity('e%d' % i) for i in range(k)]
    all_words = []
    for i in range(k):
        e = entities[sx.choice('entity%d' % i, range(i + 1))]
        words = subset('m%dw' % i, nodes)
        for f, other in all_words:
            if f is e:
                sx.assume(representable(words, other, nodes))
                sx.reach('same-entity')
                (a, b), (c, d) = hull(words, nodes), hull(other, nodes)
                if not (b < c or d < a):
                    sx.reach('nested-same')
            elif same(words, other):
                sx.reach('same-span')
            else:
                (a, b), (c, d) = hull(words, nodes), hull(other, nodes)
                if a < c <= b < d:
                    sx.reach('crossing')
                elif a <= c and d <= b:
                    sx.reach('nested')
        all_words.append((e, words))
        if len(words) == 1:
            sx.reach('single')
        m = e.create_mention(words=words, head=words[sx.choice('head%d' % i, [0, len(words) - 1] if len(words) > 1 else [0])])
        if ',' in m.span:
            sx.reach('discontinuous')
    roundtrip(doc, empties, 'spans')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5), dict(n=4, empties=(0, 1))], reach=['reordered', 'same-entity'],
            bounds='two mentions with any continuous spans of a sentence with n words, after any word was shifted to any place (mentions of one entity as for spans)')
def shifted(n, empties=()):
    doc, root = sentence(n, empties)
    nodes = root.descendants_and_empty
    entities = [doc.create_coref_entity('e%d' % i) for i in range(2)]
    mentions = []
    for i in range(2):
        e = entities[sx.choice('entity%d' % i, range(i + 1))]
        a = sx.choice('from%d' % i, range(len(nodes)))
        b = sx.choice('to%d' % i, range(a, len(nodes)))
        mentions.append(e.create_mention(words=nodes[a:b + 1], head=nodes[sx.choice('head%d' % i, sorted({a, b}))]))
    old = [m.span for m in mentions]
    w = root.descendants
    x = sx.choice('who', range(n))
    y = sx.choice('where', [k for k in range(n) if k != x])
    w[x].shift_after_node(w[y]) if x < y else w[x].shift_before_node(w[y])
    now = root.descendants_and_empty
    if mentions[0].entity is mentions[1].entity:
        sx.assume(representable(mentions[0].words, mentions[1].words, now))
        sx.reach('same-entity')
    if [m.span for m in mentions] != old:
        sx.reach('reordered')
    # the mentions of an entity are listed in the order at the time when they were changed last
    roundtrip(doc, [sum(1 for e in root.empty_nodes if str(e.ord).split('.')[0] == str(k)) for k in range(n + 1)], 'shifted')


# ------------------------------------------------------------ attributes
HEADERS = ['eid-etype-head-other', 'eid-etype-head-minspan-infstat-other', 'etype-eid-minspan-other-head', 'eid-head', 'entity-eid-head-infstat']


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=3)], reach=['named', 'both', 'plain', 'no-type', 'attribute'],
            bounds='two mentions of different entities with ids of up to size characters, types of up to size characters, up to two further attributes with values of up to size characters, every of five headers; '
                   'values have no hyphens, brackets, bars and commas, keys no colons; attributes for which the header has no place are not given')
def attributes(size):
    doc, root = sentence(2)
    nodes = root.descendants
    header = sx.choice('header', HEADERS)
    doc.meta['global.Entity'] = header
    fields = header.split('-')
    a = sx.str('eid', 1, size, 'ident')
    sx.assume(sx.and_(*[sx.not_(c in a) for c in '[]<,:|-=']))
    etype = sx.str('etype', 0, size, 'value') if 'etype' in fields or 'entity' in fields else ''
    sx.assume(sx.and_(*[sx.not_(c in etype) for c in '()|-= ']))
    A = doc.create_coref_entity('x', 'q' if etype != '' else None)
    sx.assume(a != 'x')
    B = doc.create_coref_entity(a, etype)
    m = A.create_mention(words=nodes[:sx.choice('many', [1, 2])])
    named = [f for f in fields if f in ('minspan', 'infstat')]
    values = dict(eid=a, etype=etype, entity=etype, head='2')
    n = B.create_mention(words=nodes, head=nodes[1])
    both = [False, False]
    for i, name in enumerate(named):
        if sx.bool('give%d' % i):
            v = sx.str('value%d' % i, 1, size, 'ab,:')
            n.other[name] = v
            values[name] = v
            sx.reach('named')
            both[0] = True
    if 'other' in fields and sx.bool('giveother'):
        k = 'head' if sx.bool('same name') else sx.str('key', 1, size, 'abc')
        v = sx.str('value', 1, size, 'value')
        sx.assume(sx.and_(*[sx.not_(c in v) for c in '()|-,']))
        n.other[k] = v
        values['other'] = k + ':' + v
        sx.reach('attribute')
        both[1] = True
    if all(both):
        sx.reach('both')
    if etype == '':
        sx.reach('no-type')
    if not any(both):
        sx.reach('plain')
    roundtrip(doc, (), 'attributes')
    def chunk(values):
        parts = [values.get(f, '') for f in fields]
        while parts[-1] == '':
            parts.pop()
        return '(' + '-'.join(parts)
    mine, first = chunk(values), chunk(dict(eid='x', etype='q' if etype != '' else '', entity='q' if etype != '' else '', head='1'))
    entity = nodes[0].misc['Entity']
    if len(m.words) == 1:
        sx.check(entity == mine + first + ')', 'the attribute of the first word')
    else:
        sx.check(entity == (mine + first if a < 'x' else first + mine), 'the attribute of the first word')


# ------------------------------------------------------------ whole files


# ------------------------------------------------------------ canonical text
@sx.harness(quick=[dict(n=3, k=3), dict(n=4, k=2, attributes=True, unreached=('two single', 'before', 'after'))],
            thorough=[dict(n=4, k=3), dict(n=3, k=4), dict(n=3, k=3, attributes=True)],
            reach=['two single', 'before', 'after', 'discontinuous', 'nested', 'both'],
            bounds='every k mentions of different entities over any sets of words of a sentence of n words (of parts with several words no two are the same), with a type and an attribute of one character each where attributes are included')
def brackets(n, k, attributes=False, unreached=()):
    """Rules 1-4 of udapi/core/coref.py: the chunks of a word and their order."""
    doc, root = sentence(n)
    nodes = root.descendants
    parts = []
    for i in range(k):
        e = doc.create_coref_entity('e%d' % i)
        words = subset('m%dw' % i, nodes)
        head = sx.choice('head%d' % i, [0, len(words) - 1] if len(words) > 1 else [0])
        m = e.create_mention(words=words, head=words[head])
        rest = ''
        if attributes:
            e.etype = sx.str('type%d' % i, 1, 1, 'field')
            sx.assume(sx.and_(*[e.etype != c for c in '-()|_:,%']))
            value = sx.str('value%d' % i, 1, 1, 'field')
            sx.assume(sx.and_(*[value != c for c in '-()|_:,%']))
            m.other['k'] = value
            rest = '-k:' + value
        chunks = []
        for x in words:
            if chunks and x.ord == chunks[-1][-1] + 1:
                chunks[-1].append(x.ord)
            else:
                chunks.append([x.ord])
        for j, c in enumerate(chunks):
            name = 'e%d' % i if len(chunks) == 1 else 'e%d[%d/%d]' % (i, j + 1, len(chunks))
            parts.append((c[0], c[-1], name, '(' + name + '-' + (e.etype if attributes else '') + '-%d' % (head + 1) + rest))
            if len(chunks) > 1:
                sx.reach('discontinuous')
    long_parts = [p[:2] for p in parts if p[0] != p[1]]
    sx.assume(len(set(long_parts)) == len(long_parts))
    store_coref_to_misc(doc)
    for x in nodes:
        closing = ''.join(p[2] + ')' for p in sorted(parts, key=lambda p: -p[0]) if p[1] == x.ord != p[0])
        opening = [p for p in sorted(parts, key=lambda p: -p[1]) if p[0] == x.ord != p[1]]
        single = [p for p in parts if p[0] == x.ord == p[1]]
        got = str(x.misc['Entity'])
        opened = ''
        for p in opening:
            opened = opened + p[3]
        if len(opening) > 1:
            sx.reach('nested')
        if closing and opening:
            sx.reach('both')
        if len(single) > 1:
            sx.reach('two single')
        if single and closing:
            sx.reach('after' if opening else 'before')
        possible = []
        for order in permutations(single):
            singles = ''
            for p in order:
                singles = singles + p[3] + ')'
            possible.append(closing + opened + singles if opening else singles + closing)
        sx.check(sx.or_(*[sx.eq(got, p) for p in possible]), 'closing brackets, opening brackets and single words are in the documented order, each with the attributes of its mention')


def line(k, form, misc):
    return '%d\t%s\t_\t_\t_\t_\t%d\tdep\t_\t%s' % (k, form, k - 1, misc)


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['both', 'one'],
            bounds='two sentences with n words, two entities with two mentions each, of any continuous spans in any of the sentences; as a CoNLL-U text, also with other MISC attributes')
def files(n):
    doc = Document()
    for s in range(2):
        sentence(n, (), doc)
    other = sx.str('other', 0, 2, 'value')
    for x in doc.nodes:
        x.deprel = 'dep'
        if x.ord == 1:
            x.misc['Other'] = other
    A, B = doc.create_coref_entity('a', 'T'), doc.create_coref_entity('b')
    used = set()
    for i, e in enumerate([A, A, B]):
        s = sx.choice('sentence%d' % i, [0, 1] if i == 1 else [0] if i == 0 else [1])
        nodes = doc[s].trees[0].descendants
        a = sx.choice('from%d' % i, range(n))
        b = sx.choice('to%d' % i, range(a, n))
        used.add(s)
        if i == 1 and s == 0:
            sx.assume(representable(nodes[a:b + 1], A.mentions[0].words, nodes))
        e.create_mention(words=nodes[a:b + 1], head=nodes[b])
    sx.reach('both' if A.mentions[0].head.root is not A.mentions[-1].head.root else 'one')
    text = doc.to_conllu_string()
    lines = text.split('\n')
    sx.check(sx.eq(lines[0], '# newdoc') and '# global.Entity = eid-etype-head-other' in lines, 'the header is written')
    new = Document()
    new.from_conllu_string(text)
    compare(new, doc, 'file')
    for x, y in zip(doc.nodes, new.nodes):
        sx.check(y.misc['Other'] == x.misc['Other'], 'other attributes stay')
    sx.check(new.to_conllu_string() == text, 'canonical text is kept')


@sx.harness(quick=[dict()], thorough=[dict(size=2)], reach=['apart', 'first'],
            bounds='two documents in one file with document-wide ids (GRP) of up to size characters, each an entity with one or two mentions in its two sentences')
def grp(size=1):
    import udapi.core.coref as coref
    coref.highest_doc_n = 0
    doc = Document()
    doc.meta['global.Entity'] = 'GRP-etype-head-other'
    ids = [sx.str('id%d' % d, 1, size, 'digit') for d in range(2)]
    where = []
    for d in range(2):
        for s in range(2):
            root = sentence(2, (), doc)[1]
            root.newdoc = 'n%d' % d if s == 0 else None
            if s == 0 or sx.bool('more%d' % d):
                span = sx.choice('span%d%d' % (d, s), ['1', '1-2', '2'])
                w = root.descendants
                if span == '1-2':
                    w[0].misc['Entity'] = '(' + ids[d] + '-t-2'
                    w[1].misc['Entity'] = ids[d] + ')'
                else:
                    w[int(span) - 1].misc['Entity'] = '(' + ids[d] + '-t-1)'
                where.append((d, root, span))
    before = strings(doc)
    got = doc.coref_entities
    sx.check(len(got) == 2, 'the same id in two documents means two entities')
    sx.check(got[0].eid == 'd1.' + ids[0] and got[1].eid == 'd2.' + ids[1], 'ids with the number of the document')
    for d in range(2):
        mine = [(root, span) for q, root, span in where if q == d]
        sx.check([(m.head.root is r, m.span == s) for m, (r, s) in zip(got[d].mentions, mine)] == [(True, True)] * len(mine) and len(got[d].mentions) == len(mine), 'mentions of the document')
    if ids[0] != ids[1]:
        sx.reach('apart')
    else:
        sx.reach('first')
    store_coref_to_misc(doc)
    sx.check(sx.and_(*[sx.eq(a, b) for a, b in zip(strings(doc), before)]), 'the text stays')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['moved', 'same'],
            bounds='two mentions of different entities with any continuous spans of n words and one single-word mention, stored, and the order of the brackets at any word changed in ways that do not matter')
def loose_order(n):
    doc, root = sentence(n)
    nodes = root.descendants
    entities = [doc.create_coref_entity('e%d' % i) for i in range(3)]
    for i in range(3):
        a = sx.choice('from%d' % i, range(n))
        b = sx.choice('to%d' % i, range(a, n)) if i < 2 else a
        entities[i].create_mention(words=nodes[a:b + 1], head=nodes[b])
    store_coref_to_misc(doc)
    new = twin(doc)
    import re
    moved = False
    for x in new.nodes:
        chunks = [c for c in re.split(r'(\([^()]+\)?|[^()]+\))', x.misc['Entity']) if c]
        closing = [c for c in chunks if c[0] != '(']
        single = [c for c in chunks if c[0] == '(' and c[-1] == ')']
        opening = [c for c in chunks if c[-1] != ')']
        if len(chunks) > 1:
            how = sx.choice('order%d' % x.ord, ['same', 'singles first', 'singles last', 'singles between', 'reversed'])
            order = {'same': chunks, 'singles first': single + closing + opening, 'singles last': closing + opening + single,
                     'singles between': closing + single + opening, 'reversed': closing[::-1] + opening[::-1] + single[::-1]}[how]
            if order != chunks:
                moved = True
            x.misc['Entity'] = ''.join(order)
    sx.reach('moved' if moved else 'same')
    compare(new, doc, 'order')


@sx.harness(reach=['unclosed', 'unopened', 'header', 'across', 'lenient', 'no-eid', 'missing', 'head'],
            bounds='two sentences of two words, Entity attributes with one of the listed mistakes next to a correct mention, ids out of two letters')
def mistakes():
    import udapi.core.coref as coref
    doc = Document()
    for s in range(2):
        sentence(2, (), doc)
    a, b, c, d = doc.nodes
    doc.meta['global.Entity'] = 'eid-etype-head-other'
    e = sx.str('id', 1, 1, 'xy')
    kind = sx.choice('kind', ['unclosed', 'unopened', 'header', 'across', 'no-eid', 'missing', 'head'])
    a.misc['Entity'] = '(ok-t-1)'
    strict = sx.bool('strict')
    load = lambda: coref.load_coref_from_misc(doc, strict)
    if kind == 'unclosed':
        c.misc['Entity'] = '(' + e + '-t-1'
        load()
        sx.check([q.eid for q in doc.coref_entities] == ['ok'], 'a mention that is not closed is dropped')
        sx.check(c.coref_mentions == [] and d.coref_mentions == [], 'no word belongs to it')
    elif kind == 'unopened':
        c.misc['Entity'] = e + ')'
        sx.check(sx.raises(ValueError, load), 'closing what is not open is refused')
    elif kind == 'header':
        del doc.meta['global.Entity']
        sx.check(sx.raises(ValueError, load), 'the header is needed')
    elif kind == 'across':
        b.misc['Entity'] = '(' + e + '-t-1'
        d.misc['Entity'] = e + ')'
        if strict:
            sx.check(sx.raises(ValueError, load), 'mentions of two sentences are refused')
        else:
            load()
            sx.reach('lenient')
            sx.check([q.eid for q in doc.coref_entities] == ['ok'], 'mentions of two sentences are dropped')
            sx.check(all(x.coref_mentions == [] for x in (b, c, d)), 'no word belongs to it')
    elif kind == 'no-eid':
        doc.meta['global.Entity'] = 'etype-head-other'
        sx.check(sx.raises(ValueError, load), 'the header must name the id')
    elif kind == 'missing':
        c.misc['Entity'] = '(ok-t-1'
        load()
        sx.check([q.eid for q in doc.coref_entities] == ['ok'] and len(doc.coref_entities[0].mentions) == 1, 'only the mention that is not closed is dropped')
    else:
        c.misc['Entity'] = '(' + e + '-t-3'
        d.misc['Entity'] = e + ')'
        if strict:
            sx.check(sx.raises(ValueError, load), 'a head outside of the mention is refused')
        else:
            load()
            m = doc.eid_to_entity[e].mentions[0]
            sx.check(same(m.words, [c, d]) and m.head is d, 'the last word is the head then')
    sx.reach(kind)
    if not sx.or_(kind in ('unopened', 'header', 'no-eid'), strict and kind in ('across', 'head')):
        backlinks(doc, 'mistakes')
