"""C21: bridging links and split antecedents."""
import re
from udapi.core.coref import BridgingLinks, store_coref_to_misc
from sx import api as sx
from harness.c19 import twin, strings
from harness.c20 import sentence, same

REL = 'ab:'


def entities_of(doc, n, second):
    """One entity with a single-word mention for each of n words; the first one has another mention at the end if second."""
    root = doc.bundles[0].trees[0]
    words = root.descendants
    es = [doc.create_coref_entity('e%d' % (i + 1)) for i in range(n)]
    for i in range(n):
        es[i].create_mention(words=[words[i]])
        es[i].etype = 't%d' % i
    if second == 'word':
        es[0].create_mention(words=[words[n]])
    elif second in ('gap', 'inner'):
        es[0].create_mention(words=[words[0], words[n]] if n > 1 else words[:2])
    return es


def links_of(mention):
    return [(l.target.eid, l.relation) for l in (mention._bridging or [])]


def mention_at(doc, first, span, eid):
    m = [m for m in doc.coref_mentions if m.words[0].ord == first and m.span == span and m.entity.eid == eid]
    sx.check(len(m) == 1, 'one mention with this span')
    return m[0]


@sx.harness(quick=[dict(n=3, k=2), dict(n=3, k=2, remove=2, size=1, seconds=('no',), unreached=('second',))], thorough=[dict(n=4, k=2, remove=2, size=1), dict(n=3, k=3, size=1), dict(n=4, k=2, remove=3)],
            reach=['second', 'relation', 'plain', 'removed', 'kept', 'same-source'],
            bounds='n entities (the first with one or two mentions, also one in the gap of the other), k bridging links between any of the mentions and entities with any relations of up to size characters, up to the given number of entities without mentions at the end')
def bridging(n, k, remove=1, size=2, seconds=('no', 'word', 'gap', 'inner'), unreached=()):
    doc, root = sentence(n + 1)
    second = sx.choice('second', list(seconds))
    es = entities_of(doc, n, second)
    if second == 'gap':
        # two mentions of one entity at one word cannot be told apart in Bridge
        es[0].mentions[-1].remove()
    elif second == 'inner':
        # a mention in the gap of a discontinuous mention of the same entity
        sx.assume(n > 1)
        es[0].mentions[-1].remove()
        es[0].create_mention(words=[root.descendants[1]])
    mentions = doc.coref_mentions
    links = []
    for i in range(k):
        src = mentions[sx.choice('src%d' % i, range(len(mentions)))]
        trg = es[sx.choice('trg%d' % i, range(n))]
        rel = sx.str('rel%d' % i, 0, size, REL)
        if src.entity is trg:
            sx.check(sx.raises(ValueError, lambda: src.bridging.append((trg, rel))), 'a link to the own entity is refused')
            continue
        if any(l[0] is src for l in links):
            sx.reach('same-source')
        src.bridging.append((trg, rel))
        sx.reach('relation' if rel != '' else 'plain')
        if src.entity is es[0] and len(es[0].mentions) == 2:
            sx.reach('second')
        links.append((src, trg, rel))
    gone = []
    for i in range(remove):
        e = es[sx.choice('gone%d' % i, range(n))] if sx.bool('remove%d' % i) else None
        if e is not None and not any(e is g for g in gone):
            for m in list(e.mentions):
                m.remove()
            gone.append(e)
    store_coref_to_misc(doc)
    before = strings(doc)
    for s in before:
        sx.check(sx.not_(sx.or_('Bridge=,' in s, s[-1:] == ',', ',,' in s)), 'no empty links')
    left = [(s, t, r) for s, t, r in links if not any(s.entity is g or t is g for g in gone)]
    sx.reach('removed' if len(left) < len(links) else 'kept')
    new = twin(doc)
    got = [(m, l) for m in new.coref_mentions for l in (m._bridging or [])]
    sx.check(len(got) == len(left), 'number of links')
    for m in doc.coref_mentions:
        mine = [(t.eid, r) for s, t, r in left if s is m]
        loaded = [(l.target.eid, l.relation) for l in (mention_at(new, m.words[0].ord, m.span, m.entity.eid)._bridging or [])]
        sx.check(len(mine) == len(loaded), 'number of links of the mention')
        for x in mine:
            sx.check(sx.or_(*[sx.and_(x[0] == y[0], x[1] == y[1]) for y in loaded]), 'the link with its relation is loaded')
        places = [[e.eid for e in new.coref_entities].index(y[0]) for y in loaded]
        for i in range(1, len(loaded)):
            sx.check(places[i - 1] < places[i] or places[i - 1] == places[i] and loaded[i - 1][1] <= loaded[i][1], 'links are stored in the order of targets and relations')
        for y in loaded:
            sx.check(sx.or_(*[sx.and_(x[0] == y[0], x[1] == y[1]) for x in mine]), 'no other link is loaded')
    for e in new.coref_entities:
        sx.check(e.etype == doc.eid_to_entity[e.eid].etype, 'the type of an entity is loaded also when it was a target before')
        for m in e.mentions:
            for l in m._bridging or []:
                sx.check(new.eid_to_entity[l.target.eid] is l.target, 'links lead to the entities of the document')
        sx.check(same([l for l in e.all_bridging()], [l for m in e.mentions for l in (m._bridging or [])]), 'all links of an entity')
    store_coref_to_misc(new)
    sx.check(sx.and_(*[sx.eq(a, b) for a, b in zip(strings(new), before)]), 'the text stays when it is loaded and stored')


@sx.harness(quick=[dict(k=2)], thorough=[dict(k=3)], reach=['all', 'some', 'none', 'insert', 'set', 'delete', 'refused'],
            bounds='a mention with up to k links to three entities with any relations of up to two characters, one edit of the list, filtering by a relation, by alternatives or by nothing')
def link_list(k):
    doc, root = sentence(4)
    es = entities_of(doc, 4, 'no')
    src = es[0].mentions[0]
    model = []
    start = sx.choice('start', ['property', 'list'])
    for i in range(k):
        model.append((es[sx.choice('trg%d' % i, [1, 2])], sx.str('rel%d' % i, 0, 2, 'ab')))
    if start == 'property':
        bl = src.bridging
        sx.check(len(bl) == 0, 'no links at first')
        sx.check(src.bridging is bl, 'the same list is returned again')
        for l in model:
            bl.append(l)
    else:
        bl = BridgingLinks(src, list(model))
    kind = sx.choice('op', ['no', 'insert', 'set', 'delete', 'refused'])
    at = sx.choice('at', range(k))
    new = (es[3], sx.str('newrel', 0, 1, 'ab'))
    own = (es[0], 'a')
    if kind == 'insert':
        bl.insert(at, new)
        model.insert(at, new)
    elif kind == 'set':
        bl[at] = new
        model[at] = new
    elif kind == 'delete':
        del bl[at]
        del model[at]
    elif kind == 'refused':
        sx.check(sx.raises(ValueError, lambda: bl.insert(at, own)), 'insert')
        sx.check(sx.raises(ValueError, lambda: bl.__setitem__(at, own)), 'set')
        sx.check(sx.raises(ValueError, lambda: bl.append(own)), 'append')
        sx.check(sx.raises(ValueError, lambda: BridgingLinks(es[1].mentions[0], [(es[1], 'a')])), 'constructor')
    if kind != 'no':
        sx.reach(kind)
    def check(links, want, msg):
        sx.check(len(links) == len(want), msg + ': number')
        sx.check(same(links.targets, [t for t, r in want]), msg + ': targets')
        sx.check(sx.and_(*[sx.eq(l.relation, r) for l, (t, r) in zip(links, want)]), msg + ': relations')
        for l, (t, r) in zip(links, want):
            target, relation = l
            sx.check(target is t and sx.eq(relation, r), msg + ': a link unpacks to its target and relation')
    check(bl, model, 'list')
    sx.check(src.bridging is bl, 'the list of the mention')
    pattern, ok = sx.choice('filter', [('a', lambda r: r[:1] == 'a'), ('a$|b$', lambda r: sx.or_(r == 'a', r == 'b')), ('', lambda r: True), (None, lambda r: True)])
    want = [(t, r) for t, r in model if ok(r)]
    found = bl(pattern)
    check(found, want, 'filtered')
    sx.reach('all' if len(want) == len(model) else 'some' if want else 'none')
    check(src.bridging, model, 'filtering changes nothing')
    sx.check(src.bridging is bl, 'filtering keeps the list of the mention')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['stored', 'too few', 'removed', 'two', 'cataphora', 'same word'],
            bounds='n entities (also two at one word), two of which have any sets of the others as split antecedents, up to two entities without mentions at the end')
def split(n):
    doc, root = sentence(n)
    es = entities_of(doc, n, 'no')
    a = sx.choice('a', range(n))
    b = (a + 1) % n
    for e, name in [(es[a], 'x'), (es[b], 'y')]:
        for j in range(n):
            if es[j] is not e and sx.bool('%s%d' % (name, j)):
                e.split_ante.append(es[j])
    if sx.bool('reverse'):
        es[a].split_ante.reverse()
    gone = []
    if sx.bool('same word'):
        es[b].mentions[0].remove()
        es[b].create_mention(words=[es[a].mentions[0].words[0]])
        sx.reach('same word')
    for name in ('first', 'last'):
        g = sx.choice(name, [None, 0, n - 1, a])
        if g is not None and not any(es[g] is q for q in gone):
            es[g].mentions[0].remove()
            gone.append(es[g])
            sx.reach('removed')
    want = {}
    for e in (es[a], es[b]):
        left = [x.eid for x in e.split_ante if not any(x is g for g in gone)]
        if not any(e is g for g in gone) and len(left) > 1:
            want[e.eid] = left
            if any(x.mentions and e.mentions[0] < x.mentions[0] for x in e.split_ante):
                sx.reach('cataphora')
        elif left:
            sx.reach('too few')
    if want:
        sx.reach('two' if len(want) == 2 else 'stored')
    store_coref_to_misc(doc)
    before = strings(doc)
    new = twin(doc)
    sx.check(len(new.coref_entities) == n - len(gone), 'entities')
    for e in new.coref_entities:
        sx.check([x.eid for x in e.split_ante] == want.get(e.eid, []), 'split antecedents, in their order')
        for x in e.split_ante:
            sx.check(new.eid_to_entity[x.eid] is x, 'split antecedents are entities of the document')
    store_coref_to_misc(new)
    sx.check(strings(new) == before, 'the text stays when it is loaded and stored')


@sx.harness(reach=['bridge', 'split', 'malformed', 'unknown', 'fine'],
            bounds='Bridge and SplitAnte attributes that name one of two entities or a missing one as source and target, in strict and lenient mode')
def read_links():
    import udapi.core.coref as coref
    doc, root = sentence(3)
    doc.meta['global.Entity'] = 'eid'
    a, b, c = root.descendants
    a.misc['Entity'], b.misc['Entity'], c.misc['Entity'] = '(x)', '(y)', '(z)'
    attr = sx.choice('attribute', ['Bridge', 'SplitAnte'])
    target, source = sx.str('target', 1, 1, 'xyzq'), sx.str('source', 1, 1, 'xyz')
    bad = sx.bool('malformed')
    strict = sx.bool('strict')
    c.misc[attr] = (target + source) if bad else (target + '<' + source)
    load = lambda: coref.load_coref_from_misc(doc, strict)
    if bad:
        sx.reach('malformed')
        if strict or attr == 'SplitAnte':
            sx.check(sx.raises(ValueError, load), 'a malformed link is refused')
        else:
            load()
            sx.check(all(not m._bridging for m in doc.coref_mentions), 'a malformed link is ignored')
        return
    if strict and sx.or_(target == source, target == 'q'):
        sx.check(sx.raises(ValueError, load), 'a link to the same or to an undefined entity is refused')
        sx.reach('unknown')
        return
    load()
    sx.reach('bridge' if attr == 'Bridge' else 'split')
    for e in doc.coref_entities:
        if attr == 'Bridge':
            got = [l.target.eid for m in e.mentions for l in (m._bridging or [])]
        else:
            got = [x.eid for x in e.split_ante]
        sx.check(len(got) == (1 if e.eid == source else 0), 'the link belongs to its source')
        for t in got:
            sx.check(t == target, 'the link leads to its target')
    sx.reach('fine')
