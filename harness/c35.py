"""C35: coreference clean-up blocks."""
import udapi.core.coref as coref
from udapi.core.document import Document
from sx import api as sx
from harness.c19 import backlinks, place, twin, compare, strings, representable
from harness.c20 import sentence, subset, text_of, same
from harness.common import check_tree


def mention(e, nodes, name, head=True):
    words = subset(name, nodes)
    h = words[sx.choice(name + 'head', range(len(words)))] if head else words[0]
    return e.create_mention(words=words, head=h)


def snapshot(doc):
    return [(m, m.entity, list(m.words), m.head) for m in doc.coref_mentions]


def unchanged(doc, snap, msg, but=()):
    """Exactly the mentions of the snapshot, except those in but, are there, with their words, heads and entities."""
    now = doc.coref_mentions
    left = [s for s in snap if not any(s[0] is b for b in but)]
    sx.check(len(now) == len(left), msg + ': number of mentions')
    for m, e, words, head in left:
        sx.check(any(m is x for x in now), msg + ': the mention stays')
        sx.check(m.entity is e and any(m is x for x in e.mentions), msg + ': its entity stays')
        sx.check(same(m.words, words) and m.head is head, msg + ': its words and head stay')
    backlinks(doc, msg)


# ------------------------------------------------------------ corefud.IndexClusters
@sx.harness(quick=[dict(k=3)], thorough=[dict(k=4)], reach=['renamed', 'no', 'start', 'links'],
            bounds='two documents of one sentence with three words, up to k entities with up to three-character ids and a mention each at any word, with a bridging link and a split antecedent, any starting number and prefix')
def index(k):
    from udapi.block.corefud.indexclusters import IndexClusters
    start, prefix = sx.choice('start', [1, 0, 7]), sx.str('prefix', 1, 2, 'eE')
    block = IndexClusters(start=start, prefix=prefix)
    n = start
    sx.reach('start' if start != 1 else 'no')
    for d in range(2):
        doc, root = sentence(3)
        words = root.descendants
        es = []
        for i in range(k if d == 0 else 1):
            e = doc.create_coref_entity(sx.choice('eid%d%d' % (d, i), ['z%d' % i, '%s%d' % (sx.fix(prefix), n + 1)] if i == 0 and d == 0 else ['y%d' % i]))
            at = sx.choice('at%d%d' % (d, i), range(3))
            e.create_mention(words=words[at:at + 1])
            es.append(e)
        if len(es) > 2:
            es[0].mentions[0].bridging.append((es[1], 'r'))
            es[0].split_ante.extend(es[1:])
        snap = snapshot(doc)
        block.process_document(doc)
        unchanged(doc, snap, 'index')
        got = doc.coref_entities
        sx.check(len(got) == len(es) and all(any(e is g for g in got) for e in es), 'the same entities')
        for g in got:
            sx.check(sx.eq(g.eid, prefix + str(n)), 'numbers in order')
            sx.check(doc.eid_to_entity[g.eid] is g, 'the id leads to the entity')
            n += 1
        where = [place(g.mentions[0]) for g in got]
        sx.check(where == sorted(where), 'in the order of the first mentions')
        if len(es) > 2:
            sx.check(same(es[0].split_ante, es[1:]) and same(es[0].mentions[0].bridging.targets, es[1:2]), 'links lead to the same entities')
            sx.reach('links')
        sx.reach('renamed')


# ------------------------------------------------------------ corefud.MergeSameSpan
@sx.harness(quick=[dict(n=2, k=3), dict(n=3, k=2, unreached=['twice'])], thorough=[dict(n=2, k=4), dict(n=3, k=3)], reach=['merged', 'kept', 'other entity', 'twice'],
            bounds='k mentions with any sets of n words, of up to k entities, same_entity_only or not')
def same_span(n, k, unreached=()):
    from udapi.block.corefud.mergesamespan import MergeSameSpan
    doc, root = sentence(n)
    nodes = root.descendants
    es = [doc.create_coref_entity('e%d' % i) for i in range(k)]
    mentions = [mention(es[sx.choice('entity%d' % i, range(i + 1))], nodes, 'm%d' % i, False) for i in range(k)]
    only = sx.bool('only')
    snap = snapshot(doc)
    MergeSameSpan(same_entity_only=only).process_document(doc)
    now = doc.coref_mentions
    gone = [m for m in mentions if not any(m is x for x in now)]
    unchanged(doc, snap, 'merge', gone)
    same_words = lambda a, b: same([s for s in snap if s[0] is a][0][2], [s for s in snap if s[0] is b][0][2])
    entity = {id(m): e for m, e, w, h in snap}
    for a in now:
        for b in now:
            if a is not b and same_words(a, b):
                sx.check(only and a.entity is not b.entity, 'one mention per span is left')
                sx.reach('other entity')
    for g in gone:
        twins = [m for m in now if same_words(m, g) and (not only or m.entity is entity[id(g)])]
        sx.check(len(twins) == 1, 'only mentions with a twin are removed')
        sx.check(twins[0].entity.eid <= entity[id(g)].eid, 'the mention of the first entity is left')
        sx.reach('merged')
    if len(gone) > 1:
        sx.reach('twice')
    if not gone:
        sx.reach('kept')


# ------------------------------------------------------------ corefud.MoveHead
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['moved', 'kept', 'gappy', 'nontreelet', 'single'],
            bounds='every tree of n words, one mention with any set of its words and any head, keep_head_if_possible or not')
def move_head(n):
    from udapi.block.corefud.movehead import MoveHead
    t = sx.tree('t', n)
    for x in t.nodes[1:]:
        x.form = 'w'
    e = t.doc.create_coref_entity('e')
    words = subset('m', t.nodes[1:])
    m = e.create_mention(words=words, head=words[sx.choice('head', range(len(words)))])
    old = m.head
    keep = sx.bool('keep')
    MoveHead(keep_head_if_possible=keep).process_document(t.doc)
    sx.check(same(m.words, words) and same(e.mentions, [m]), 'the span stays')
    h = t.index[id(m.head)]
    ks = [t.index[id(x)] for x in words]
    sx.check(h in ks, 'the head is a word of the mention')
    if len(ks) == 1:
        sx.reach('single')
        return
    sx.check(sx.and_(*[t.head(h) != k for k in ks]), 'no word of the mention governs its head')
    tops = [sx.and_(*[t.anc(k, j) for j in ks if j != k]) for k in ks]
    for k, top in zip(ks, tops):
        sx.check(sx.implies(top, h == k), 'a word that dominates all others is the head')
    if sx.or_(*tops):
        sx.reach('gappy' if sx.or_(*[sx.and_(*[t.head(j) != k for k in ks]) for j in ks if j != h]) else 'moved' if m.head is not old else 'kept')
    else:
        sx.reach('nontreelet')
        was = t.index[id(old)]
        free = sx.and_(*[t.head(was) != k for k in ks])
        cand = [j for j in ks if sx.fix(sx.and_(*[t.head(j) != k for k in ks]))]
        sx.check(h in cand, 'one of the highest words')
        if keep and free:
            sx.check(m.head is old, 'the old head stays if possible')
        else:
            sx.check(h == cand[0], 'otherwise the first one')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['empty head', 'word head', 'loaded', 'built', 'appended'],
            bounds='a chain of n words, two empty nodes with any heads among the words and empty nodes before them, a mention with any of the nodes; enhanced dependencies read from a text, built or appended')
def move_head_empty(n):
    from udapi.block.corefud.movehead import MoveHead
    doc, root = sentence(n)
    words = list(root.descendants)
    for a, b in zip(words, words[1:]):
        b.parent = a
    p1 = words[sx.choice('p1', range(n))]
    e1 = p1.create_empty_child('dep')
    p2 = (words + [e1])[sx.choice('p2', range(n + 1))]
    e2 = p2.create_empty_child('dep')
    how = sx.choice('how', ['loaded', 'built', 'appended'])
    for e in (e1, e2):
        if how == 'loaded':
            e.raw_deps = e.raw_deps
        elif how == 'appended':
            deps, e.raw_deps = e.deps, '_'
            e.deps.extend(deps)
    sx.reach(how)
    parent = {id(e1): p1, id(e2): p2}
    for w in words:
        parent[id(w)] = w.parent
    nodes = root.descendants_and_empty
    chosen = subset('m', nodes)
    m = doc.create_coref_entity('e').create_mention(words=chosen, head=chosen[-1])
    MoveHead(bugs=sx.choice('bugs', ['warn', 'mark'])).process_document(doc)
    sx.check(same(m.words, chosen), 'the span stays')
    sx.check(any(m.head is x for x in chosen), 'the head is a word of the mention')
    if len(chosen) > 1:
        sx.check(not any(parent[id(m.head)] is x for x in chosen), 'no word of the mention governs its head')
    sx.reach('empty head' if m.head.is_empty() else 'word head')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=3, twice=3), dict(n=4)], reach=['one', 'several', 'partly', 'cycle'],
            bounds='n words below the root, each with one or two enhanced heads among all words and the root, a mention with any of them and any head')
def move_head_enhanced(n, twice=1):
    from udapi.block.corefud.movehead import MoveHead
    doc, root = sentence(n)
    nodes = list(root.descendants)
    up = {}
    for k, x in enumerate(nodes):
        first = sx.choice('p%d' % k, range(n + 1))
        second = sx.choice('q%d' % k, [None] + list(range(first))) if k < twice else None
        up[id(x)] = [([root] + nodes)[p] for p in (first, second) if p is not None]
        x.deps = [{'parent': p, 'deprel': 'r'} for p in up[id(x)]]
    chosen = subset('m', nodes)
    sx.assume(len(chosen) > 1)
    m = doc.create_coref_entity('e').create_mention(words=chosen, head=chosen[sx.choice('head', range(len(chosen)))])
    old = m.head
    MoveHead(keep_head_if_possible=sx.bool('keep')).process_document(doc)
    inside = lambda x: [any(p is y for y in chosen) for p in up[id(x)]]
    top = [x for x in chosen if not any(inside(x))]
    part = [x for x in chosen if not all(inside(x))]
    sx.check(same(m.words, chosen), 'the span stays')
    if top:
        sx.check(any(m.head is x for x in top), 'the head has no enhanced head in the mention, if there is such a word')
        sx.reach('one' if len(top) == 1 else 'several')
    elif part:
        sx.check(any(m.head is x for x in part), 'the head has an enhanced head outside the mention, if there is such a word')
        sx.reach('partly')
    else:
        sx.check(m.head is old, 'otherwise the head stays')
        sx.reach('cycle')


# ------------------------------------------------------------ corefud.FixParentheses
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['closed', 'opened', 'same'],
            bounds='n words that are parentheses, brackets or words, a mention with any of them')
def parentheses(n):
    from udapi.block.corefud.fixparentheses import FixParentheses
    doc, root = sentence(n)
    nodes = root.descendants
    for k, x in enumerate(nodes):
        x.lemma = sx.choice('lemma%d' % k, '()a[' if k % 2 else '()a]')
    chosen = subset('m', nodes)
    m = doc.create_coref_entity('e').create_mention(words=chosen)
    other = doc.create_coref_entity('f').create_mention(words=nodes)
    want = list(chosen)
    for a, b in ('()', '[]', '{}'):
        lemmas = [x.lemma for x in chosen]
        want.sort(key=lambda x: x.ord)
        if a in lemmas and b not in lemmas and want[-1].ord < n and nodes[want[-1].ord].lemma == b:
            want.append(nodes[want[-1].ord])
            sx.reach('closed')
        elif b in lemmas and a not in lemmas and want[0].ord > 1 and nodes[want[0].ord - 2].lemma == a:
            want.append(nodes[want[0].ord - 2])
            sx.reach('opened')
    want.sort(key=lambda x: x.ord)
    mark = sx.bool('mark')
    FixParentheses(mark=mark).process_document(doc)
    sx.check(same(m.words, want) and m.head is chosen[0], 'exactly the missing neighbouring parenthesis is added')
    sx.check(same(other.words, nodes), 'other mentions stay')
    backlinks(doc, 'parentheses')
    for x in nodes:
        added = any(x is y for y in want) and not any(x is y for y in chosen)
        sx.check((x.misc['Mark'] != '') == (added and mark), 'exactly the added words are marked')
    if same(want, chosen):
        sx.reach('same')


# ------------------------------------------------------------ corefud.GuessSpan
@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['changed', 'same', 'empty'],
            bounds='every tree of n words with an empty node under any of them (after or before it), mentions of one entity with two different heads and any spans')
def guess_span(n):
    from udapi.block.corefud.guessspan import GuessSpan
    t = sx.tree('t', n)
    for x in t.nodes[1:]:
        x.form = 'w'
    p = t.nodes[sx.choice('empty', range(1, n + 1))]
    empty = p.create_empty_child('dep', after=sx.bool('after'))
    e = t.doc.create_coref_entity('e')
    heads = [t.nodes[1], t.nodes[sx.choice('second', range(2, n + 1))]]
    ms = [e.create_mention(head=h, words=[h] + subset('m%d' % i, [x for x in t.nodes[1:] if x is not h], False)) for i, h in enumerate(heads)]
    GuessSpan().process_document(t.doc)
    for m, h in zip(ms, heads):
        sx.check(m.head is h, 'the head stays')
        k = t.index[id(h)]
        got = m.words
        for j in range(1, n + 1):
            sx.check(sx.iff(any(t.nodes[j] is x for x in got), t.anc(k, j) if j != k else True), 'the words of the subtree of the head')
        if any(empty is x for x in got):
            sx.reach('empty')
        inside = [x for x in got if not x.is_empty()]
        if any(p is x for x in inside):
            sx.check(any(empty is x for x in got), 'an empty node belongs to the mention that its head belongs to')
        elif any(empty is x for x in got):
            gap = int(str(empty.ord).split('.')[0])
            near = t.nodes[gap:gap + 2] if gap else []
            sx.check(len(near) == 2, 'no empty node from outside')
            sx.check(all(any(y is x for x in inside) for y in near), 'other empty nodes only between two words of the mention')
    backlinks(t.doc, 'guess')
    sx.reach('changed' if len(ms[0].words) > 1 else 'same')


# ------------------------------------------------------------ corefud.FixInterleaved
@sx.harness(quick=[dict(n=4, k=2), dict(n=3, k=3)], thorough=[dict(n=5, k=2), dict(n=4, k=3)], reach=['joined', 'same', 'dropped'],
            bounds='k mentions with any different sets of n words, of one or of different entities')
def interleaved(n, k):
    from udapi.block.corefud.fixinterleaved import FixInterleaved
    doc, root = sentence(n)
    nodes = root.descendants
    es = [doc.create_coref_entity('e%d' % i) for i in range(k)]
    mentions = []
    for i in range(k):
        e = es[sx.choice('entity%d' % i, range(2) if i else range(1))]
        m = mention(e, nodes, 'm%d' % i, False)
        sx.assume(not any(same(m.words, x.words) for x in mentions))
        mentions.append(m)
    snap = snapshot(doc)
    first = min(mentions, key=lambda m: m.words[0].ord)
    tie = len({m.words[0].ord for m in mentions}) < k
    FixInterleaved().process_document(doc)
    now = doc.coref_mentions
    backlinks(doc, 'interleaved')
    sx.check(all(any(m is x for x in mentions) for m in now), 'no new mentions')
    for m, e, words, head in snap:
        if any(m is x for x in now):
            sx.check(m.entity is e and m.head is head and all(any(w is x for x in m.words) for w in words), 'mentions only grow')
    crossing = lambda a, b: not (a[-1] < b[0] or b[-1] < a[0]) and not set(a) <= set(b) and not set(b) <= set(a)
    pairs = [(a, b) for i, a in enumerate(snap) for b in snap[i + 1:] if a[1] is b[1] and (crossing(a[2], b[2]) or set(text_of(a[2], nodes).split(',')) & set(text_of(b[2], nodes).split(',')))]
    if not pairs:
        unchanged(doc, snap, 'nothing to repair')
        sx.reach('same')
    elif k == 2:
        a, b = pairs[0]
        sx.check(len(now) == 1, 'two interleaved mentions become one')
        sx.check(now[0] is first or tie, 'the first mention stays')
        sx.check(set(now[0].words) == set(a[2]) | set(b[2]), 'it has the words of both')
        sx.reach('joined')
    else:
        sx.check(len(now) < k, 'interleaved mentions are joined')
        sx.reach('joined')
    for e in es:
        was = [w for x in snap if x[1] is e for w in x[2]]
        is_now = [w for m in now if m.entity is e for w in m.words]
        sx.check(set(was) >= set(is_now), 'entities get no new words')
        # a joined mention gives way to a mention of another entity with the same words
        sx.check(set(was) - set(is_now) <= {w for m in now if m.entity is not e for w in m.words}, 'no word is lost')
        if len({id(x[1]) for x in snap}) == 1:
            sx.check(set(was) == set(is_now), 'the words of an entity stay')
    sx.check(not any(same(m.words, x.words) for i, m in enumerate(now) for x in now[:i]), 'no two mentions get the same words')
    for w in nodes:
        sx.check(all(any(m is x for x in now) for m in w.coref_mentions), 'words are only in mentions of the document')
    if len(now) + 1 < k or k == 2:
        sx.reach('dropped')


# ------------------------------------------------------------ corefud.RemoveNoCorefEntities
@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['removed', 'kept', 'link'],
            bounds='n entities, any of which are no coreference, with a mention each at any words of a sentence with three words, a bridging link and split antecedents')
def no_coref(n):
    from udapi.block.corefud.removenocorefentities import RemoveNoCorefEntities
    doc, root = sentence(3)
    words = root.descendants
    es, bad = [], []
    for i in range(n):
        no = sx.bool('no%d' % i)
        e = doc.create_coref_entity(('NOCOREF%d' if no else 'e%dNOCOREF') % i)
        at = sx.choice('at%d' % i, range(3))
        e.create_mention(words=words[at:])
        es.append(e)
        if no:
            bad.append(e)
    es[0].mentions[0].bridging.append((es[1], 'r'))
    es[-1].split_ante.extend(es[:-1])
    snap = snapshot(doc)
    RemoveNoCorefEntities().process_document(doc)
    unchanged(doc, snap, 'removed', [m for m, e, w, h in snap if any(e is b for b in bad)])
    sx.check(same(doc.coref_entities, [e for e in es if not any(e is b for b in bad)]), 'exactly the other entities are left')
    coref.store_coref_to_misc(doc)
    new = twin(doc) if doc.coref_entities else None
    if new is not None:
        compare(new, doc, 'stored')
        for x in new.coref_mentions:
            for l in x._bridging or []:
                sx.check(any(l.target is q for q in new.coref_entities), 'links lead to entities that are left')
                sx.reach('link')
    sx.reach('removed' if bad else 'kept')


# ------------------------------------------------------------ corefud.FixEntityAcrossNewdoc
@sx.harness(quick=[dict()], thorough=[dict(size=3)], reach=['across', 'apart'],
            bounds='two documents of one sentence in one file, an entity with mentions in any of them, another entity')
def across_newdoc(size=2):
    from udapi.block.corefud.fixentityacrossnewdoc import FixEntityAcrossNewdoc
    coref.highest_doc_n = 0
    doc = Document()
    roots = [sentence(size, (), doc)[1] for _ in range(3)]
    roots[0].newdoc, roots[1].newdoc = 'a', 'b'
    a, b = doc.create_coref_entity('a', 'T'), doc.create_coref_entity('b')
    spans = {}
    for e, name in ((a, 'a'), (b, 'b')):
        for d in range(3):
            if (e is a and d == 0) or sx.bool('%s%d' % (name, d)):
                i = sx.choice('%sfrom%d' % (name, d), range(size))
                e.create_mention(words=roots[d].descendants[i:], head=roots[d].descendants[-1])
                spans[name, d] = i
    sx.assume(bool(b.mentions))
    coref.store_coref_to_misc(doc)
    text = strings(doc)
    new = Document()
    new.meta['global.Entity'] = doc.meta['global.Entity']
    for r in roots:
        sentence(size, (), new)[1].newdoc = r.newdoc
    for x, s in zip(new.nodes, text):
        x.misc = s
    if sx.bool('loaded'):
        new.coref_entities
    FixEntityAcrossNewdoc().process_document(new)
    backlinks(new, 'newdoc')
    trees = [t for t in new.trees]
    for e in new.coref_entities:
        docs = {0 if m.head.root is trees[0] else 1 for m in e.mentions}
        sx.check(len(docs) == 1, 'the mentions of an entity are in one document')
        sx.check(e.eid == 'd%d.%s' % (min(docs) + 1, e.eid[-1]), 'the id gets the number of the document')
        for m in e.mentions:
            d = [k for k in range(3) if trees[k] is m.head.root][0]
            sx.check(spans.get((e.eid[-1], d)) == m.words[0].ord - 1 and m.head.ord == size and m.words[-1].ord == size, 'the mention stays')
    sx.check(len(new.coref_mentions) == len(spans), 'no mention is lost')
    sx.check(new.meta['global.Entity'] == 'eid-etype-head-other', 'the header')
    sx.reach('across' if len(new.coref_entities) > 2 else 'apart')


# ------------------------------------------------------------ corefud.Link2Cluster
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['merged', 'cycle', 'missing', 'self', 'attributes', 'single'],
            bounds='n words with ids, each with any of the words or a missing one as antecedent')
def link_to_cluster(n):
    from udapi.block.corefud.link2cluster import Link2Cluster
    doc, root = sentence(n)
    words = root.descendants
    keep = sx.bool('keep')
    ante = []
    for k, x in enumerate(words):
        x.misc['proiel-id'] = str(k)
        a = sx.choice('ante%d' % k, [None, 'missing'] + list(range(n))) if k < n - 1 else sx.choice('ante%d' % k, range(n))
        ante.append(a)
        if a is not None:
            x.misc['antecedent-proiel-id'] = str(a)
        x.misc['coreftype'] = 't%d' % k
    Link2Cluster(delete_orig_attrs=not keep, eid_counter=sx.choice('counter', [0, 5])).process_document(doc)
    group = list(range(n))
    linked = set()
    for k, a in enumerate(ante):
        if isinstance(a, int) and a != k:
            linked |= {a, k}
            old, new = group[k], group[a]
            group = [new if g == old else g for g in group]
        elif a == k:
            sx.reach('self')
        elif a == 'missing':
            sx.reach('missing')
    if any(isinstance(a, int) and a != k and isinstance(ante[a], int) and ante[a] == k for k, a in enumerate(ante)):
        sx.reach('cycle')
    backlinks(doc, 'link2cluster')
    for e in doc.coref_entities:
        orders = [m.head.ord for m in e.mentions]
        sx.check(orders == sorted(orders), 'link2cluster: mentions in the order of the document')
    sx.check(len(doc.coref_entities) == len({group[k] for k in linked}), 'one entity for each group of linked words')
    for k, x in enumerate(words):
        ms = x.coref_mentions
        sx.check(len(ms) == (1 if k in linked else 0), 'one mention for each word in a link')
        if not ms:
            continue
        sx.check(same(ms[0].words, [x]) and ms[0].head is x, 'the mention consists of the word')
        sx.check(ms[0].other['coreftype'] == 't%d' % k, 'attributes of the mention')
        sx.reach('attributes')
        for j, y in enumerate(words):
            if j in linked:
                sx.check((y.coref_entities[0] is x.coref_entities[0]) == (group[j] == group[k]), 'linked words are in one entity')
        sx.check(doc.eid_to_entity[x.coref_entities[0].eid] is x.coref_entities[0], 'the entities of the document')
        sx.check((x.misc['proiel-id'] == '') == (not keep), 'original attributes')
    if len(linked) > 2:
        sx.reach('merged')
    if not linked:
        sx.reach('single')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['bridge', 'self', 'missing', 'linked'],
            bounds='n words with ids, the last one with any antecedent, each with any of the words or a missing one as bridging antecedent with a symbolic relation')
def link_bridge(n):
    from udapi.block.corefud.link2cluster import Link2Cluster
    doc, root = sentence(n)
    words = root.descendants
    keep = sx.bool('keep')
    bridge, rel = [], []
    for k, x in enumerate(words):
        x.misc['i'] = 'x%d' % k
        b = sx.choice('bridge%d' % k, [None, 'missing'] + list(range(n)))
        bridge.append(b)
        r = sx.str('rel%d' % k, 0, 1, 'ab') if b is not None else ''
        rel.append(r)
        if b is not None:
            x.misc['b'] = 'x%s' % b
            x.misc['r'] = r
    a = sx.choice('ante', [None] + list(range(n - 1)))
    if a is not None:
        words[-1].misc['a'] = 'x%d' % a
        sx.assume(bridge[n - 1] != a and bridge[a] != n - 1)  # bridging within one entity is refused (C21)
        sx.reach('linked')
    Link2Cluster(id_attr='i', ante_attr='a', bridge_attr='b', bridge_relation_attr='r', delete_orig_attrs=not keep).process_document(doc)
    backlinks(doc, 'link2cluster')
    real = {k: b for k, b in enumerate(bridge) if isinstance(b, int) and b != k}
    used = set(real) | set(real.values()) | ({a, n - 1} if a is not None else set())
    sx.check(len(doc.coref_mentions) == len(used), 'one mention for each word in a link')
    sx.check(len(doc.coref_entities) == len(used) - (a is not None), 'one entity for each group of linked words')
    for k, x in enumerate(words):
        ms = x.coref_mentions
        sx.check(len(ms) == (k in used), 'one mention for each word in a link')
        if bridge[k] == 'missing':
            sx.reach('missing')
        elif bridge[k] == k:
            sx.reach('self')
        if ms:
            links = [(l.target, l.relation) for l in ms[0].bridging]
            sx.check(len(links) == (k in real), 'exactly the given bridging')
            if k in real:
                sx.reach('bridge')
                sx.check(links[0][0] is words[real[k]].coref_entities[0] and sx.eq(links[0][1], rel[k]), 'the target and relation')
        sx.check((x.misc['i'] == '') == (not keep), 'original attributes')
        sx.check((x.misc['b'] == '') == (not keep or bridge[k] is None), 'original attributes')


# ------------------------------------------------------------ corefud.Delete
@sx.harness(quick=[dict(n=1, m=2, unreached=('reachable',)), dict(n=2, m=1)], thorough=[dict(n=2, m=2), dict(n=3, m=1)], reach=['through', 'kept', 'root', 'coref', 'misc', 'reachable'],
            bounds='n words with any one or two enhanced heads each (words, empty nodes or the root; the last one with the attribute Functor or not) and m empty nodes with any one head, deletion of coreference, empty nodes and MISC or not')
def delete(n, m, unreached=()):
    from udapi.block.corefud.delete import Delete
    doc, root = sentence(n, [0, m] + [0] * (n - 1))
    nodes = root.descendants_and_empty
    words, empties = list(root.descendants), list(root.empty_nodes)
    graph = {}
    for k, x in enumerate(nodes):
        ps = [([root] + nodes)[sx.choice('p%d' % k, range(len(nodes) + 1))]]
        if x.is_empty() is False and sx.bool('two%d' % k):
            ps.append(([root] + words)[sx.choice('q%d' % k, range(len(words) + 1))])
        graph[id(x)] = [(p, 'r%d%d' % (k, i)) for i, p in enumerate(ps)]
    for x in nodes:
        x.raw_deps = '|'.join('%s:%s' % (p.ord, r) for p, r in graph[id(x)])
    for x in words:
        x.misc = 'A=1|SpaceAfter=No' if x is words[0] else 'B=2'
    e = doc.create_coref_entity('e')
    e.create_mention(words=words)
    coref.store_coref_to_misc(doc)
    hidden = lambda p: not p.is_root() and p.is_empty()
    after = dict(graph)
    for x in words:
        direct = [(p, r) for p, r in graph[id(x)] if not hidden(p)]
        if len(direct) == len(graph[id(x)]):
            continue
        # what can be reached without empty nodes; the words before x have their new heads already
        seen, todo = [x], [x]
        while todo:
            y = todo.pop()
            for p, r in after[id(y)] if y is not root else []:
                if not hidden(p) and not any(p is s for s in seen):
                    seen.append(p)
                    todo.append(p)
        if any(p is root for p in seen):
            after[id(x)] = direct
            sx.reach('reachable')
            continue
        found = {(p.ord, r): (p, r) for p, r in direct}
        for p, r in graph[id(x)]:
            path = []
            while hidden(p) and not any(p is s for s in path):
                path.append(p)
                (p, r), = graph[id(p)]
            if hidden(p):
                p, r = root, 'root'
            if path:
                sx.reach('root' if hidden(path[-1]) and p is root and r == 'root' else 'through')
            found[p.ord, r] = (p, r)
        after[id(x)] = [found[k] for k in sorted(found)]
    d_empty, d_coref, d_misc = sx.bool('empty'), sx.bool('coref'), sx.bool('misc')
    functor = sx.choice('functor', ['1:A.B', '1.1:ACT', '']) if d_empty and not d_misc and not d_coref else '1:A.B'
    words[-1].misc['Functor'] = functor
    Delete(coref=d_coref, empty=d_empty, misc=d_misc).process_document(doc)
    sx.check(same(root.empty_nodes, [] if d_empty else empties) and same(root.descendants, words), 'exactly the empty nodes are deleted')
    for x in words:
        sx.check(x.parent is root, 'heads stay')
        if d_coref:
            sx.check(x._mentions == [] and x.misc['Entity'] == '', 'coreference is deleted')
            sx.reach('coref')
        elif not d_misc:
            sx.check(len(x.coref_mentions) == 1 and (len(words) > 1 or x.misc['Entity'] != ''), 'coreference stays')
        if d_misc:
            sx.check(str(x.misc) == ('SpaceAfter=No' if x is words[0] else '_'), 'MISC is deleted except SpaceAfter')
            sx.reach('misc')
        else:
            sx.check(x.misc['Functor'] == ('' if x is not words[-1] or d_empty and functor[:2] == '1.' else functor), 'the functor stays unless its head was deleted')
            sx.check((x.misc['A'], x.misc['SpaceAfter'], x.misc['B']) == (('1', 'No', '') if x is words[0] else ('', '', '2')), 'MISC stays')
        got = [(dep['parent'], dep['deprel']) for dep in x.deps]
        mine = graph[id(x)]
        if not d_empty:
            sx.check(got == mine, 'enhanced dependencies stay')
            continue
        sx.check(len(got) > 0, 'every word keeps an enhanced head')
        sx.check(not any(p.is_empty() for p, r in got if not p.is_root()), 'no enhanced head is an empty node')
        sx.check(got == after[id(x)], 'enhanced heads after the deletion')
        if got == mine:
            sx.reach('kept')


# ------------------------------------------------------------ corefud.SingleParent
@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['highest', 'depth', 'one', 'empty'],
            bounds='every tree of n words, an empty node with any enhanced heads among the words and another empty node')
def single_parent(n):
    from udapi.block.corefud.singleparent import SingleParent
    t = sx.tree('t', n)
    for x in t.nodes[1:]:
        x.form = 'w'
    other = t.nodes[1].create_empty_child('other')
    e = t.nodes[n].create_empty_child('dep')
    ps = subset('p', [other] + t.nodes[1:])
    e.deps = [{'parent': p, 'deprel': 'r%d' % i} for i, p in enumerate(ps)]
    old = list(e.deps)
    SingleParent().process_document(t.doc)
    sx.check(len(other.deps) == 1 and other.deps[0]['parent'] is t.nodes[1], 'a node with one head stays')
    words = [p for p in ps if not p.is_empty()]
    if len(ps) == 1:
        sx.check(e.deps == old, 'a node with one head stays')
        sx.reach('one')
        return
    if not words:
        sx.check(e.deps == [], 'no head is left')
        return
    if len(words) < len(ps):
        sx.reach('empty')
    sx.check(len(e.deps) == 1 and any(e.deps[0] == d for d in old) and not e.deps[0]['parent'].is_empty(), 'one of the heads is left')
    h = t.index[id(e.deps[0]['parent'])]
    ks = [t.index[id(p)] for p in words]
    depth = lambda k: sx.count([t.anc(i, k) for i in range(1, n + 1) if i != k])
    sx.check(sx.and_(*[depth(h) <= depth(k) for k in ks]), 'the highest head is left')
    sx.reach('highest' if sx.and_(*[t.anc(h, k) for k in ks if k != h]) else 'depth')


# ------------------------------------------------------------ MISC attributes
@sx.harness(quick=[dict(k=3)], thorough=[dict(k=4)], reach=['removed', 'kept'],
            bounds='any of the given attributes with symbolic values on a word and an empty node')
def misc(k):
    from udapi.block.corefud.removemisc import RemoveMisc
    doc, root = sentence(1, (0, 1))
    names = ['Mention', 'Mention[2]', 'MentionX', 'Other'][:k + 1]
    for x, tag in zip(root.descendants_and_empty, 'we'):
        have = [nm for nm in names[1 if tag == 'e' else 0:] if sx.bool(tag + nm)]
        vals = {nm: sx.str(tag + nm + 'v', 1, 1, 'value') for nm in have}
        for nm in have:
            x.misc[nm] = vals[nm]
        RemoveMisc(attrnames='Mention,Other').process_document(doc)
        for nm in names:
            gone = nm in ('Mention', 'Mention[2]', 'Other')
            sx.check(sx.eq(x.misc[nm], '' if gone or nm not in have else vals[nm]), 'exactly the listed attributes are removed, with or without an index')
            if nm in have:
                sx.reach('removed' if gone else 'kept')


@sx.harness(quick=[dict()], thorough=[dict(size=2)], reach=['indexed', 'kept', 'both'],
            bounds='any of the given attributes with symbolic values of up to size characters')
def concat(size=1):
    from udapi.block.corefud.concatmentionmisc import ConcatMentionMisc
    doc, root = sentence(1)
    w = root.descendants[0]
    parts = {}
    for nm in ['MentionMisc_a', 'MentionMisc_b', 'MentionMisc_a[2]', 'MentionMis_c']:
        if sx.bool(nm):
            v = sx.str(nm + 'v', 1, size, 'ab,')
            w.misc[nm] = v
            parts[nm] = v if nm == 'MentionMis_c' else v.replace(',', '%2C')
    ConcatMentionMisc().process_document(doc)
    want = [c + ':' + parts['MentionMisc_' + c] for c in 'ab' if 'MentionMisc_' + c in parts]
    got = w.misc['MentionMisc']
    sx.check(sx.eq(got, want[0] + ',' + want[1] if len(want) == 2 else want[0] if want else ''), 'attributes without an index')
    sx.check(sx.eq(w.misc['MentionMisc[2]'], 'a:' + parts['MentionMisc_a[2]'] if 'MentionMisc_a[2]' in parts else ''), 'attributes with an index')
    if 'MentionMisc_a[2]' in parts:
        sx.reach('indexed')
    sx.check(sx.eq(w.misc['MentionMis_c'], parts.get('MentionMis_c', '')), 'other attributes stay')
    if 'MentionMis_c' in parts:
        sx.reach('kept')
    if len(want) == 2:
        sx.reach('both')
    sx.check(not any('MentionMisc_' in key for key in w.misc), 'the single attributes are gone')


# ------------------------------------------------------------ corefud.FixToValidate
@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['renamed', 'relabelled', 'under punctuation', 'rules', 'same'],
            bounds='every tree of n words, each of which has the relation root or not; one of them punctuation, the others with any of the parts of speech that matter')
def validate_root(n):
    from udapi.block.corefud.fixtovalidate import FixToValidate
    t = sx.tree('t', n)
    is_root = [sx.bool('root%d' % k) for k in range(1, n + 1)]
    punct = sx.choice('punct', range(0, n + 1))
    kinds = sx.choice('upos', [('CCONJ', 'VERB'), ('ADJ', 'PROPN'), ('NOUN', 'VERB')])
    for k, x in enumerate(t.nodes[1:], 1):
        x.deprel = 'root' if is_root[k - 1] else 'd%d' % k
        x.upos = 'PUNCT' if k == punct else kinds[k % 2]
    old = [sx.fix(t.head(k)) for k in range(1, n + 1)]
    labels = [x.deprel for x in t.nodes[1:]]
    FixToValidate().process_document(t.doc)
    check_tree(t, 'FixToValidate')
    sx.check(t.order() == list(range(1, n + 1)), 'words and their order stay')
    for k, x in enumerate(t.nodes[1:], 1):
        h = old[k - 1]
        if h == 0:
            sx.check(x.parent is t.root and x.deprel == 'root', 'words under the root have the relation root')
            sx.reach('same' if is_root[k - 1] else 'renamed')
        elif not is_root[k - 1]:
            sx.check(x.parent is t.nodes[h] and x.deprel == labels[k - 1], 'other relations stay')
            sx.reach('same')
        else:
            sx.check(x.parent is not t.root and x.deprel not in ('root', ''), 'other words do not have the relation root')
            if h == punct and old[h - 1]:
                sx.check(x.parent is t.nodes[old[h - 1]] or is_root[h - 1], 'nor depend on punctuation')
                sx.reach('under punctuation')
            else:
                sx.check(x.parent is t.nodes[h], 'heads stay')
            above = t.nodes[h].upos
            want = 'cc' if x.upos == 'CCONJ' else 'amod' if (x.upos, above) == ('ADJ', 'PROPN') else 'obl' if (x.upos, above) == ('NOUN', 'VERB') else 'parataxis'
            sx.check(x.deprel == want, 'the relation follows the parts of speech')
            sx.reach('relabelled' if want == 'parataxis' else 'rules')


@sx.harness(reach=['removed', 'kept', 'token', 'empty', 'no space flag'],
            bounds='three sentences of up to two words, the last ones perhaps in a multi-word token or without a space after, the second and third perhaps start a document or paragraph')
def validate_space():
    from udapi.block.corefud.fixtovalidate import FixToValidate
    doc = coref_free = Document()
    flags, lasts = [], []
    for i in range(3):
        n = sx.choice('words%d' % i, [2, 0] if i == 0 else [2])
        _, root = sentence(n, (), doc)
        for x in root.children:
            x.deprel = 'root'
        last = None
        if n:
            last = root.descendants[-1]
            first_flag = i == 1 and sx.bool('first')
            if first_flag:
                root.descendants[0].misc['SpaceAfter'] = 'No'
            if i < 2 and sx.bool('token%d' % i):
                last = root.create_multiword_token(root.descendants, form='ab')
                sx.reach('token')
            if sx.bool('nospace%d' % i):
                last.misc['SpaceAfter'] = 'No'
        else:
            sx.reach('empty')
        start = sx.choice('start%d' % i, ['', 'par', 'doc']) if i else ''
        if start == 'par':
            root.newpar = True
        if start == 'doc':
            root.newdoc = 'd'
        flags.append(start != '')
        lasts.append((last, last is not None and last.misc['SpaceAfter'] == 'No', n and root.descendants[0].misc['SpaceAfter']))
    FixToValidate().process_document(coref_free)
    roots = list(doc.trees)
    for i in range(3):
        last, no, first = lasts[i]
        if last is None:
            continue
        cut = i < 2 and flags[i + 1]
        sx.check((last.misc['SpaceAfter'] == 'No') == (no and not cut), 'there is a space before a document or paragraph, the rest stays')
        sx.check(roots[i].descendants[0].misc['SpaceAfter'] == first or last.form == 'ab' and cut, 'other words stay')
        sx.reach('removed' if no and cut else 'kept' if no else 'no space flag')


# ------------------------------------------------------------ corefud.FixCorefUD02
@sx.harness(quick=[dict(size=2)], thorough=[dict(size=4)], reach=['renamed', 'other', 'generic', 'specific', 'apposition', 'inverse', 'indirect', 'header', 'case'],
            bounds='an entity with two mentions and any of the old types, in any case, with or without gen/spec, or any type or relation of up to size characters')
def corefud02(size):
    from udapi.block.corefud.fixcorefud02 import FixCorefUD02
    coref.highest_doc_n = 0
    doc, root = sentence(3)
    a, b, c = root.descendants
    e, f = a.create_coref_entity(), c.create_coref_entity()
    m = e.create_mention(words=[b])
    what = sx.choice('what', ['type', 'gstype', 'any type', 'relation', 'any relation'])
    etype, want, gs, appos = '', '', '', ''
    names = {'misc': 'other', 'date': 'time', 'loc': 'place', 'location': 'place', 'per': 'person', 'org': 'organization', 'appos': '', 'event': 'event', '_': ''}
    rel, wrel = 'x', 'x'
    if what == 'type':
        base = sx.choice('base', sorted(names))
        etype, want = base, names[base]
        if sx.bool('upper'):
            etype = base.upper()
            sx.reach('case')
        if base == 'appos':
            appos = '1'
            sx.reach('apposition')
        sx.reach('renamed')
    elif what == 'gstype':
        gs = sx.choice('gs', ['gen', 'spec'])
        base = sx.choice('base', ['', 'per', 'event'])
        etype = gs + ('.' if base and sx.bool('dot') else '') + base
        want = {'per': 'person', 'event': 'event', '': '' if gs == 'gen' else 'other'}[base]
        sx.reach('generic' if gs == 'gen' else 'specific')
    elif what == 'any type':
        etype = want = sx.str('type', 0, size, 'lower')
        sx.assume(sx.and_(*[sx.not_(etype == x) for x in names], sx.not_(etype.startswith('gen')), sx.not_(etype.startswith('spec'))))
        sx.reach('other')
    elif what == 'relation':
        rel, wrel = sx.choice('rel', [('part-whole', 'partwhole'), ('PART-INV', 'ipart'), ('part-whole-inv', 'ipartwhole'), ('indirect_part', 'part'), ('part', 'part')])
        if 'inv' in rel.lower():
            sx.reach('inverse')
        if 'indirect' in rel:
            sx.reach('indirect')
    else:
        rel = wrel = sx.str('relation', 1, size, 'lower')
    e.etype = etype
    f.create_mention(words=[a]).bridging.append((e, rel))
    header = sx.choice('header', ['eid-etype-head', 'entity-GRP-infstat-MIN-coref_type-identity'])
    doc.meta['global.Entity'] = header
    FixCorefUD02().process_document(doc)
    sx.check(doc.meta['global.Entity'] == (header if header[1] == 'i' else 'eid-etype-head-other-infstat-minspan-identity'), 'global.Entity')
    if header[1] != 'i':
        sx.reach('header')
    sx.check(sx.eq(e.etype or '', want), 'type of the entity')
    sx.check([x.other['gstype'] for x in e.mentions] == [gs, gs], 'generic or specific')
    sx.check([x.other['appos'] for x in e.mentions] == ['', appos], 'apposition')
    link = [x for x in f.mentions if len(x.bridging)][0].bridging[0]
    sx.check(link.target is e and link.relation == wrel, 'relation of the bridging link')
    backlinks(doc, 'FixCorefUD02')
