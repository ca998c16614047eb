"""C38: coreference blocks that mark pairs of mentions."""
from sx import api as sx
from harness.c39 import printed
from harness.c20 import sentence, subset, same


def runs(words, nodes):
    """Maximal runs of neighbouring nodes."""
    out = []
    for k, x in enumerate(nodes):
        if any(x is w for w in words):
            if out and out[-1][-1] == k - 1:
                out[-1].append(k)
            else:
                out.append([k])
    return [tuple(r) for r in out]


def relations(a, b, nodes):
    wa, wb = {id(x) for x in a.words}, {id(x) for x in b.words}
    ra, rb = runs(a.words, nodes), runs(b.words, nodes)
    apart = ra[-1][-1] < rb[0][0] or rb[-1][-1] < ra[0][0]
    return dict(same_entity=a.entity is b.entity, both_continuous=len(ra) == len(rb) == 1, both_discontinuous=len(ra) > 1 and len(rb) > 1,
                nested=wa <= wb or wb <= wa, crossing=bool(wa & wb) and not (wa <= wb or wb <= wa), interleaved=not wa & wb and not apart,
                same_head=a.head is b.head, same_span=wa == wb, same_subspan=bool(set(ra) & set(rb)))


def mentions(doc, nodes, k, heads):
    es = [doc.create_coref_entity('e%d' % i) for i in range(2)]
    out = []
    for i in range(k):
        words = subset('m%d' % i, nodes)
        out.append(es[sx.choice('entity%d' % i, range(2)) if i else 0].create_mention(words=words, head=words[sx.choice('head%d' % i, range(len(words)))] if heads else words[0]))
    return out


def check_marks(doc, nodes, pairs, extra, msg):
    """Exactly the words of the pairs are marked; anything else in MISC stays."""
    for x in nodes:
        want = any(x is w for a, b in pairs for m in (a, b) for w in m.words)
        sx.check((x.misc['Mark'] != '') == want, msg + ': exactly the words of the pairs are marked')
        sx.check(x.misc['Other'] == 'o', msg + ': other attributes stay')
    for a, b in pairs[:1] if len(pairs) == 1 else []:
        starts = [m.words[0] for m in (a, b) if m.words[0].misc['Mark'] not in ('1', 1)]
        sx.check(len(starts) > 0, msg + ': the pair is described at its first word')
        text = starts[0].misc['Mark'].split('+')
        sx.check(sorted(text) == sorted(extra(m) for m in (a, b)), msg + ': the description names both mentions')


def describe(form):
    return lambda m: m.entity.eid + ':' + (' '.join(x.form for x in m.words) if form else m.span)


def setup(n, empties=()):
    doc, root = sentence(n, empties)
    nodes = root.descendants_and_empty
    for k, x in enumerate(nodes):
        x.form = 'w%d' % k
        x.misc['Other'] = 'o'
    return doc, nodes


@sx.harness(quick=[dict(n=3, k=2, names=['same_entity', 'same_head']), dict(n=3, k=2, names=['both_continuous', 'same_span', 'crossing']), dict(n=4, k=2, names=['both_discontinuous', 'interleaved']), dict(n=3, k=2, names=['same_subspan', 'nested']), dict(n=5, k=2, names=['same_subspan'])],
            thorough=[dict(n=4, k=2, names=['same_entity', 'same_head', 'crossing']), dict(n=3, k=3, names=['nested']), dict(n=3, k=3, names=['interleaved']), dict(n=4, k=2, names=['both_continuous', 'both_discontinuous', 'same_span'])], reach=['only', 'exclude', 'both'],
            bounds='k mentions with any sets of n nodes (the last one empty), any heads and entities, the stated properties required, excluded or ignored, given as words or numbers')
def pairs(n, k, names):
    from udapi.block.corefud.markpairs import MarkPairs
    doc, nodes = setup(n - 1, [0] * (n - 1) + [1])
    ms = mentions(doc, nodes, k, 'same_head' in names)
    args, want = {}, {}
    for name in names:
        args[name] = sx.choice(name, ['include', 'only', 'exclude', 1, -1] if name == names[0] else [0, 1, -1])
        want[name] = {'only': 1, 'exclude': -1, 'include': 0}.get(args[name], args[name])
    form = sx.bool('form') if names[0] == 'same_entity' else False
    total = sx.bool('print_total') if names[0] == 'same_entity' else True
    MarkPairs(log=False, print_form=form, print_total=total, **args).apply_on_document(doc)
    good = []
    for i, a in enumerate(ms):
        for b in ms[i + 1:]:
            rel = relations(a, b, nodes)
            if all(want[name] == 0 or rel[name] == (want[name] == 1) for name in names):
                good.append((a, b))
                sx.reach('only' if 1 in want.values() else 'exclude')
    check_marks(doc, nodes, good, describe(form), 'pairs')
    sx.check(doc.meta.get('corefud.MarkPairs') == (None if not total else '######## Mentions = %d, matching/all pairs = %d / %d' % (k, len(good), k * (k - 1) // 2)), 'the totals')
    if good:
        sx.reach('both')


@sx.harness(quick=[dict(n=3, k=2), dict(n=4, k=2, block='interleaved'), dict(n=4, k=2, block='same_subspan'), dict(n=3, k=3, block='crossing', unreached=('unmarked',))], thorough=[dict(n=4, k=2), dict(n=3, k=3, unreached=('unmarked',))], reach=['marked', 'none', 'unmarked'],
            bounds='k mentions with any sets of n nodes (the last one empty) of two entities; MarkCrossing, MarkInterleaved, MarkNested and MarkSameSubSpan with any of their restrictions, marking or only listing the pairs')
def marks(n, k, block=None, unreached=()):
    from udapi.block.corefud.markcrossing import MarkCrossing
    from udapi.block.corefud.markinterleaved import MarkInterleaved
    from udapi.block.corefud.marknested import MarkNested
    from udapi.block.corefud.marksamesubspan import MarkSameSubSpan
    doc, nodes = setup(n - 1, [0] * (n - 1) + [1])
    ms = mentions(doc, nodes, k, False)
    which = block or sx.choice('block', ['crossing', 'interleaved', 'nested', 'same_subspan'])
    same_entity = sx.bool('same_entity')
    form = k == 2 and sx.bool('form')
    option = sx.bool('option')
    both = which != 'crossing' and (k == 2 or block is not None) and sx.bool('both')
    mark = not (form and option) or sx.bool('mark')
    args = dict(same_entity_only=same_entity, print_form=form, log=k == 2, mark=mark)
    if both:
        args['both_discontinuous'] = True
    if which == 'crossing':
        out = printed(MarkCrossing(continuous_only=option, **args), doc)
        also = lambda r, a, b: r['both_continuous'] or not option
    elif which == 'interleaved':
        both = both or option
        out = printed(MarkInterleaved(**dict(args, both_discontinuous=both)), doc)
        also = lambda r, a, b: True
    elif which == 'nested':
        out = printed(MarkNested(multiword_only=option, **args), doc)
        also = lambda r, a, b: len(a.words) > 1 and len(b.words) > 1 or not option
    else:
        out = printed(MarkSameSubSpan(nested_only=option, **args), doc)
        also = lambda r, a, b: r['nested'] or not option
    good = []
    for i, a in enumerate(ms):
        for b in ms[i + 1:]:
            rel = relations(a, b, nodes)
            if rel[which] and (rel['same_entity'] or not same_entity) and also(rel, a, b) and (rel['both_discontinuous'] or not both):
                good.append((a, b))
    if k == 2:
        lines = out.split('\n')[:-1]
        sx.check(len(lines) == len(good), 'one line is printed for each pair')
        for line, (a, b) in zip(lines, good):
            show = [describe(form)(m) for m in (a, b)]
            show = [x.split(':')[1] for x in show] if which == 'crossing' else show
            sx.check(sorted(line.split(': ', 1)[1].split(' + ')) == sorted(show), 'the line names both mentions')
    if not mark:
        sx.check(all(x.misc['Mark'] == '' for x in nodes), 'nothing is marked')
        sx.reach('unmarked')
        return
    if which != 'crossing':
        check_marks(doc, nodes, good, describe(form), which)
    else:
        for x in nodes:
            mine = [(a, b) for a, b in good if any(x is w for w in a.words) and any(x is w for w in b.words)]
            sx.check((x.misc['Mark'] != '') == bool(mine), 'exactly the common words of crossing mentions are marked')
            if mine:
                show = lambda m: describe(form)(m).split(':')[1]
                sx.check(any(sorted(x.misc['Mark'].split('+')) == sorted(show(m) for m in pair) for pair in mine), 'the description names both mentions')
    sx.reach('marked' if good else 'none')
