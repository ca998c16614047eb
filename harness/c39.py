"""C39: statistics."""
import sys
import udapi.core.coref as coref
from udapi.core.document import Document
from sx import api as sx
from harness.c20 import sentence, subset


def printed(block, *docs):
    """What the block prints when it is applied to the documents."""
    old, out = sys.stdout, sx.out()
    sys.stdout = out
    try:
        block.process_start()
        for doc in docs:
            block.apply_on_document(doc)
        block.process_end()
    finally:
        sys.stdout = old
    return out.getvalue()


# ------------------------------------------------------------ Node.get_attrs
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['left', 'right', 'root'],
            bounds='every tree of n words and each of its words')
def attributes(n):
    t = sx.tree('t', n)
    for k, x in enumerate(t.nodes[1:], 1):
        x.form = 'w%d' % k
    j = sx.choice('node', range(1, n + 1))
    x = t.nodes[j]
    h = sx.fix(t.head(j))
    get = lambda *names: x.get_attrs(list(names), stringify=False)
    sx.check(get('dir') == ['root' if h == 0 else 'left' if j < h else 'right'], 'dir')
    sx.reach(get('dir')[0])
    sx.check(get('edge') == [0 if h == 0 else j - h], 'edge')
    ks = [k for k in range(1, n + 1)]
    kids = [k for k in ks if sx.fix(t.head(k) == j)]
    sx.check(get('children') == [len(kids)], 'children')
    sx.check(get('siblings') == [sx.count([t.head(k) == h for k in ks if k != j])], 'siblings')
    sx.check(get('depth') == [1 + sx.count([t.anc(k, j) for k in ks if k != j])], 'depth')
    sx.check(get('p_form') == [t.nodes[h].form], 'form of the parent')
    sx.check(get('c_form') == ['w%d' % k for k in kids], 'forms of the children')
    sx.check(get('l_form') == ([t.nodes[j - 1].form]), 'form of the previous node (the root before the first word)')
    sx.check(get('r_form') == (['w%d' % (j + 1)] if j < n else []), 'form of the next node')
    sx.check(x.get_attrs(['form', 'c_dir', 'edge']) == ['w%d' % j] + ['left' if k < j else 'right' for k in kids] + [str(0 if h == 0 else j - h)], 'in the given order, as strings')


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=3)], reach=['split', 'empty', 'undefined'],
            bounds='a word with any of two features and MISC attributes with values of up to size characters, with or without a form, lemma and xpos')
def values(size):
    doc, root = sentence(2)
    x, y = root.descendants
    feats, misc = {}, {}
    for names, attr, d in ((['A', 'B'], x.feats, feats), (['C', 'D'], x.misc, misc)):
        for nm in names:
            if sx.bool(nm):
                d[nm] = sx.str(nm + 'v', 1, size, 'value')
                attr[nm] = d[nm]
    lemma = sx.str('lemma', 1, size, 'field') if sx.bool('has') else None
    x.lemma = lemma
    show = lambda d: [k + '=' + v for k, v in d.items()] or ['_']
    for name, d in (('feats', feats), ('misc', misc)):
        got = x.get_attrs([name + '_split'])
        sx.check(len(got) == len(show(d)) and sx.and_(*[sx.eq(a, b) for a, b in zip(got, show(d))]), name + '_split')
        for key in 'ABCD':
            sx.check(sx.eq(x.get_attrs(['%s[%s]' % (name, key)])[0], d.get(key, '')), 'a single value')
        got = y.get_attrs(['l_%s_split' % name])
        sx.check(len(got) == len(show(d)) and sx.and_(*[sx.eq(a, b) for a, b in zip(got, show(d))]), 'of the previous node')
    sx.reach('split' if feats or misc else 'empty')
    got = x.get_attrs(['lemma'], undefs=sx.choice('undefs', [None, '', '?']))
    if lemma is None:
        sx.reach('undefined')
        sx.check(got in ([None], [''], ['?']) and x.get_attrs(['lemma', 'form'], undefs='U') == ['U', x.form] and x.get_attrs(['lemma']) == [None], 'values for undefined attributes')
    else:
        sx.check(sx.eq(got[0], lemma), 'the value')


# ------------------------------------------------------------ util.See
@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['none', 'all', 'some', 'cut'],
            bounds='two sentences (every tree of n words, one word), words of two kinds that match or not, the statistics printed for matching words')
def see(n):
    from udapi.block.util.see import See
    t = sx.tree('t', n)
    doc = t.doc
    u = sx.tree('u', 1, doc=doc)
    kinds = {}
    words = t.nodes[1:] + u.nodes[1:]
    for i, x in enumerate(words):
        x.form, x.upos = 'f%d' % (i % 2), sx.choice('upos%d' % i, ['A', 'B'])
        x.feats = '_'
    heads = {id(x): (tr.nodes[sx.fix(tr.head(k))], k - sx.fix(tr.head(k)) if sx.fix(tr.head(k)) else 0) for tr in (t, u) for k, x in enumerate(tr.nodes) if k}
    parent = lambda x: heads[id(x)][0]
    kids = lambda x: [y for y in words if parent(y) is x]
    stats = sx.choice('stats', ['dir', 'edge,children', 'p_upos,c_upos', 'siblings,form', 'upos,feats_split'])
    limit = sx.choice('limit', [1, 5])
    of = {'dir': lambda x: ['root' if parent(x) in (t.root, u.root) else 'left' if heads[id(x)][1] < 0 else 'right'],
          'edge': lambda x: [str(heads[id(x)][1])], 'children': lambda x: [str(len(kids(x)))],
          'p_upos': lambda x: [str(parent(x).upos)], 'c_upos': lambda x: [y.upos for y in kids(x)], 'siblings': lambda x: [str(len(kids(parent(x))) - 1)],
          'form': lambda x: [x.form], 'upos': lambda x: [x.upos], 'feats_split': lambda x: ['_']}
    cond = sx.choice('node', ['node.upos == "A"', 'True'])
    lines = printed(See(node=cond, n=limit, stats=stats), doc).split('\n')
    match = [x for x in words if cond == 'True' or x.upos == 'A']
    trees = len([1 for tr in (t, u) if any(x in tr.nodes for x in match)])
    sx.check(lines[0] == cond and lines[1] == 'matches %d out of %d nodes (%.1f%%) in %d out of %d trees (%.1f%%)' % (len(match), n + 1, 100 * len(match) / (n + 1), trees, 2, 50 * trees), 'the totals')
    sx.reach('none' if not match else 'all' if len(match) == n + 1 else 'some')
    lines = lines[2:]
    for stat in stats.split(','):
        vals = [v for x in match for v in of[stat](x)]
        every = [v for x in words for v in of[stat](x)]
        kinds = sorted(set(vals))
        sx.check(lines[0] == '=== %s (%d value%s) ===' % (stat, len(kinds), 's' if len(kinds) > 1 else ''), 'the number of values')
        got, last = {}, n + 2
        for line in lines[1:1 + min(limit, len(kinds))]:
            v, c, p, d = line.split()[0], line.split()[1], line.split()[2], line.split('delta=')[1]
            sx.check(v in kinds and v not in got, 'each value once')
            got[v] = c
            sx.check(int(c) == vals.count(v), 'the count of the value')
            sx.check(int(c) <= last, 'the most frequent values first')
            last = int(c)
            mp, ep = 100 * vals.count(v) / len(vals), 100 * every.count(v) / len(every)
            sx.check(p == '%d%%' % mp and d.replace(' ', '') == '%+d%%' % (mp - ep), 'the percentage and its difference')
        left = [v for v in kinds if v not in got]
        sx.check(len(got) == min(limit, len(kinds)) and all(vals.count(v) <= last for v in left), 'the most frequent values')
        if left:
            sx.reach('cut')
        lines = lines[1 + len(got):]
    sx.check(lines == [''], 'nothing else')


@sx.harness(quick=[dict()], thorough=[dict(k=2)], reach=['no nodes', 'no trees', 'empty'],
            bounds='documents without words or without sentences; empty nodes counted or not')
def see_empty(k=1):
    from udapi.block.util.see import See
    case = sx.choice('case', ['no trees', 'no nodes', 'empty'])
    count = sx.bool('count')
    doc = Document()
    root = None
    if case != 'no trees':
        root = doc.create_bundle().create_tree()
    if case == 'empty':
        w = root.create_child(form='w', upos='A', feats='_')
        for i in range(k):
            w.create_empty_child('x', form='e%d' % i, upos='A', feats='_')
    lines = printed(See(node='node.upos == "A"', stats='dir,form,upos', empty=count), doc).split('\n')
    m = 0 if case != 'empty' else k + 1 if count else 1
    trees = 0 if case == 'no trees' else 1
    sx.check(lines[1] == 'matches %d out of %d nodes (%.1f%%) in %d out of %d trees (%.1f%%)' % (m, m, 100 if m else 0, 1 if m else 0, trees, 100 if m else 0), 'the totals')
    sx.reach(case)


# ------------------------------------------------------------ util.Wc
@sx.harness(quick=[dict(b=2)], thorough=[dict(b=3)], reach=['mwt', 'empty', 'newdoc', 'newpar', 'two zones', 'plain', 'nothing'],
            bounds='b bundles with up to two trees of up to three words, any multi-word token and empty nodes, new documents and paragraphs, one zone or all')
def wc(b):
    from udapi.block.util.wc import Wc
    doc = Document()
    zones = sx.choice('zones', ['all', 'b'])
    want = dict(trees=0, words=0, tokens=0, mwts=0, empty=0, docs=0, pars=0)
    first = True
    for i in range(b):
        bundle = doc.create_bundle()
        for zone in 'ab':
            if i == 1 and zone == 'a' or not sx.bool('tree%d%s' % (i, zone)):
                continue
            root = bundle.create_tree(zone)
            n = sx.choice('words%d%s' % (i, zone), [0, 3] if zone == 'a' else [2])
            words = [root.create_child(form='w') for _ in range(n)]
            width = sx.choice('mwt%d%s' % (i, zone), range(n)) if n else 0
            if width:
                root.create_multiword_token(words[:width + 1], form='m')
            empties = sx.choice('empty%d%s' % (i, zone), range(2)) if n else 0
            for _ in range(empties):
                words[0].create_empty_child('x')
            newdoc = sx.bool('newdoc%d%s' % (i, zone)) if zone == 'b' or not i else False
            root.newdoc = newdoc or None
            newpar = sx.bool('newpar%d' % i) if zone == 'b' else False
            root.newpar = newpar or None
            if zones == 'all' or zone in zones:
                want['trees'] += 1
                want['words'] += n
                want['tokens'] += n - width
                want['mwts'] += width > 0
                want['empty'] += empties
                want['docs'] += newdoc or first
                want['pars'] += newpar
            first = False
    tsv = sx.bool('tsv')
    text = printed(Wc(tsv=tsv, zones=zones), doc)
    order = ['trees', 'words', 'tokens', 'mwts', 'empty', 'docs', 'pars']
    if tsv:
        sx.check(text == '\t'.join(str(want[x]) for x in order) + '\n', 'the numbers')
    else:
        lines = [('trees', 'trees'), ('words', 'words')]
        if want['mwts']:
            lines += [('mwts', 'multi-word tokens'), ('tokens', 'tokens')]
            sx.reach('mwt')
        for key, name in (('empty', 'empty nodes'), ('docs', 'documents'), ('pars', 'paragraphs')):
            if want[key]:
                lines.append((key, name))
        sx.check(text == ''.join('%8d %s\n' % (want[k], name) for k, name in lines), 'the numbers')
    for key, label in (('empty', 'empty'), ('docs', 'newdoc'), ('pars', 'newpar')):
        if want[key]:
            sx.reach(label)
    if want['trees'] > 2:
        sx.reach('two zones')
    sx.reach('plain' if want['trees'] else 'nothing')


@sx.harness(reach=['equal', 'different', 'file'], bounds='two documents with up to two mentions each of one entity, a report for each of them')
def stats_per_document():
    from udapi.block.corefud.stats import Stats
    docs, want = [], []
    by = sx.choice('docname', ['newdoc', 'filename'])
    for d in range(2):
        coref.highest_doc_n = 0
        doc, root = sentence(2 + d)
        root.newdoc = 'D%d' % d
        doc.meta['loaded_from'] = 'F%d' % d
        k = sx.choice('mentions%d' % d, [1, 2])
        e = doc.create_coref_entity()
        longest = 0
        for i in range(k):
            w = subset('d%dm%d' % (d, i), root.descendants)
            e.create_mention(words=w, head=w[0])
            longest = max(longest, len(w))
        docs.append(doc)
        want.append(dict(words=str(2 + d), sents='1', docs='1', entities='1', entities_per1k='%.0f' % (1000 / (2 + d)), longest_entity=str(k), avg_entity='%.1f' % k, mentions=str(k), longest_mention=str(longest)))
    text = printed(Stats(per_doc=True, report_basics=True, docname=by, m_len_max=2, e_len_max=2), *docs)
    pos = [text.find('D%d ' % d if by == 'newdoc' else 'F%d ' % d) for d in range(2)]
    sx.check(pos[0] == 0 and pos[1] > 0, 'the names of the documents')
    for d, part in enumerate((text[:pos[1]], text[pos[1]:])):
        got = dict((line.split(' = ')[0].strip(), line.split(' = ')[1].strip()) for line in part.split('\n') if ' = ' in line)
        for key in want[d]:
            sx.check(got[key] == want[d][key], 'statistics of a document: ' + key)
    sx.reach('file' if by == 'filename' else 'equal' if want[0]['mentions'] == want[1]['mentions'] else 'different')


# ------------------------------------------------------------ corefud.Stats
@sx.harness(quick=[dict(n=3, k=3)], thorough=[dict(n=4, k=3)], reach=['singletons', 'long', 'empty', 'gap', 'nontreelet', 'none'],
            bounds='k mentions with any sets of n nodes (the last one empty, with one or two parents) of two entities, singletons excluded, others excluded, or none')
def coref_stats(n, k):
    from udapi.block.corefud.stats import Stats
    doc, root = sentence(n - 1, [0] * (n - 1) + [1])
    nodes = root.descendants_and_empty
    for i, x in enumerate(nodes):
        x.upos = ['NOUN', 'X'][i % 2]
    if n > 2:
        nodes[1].parent = nodes[0]
    if sx.bool('second parent'):
        nodes[-1].deps = nodes[-1].deps + [{'parent': nodes[0], 'deprel': 'dep'}]
    es = [doc.create_coref_entity('e%d' % i) for i in range(2)]
    mentions = []
    for i in range(k):
        e = es[sx.choice('entity%d' % i, range(2)) if i else 0]
        words = subset('m%d' % i, nodes)
        mentions.append((e, words, e.create_mention(words=words, head=words[-1])))
    es = [e for e in es if e.mentions]
    if len(es) == 1:
        del doc.eid_to_entity['e1']
    which = sx.choice('which', ['all', 'nonsingletons', 'singletons'])
    upos = sx.choice('selected_upos', ['NOUN', 'all']) if which == 'all' else 'NOUN'
    text = printed(Stats(m_len_max=2, e_len_max=2, report_basics=True, exclude_singletons=which == 'nonsingletons', exclude_nonsingletons=which == 'singletons', selected_upos=upos), doc)
    got = dict((line.split(' = ')[0].strip(), line.split(' = ')[1].strip()) for line in text.split('\n') if line)
    size = {id(e): len([m for m in mentions if m[0] is e]) for e in es}
    es = [e for e in es if which == 'all' or (size[id(e)] > 1) == (which == 'nonsingletons')]
    ms = [(w, m) for e, w, m in mentions if any(e is x for x in es)]
    words = [len([x for x in w if not x.is_empty()]) for w, m in ms]
    p = lambda xs: '%.1f' % (100 * len([x for x in xs if x]) / max(1, len(xs)))
    lens = [size[id(e)] for e in es]
    pos = lambda x: [i for i, y in enumerate(nodes) if y is x][0]
    gap = [pos(w[-1]) - pos(w[0]) + 1 > len(w) for w, m in ms]
    up = lambda x: [d['parent'] for d in x.deps] if x.is_empty() else [x.parent]
    tops = [len([x for x in w if not any(u is y for u in up(x) for y in w)]) for w, m in ms]
    want = dict(docs='0', sents='1', words=str(n - 1), empty='1', entities=str(len(es)), entities_per1k='%.0f' % (1000 * len(es) / (n - 1)), longest_entity=str(max(lens + [0])), avg_entity='%.1f' % (sum(lens) / max(1, len(es))),
                mentions=str(len(ms)), mentions_per1k='%.0f' % (1000 * len(ms) / (n - 1)), longest_mention=str(max(words + [0])), avg_mention='%.1f' % (sum(words) / max(1, len(ms))),
                with_empty=p([any(x.is_empty() for x in w) for w, m in ms]), with_gaps=p(gap), nontreelet=p([x > 1 for x in tops]))
    want['c_len_1'], want['c_len_2+'] = p([x == 1 for x in lens]), p([x > 1 for x in lens])
    want['m_len_0'], want['m_len_1'], want['m_len_2+'] = p([x == 0 for x in words]), p([x == 1 for x in words]), p([x > 1 for x in words])
    if upos == 'all':
        for tag in sorted({m.head.upos for w, m in ms}):
            want['head_upos=' + tag] = p([m.head.upos == tag for w, m in ms])
    else:
        want['head_upos=NOUN'], want['head_upos=other'] = p([m.head.upos == 'NOUN' for w, m in ms]), p([m.head.upos != 'NOUN' for w, m in ms])
    sx.check(sorted(got) == sorted(want), 'the statistics')
    for key in want:
        sx.check(got[key] == want[key], 'statistics ' + key)
    sx.reach('singletons' if 1 in lens else 'long' if lens else 'none')
    for label, flags in (('gap', gap), ('nontreelet', [x > 1 for x in tops]), ('empty', [x == 0 for x in words])):
        if any(flags):
            sx.reach(label)
