"""C44: coreference in older formats and the corpus of verse are read as the same annotation."""
import io
import copy
import udapi.core.coref as coref
import udapi.block.read.ccv as ccv
from udapi.core.document import Document
from udapi.block.read.oldcorefud import OldCorefUD as Reader
from udapi.block.write.oldcorefud import OldCorefUD as Writer
from udapi.block.read.conll2012 import Conll2012
from sx import api as sx
from harness.common import check_wf
from harness.c19 import compare, backlinks, place, representable
from harness.c20 import sentence, subset, same
from harness.c40 import printed


def load(reader, text, **kw):
    doc = Document()
    reader(filehandle=io.StringIO(text), **kw).apply_on_document(doc)
    return doc


# ------------------------------------------------------------ write.OldCorefUD and read.OldCorefUD
@sx.harness(quick=[dict(n=3, k=2, unreached=('three',)), dict(n=2, k=2, empties=(0, 1, 0), unreached=('three',)), dict(n=2, k=3, unreached=('discontinuous',))],
            thorough=[dict(n=4, k=2, unreached=('three',)), dict(n=3, k=3), dict(n=2, k=2, empties=(1, 1, 1), unreached=('three',))],
            reach=['same head', 'three', 'same entity', 'discontinuous'],
            bounds='k mentions with any sets of words and empty nodes of one or of two sentences, any heads, of one or of different entities (of one entity with different spans)')
def old_spans(n, k, empties=(), unreached=()):
    coref.highest_doc_n = 0
    doc, root = sentence(n, empties)
    two = k == 3 and sx.bool('two sentences')
    roots = [root, sentence(1, (), doc)[1] if two else root]
    for x in doc.nodes:
        x.deprel = 'dep'
    for x in root.empty_nodes:
        x.raw_deps = '0:root'
    entities = [doc.create_coref_entity('e%d' % i, [None, 't', 'u'][i]) for i in range(k)]
    done = []
    for i in range(k):
        e = entities[sx.choice('entity%d' % i, range(i + 1))]
        words = subset('m%dw' % i, roots[1 if i == 2 else 0].descendants_and_empty)
        for f, other in done:
            sx.assume(f is not e or not same(words, other))
            if f is e:
                sx.reach('same entity')
        m = e.create_mention(words=words, head=sx.choice('head%d' % i, words))
        if ',' in m.span:
            sx.reach('discontinuous')
        done.append((e, words))
    heads = [m.head for m in doc.coref_mentions]
    most = max(len([1 for h in heads if h is g]) for g in heads)
    sx.reach('same head' if most > 1 else 'other')
    if most > 2:
        sx.reach('three')
    text = printed(Writer, doc)
    new = load(Reader, text)
    compare(new, doc, 'old format')
    for x, y in zip(doc.nodes_and_empty, new.nodes_and_empty):
        sx.check(x.form == y.form, 'words stay')
        sx.check(str(y.misc) == '_', 'the attributes of the old format are removed')


@sx.harness(quick=[dict(size=2, only='ids', unreached=('other', 'no type')), dict(size=2, only='values', unreached=('hyphen', 'two links'))],
            thorough=[dict(size=3, only='ids', unreached=('other', 'no type')), dict(size=3, only='values', unreached=('hyphen', 'two links'))],
            reach=['bridging', 'two links', 'split', 'other', 'hyphen', 'plain', 'no type'],
            bounds='three entities with ids of up to size characters (letters, digits and the like), types and further attributes of up to size characters, '
                   'bridging links and split antecedents between any of them; the first two mentions have the same head or not; hyphens of ids are left out or replaced')
def old_attributes(size, only, unreached=()):
    names = only == 'ids'
    coref.highest_doc_n = 0
    doc, root = sentence(3)
    w = root.descendants
    ids = ['x'] + ([sx.str('id%d' % i, 1, size, 'ax-') for i in range(2)] if names else ['y', 'z'])
    for i in range(3):
        for j in range(i):
            sx.assume(ids[i] != ids[j])
        sx.assume(sx.or_(*[c != '-' for c in ids[i]]))
    sub = sx.choice('instead of a hyphen', ['', '_']) if names else ''
    etype = 't' if names else sx.str('type', 0, size, 'letter')
    # what is written by hand in the old format
    h = [0, sx.choice('head', [0] if names else [0, 1]), 2]
    put = [dict(ClusterId=ids[0], MentionSpan='1'), dict(ClusterId=ids[1], MentionSpan='1-2'), dict(ClusterId=ids[2], MentionSpan='3')]
    if etype != '':
        put[1]['ClusterType'] = etype
    else:
        sx.reach('no type')
    bridges = []
    for j, rel in ((0, 'r'), (2, 's')):
        if (names or j) and sx.bool('bridge%d' % j):
            bridges.append((j, rel))
    if bridges:
        put[1]['Bridging'] = ','.join([ids[j] + ':' + r for j, r in bridges])
        sx.reach('bridging')
        if len(bridges) > 1:
            sx.reach('two links')
    split = sx.choice('split', [None, ','] if names else [None, '+'])
    if split:
        put[0]['SplitAnte'] = ids[1] + split + ids[2]
        sx.reach('split')
    other = sx.str('other', 0, size, 'value') if not names and sx.bool('has other') else ''
    sx.assume(sx.and_(*[sx.not_(c in other) for c in '|,=:%']))
    if other != '':
        put[2]['MentionMisc'] = 'k:' + other + (' ' if sx.bool('space') else ',') + 'm:-'
        sx.reach('other')
    for i in range(3):
        x = w[h[i]]
        n = len([j for j in range(i) if h[j] == h[i]])
        suffix = '[%d]' % (n + 1) if h[0] == h[1] and i < 2 else ''
        for name, v in put[i].items():
            x.misc[name + suffix] = v
    lines = ['\t'.join([str(x.ord), x.form, '_', '_', '_', '_', str(x.ord - 1), 'dep', '_', str(x.misc)]) for x in w]
    new = load(Reader, '\n'.join(lines) + '\n\n', replace_hyphen_in_id_with=sub)
    got = new.coref_entities
    sx.check(len(got) == 3, 'number of entities')
    u = new.bundles[0].trees[0].descendants
    es = []
    for i in range(3):
        mine = [m for m in new.coref_mentions if m.span == put[i]['MentionSpan']]
        sx.check(len(mine) == 1 and mine[0].head is u[h[i]], 'mention with the span and head')
        es.append(mine[0].entity)
        sx.check(sx.not_('-' in mine[0].entity.eid), 'no hyphens in ids')
        if sx.and_(*[sx.not_('-' in q) for q in ids]):
            sx.check(mine[0].entity.eid == ids[i], 'ids')
            sx.reach('plain')
        else:
            sx.reach('hyphen')
    sx.check(es[0] is not es[1] and es[1] is not es[2] and es[0] is not es[2] and es[0].eid != es[1].eid and es[1].eid != es[2].eid and es[0].eid != es[2].eid,
             'different entities stay different')
    sx.check(sx.eq(es[1].etype or '', etype) and not es[0].etype, 'types')
    ms = [e.mentions[0] for e in es]
    sx.check(sorted((es.index(l.target), l.relation) for l in ms[1].bridging) == bridges and not ms[0].bridging and not ms[2].bridging, 'bridging')
    sx.check(sorted(es.index(e) for e in es[0].split_ante) == ([1, 2] if split else []) and not es[1].split_ante, 'split antecedents')
    if other != '':
        v = other.replace('-', '%2D').replace('(', '%28').replace(')', '%29')
        sx.check(ms[2].other['k'] == v and ms[2].other['m'] == '%2D', 'further attributes')
    sx.check(str(ms[0].other) == '' and str(ms[1].other) == '', 'no further attributes')
    backlinks(new, 'old attributes')
    sx.check(all(str(x.misc) == '_' for x in u), 'the attributes of the old format are removed')
    # and back
    again = load(Reader, printed(Writer, new))
    new = load(Reader, '\n'.join(lines) + '\n\n', replace_hyphen_in_id_with=sub)
    compare(again, new, 'written again')
    a, b = [[x for x in d.coref_mentions if x.span == '1-2'][0] for d in (again, new)]
    sx.check(sorted((l.target.eid, l.relation) for l in a.bridging) == sorted((l.target.eid, l.relation) for l in b.bridging), 'bridging written again')
    for e in new.coref_entities:
        sx.check(sorted(x.eid for x in again.eid_to_entity[e.eid].split_ante) == sorted(x.eid for x in e.split_ante), 'split antecedents written again')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['first', 'later', 'no type', 'three'],
            bounds='n words with up to three mentions each, of two clusters in any order; the type of a cluster at any of its mentions')
def old_types(n):
    coref.highest_doc_n = 0
    lines, want, types, where = [], [], {}, {}
    for i in range(n):
        k = sx.choice('mentions%d' % i, range(4))
        misc = []
        if k == 3:
            sx.reach('three')
        seen = []
        for j in range(k):
            c = sx.choice('cluster%d.%d' % (i, j), ['a', 'b'])
            a = sx.choice('span%d.%d' % (i, j), [str(i + 1)] if i == n - 1 else [str(i + 1), '%d-%d' % (i + 1, n)])
            sx.assume((c, a) not in seen)
            seen.append((c, a))
            s = '[%d]' % (j + 1) if k > 1 or sx.bool('index%d' % i) else ''
            misc += ['ClusterId%s=%s' % (s, c)] + (['MentionSpan%s=%s' % (s, a)] if a != str(i + 1) else [])
            if sx.bool('typed%d.%d' % (i, j)):
                misc.append('ClusterType%s=%s' % (s, c * 2))
                if c in where and c not in types:
                    sx.reach('later')
                elif c not in where:
                    sx.reach('first')
                types[c] = c * 2
            where[c] = True
            want.append((c, a, i))
        lines.append('\t'.join([str(i + 1), 'w', '_', '_', '_', '_', str(i), 'dep', '_', '|'.join(misc) or '_']))
    doc = load(Reader, '\n'.join(lines) + '\n\n')
    sx.check(sorted(e.eid for e in doc.coref_entities) == sorted(where), 'entities')
    for e in doc.coref_entities:
        sx.check(e.etype == types.get(e.eid), 'types')
        if e.etype is None:
            sx.reach('no type')
    got = sorted((m.entity.eid, m.span, m.head.ord - 1) for m in doc.coref_mentions)
    sx.check(got == sorted(want), 'mentions')
    backlinks(doc, 'old types')


@sx.harness(reach=['self', 'self split', 'undefined', 'fine'],
            bounds='two clusters with ids of one letter, one with a link or an antecedent to any id of one letter')
def old_mistakes():
    coref.highest_doc_n = 0
    a, b = sx.str('a', 1, 1, 'xyz'), sx.str('b', 1, 1, 'xyz')
    target = sx.str('target', 1, 1, 'xyz')
    sx.assume(a != b)
    bridge = sx.bool('bridging')
    lines = ['1\tw\t_\t_\t_\t_\t0\tdep\t_\tClusterId=' + a + ('|Bridging=' + target + ':r' if bridge else '|SplitAnte=' + target),
             '2\tw\t_\t_\t_\t_\t0\tdep\t_\tClusterId=' + b]
    run = lambda: load(Reader, '\n'.join(lines) + '\n\n')
    if target == b:
        doc = run()
        x, y = [n.coref_entities[0] for n in doc.nodes]
        if bridge:
            sx.check([l.target is y for l in x.mentions[0].bridging] == [True], 'link')
        else:
            sx.check(same(x.split_ante, [y]), 'antecedent')
        sx.reach('fine')
    elif target == a and not bridge:
        sx.check(sx.raises(ValueError, run), 'an antecedent of itself is refused')
        sx.reach('self split')
    else:
        sx.check(sx.raises(ValueError, run), 'a link to itself or to nothing is refused')
        sx.reach('self' if target == a else 'undefined')


# ------------------------------------------------------------ read.Conll2012
@sx.harness(quick=[dict(n=3, k=2)], thorough=[dict(n=4, k=2), dict(n=3, k=3)], reach=['bars', 'joined', 'single', 'nested', 'crossing', 'two documents', 'end'],
            bounds='k mentions with any continuous spans of a sentence with n words (crossing only of different entities), any numbers of entities of one digit, brackets in any of two notations; '
                   'one or two documents, with and without an empty line before the end')
def conll2012(n, k):
    coref.highest_doc_n = 0
    kind = sx.choice('format', ['LitBank', 'Summ-it', 'SemEval'])
    attributes = {'LitBank': 'docname,_,ord,form,_,_,_,_,_,_,_,_,coref', 'Summ-it': 'ord,form,_,_,_,_,_,_,coref', 'SemEval': 'ord,form,_,_,_,_,coref'}[kind]
    bars = kind == 'LitBank'
    sx.reach('bars' if bars else 'joined')
    begin = {'LitBank': '#begin document (a-b-d); part 0', 'Summ-it': '#begin document /home/x/a-b-d.txt', 'SemEval': '#begin document a-b-d.txt.xml'}[kind]
    nums = [sx.str('number%d' % i, 1, 1, '123') for i in range(k)]
    spans = []
    for i in range(k):
        a = sx.choice('from%d' % i, range(1, n + 1))
        b = sx.choice('to%d' % i, range(a, n + 1))
        for j, (c, d) in enumerate(spans):
            if nums[j] == nums[i]:
                sx.assume((c, d) != (a, b) and not (a < c <= b < d or c < a <= d < b))
            elif a < c <= b < d or c < a <= d < b:
                sx.reach('crossing')
            if a < c and d < b:
                sx.reach('nested')
        if a == b:
            sx.reach('single')
        spans.append((a, b))
    two = sx.bool('two documents')
    if two:
        sx.reach('two documents')
    base = sx.choice('first number', [0, 1])
    lines = []
    for s in range(2 if two else 1):
        lines.append(begin if s == 0 else begin.replace('a-b-d', 'c'))
        for x in range(1, n + 1):
            # wider spans open first and close last
            order = sorted(range(k), key=lambda i: spans[i][0] - spans[i][1])
            opens = ['(' + nums[i] for i in order if spans[i][0] == x < spans[i][1]]
            closes = [nums[i] + ')' for i in order[::-1] if spans[i][1] == x > spans[i][0]]
            single = ['(' + nums[i] + ')' for i in order if spans[i][0] == x == spans[i][1]]
            chunks = (closes + single + opens if sx.bool('singles first%d%d' % (s, x)) else closes + opens + single) if single and (opens or closes) else closes + single + opens
            value = ('|' if bars else '').join(chunks) if chunks and s == 0 else '_'
            cols = {'docname': 'a-b-d' if s == 0 else 'c', 'ord': str(x - 1 + base), 'form': 'w%d' % x, 'coref': value, '_': '_'}
            lines.append('\t'.join([cols[c] for c in attributes.split(',')]))
        if sx.bool('empty line%d' % s):
            lines.append('')
        lines.append('#end document')
        sx.reach('end')
    text = '\n'.join(lines) + '\n'
    doc = load(Conll2012, text, attributes=attributes)
    sx.check(len(doc.bundles) == (2 if two else 1), 'number of sentences')
    for s, b in enumerate(doc.bundles):
        t = b.trees[0]
        check_wf(t, 'sentence')
        sx.check([x.form for x in t.descendants] == ['w%d' % x for x in range(1, n + 1)], 'words')
        sx.check(t.newdoc == ('a-b-d' if s == 0 else 'c'), 'name of the document')
    got = sorted(((m.words[0].ord, m.words[-1].ord, m.entity.eid) for m in doc.coref_mentions), key=lambda m: m[:2])
    want = sorted(zip(spans, nums), key=lambda m: m[0])
    sx.check([m[:2] for m in got] == [s for s, _ in want], 'spans')
    sx.check(all(len(m.words) == m.words[-1].ord - m.words[0].ord + 1 and m.head.root is doc.bundles[0].trees[0] for m in doc.coref_mentions), 'continuous mentions of the first sentence')
    for span in spans:
        mine = [e for a, b, e in got if (a, b) == span]
        for num in [q for p, q in want if p == span]:
            sx.check(sx.or_(*[e == 'abd_e' + num for e in mine]), 'entities')
    backlinks(doc, 'conll2012')


# ------------------------------------------------------------ read.Ccv
class Json:
    def __init__(self, data):
        self.data = data
        self.JSONDecodeError = ValueError

    def loads(self, text):
        if text.strip() != 'CONTENT':
            raise ValueError('Expecting value')
        return copy.deepcopy(self.data)

    def load(self, handle):
        return self.loads(handle.read())


@sx.harness(quick=[dict(n=3, size=1)], thorough=[dict(n=4, size=1), dict(n=3, size=2)], reach=['tokens', 'no tokens', 'two poems', 'two stanzas', 'parts', 'documents', 'punctuation', 'space'],
            bounds='n verses, each of a word of up to size letters and punctuation before and after it with or without spaces, in any stanzas and poems; whole files, files in parts, and a document per poem')
def verse(n, size):
    import udapi.core.files as files
    tokenize = sx.bool('tokenize')
    poems, flags, words, texts = [], [], [], []
    for i in range(n):
        new = 'poem' if i == 0 else sx.choice('new%d' % i, [None, 'stanza', 'poem'])
        word = sx.str('word%d' % i, 1, size, 'letter') if i < 2 else 'w'
        before = sx.choice('before%d' % i, [[], ['"']]) if i == 0 else []
        after = sx.choice('after%d' % i, [[], ['!'], ['.', '"']]) if i == 0 else ['.']
        space = ' ' if i == 0 and sx.bool('space') else ''
        text = ''.join(before) + word + space + ''.join(after)
        if space != '' and after:
            sx.reach('space')
        elif space != '':
            text = word.join([''.join(before), ''])
        line = dict(text=text, rhyme=i, metre=['J'], stress='1', words=[dict(token=word, lemma='l', morph='N', xsampa='s', phoebe='p')],
                    punct=dict(([('0', before)] if before else []) + ([('1', after)] if after else [])))
        if new == 'poem':
            poems.append(dict(poem_id='p%d' % i, p_author=dict(name='A'), b_author=dict(name='B'), biblio=dict(y=1), body=[[]]))
        elif new == 'stanza':
            poems[-1]['body'].append([])
        poems[-1]['body'][-1].append(line)
        flags.append(new)
        words.append((before, word, after))
        texts.append(text)
    if len(poems) > 1:
        sx.reach('two poems')
    if any(len(p['body']) > 1 for p in poems):
        sx.reach('two stanzas')
    how = sx.choice('how', ['whole', 'parts', 'documents'])
    kw = dict(whole={}, parts=dict(bundles_per_doc=2), documents=dict(split_docs=True))[how]
    # the JSON parser is a C module: its stand-in gives the data for the content of the file
    ccv.json = Json(poems)
    files.open = lambda name, *a, **k: io.StringIO('CONTENT')
    docs = ccv.Ccv(files='f', tokenize=tokenize, **kw).read_documents()
    docs = [d for d in docs if d.bundles]
    sizes = [len(d.bundles) for d in docs]
    if how == 'whole':
        want = [n]
    elif how == 'parts':
        want = [min(2, n - i) for i in range(0, n, 2)]
    else:
        starts = [i for i in range(n) if flags[i] == 'poem'] + [n]
        want = [b - a for a, b in zip(starts, starts[1:])]
    sx.reach({'whole': 'tokens', 'parts': 'parts', 'documents': 'documents'}[how])
    sx.check(sizes == want, 'sizes of the documents')
    trees = [t for d in docs for b in d.bundles for t in b.trees]
    for i, t in enumerate(trees):
        check_wf(t, 'verse')
        sx.check(t.text == texts[i], 'text')
        sx.check(t.json['rhyme'] == i and t.json['metre'] == ['J'] and t.json['stress'] == '1', 'data of the verse')
        sx.check(sx.iff(t.newpar, flags[i] is not None) and t.newdoc == ('p%d' % i if flags[i] == 'poem' else None), 'beginnings of stanzas and poems')
        if flags[i] == 'poem':
            sx.check(t.json['p_author'] == dict(name='A') and t.json['b_author'] == dict(name='B') and t.json['biblio'] == dict(y=1), 'data of the poem')
        else:
            sx.check('p_author' not in t.json, 'no data of the poem')
        xs = t.descendants
        if not tokenize:
            sx.check(xs == [], 'no words')
            sx.reach('no tokens')
            continue
        before, word, after = words[i]
        sx.check(len(xs) == len(before) + 1 + len(after), 'number of tokens')
        sx.check(sx.and_(*[x.form == f for x, f in zip(xs, before + [word] + after)]), 'tokens')
        sx.check(t.compute_text() == texts[i], 'the tokens give the text')
        x = xs[len(before)]
        sx.check(x.lemma == 'l' and x.xpos == 'N' and x.misc['xsampa'] == 's' and x.misc['phoebe'] == 'p', 'attributes of the word')
        if before + after:
            sx.reach('punctuation')
            sx.check(all(y.xpos is None and y.lemma == y.form for y in xs if y is not x), 'attributes of punctuation')
