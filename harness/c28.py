"""C28: segmentation, splitting and joining of sentences, splitting of documents."""
from sx import api as sx
from harness.common import check_wf


# ---------------------------------------------------------------- sentences and trees
def document(sizes, plain=()):
    """A document with one symbolic tree per bundle; words have distinct forms and attributes."""
    doc, trees = None, []
    for i, n in enumerate(sizes):
        if i in plain:
            t = sx.tree('c%d' % i, 0, doc=doc) if doc else sx.tree('c%d' % i, 0)
            for k in range(1, n + 1):
                x = t.root.create_child()
                t.nodes.append(x)
        else:
            t = sx.tree('s%d' % i, n, doc=doc) if doc else sx.tree('s%d' % i, n)
        doc = t.doc
        t.bundle.bundle_id = 'b%d' % i
        for k in range(1, n + 1):
            x = t.nodes[k]
            x.form, x.lemma, x.deprel, x.upos = 'f%d.%d' % (i, k), 'l%d' % k, 'rel%d' % k, 'U'
        t.root.text = 'stored text'
        trees.append(t)
    return doc, trees


def flags(t):
    """Space flags of some words; the texts of the words with the space after them."""
    out = {}
    for k in range(1, len(t.nodes)):
        if k % 2 and sx.bool('tight%s' % t.nodes[k].form):
            t.nodes[k].misc['SpaceAfter'] = 'No'
            out[k] = t.nodes[k].form
        else:
            out[k] = t.nodes[k].form + ' '
    return out


def check_doc(doc, ids):
    sx.check([b.bundle_id for b in doc.bundles] == ids, 'ids of the bundles')
    sx.check([b.number for b in doc.bundles] == list(range(1, len(ids) + 1)), 'numbers of the bundles')
    for b in doc.bundles:
        sx.check(len(b.trees) == 1 and b.trees[0].bundle is b and b.document is doc, 'trees belong to their bundles')
        sx.check(b.trees[0].sent_id == b.bundle_id, 'sent_id')
        check_wf(b.trees[0], 'part')


def check_part(root, t, nums, msg):
    """The words of the part are those of the tree with these numbers; their heads inside the part stay."""
    words = root.descendants
    sx.check([id(x) for x in words] == [id(t.nodes[k]) for k in nums], msg + ': words in order')
    for k in nums:
        x = t.nodes[k]
        h = t.head(k)
        inside = False
        for j in nums:
            if h == j:
                inside = True
                sx.check(x.parent is t.nodes[j], msg + ': heads inside of a part stay')
        sx.check(x.parent is root or inside, msg + ': other words hang under the root')
        sx.check(x.form[0] == 'f' and x.lemma == 'l%d' % k and x.upos == 'U', msg + ': attributes stay')
        sx.check(x.deprel == ('rel%d' % k if inside else 'root'), msg + ': relations')


@sx.harness(quick=[dict(n=3), dict(n=4, simple=True)], thorough=[dict(n=4), dict(n=5, simple=True)], reach=['one', 'more', 'none', 'both'],
            bounds='documents of three sentences of 1, n and 2 words, any tree of n words, any words marked, with or without a required value of the mark, '
                   'any space flags, perhaps a multi-word token over two words inside of a part (simple: no required value, no space flags)')
def split_misc(n, simple=False):
    from udapi.block.util.splitsentence import SplitSentence
    doc, ts = document([1, n, 2], plain=(0, 2))
    t = ts[1]
    texts = flags(t) if not simple else {k: t.nodes[k].form + ' ' for k in range(1, n + 1)}
    value = sx.choice('value', [None, 'yes', 1]) if not simple else None
    want = 'yes' if value is None else str(value)
    cuts = []
    for k in range(1, n + 1):
        m = sx.choice('mark%d' % k, ['', want, 'other'] if k < 3 and not simple else ['', want])
        if m:
            t.nodes[k].misc['Cut'] = m
            if k > 1 and (m == want or value is None):
                cuts.append(k)
    both = sx.bool('last too')
    if both:
        ts[2].nodes[2].misc['Cut'] = want
        sx.reach('both')
    m = sx.choice('token', [0] + [k for k in range(1, n) if k + 1 not in cuts])
    if m:
        tok = t.root.create_multiword_token(t.nodes[m:m + 2], form='MM')
        tight = t.nodes[m].misc['SpaceAfter'] == 'No' or t.nodes[m + 1].misc['SpaceAfter'] == 'No'
        last = tok.misc['SpaceAfter'] == 'No'
        texts[m], texts[m + 1] = 'MM', '' if last else ' '
    SplitSentence(misc_name='Cut', misc_value=value).process_document(doc)
    sx.reach(['none', 'one', 'more'][min(2, len(cuts))])
    borders = [1] + cuts + [n + 1]
    ids = ['b1'] if not cuts else ['b1' + 'ABCDEFG'[i] for i in range(len(cuts) + 1)]
    check_doc(doc, ['b0'] + ids + (['b2A', 'b2B'] if both else ['b2']))
    if not cuts:
        sx.check(t.root.text == 'stored text' and [id(x) for x in t.root.descendants] == [id(x) for x in t.nodes[1:]], 'nothing to do')
        return
    whole = ''
    for i in range(len(cuts) + 1):
        root = doc.bundles[1 + i].trees[0]
        nums = list(range(borders[i], borders[i + 1]))
        check_part(root, t, nums, 'part')
        part = ''.join(texts[k] for k in nums)
        sx.check(root.text == part.rstrip(), 'text of the part')
        whole += root.text
        toks = root.multiword_tokens
        sx.check([x.form for x in toks] == (['MM'] if m in nums else []), 'multi-word tokens')
        if m in nums:
            sx.check([id(x) for x in toks[0].words] == [id(x) for x in t.nodes[m:m + 2]] and toks[0].root is root, 'words of the multi-word token')
    sx.check(whole.replace(' ', '') == ''.join(texts.values()).replace(' ', ''), 'all characters stay')
    for k in cuts:
        sx.check('Cut' not in t.nodes[k].misc, 'the mark is removed')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=6)], reach=['split', 'other'],
            bounds='documents of three sentences of 1, n and 1 words, any tree of n words, split before any word after the first, id existing or not, a number or not')
def split_id(n):
    from udapi.block.util.splitsentence import SplitSentence
    doc, ts = document([1, n, 1], plain=(0, 2))
    t = ts[1]
    texts = flags(t)
    ident = sx.choice('id', ['b1', '7', 7, 'no'])
    if ident != 'no':
        t.bundle.bundle_id = str(ident)
    old = t.bundle.bundle_id
    word = sx.choice('word', range(2, n + 1))
    SplitSentence(sent_id=ident, word_id=word).process_document(doc)
    if ident == 'no':
        sx.reach('other')
        check_doc(doc, ['b0', old, 'b2'])
        return
    sx.reach('split')
    check_doc(doc, ['b0', old + 'A', old + 'B', 'b2'])
    check_part(t.root, t, list(range(1, word)), 'first part')
    check_part(doc.bundles[2].trees[0], t, list(range(word, n + 1)), 'second part')
    sx.check(t.root.text == ''.join(texts[k] for k in range(1, word)).rstrip(), 'first text')
    sx.check(doc.bundles[2].trees[0].text == ''.join(texts[k] for k in range(word, n + 1)).rstrip(), 'second text')


def check_joined(root, ts, texts):
    """The tree consists of those trees, in this order."""
    words = root.descendants
    expect = [t.nodes[k] for t in ts for k in range(1, len(t.nodes))]
    sx.check([id(x) for x in words] == [id(x) for x in expect], 'words in order')
    text = ''
    for i, t in enumerate(ts):
        for k in range(1, len(t.nodes)):
            x = t.nodes[k]
            h = sx.fix(t.head(k)) if hasattr(t, 'p') and t.n else 0
            sx.check(x.parent is (t.nodes[h] if h else root), 'heads')
            sx.check(x.deprel == 'rel%d' % k and x.lemma == 'l%d' % k and x.form[0] == 'f', 'attributes')
        text = text + ''.join(texts[id(t)].values())
    sx.check(root.text == text.rstrip(), 'text')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['none', 'one', 'two', 'apart', 'id'],
            bounds='documents of four sentences, two of them any trees of n words, the others of one word; any of the sentences after the first marked for joining (on any word, with and without required value), or one given by id')
def join(n):
    from udapi.block.util.joinsentence import JoinSentence
    doc, ts = document([n, n, 1, 1], plain=(2, 3))
    texts = {id(t): flags(t) for t in ts}
    how = sx.choice('how', ['misc', 'value', 'id'])
    joined = []
    if how == 'id':
        i = sx.choice('which', [1, 2, 3])
        if sx.bool('number'):
            ts[i].bundle.bundle_id = str(i)
        ident = ts[i].bundle.bundle_id
        JoinSentence(sent_id=i if ident == str(i) else ident).process_document(doc)
        joined = [i]
        sx.reach('id')
    else:
        for i in (1, 2, 3):
            m = sx.choice('mark%d' % i, ['', '5', 'other'])
            if m:
                k = sx.choice('word%d' % i, range(1, len(ts[i].nodes)))
                ts[i].nodes[k].misc['Join'] = m
                if how == 'misc' or m == '5':
                    joined.append(i)
        JoinSentence(misc_name='Join', misc_value=5 if how == 'value' else None).process_document(doc)
        sx.reach('none' if not joined else 'one' if len(joined) == 1 else 'apart' if joined == [1, 3] else 'two')
        for i in joined:
            sx.check(all('Join' not in x.misc for x in ts[i].nodes[1:]), 'the mark is removed')
    groups = [[0]]
    for i in (1, 2, 3):
        if i in joined:
            groups[-1].append(i)
        else:
            groups.append([i])
    check_doc(doc, [ts[g[0]].bundle.bundle_id for g in groups])
    for g, b in zip(groups, doc.bundles):
        if len(g) == 1:
            sx.check(b.trees[0] is ts[g[0]].root and b.trees[0].text == 'stored text' and
                     [id(x) for x in b.trees[0].descendants] == [id(x) for x in ts[g[0]].nodes[1:]], 'other sentences stay')
        else:
            check_joined(b.trees[0], [ts[i] for i in g], texts)


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['merged', 'kept'],
            bounds='documents of three sentences, the first two any trees of n words; the last characters of the sentences are any characters')
def merge(n):
    from udapi.block.segment.merge import Merge
    doc, ts = document([n, n, 1], plain=(2,))
    ends = []
    for i in (0, 1):
        c = sx.str('end%d' % i, 1, 1, 'field')
        ts[i].nodes[n].form = 'f' + c
        ends.append(c == ';')
    texts = {id(t): flags(t) for t in ts}
    Merge().process_document(doc)
    groups = [[0]]
    for i in (1, 2):
        if ends[i - 1]:
            groups[-1].append(i)
        else:
            groups.append([i])
    sx.reach('kept' if len(groups) == 3 else 'merged')
    check_doc(doc, ['b%d' % g[0] for g in groups])
    for g, b in zip(groups, doc.bundles):
        if len(g) == 1:
            sx.check(b.trees[0].text == 'stored text' and [id(x) for x in b.trees[0].descendants] == [id(x) for x in ts[g[0]].nodes[1:]], 'other sentences stay')
        else:
            check_joined(b.trees[0], [ts[i] for i in g], texts)


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['merged', 'kept'],
            bounds='three bundles with two or three zones of up to two words each, one of the zones decides; the last characters of its sentences are any characters')
def merge_zones(n):
    from udapi.core.document import Document
    from udapi.block.segment.merge import Merge
    zones = ['x', 'y', 'z'][:n]
    zone = sx.choice('zone', zones)
    doc = Document()
    ends, words = [], {}
    for i in range(3):
        b = doc.create_bundle()
        for z in zones:
            t = b.create_tree(z)
            f = '%d%s' % (i, z)
            if z == zone and i < 2:
                c = sx.str('end%d' % i, 1, 1, 'field')
                f = f + c
                ends.append(c == ';')
            words[i, z] = [t.create_child(form='w'), t.create_child(form=f)]
            t.text = 'stored text'
    old = list(doc.bundles)
    Merge(zones=zone).process_document(doc)
    groups = [[0]]
    for i in (1, 2):
        if ends[i - 1]:
            groups[-1].append(i)
        else:
            groups.append([i])
    sx.reach('kept' if len(groups) == 3 else 'merged')
    sx.check([id(b) for b in doc.bundles] == [id(old[g[0]]) for g in groups] and [b.number for b in doc.bundles] == list(range(1, len(groups) + 1)), 'the bundles that are left')
    for g, b in zip(groups, doc.bundles):
        sx.check([t.zone for t in b.trees] == zones, 'zones')
        for t in b.trees:
            ws = [x for i in g for x in words[i, t.zone]]
            sx.check([id(x) for x in t.descendants] == [id(x) for x in ws], 'all words in order')
            check_wf(t, 'merged')
            sx.check(t.text == ('stored text' if len(g) == 1 else ' '.join(x.form for x in ws)), 'sentence text of each zone')


@sx.harness(reach=['empty'], bounds='empty documents')
def empty():
    from udapi.core.document import Document
    from udapi.block.segment.merge import Merge
    from udapi.block.segment.simple import Simple
    from udapi.block.util.splitsentence import SplitSentence
    from udapi.block.util.joinsentence import JoinSentence
    for block in (Merge(), Simple(), SplitSentence(misc_name='A'), JoinSentence(misc_name='A')):
        doc = Document()
        block.process_document(doc)
        sx.check(doc.bundles == [], 'empty documents stay empty')
        sx.reach('empty')


# ---------------------------------------------------------------- raw text
OPEN, CLOSE = '"„«¿¡‹(', '"“»›)'


def unquote(first, second):
    if first[-1] in CLOSE:
        first = first[:-1]
    if second[0] in OPEN:
        second = second[1:]
    return first, second


@sx.harness(quick=[dict(n=6, chars='aA. "'), dict(n=5, chars='line')], thorough=[dict(n=8, chars='aA. "'), dict(n=7, chars='line'), dict(n=7, chars='Á!„) 1')],
            reach=['one', 'more'], bounds='any text of up to n of these characters (line: any characters but line breaks), keeping white space or not')
def segment(n, chars):
    from udapi.block.segment.simple import Simple
    text = sx.str('text', 0, n, chars)
    keep = sx.bool('keep_spaces')
    segments = Simple(keep_spaces=keep).segment_string(text)
    sx.check(('' if keep else ' ').join(segments) == text, 'the sentences joined are the text')
    sx.reach('one' if len(segments) == 1 else 'more')
    for a, b in zip(segments, segments[1:]):
        sx.check(sx.not_(a == ''), 'empty sentence')
        if keep:
            sx.check(a[-1] == ' ', 'the space is kept at the end of the sentence')
            a = a[:-1]
        sx.check(sx.and_(sx.not_(a[-1] == ' '), sx.not_(b[0] == ' ')), 'a sentence ends and starts with a word')
        first, second = unquote(a.split(' ')[-1], b.split(' ')[0])
        sx.check(first != '' and second != '', 'a sentence boundary needs words')
        sx.check(sx.or_(*[first[-1] == c for c in '.!?']), 'a sentence ends with a punctuation mark')
        sx.check(second[0].isupper(), 'a sentence starts with an upper-case letter')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['initial', 'abbreviation', 'boundary', 'continued'],
            bounds='two words of up to n letters, digits and hyphens with any mark of the final punctuation and perhaps quotation marks')
def boundary(n):
    from udapi.block.segment.simple import Simple
    a = sx.str('a', 1, n, 'aZ1-')
    kind = sx.choice('kind', ['word', 'např', 'e.g'])
    if kind != 'word':
        a = kind
    end = sx.choice('end', ['.', '!', '?', '', ','])
    b = sx.str('b', 1, n, 'aZ1-')
    o1, c1, o2 = sx.choice('open', ['', '„', '(']), sx.choice('close', ['', '"', '»']), sx.choice('open2', ['', '"', '¿'])
    text = o1 + a + end + c1 + ' ' + o2 + b + '.'
    segments = Simple().segment_string(text)
    want = end in ('.', '!', '?') and end != '' and b[0] == 'Z'
    if want and end == '.':
        if kind == 'word' and len(a) == 1 and a == 'Z':
            sx.reach('initial')
            want = False
        elif kind != 'word':
            sx.reach('abbreviation')
            want = False
    if want:
        sx.reach('boundary')
        sx.check(segments == [o1 + a + end + c1, o2 + b + '.'], 'two sentences')
    else:
        sx.reach('continued')
        sx.check(segments == [text], 'one sentence')


TEXTS = ['Aa bb', 'Aa bb. Cc.', 'Aa! Bb? Cc', '']


@sx.harness(quick=[dict(zones=1), dict(zones=2)], reach=['several'],
            bounds='documents of two bundles with one or two zones, texts of 1-3 sentences in each; all zones or one of them segmented')
def segment_document(zones):
    from udapi.core.document import Document
    from udapi.block.segment.simple import Simple
    doc = Document()
    which = sx.choice('zones', ['all', 'en']) if zones == 2 else 'all'
    keep = sx.bool('keep')
    expect = []
    for i in (0, 1):
        b = doc.create_bundle()
        b.bundle_id = 'b%d' % i
        parts, other = {}, {}
        for z in (['en', 'cs'] if zones == 2 else ['']):
            text = sx.choice('text%d%s' % (i, z), TEXTS[1:] if z != 'cs' else TEXTS[:3])
            b.create_tree(z).text = text
            if which in ('all', z):
                parts[z] = text.replace('. C', '.|C').replace('! B', '!|B').replace('? C', '?|C').split('|')
                if keep:
                    parts[z] = [s + ' ' for s in parts[z][:-1]] + parts[z][-1:]
            else:
                parts[z] = [text]
        for j in range(max(len(p) for p in parts.values())):
            expect.append(('b%d-%d' % (i, j + 1), {z: p[j] for z, p in parts.items() if j < len(p)}))
    Simple(zones=which, keep_spaces=keep).process_document(doc)
    if len(expect) > 2:
        sx.reach('several')
    sx.check([b.bundle_id for b in doc.bundles] == [e[0] for e in expect], 'ids of the bundles')
    sx.check([b.number for b in doc.bundles] == list(range(1, len(expect) + 1)), 'numbers of the bundles')
    for b, (ident, texts) in zip(doc.bundles, expect):
        sx.check({x.zone: x.text for x in b.trees} == texts, 'texts')
        for x in b.trees:
            sx.check(x.sent_id == ident + ('/' + x.zone if x.zone else '') and x.bundle is b and b.document is doc, 'ids of the trees')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['refused'], bounds='a tree of 1 to n words')
def tokenized(n):
    from udapi.block.segment.simple import Simple
    t = sx.tree('t', n)
    t.root.text = 'Aa. Bb.'
    sx.check(sx.raises(ValueError, Simple().process_document, t.doc) is not None, 'tokenized text is refused')
    sx.check(len(t.doc.bundles) == 1 and t.root.text == 'Aa. Bb.', 'nothing changed')
    sx.reach('refused')


# ---------------------------------------------------------------- documents
@sx.harness(quick=[dict(n=7)], thorough=[dict(n=12)], reach=['parts', 'size', 'one'],
            bounds='documents of 0 to n bundles split into 1 to n+1 parts or into parts of 1 to n+1 bundles')
def split_document(n):
    from udapi.core.document import Document
    from udapi.block.util.split import Split
    size = sx.int('bundles', 0, n)
    k = sx.int('number', 1, n + 1)
    by_parts = sx.bool('parts')
    doc = Document()
    bundles = []
    for i in range(sx.fix(size)):
        b = doc.create_bundle()
        b.create_tree()
        bundles.append(b)
    block = Split(parts=k) if by_parts else Split(bundles_per_doc=k)
    got, docs = [], []
    while True:
        block.process_document(doc)
        docs.append(doc)
        got.append(list(doc.bundles))
        sx.check(len(docs) <= max(1, len(bundles)), 'superfluous documents')
        if block.finished:
            break
        doc = Document()
    sx.check([id(b) for part in got for b in part] == [id(b) for b in bundles], 'every bundle once, in order')
    sx.check(all(len(p) == len(got[0]) for p in got[:-1]) and len(got[-1]) <= len(got[0]), 'parts of equal size, the last one may be smaller')
    sx.check(len(got) == 1 or len(got[-1]) > 0, 'no empty part')
    if by_parts:
        sx.reach('parts')
        sx.check(len(got) <= k, 'number of parts')
        sx.check(len(bundles) == 0 or (len(got[0]) - 1) * k < len(bundles), 'parts are not larger than necessary')
    else:
        sx.reach('size')
        sx.check(len(got) == 1 or len(got[0]) == k, 'bundles in a part')
        sx.check(len(got[0]) <= k, 'bundles in a part')
    if len(got) == 1:
        sx.reach('one')
    for d, part in zip(docs, got):
        sx.check([b.number for b in part] == list(range(1, len(part) + 1)), 'numbers')
        sx.check(all(b.document is d for b in part), 'bundles belong to their document')
