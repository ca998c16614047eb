"""C42: the coreference page marks exactly the words of each mention."""
import udapi.block.write.corefhtml as corefhtml
import udapi.core.coref as coref
from udapi.core.document import Document
from sx import api as sx
from harness.c20 import sentence, subset, same
from harness.c40 import printed, parsed, markup, json_value, two


class Zip:
    """Stands for the gzip module: opened files are kept in memory."""

    def __init__(self):
        self.files = {}

    def open(self, name, mode):
        outer = self

        class File:
            def __init__(self):
                self.out = sx.out()

            def write(self, s):
                return self.out.write(s)

            def flush(self):
                pass

            def close(self):
                outer.files[name] = self.out.getvalue()
        return File()


def page(doc, **kw):
    z = Zip()
    old = corefhtml.gzip
    corefhtml.gzip = z
    try:
        text = printed(corefhtml.CorefHtml, doc, docs_dir='.', **kw)
    finally:
        corefhtml.gzip = old
    return text, z.files


def part(text, start, end):
    a = text.find(start)
    sx.check(a >= 0, 'page: part is missing')
    b = text.find(end, a)
    sx.check(b >= 0, 'page: end of a part is missing')
    return parsed(markup, text[a:b + len(end)], ('hr',))


def sentences(events, rtl, marks):
    """Per sentence: (id, list of (character, mention ids around it, is in a head, in an empty node, out of mentions))."""
    out, stack = [], []
    for e in events:
        if e[0] == 'open':
            classes = e[2].get('class', '').split(' ')
            kind = 'm' if 'm' in classes else classes[0]
            stack.append((e[1], kind, classes[1] if kind == 'm' else None, e[2]))
            if e[1] == 'p':
                out.append((e[2]['data-id'], []))
            if kind == 'm':
                marks.append((classes[1], 'crossing' in classes))
        elif e[0] == 'close':
            if stack:
                stack.pop()
        else:
            if any(s[1] == 'labels' for s in stack) or not any(s[0] == 'p' for s in stack):
                continue
            if e[1] == '\n':
                continue
            inside = [s[2] for s in stack if s[1] == 'm']
            sx.check(len(set(inside)) == len(inside), 'page: a mention within itself')
            norm = any(s[1] == 'norm' for s in stack)
            for ch in e[1]:
                out[-1][1].append((ch, set(inside), any(s[1] == 'head' for s in stack), any(s[1] == 'empty' and s[0] == 'i' for s in stack), norm))
    return out


def check_page(doc, text, files, rtl=False):
    numbers = {}
    for e in doc.coref_entities:
        for i, m in enumerate(e.mentions, 1):
            numbers['%se%d' % (e.eid, i)] = m
    # overview
    rows, here = [], None
    for ev in part(text, '<tbody>', '</tbody>'):
        if ev[0] == 'open' and ev[1] == 'tr':
            rows.append([])
        elif ev[0] == 'open' and ev[1] == 'td':
            rows[-1].append('')
        elif ev[0] == 'text' and rows and rows[-1]:
            rows[-1][-1] = (rows[-1][-1] + ev[1]).strip('\n')
    es = [e for e in doc.coref_entities if e.mentions]
    sx.check(len(rows) == len(es), 'page: entities')
    for r, e in zip(rows, es):
        two(r[0], e.eid, 'page: entity')
        sx.check(r[1] == str(len(e.mentions)), 'page: number of mentions')
    # sentences, by documents
    marks = []
    parts, trees = [], [t for b in doc.bundles for t in b.trees]
    for t in trees:
        if t.newdoc or not parts:
            parts.append([])
        parts[-1].append(t)
    sx.check(sorted(files) == sorted(x for i in range(2, len(parts) + 1) for x in ('./doc%d.html.gz' % i, './doc%d.json.gz' % i)), 'page: further files')
    for i, some in enumerate(parts, 1):
        source = text if i == 1 else files['./doc%d.html.gz' % i]
        start = '<div class="doc" id="doc%d">' % i
        got = sentences(part(source, start, '</div>'), rtl, marks)
        sx.check(len(got) == len(some), 'page: number of sentences')
        for t, (ident, words) in zip(some, got):
            two(ident, t.sent_id, 'page: sentence id')
            nodes = t.descendants_and_empty
            k = 0
            for x in nodes:
                want = {k for k, m in numbers.items() if any(x is w for w in m.words)}
                is_head = any(m.head is x for m in numbers.values())
                for ch in x.form:
                    sx.check(k < len(words), 'page: a word is missing')
                    got_ch, inside, head, empty, norm = words[k]
                    two(got_ch, ch, 'page: form')
                    sx.check(inside == want, 'page: mentions around a word')
                    sx.check(norm == (not want), 'page: words out of mentions')
                    sx.check(head == is_head, 'page: heads')
                    sx.check(empty == x.is_empty(), 'page: empty nodes')
                    k += 1
                if x.misc['SpaceAfter'] != 'No':
                    sx.check(k < len(words) and words[k][0] == ' ', 'page: space after a word')
                    k += 1
            sx.check(k == len(words), 'page: something out of nothing')
        if i == 1:
            a = text.find('docs_json = [false, ')
            v, end = parsed(json_value, text, a + len('docs_json = [false, '))
        else:
            v, end = parsed(json_value, files['./doc%d.json.gz' % i], 0)
        sx.check(len(v) == len(some), 'page: number of trees')
    spans = {k: [(min(s.words).ord, max(s.words).ord, s.words[0].root) for s in m._subspans()] for k, m in numbers.items()}
    for k in numbers:
        sx.check(sum(x == k and not again for x, again in marks) == len(spans[k]), 'page: number of marks of a mention')
        crosses = any(a[2] is b[2] and (a[0] < b[0] <= a[1] < b[1] or b[0] < a[0] <= b[1] < a[1])
                      for j in numbers if j != k for a in spans[k] for b in spans[j])
        sx.check(crosses or not any(x == k and again for x, again in marks), 'page: a mention marked as crossing')


@sx.harness(quick=[dict(n=4, k=2), dict(n=4, k=3, given=True, unreached=('empty',)), dict(n=4, k=2, rtl=True)],
            thorough=[dict(n=4, k=3, unreached=('empty',)), dict(n=5, k=2), dict(n=4, k=2, rtl=True)], reach=['crossing', 'discontinuous', 'nested', 'empty', 'same'],
            bounds='k mentions with any different sets of n nodes (with two mentions: the first, last or last but one of them empty), any (given: alternating) of two entities; a second sentence without mentions')
def mentions(n, k, rtl=False, given=False, unreached=()):
    coref.highest_doc_n = 0
    if k == 2:
        where = sx.choice('empty after', [0, n - 2, n - 1])
        doc, root = sentence(n - 1, tuple(int(i == where) for i in range(n)))
    else:
        doc, root = sentence(n)
    if k == 2:
        root.empty_nodes[0].form = 'e'
    nodes = root.descendants_and_empty
    es = [doc.create_coref_entity(etype='person'), doc.create_coref_entity()]
    sets = []
    for i in range(k):
        s = subset('m%d' % i, nodes)
        e = es[i % 2] if given else es[sx.choice('entity%d' % i, range(2 if i else 1))]
        sx.assume(not any(same(s, t) and f is e for t, f in sets))
        sets.append((s, e))
        e.create_mention(words=s, head=s[-1])
    ids = [{id(x) for x in s} for s, _ in sets]
    if any(a == b for i, a in enumerate(ids) for b in ids[:i]):
        sx.reach('same')
    if any(a < b or b < a for i, a in enumerate(ids) for b in ids[:i]):
        sx.reach('nested')
    if any(a & b and not a <= b and not b <= a for i, a in enumerate(ids) for b in ids[:i]):
        sx.reach('crossing')
    if any(',' in m.span for e in es for m in e.mentions):
        sx.reach('discontinuous')
    if k == 2:
        sx.reach('empty')
    nodes[1].misc['SpaceAfter'] = 'No'
    doc.create_bundle().create_tree().create_child(form='z')
    text, files = page(doc, rtl='ar' if rtl else None)
    check_page(doc, text, files, rtl)


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=3)], reach=['form', 'lemma', 'sent_id', 'newdoc', 'other', 'documents', 'empty', 'bare'],
            bounds='one or two documents in a file; any form, lemma, sentence id, document name, or attribute of a mention of up to size characters; '
                   'documents without sentences; entities without mentions')
def values(size):
    coref.highest_doc_n = 0
    kind = sx.choice('kind', ['form', 'lemma', 'sent_id', 'newdoc', 'other', 'documents', 'empty', 'bare'])
    sx.reach(kind)
    if kind == 'empty':
        text, files = page(Document())
        sx.check(files == {}, 'page: files out of nothing')
        sx.check(part(text, '<tbody>', '</tbody>') is not None, 'page: overview')
        return
    doc, root = sentence(3)
    v = sx.str('value', 1, size, 'nospace')
    if kind == 'bare' and sx.bool('first'):
        doc.create_coref_entity('z0')
    e = doc.create_coref_entity()
    x = root.descendants[1]
    m = e.create_mention(words=root.descendants[1:], head=x)
    if kind == 'form':
        x.form = v
    elif kind == 'lemma':
        x.lemma = v
    elif kind == 'sent_id':
        sx.assume('/' not in v and '#' not in v)
        root.bundle.bundle_id = v
    elif kind == 'newdoc':
        root.newdoc = v
    elif kind == 'other':
        sx.assume(',' not in v and ':' not in v)
        m.other = 'a:' + v
    elif kind == 'documents':
        second = doc.create_bundle().create_tree()
        y = second.create_child(form='y')
        if sx.bool('new'):
            second.newdoc = 'd2'
        e.create_mention(words=[y], head=y)
        how = sx.choice('third', ['none', None, True])
        if how != 'none':
            third = doc.create_bundle().create_tree()
            third.newdoc = how
            third.create_child(form=v)
    else:
        doc.create_coref_entity()
    text, files = page(doc)
    check_page(doc, text, files)
    if kind in ('lemma', 'form'):
        cells = [ev[1] for ev in part(text, '<tbody>', '</tbody>') if ev[0] == 'text']
        word = x.lemma if x.lemma and x.lemma != '_' else x.form
        sx.check(any(c == word for c in cells), 'page: word of the entity')
    if kind in ('newdoc', 'other'):
        found = False
        for ev in part(text, '<div class="doc"', '</div>'):
            if kind == 'newdoc' and ev[0] == 'text' and ev[1] == v:
                found = True
            if kind == 'other' and ev[0] == 'open' and 'title' in ev[2] and ev[2]['title'].endswith('\na:' + v):
                found = True
        sx.check(found, 'page: ' + kind)
