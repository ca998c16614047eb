from sx import api as sx
from harness.common import check_wf


def files_of(texts):
    """Stand-in for open() that serves the given texts as files f0, f1, ..."""
    import io
    import udapi.core.files as files
    files.open = lambda name, *a, **k: io.StringIO(texts[int(name[1:])])
    return ['f%d' % i for i in range(len(texts))]


def sentence(i, sid=None, newdoc=False, words=1):
    text = '# newdoc id = d%d\n' % i if newdoc else ''
    if sid is not None:
        text = text + '# sent_id = ' + sid + '\n'
    text = text + '# text = t%d\n' % i
    for w in range(1, words + 1):
        text = text + '\t'.join([str(w), 'w%d.%d' % (i, w), 'l', 'X', '_', '_', str(w - 1), 'dep', '_', '_']) + '\n'
    return text + '\n'


def content(docs):
    """Per document the list of bundles, each a list of tree numbers."""
    return [[[int(str(t.text)[1:]) for t in b.trees] for b in d.bundles] for d in docs]


NOT = {'once': ('new document',), 'bundles': ('new document',), 'split': (), 'filter': ('no id',)}


@sx.harness(quick=[dict(n=3 if o == 'filter' else 4, only=o, unreached=u) for o, u in NOT.items()],
            thorough=[dict(n=4 if o == 'filter' else 5, only=o, unreached=u) for o, u in NOT.items()],
            reach=['zones', 'two documents', 'two files', 'no id', 'new document'],
            bounds='n sentences in one to n files, each with any one-character id (also the same ones) or none and any newdoc marks; one bundle per tree or '
                   'several zones of one sentence; options bundles_per_doc, split_docs, merge, sent_id_filter, ignore_sent_id')
def options(n, only, unreached=()):
    from udapi.block.read.conllu import Conllu
    per_doc = sx.choice('bundles_per_doc', [1, 2] if only == 'bundles' else [0] if only != 'filter' else [0, 1])
    split = sx.bool('split_docs') if only != 'once' else False
    merge = sx.bool('merge')
    filt = only == 'filter'
    ignore = sx.bool('ignore_sent_id') if only in ('once', 'bundles') else False
    if only == 'split':
        split = True
    files = [[]]
    texts = ['']
    zones = []
    for i in range(n):
        if i and sx.bool('file%d' % i):
            files.append([])
            texts.append('')
            sx.reach('two files')
        newdoc = sx.bool('newdoc%d' % i) if only in ('split', 'filter') else i == 0
        sid = None
        if i == n - 1 or filt or sx.bool('has id%d' % i):
            sid = sx.str('id%d' % i, 1, 1, 'ident')
        else:
            sx.reach('no id')
        zones.append('z' + 'abcde'[len(files[-1])])
        files[-1].append([i, sid, newdoc])
        texts[-1] = texts[-1] + sentence(i, None if sid is None else sid + '/' + zones[i], newdoc)
    # what is expected
    want, doc, marks = [], None, {}
    for trees in files:
        if doc is not None and not merge and doc:
            want.append(doc)
            doc = None
        prev, carry = None, None
        for i, sid, newdoc in trees:
            if filt and not (sid is not None and (sid == 'a' or sid == 'b')):
                carry = 'd%d' % i if newdoc else carry
                continue
            marks[i] = 'd%d' % i if newdoc else carry
            newdoc, carry = bool(marks[i]), None
            if doc is None:
                doc = []
            if split and newdoc and doc:
                want.append(doc)
                doc, prev = [], None
                sx.reach('new document')
            if prev is not None and sid is not None and not ignore and doc and sid == prev:
                doc[-1].append(i)
                sx.reach('zones')
            else:
                if per_doc and len(doc) == per_doc:
                    want.append(doc)
                    doc = []
                doc.append([i])
            prev = sid
    if doc:
        want.append(doc)
    sx.assume(want)
    if len(want) > 1:
        sx.reach('two documents')
    reader = Conllu(files=files_of(texts), bundles_per_doc=per_doc, split_docs=split, merge=merge, ignore_sent_id=ignore,
                    sent_id_filter='[ab]' if filt else None)
    docs = reader.read_documents()
    got = content(docs)
    if filt:
        got = [d for d in got if d]     # a file without any matching tree may give an empty document
    sx.check(got == want, 'documents differ')
    sx.check(reader.finished, 'the reader is not finished')
    ids = {i: sid for trees in files for i, sid, _ in trees}
    for d in docs:
        for b in d.bundles:
            for t in b.trees:
                check_wf(t, 'tree')
                i = int(str(t.text)[1:])
                sx.check([w.form for w in t.descendants] == ['w%d.1' % i], 'words')
                if not ignore and ids[i] is not None:
                    sx.check(b.bundle_id == ids[i] and t.sent_id == ids[i] + '/' + zones[i] and t.zone == zones[i], 'ids')
                sx.check(t.newdoc == marks[i], 'document mark')
    sx.observe(got)


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['all', 'some'],
            bounds='n sentences with any newdoc marks after the first, in one file; the first one or two documents are asked for')
def max_docs(n):
    import io
    from udapi.block.read.conllu import Conllu
    marks = [True] + [sx.bool('newdoc%d' % i) for i in range(1, n)]
    top = sx.choice('max_docs', [1, 2])
    split = sx.bool('split_docs')
    text = ''
    for i in range(n):
        text = text + sentence(i, None if sx.bool('no id%d' % i) else 's%d' % i, marks[i])
    docs, cur = [], -1
    for i in range(n):
        if marks[i]:
            cur += 1
        if cur < top:
            if marks[i] and (split or not docs):
                docs.append([])
            docs[-1].append([i])
    sx.reach('all' if sum(len(d) for d in docs) == n else 'some')
    reader = Conllu(filehandle=io.StringIO(text), max_docs=top, split_docs=split)
    sx.check(content(reader.read_documents()) == docs, 'the first documents')


@sx.harness(quick=[dict(size=3)], thorough=[dict(size=5)], reach=['same'],
            bounds='two sentences with any comment line of up to size characters, any value of one column, blank lines between and '
                   'missing at the end: reading at once gives the same as reading tree by tree')
def at_once(size):
    import io
    from udapi.core.document import Document
    from udapi.block.read.conllu import Conllu
    kind = sx.choice('kind', ['comment', 'value', 'blank', 'only comments'])
    s = sx.str('v', 1, size, 'text') if kind in ('comment', 'value') else ''
    value = s if kind == 'value' else 'f'
    end = sx.choice('end', ['\n\n', '\n', '', '\n\n\n'])
    blank = '\n' * sx.choice('blank', [2, 3, 4]) if kind == 'blank' else '\n\n'
    start = '\n' * sx.choice('start', [0, 1, 2]) if kind == 'blank' else ''
    line = '\t'.join(['1', value, 'l', 'X', '_', '_', '0', 'dep', '_', '_'])
    text = start + ('#' + s + '\n' if kind == 'comment' else '') + '# sent_id = a\n' + line + blank
    if kind == 'only comments':
        text = text + '# alone\n\n'
    text = text + '# sent_id = b\n' + line + end
    a, b = Document(), Document()
    Conllu(filehandle=io.StringIO(text)).apply_on_document(a)
    Conllu(filehandle=io.StringIO(text), bundles_per_doc=10).apply_on_document(b)
    sx.check(len(a.bundles) == len(b.bundles) == 2, 'number of bundles')
    sx.check(a.to_conllu_string() == b.to_conllu_string(), 'reading at once differs from reading tree by tree')
    for x, y in zip(a.bundles, b.bundles):
        sx.check(x.trees[0].comment == y.trees[0].comment, 'comments')
    sx.reach('same')


@sx.harness(quick=[dict(size=3)], thorough=[dict(size=5)], reach=['id', 'no id', 'newpar', 'both'],
            bounds='two documents in a file; the second one, or its paragraph, with any id of up to size characters or without an id')
def doc_ids(size):
    import io
    from udapi.block.read.conllu import Conllu
    doc_id = par_id = None
    kind = sx.choice('kind', ['newdoc', 'newpar', 'both'])
    lines = ''
    if kind != 'newpar':
        doc_id = True
        if sx.bool('doc has id'):
            doc_id = sx.str('doc id', 1, size, 'text')
            sx.assume(doc_id == doc_id.strip())
            sx.assume('\r' not in doc_id)
            lines = lines + '# newdoc id = ' + doc_id + '\n'
            sx.reach('id')
        else:
            lines = lines + '# newdoc\n'
            sx.reach('no id')
    if kind != 'newdoc':
        par_id = True
        sx.reach(kind)
        if sx.bool('par has id'):
            par_id = sx.str('par id', 1, size, 'text')
            sx.assume(par_id == par_id.strip())
            lines = lines + '# newpar id = ' + par_id + '\n'
        else:
            lines = lines + '# newpar\n'
    text = sentence(0, 'a', newdoc=True) + lines + sentence(1, 'b') + sentence(2, 'c')
    docs = Conllu(filehandle=io.StringIO(text), split_docs=True).read_documents()
    sx.check(content(docs) == ([[[0], [1], [2]]] if kind == 'newpar' else [[[0]], [[1], [2]]]), 'documents differ')
    trees = [t for d in docs for t in d.trees]
    sx.check(trees[0].newdoc == 'd0' and trees[1].newdoc == doc_id and trees[2].newdoc is None, 'document mark')
    sx.check(trees[0].newpar is None and trees[1].newpar == par_id and trees[2].newpar is None, 'paragraph mark')
    if kind != 'newpar':
        sx.check(docs[1].meta['docname'] == doc_id if doc_id is not True else True, 'name of the document')


@sx.harness(quick=[dict()], reach=['added', 'longer'],
            bounds='a second reader with a zone adds 1..3 sentences with any ids to a document with two bundles')
def second_zone():
    import io
    from udapi.core.document import Document
    from udapi.block.read.conllu import Conllu
    doc = Document()
    Conllu(filehandle=io.StringIO(sentence(0, 'a') + sentence(1, 'b')), zone='en').apply_on_document(doc)
    sx.check([t.zone for t in doc.trees] == ['en', 'en'], 'zone of the first reader')
    n = sx.choice('n', [1, 2, 3])
    text = ''
    prev = None
    for i in range(n):
        sid = sx.str('id%d' % i, 1, 1, 'ident') if sx.bool('has%d' % i) else None
        if prev is not None and sid is not None:
            sx.assume(sid != prev)
        prev = sid
        text = text + sentence(5 + i, sid)
    Conllu(filehandle=io.StringIO(text), zone='cs').apply_on_document(doc)
    want = [[0], [1], [], []][:max(2, n)]
    for i in range(n):
        want[i].append(5 + i)
    sx.check(content([doc])[0] == want, 'trees are not added to the bundles in order')
    sx.check([b.bundle_id for b in doc.bundles[:2]] == ['a', 'b'], 'bundle ids')
    for b in doc.bundles:
        for t in b.trees:
            sx.check(t.sent_id == b.bundle_id + '/' + t.zone, 'sent_id')
    sx.reach('longer' if n == 3 else 'added')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['per doc', 'split', 'rest', 'whole'],
            bounds='two readers of different zones in one scenario, each with 1 to n sentences with the same ids or none, one or two bundles per document, or '
                   'documents split at the same marks')
def parallel(n):
    import io
    from udapi.core.document import Document
    from udapi.block.read.conllu import Conllu
    kind = sx.choice('kind', ['per doc', 'split', 'whole'])
    sizes = [sx.choice('a', range(1, n + 1)), sx.choice('b', range(1, n + 1))]
    ids = sx.bool('ids')
    kw = {}
    starts = [0]
    if kind == 'per doc':
        per = sx.choice('per', [1, 2])
        kw['bundles_per_doc'] = per
        starts = list(range(0, n, per))
    elif kind == 'split':
        kw['split_docs'] = True
        starts = [0] + [i for i in range(1, n) if sx.bool('new%d' % i)]
    readers = []
    for r in range(2):
        text = ''
        for i in range(sizes[r]):
            text += ('# newdoc\n' if kind == 'split' and i in starts else '') + sentence(10 * r + i, 's%d' % i if ids else None)
        readers.append(Conllu(filehandle=io.StringIO(text), zone='ab'[r], **kw))
    docs = []
    while not docs or not all(r.finished for r in readers):
        sx.check(len(docs) < 2 * n + 2, 'the readers never finish')
        doc = Document()
        for r in readers:
            r.apply_on_document(doc)
        docs.append(doc)
    m = max(sizes)
    if sizes[0] != sizes[1]:
        sx.reach('rest')
    sx.reach(kind)
    spans = [(s, (starts + [m])[k + 1] if k + 1 < len(starts) else m) for k, s in enumerate(starts) if s < m]
    want = [[[('ab'[r], 10 * r + i) for r in range(2) if i < sizes[r]] for i in range(s, min(e, m))] for s, e in spans]
    got = [[[(t.zone, int(t.text[1:])) for t in b.trees] for b in d.bundles] for d in docs]
    # a reader that has one tree more to look at may need another round, which then is empty
    while got and got[-1] == []:
        got.pop()
    sx.check(got == want, 'trees of the bundles of the documents')
    if ids:
        sx.check([[b.bundle_id for b in d.bundles] for d in docs if d.bundles] == [['s%d' % i for i in range(s, min(e, m))] for s, e in spans], 'ids of the bundles')
