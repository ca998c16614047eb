"""C33: other text formats agree with CoNLL-U."""
from sx import api as sx
from harness.common import check_wf

COLS = ['ord', 'form', 'lemma', 'upos', 'xpos', 'feats', 'head', 'deprel', 'deps', 'misc']


def load(reader, text, **kw):
    """The trees, or the error that the reader reports."""
    import io
    from udapi.core.document import Document
    doc = Document()
    err = sx.raises((ValueError, RuntimeError), lambda: reader(filehandle=io.StringIO(text), **kw).apply_on_document(doc))
    return [t for b in doc.bundles for t in b.trees], err


def conllu(text, **kw):
    from udapi.block.read.conllu import Conllu
    return load(Conllu, text, **kw)


def conll(text, **kw):
    from udapi.block.read.conll import Conll
    return load(Conll, text, **kw)


def conllup(text, **kw):
    from udapi.block.read.conllup import Conllup
    return load(Conllup, text, **kw)


def unset(v):
    return v is None or v == '_'


def same(a, b, msg, skip=()):
    """Two trees with the same words, heads and attributes (those in skip are unset in the second one)."""
    check_wf(b, msg)
    x, y = a.descendants, b.descendants
    sx.check(len(x) == len(y), msg + ': number of words')
    sx.check([n.ord for n in x] == [n.ord for n in y], msg + ': word order')
    sx.check([n.parent.ord for n in x] == [n.parent.ord for n in y], msg + ': heads')
    sx.check(len(a.empty_nodes) == len(b.empty_nodes), msg + ': empty nodes')
    for n, m in zip(x + a.empty_nodes, y + b.empty_nodes):
        for name in ('form', 'lemma', 'upos', 'xpos', 'deprel', 'feats', 'misc', 'raw_deps', 'ord'):
            if name == 'deprel' and n.is_empty():
                continue
            v, w = getattr(n, name), getattr(m, name)
            if name in ('feats', 'misc'):
                v, w = str(v), str(w)
            if name in skip:
                sx.check(unset(w), msg + ': ' + name + ' is read from nowhere')
            else:
                sx.check(v == w if v is not None and w is not None else v is w, msg + ': ' + name)
    sx.check(a.compute_text() == b.compute_text(), msg + ': computed text')
    p, q = a.multiword_tokens, b.multiword_tokens
    sx.check(len(p) == len(q), msg + ': multi-word tokens')
    for n, m in zip(p, q):
        sx.check(n.form == m.form and ('misc' in skip or str(n.misc) == str(m.misc)) and [w.ord for w in n.words] == [w.ord for w in m.words], msg + ': multi-word token')
    sx.check((a.sent_id, a.text, a.comment) == (b.sent_id, b.text, b.comment), msg + ': comments')


def row(o, head='0', form='f', lemma='l', upos='X', xpos='x', feats='A=1', deprel='dep', deps='_', misc='B=2'):
    return [o, form, lemma, upos, xpos, feats, head, deprel, deps, misc]


def lines_of(rows, order=COLS, sep='\t', pad=''):
    """The token lines with the columns in this order; a column called _ gets some other text."""
    text = ''
    for r in rows:
        cells = [r[COLS.index(c)] if c in COLS else 'zzz' for c in order]
        text = text + sep.join(cells) + '\n'
    return text


HEADER = '# sent_id = s1\n# text = some text\n# other comment\n'


def sentence(size, columns='field', extra=('none', 'mwt', 'empty')):
    """Rows of a sentence with one symbolic column."""
    what = sx.choice('column', [c for c in COLS if c not in ('ord', 'head', 'deps')])
    kind = sx.choice('kind', extra)
    v = sx.str('value', 1, size, columns)
    if what == 'misc':
        sx.assume(v != 'Empty=Yes')
    rows = []
    for k in (1, 2, 3):
        if kind == 'mwt' and k == 2:
            m = ['2-3', 'mwt'] + ['_'] * 7 + ['C=3']
            if what in ('form', 'misc'):
                m[COLS.index(what)] = v
            rows.append(m)
        r = row(str(k), head=['2', '0', '2'][k - 1], form='w%d' % k, deps='%s:e' % '201'[k - 1])
        if k == 2 and not (kind == 'mwt' and what in ('form', 'misc')) and kind != 'empty':
            r[COLS.index(what)] = v
        rows.append(r)
        if kind == 'empty' and k == 1:
            e = row('1.1', head='_', deprel='_', form='emp', deps='2:e')
            if what != 'deprel':
                e[COLS.index(what)] = v
            rows.append(e)
    return rows, what, kind


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=4)], reach=['none', 'mwt', 'empty'],
            bounds='three words, perhaps a multi-word token or an empty node; any text of up to size characters in any column but ID, HEAD and DEPS; read.Conll and read.Conllup with a header')
def columns(size):
    rows, what, kind = sentence(size)
    body = lines_of(rows)
    a, err = conllu(HEADER + body + '\n')
    sx.check(err is None and len(a) == 1, 'read.Conllu')
    b, err = conll(HEADER + body + '\n')
    sx.check(err is None and len(b) == 1, 'read.Conll')
    same(a[0], b[0], 'read.Conll')
    sx.reach(kind)
    if kind != 'empty':
        c, err = conllup('# global.columns = ID FORM LEMMA UPOS XPOS FEATS HEAD DEPREL DEPS MISC\n' + HEADER + body + '\n')
        sx.check(err is None and len(c) == 1, 'read.Conllup')
        if what == 'lemma':
            for x, y in zip(a[0].descendants, c[0].descendants):
                if x.lemma == '_':
                    y.lemma = x.lemma      # read.Conllup does not set a lemma that is an underscore
        same(a[0], c[0], 'read.Conllup')


ORDERS = [
    'ord,head,form,lemma,upos,xpos,feats,deprel,deps,misc',
    'form,ord,lemma,upos,xpos,feats,deprel,head,deps,misc',
    'misc,deps,deprel,head,feats,xpos,upos,lemma,form,ord',
    'ord,form,lemma,_,upos,_,feats,_,head,_,deprel',
    'ord,form,lemma,upos,xpos,feats,head,deprel,_,_',
    'form,head,deprel',
    'head,lemma,form,deprel,_',
]


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=3)], reach=['tab', 'space', 'doublespace', 'mwt', 'empty', 'partial', 'form first'],
            bounds='three words, perhaps a multi-word token or an empty node; the columns in seven orders, some with ignored or missing columns; '
                   'separated by a tabulator, spaces, or at least two spaces; any text of up to size characters (without the separator) in any column')
def orders(size):
    order = sx.choice('order', ORDERS).split(',')
    sep = sx.choice('separator', ['tab', 'space', 'doublespace'])
    between = sx.choice('between', {'tab': ['\t'], 'space': [' ', '  \t'], 'doublespace': ['  ', '   ']}[sep])
    full = [c for c in COLS if c not in order] == []
    extra = ('none', 'mwt', 'empty') if 'ord' in order and (full or 'misc' not in order) else ('none',)
    rows, what, kind = sentence(size, 'nospace' if sep != 'tab' else 'field', extra)
    if order[0] == what:
        for r in rows:
            sx.assume(r[COLS.index(what)][0] != '#')     # a comment
    sx.reach(sep)
    sx.reach(kind)
    skip = [{'deps': 'raw_deps'}.get(c, c) for c in COLS if c not in order and c not in ('ord', 'head')]
    if skip:
        sx.reach('partial')
    if order[0] == 'form':
        sx.reach('form first')
    a, err = conllu(HEADER + lines_of(rows) + '\n')
    sx.check(err is None and len(a) == 1, 'read.Conllu')
    b, err = conll(HEADER + lines_of(rows, order, between) + '\n', attributes=','.join(order), separator=sep)
    sx.check(err is None and len(b) == 1, 'read.Conll')
    same_but(a[0], b[0], skip)


def same_but(a, b, skip):
    if 'misc' in skip:
        for x in a.descendants + a.empty_nodes + a.multiword_tokens:
            x.misc = None
    same(a, b, 'other columns', skip)


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['tree', 'error', 'cycle'],
            bounds='n words with any HEAD column of one character (two for the first word) out of digits, minus and underscore, with and without fix_cycles and strict')
def heads(n):
    cols = [sx.str('head%d' % k, 1, 2 if k == 1 else 1, '01234-_') for k in range(1, n + 1)]
    kw = {'strict': sx.bool('strict'), 'fix_cycles': sx.bool('fix'), 'empty_parent': 'ignore'}
    body = HEADER + lines_of([row(str(k), head=cols[k - 1], form='w%d' % k) for k in range(1, n + 1)]) + '\n'
    a, err = conllu(body, **kw)
    b, err2 = conll(body, **kw)
    sx.check((err is None) == (err2 is None), 'only one of the readers refuses the heads')
    if err is not None:
        sx.reach('error')
        return
    same(a[0], b[0], 'heads')
    sx.reach('tree')
    if kw['fix_cycles'] and len(a[0].children) > sum(1 for c in cols if c == '0' or c == '_' or c == '00'):
        sx.reach('cycle')


@sx.harness(quick=[dict(size=1)], thorough=[dict(size=3)], reach=['refused', 'short', 'more'],
            bounds='three words, one of them with up to four columns less than the others, with and without strict; any text of up to size characters in its last column')
def short_rows(size):
    'Without strict, the columns that a row does not have are its last ones, and they are not set.'
    order = sx.choice('order', ['ord,form,lemma,upos,xpos,feats,head,deprel,deps,misc', 'form,ord,head,deprel,upos,lemma,xpos']).split(',')
    cut = sx.choice('cut', range(1, 5 if len(order) == 10 else 4))
    which = sx.choice('which', [1, 2, 3])
    strict = sx.bool('strict')
    v = sx.str('value', 1, size, 'alpha')
    rows = [row(str(k), head=['2', '0', '2'][k - 1], form='w%d' % k, deps='%s:e' % '201'[k - 1]) for k in (1, 2, 3)]
    last, lost = order[-cut - 1], order[-cut:]
    cells = rows[which - 1]
    if last not in ('ord', 'head', 'deps', 'feats'):
        cells[COLS.index(last)] = v
    short = ''.join('\t'.join(r[COLS.index(c)] for c in (order[:-cut] if r is cells else order)) + '\n' for r in rows)
    for c in lost:
        cells[COLS.index(c)] = '_'
    full = lines_of(rows, order)
    kw = dict(attributes=','.join(order))
    a, err = conll(HEADER + short + '\n', strict=strict, **kw)
    if strict:
        sx.check(err is not None, 'a short row is refused')
        sx.reach('refused')
        return
    b, err2 = conll(HEADER + full + '\n', **kw)
    sx.check((err is None) == (err2 is None), 'a row with unset columns and a short one are both read')
    if err is not None:
        return
    same(a[0], b[0], 'a short row')
    x = a[0].descendants[which - 1]
    if last not in ('ord', 'head', 'deps', 'feats'):
        sx.check(getattr(x, last) == v, 'the last column that a row has')
    sx.reach('short' if cut == 1 else 'more')


@sx.harness(reach=['extra', 'missing', 'unknown head'], bounds='CoNLL-U Plus with additional or missing columns')
def plus():
    case = sx.choice('case', ['extra', 'missing', 'unknown head'])
    v = sx.str('value', 1, 2, 'value')
    if case == 'extra':
        names = 'ID FORM HEAD DEPREL X:NER LEMMA MISC'
        lines = [['1', 'a', '2', 'd', v, 'l', 'A=1'], ['2', 'b', '0', 'r', '_', 'm', '_']]
    elif case == 'missing':
        names = 'ID FORM HEAD DEPREL'
        lines = [['1', v, '2', 'd'], ['2', 'b', '0', 'r']]
    else:
        names = 'FORM ID HEAD DEPREL'
        sx.assume(v[0] != '#')     # a comment
        lines = [[v, '1', '???', 'd'], ['b', '2', '1', 'r']]
    text = '# global.columns = ' + names + '\n'
    for i in (0, 1):
        text = text + HEADER.replace('s1', 's%d' % i) + ''.join('\t'.join(l) + '\n' for l in lines) + '\n'
    trees, err = conllup(text)
    sx.check(err is None and len(trees) == 2, 'trees')
    sx.reach(case)
    for t in trees:
        check_wf(t, 'CoNLL-U Plus')
        x, y = t.descendants
        if case == 'extra':
            sx.check((x.form, x.lemma, x.parent is y, x.deprel, y.parent is t, y.lemma) == ('a', 'l', True, 'd', True, 'm'), 'attributes')
            sx.check(x.misc['A'] == '1' and x.misc['X:ner'] == ('' if v == '_' else v), 'additional columns are kept in MISC')
            sx.check(str(y.misc) == '_', 'unset additional column')
        elif case == 'missing':
            sx.check(x.form == v and x.parent is y and x.deprel == 'd' and unset(x.lemma) and x.upos is None and str(x.feats) == '_', 'attributes')
        else:
            sx.check(x.form == v and x.parent is t and y.parent is x, 'unknown heads are attached to the root')


@sx.harness(reach=['kept', 'lost', 'given'], bounds='CoNLL-U Plus with the columns line kept in the comments or not, or with given columns')
def plus_comment():
    kw = sx.choice('options', [{}, {'save_global_columns': True}, {'attributes': 'form,ord,head'}, {'attributes': 'form,ord,head', 'save_global_columns': True}])
    line = '# global.columns = FORM ID HEAD\n'
    text = ''.join((line if i == 0 else '') + HEADER.replace('s1', 's%d' % i) + 'a\t1\t0\nb\t2\t1\n\n' for i in (0, 1))
    trees, err = conllup(text, **kw)
    sx.check(err is None and len(trees) == 2, 'trees')
    for t in trees:
        sx.check([(x.form, x.parent.ord) for x in t.descendants] == [('a', 0), ('b', 1)], 'words')
    for i, t in enumerate(trees):
        lines = [s for s in t.comment.split('\n') if s and s[0] != '$']     # without the places of the id and the text
        if 'attributes' not in kw:
            sx.check(lines == ([line[1:-1]] if kw and i == 0 else []) + [' other comment'], 'the columns line')
        else:
            sx.check(lines[-1] == ' other comment' and len(lines) <= 2, 'comments')
    sx.reach('given' if 'attributes' in kw else 'kept' if kw else 'lost')


# ------------------------------------------------------------ plain text
def write(doc, **kw):
    import sys
    from udapi.block.write.sentences import Sentences
    old, out = sys.stdout, sx.out()
    sys.stdout = out
    try:
        block = Sentences(**kw)
        block.apply_on_document(doc)
    finally:
        sys.stdout = old
    return out.getvalue()


@sx.harness(quick=[dict(n=2, size=3)], thorough=[dict(n=3, size=3), dict(n=2, size=6)], reach=['stored', 'computed', 'empty', 'document', 'ignored'],
            bounds='n sentences with stored texts of up to size characters (no line break, no white space at the end) or without, '
                   'document boundaries, written as plain text and read with the options that fit')
def sentences(n, size):
    import io
    from udapi.core.document import Document
    from udapi.block.read.sentences import Sentences
    doc = Document()
    marks = sx.bool('newdoc')
    strip = sx.choice('rstrip', [None, '\n'])
    want, new = [], []
    for i in range(n):
        t = doc.create_bundle().create_tree()
        if sx.bool('stored%d' % i):
            s = sx.str('text%d' % i, 0 if not marks else 1, size, 'line')
            if strip is None and s != '':
                sx.assume(sx.not_(sx.or_(s[-1] == ' ', s[-1] == '\r', s[-1] == '\n')))
            t.text = s
            want.append(s)
            sx.reach('stored' if s != '' else 'empty')
        else:
            a = sx.str('form%d' % i, 1, 1, 'nospace')
            t.create_child(form=a)
            t.create_child(form='b', misc='SpaceAfter=No')
            want.append(a + ' b')
            sx.reach('computed')
        d = i > 0 and marks and sx.bool('newdoc%d' % i)
        new.append(d)
        if d:
            sx.reach('document')
            t.newdoc = True
        elif not marks:
            t.newdoc = t.newpar = True       # not asked for
    text = write(doc, newdoc=marks)
    kw = {} if strip is None else {'rstrip': strip}
    how = sx.choice('how', ['newdoc', 'ignore']) if marks else 'plain'
    if how == 'newdoc':
        kw['newdoc_if_empty_line'] = True
    elif how == 'ignore':
        kw['ignore_empty_lines'] = True
        sx.reach('ignored')
    trees, err = load(Sentences, text, **kw)
    sx.check(err is None and len(trees) == n, 'number of sentences')
    for i, (t, s) in enumerate(zip(trees, want)):
        sx.check(t.text == s, 'text')
        sx.check(t.children == [], 'the sentence is not tokenized')
        if how == 'newdoc':
            sx.check(bool(t.newdoc) == (i == 0 or new[i]), 'document boundaries')
        else:
            sx.check(not t.newdoc, 'document boundaries')


@sx.harness(quick=[dict(n=5)], thorough=[dict(n=7)], reach=['kept', 'ignored', 'newdoc', 'two empty'],
            bounds='any text file of up to n characters out of a letter, space, carriage return and line break, one sentence per line; '
                   'empty lines kept, ignored or as document boundaries')
def sentence_lines(n):
    from udapi.block.read.sentences import Sentences
    text = sx.str('text', 0, n, 'a \r\n')
    how = sx.choice('empty lines', ['kept', 'ignored', 'newdoc'])
    kw = {'ignored': {'ignore_empty_lines': True}, 'newdoc': {'newdoc_if_empty_line': True}}.get(how, {})
    trees, err = load(Sentences, text, **kw)
    lines = text.split('\n')
    if lines[-1] == '':
        lines.pop()
        last = ''
    else:
        last = None                             # the last line is not ended
    want, empty = [], 0
    for i, line in enumerate(lines):
        ended = last is not None or i + 1 < len(lines)
        if how != 'kept' and ended and (line == '' or line == '\r'):
            empty += 1
            if empty == 2:
                sx.reach('two empty')
            continue
        want.append((line.rstrip('\r '), empty > 0))
        empty = 0
    sx.check(err is None and len(trees) == len(want), 'number of sentences')
    for i, (t, (s, after)) in enumerate(zip(trees, want)):
        sx.check(t.text == s, 'text')
        sx.check(bool(t.newdoc) == (how == 'newdoc' and (i == 0 or after)), 'document boundaries')
    sx.reach(how)


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['both', 'one', 'none'],
            bounds='n sentences, each starting a document, a paragraph, both or none; with any combination of newdoc and newpar')
def boundaries(n):
    from udapi.core.document import Document
    doc = Document()
    kw = {'newdoc': sx.bool('newdoc'), 'newpar': sx.bool('newpar')}
    want = ''
    for i in range(n):
        t = doc.create_bundle().create_tree()
        t.text = sx.str('text%d' % i, 1, 1, 'nospace')
        d, p = sx.choice('doc%d' % i, [None, True, 'name']), sx.choice('par%d' % i, [None, True, 'name'])
        t.newdoc, t.newpar = d, p
        if i:
            k = (1 if kw['newdoc'] and d else 0) + (1 if kw['newpar'] and p else 0)
            want += '\n' * k
            sx.reach(['none', 'one', 'both'][k])
        want += t.text + '\n'
    sx.check(write(doc, **kw) == want, 'an empty line for each boundary')


@sx.harness(quick=[dict(n=5)], thorough=[dict(n=7)], reach=['none', 'one', 'two'],
            bounds='any text file of up to n characters out of two letters, space and line break')
def word_wrapped(n):
    from udapi.block.read.text import Text
    text = sx.str('text', 0, n, 'ab \n')
    trees, err = load(Text, text)
    want, cur = [], None
    for line in text.split('\n'):
        if line == '':
            if cur is not None:
                want.append(cur)
            cur = None
        else:
            cur = line.rstrip(' ') if cur is None else cur + ' ' + line.rstrip(' ')
    if cur is not None:
        want.append(cur)
    sx.check(err is None and len(trees) == len(want), 'number of sentences')
    sx.check(sx.and_(*[t.text == w for t, w in zip(trees, want)]), 'texts')
    sx.reach(['none', 'one', 'two'][min(2, len(want))])


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['text', 'comment', 'short'],
            bounds='n trees and 0 to n+1 lines of any texts of up to 2 characters, perhaps after a space')
def add_sentences(n):
    import io
    from udapi.core.document import Document
    from udapi.block.read.addsentences import AddSentences
    doc = Document()
    trees = [doc.create_bundle().create_tree() for i in range(n)]
    k = sx.choice('lines', range(0, n + 2))
    lines = [sx.choice('before%d' % i, ['', ' ']) + sx.str('line%d' % i, 0, 2 if i else 1, 'field') for i in range(k)]
    into = sx.choice('into', ['text', 'english'])
    block = AddSentences(filehandle=io.StringIO(''.join(l + '\n' for l in lines)), into=into)
    e = sx.raises(IOError, block.process_document, doc)
    sx.check((e is not None) == (k < n), 'a file that is too short is refused')
    if e is not None:
        sx.reach('short')
        return
    for t, l in zip(trees, lines):
        if into == 'text':
            sx.reach('text')
            sx.check(t.text == l.rstrip() and t.comment == '', 'text')
        else:
            sx.reach('comment')
            sx.check(t.text is None and t.comment == ' english = ' + l.rstrip() + '\n', 'comment')
    sx.check(block.finished is True, 'finished')


@sx.harness(quick=[dict(m=3)], thorough=[dict(m=4, size=2)], reach=['matches', 'wrapped', 'paragraph', 'mismatch'],
            bounds='two sentences with m words together, with any forms of up to size characters; separated by nothing, a space, a line break or an empty line in the text')
def add_text(m, size=1):
    import udapi.core.files as files
    import io
    from udapi.core.document import Document
    from udapi.block.read.addtext import AddText
    doc = Document()
    cut = sx.choice('words of the first', range(1, m))
    forms = [sx.str('form%d' % i, 1, size, 'nospace') for i in range(m)]
    roots = []
    for i in range(m):
        if i in (0, cut):
            roots.append(doc.create_bundle().create_tree())
        x = roots[-1].create_child(form=forms[i])
        if sx.bool('flag%d' % i):
            x.misc['SpaceAfter'] = 'No'
    text = sx.choice('start', ['', '\n '])
    gaps = [sx.choice('gap%d' % i, ['', ' ', '\n', '\n\n'] if i < m - 1 else ['', '\n']) for i in range(m)]
    for f, g in zip(forms, gaps):
        text = text + f + g
    wrong = sx.bool('mismatch')
    if wrong:
        sx.assume(forms[0][0] != 'X')
        text = 'X' + text.lstrip()
    files.open = lambda name, *a, **k: io.StringIO(text)
    block = AddText(files='f0', add_newpar=sx.bool('newpar'))
    block.process_document(doc)
    sx.check([x.form for t in roots for x in t.descendants] == forms, 'words stay')
    if wrong:
        sx.reach('mismatch')
        sx.check(all(t.text is None for t in roots), 'no text after a mismatch at the beginning')
        return
    want = []
    for part in (range(0, cut), range(cut, m)):
        s = ''
        for i in part:
            s = s + forms[i] + (' ' if gaps[i] and i != part[-1] else '')
        want.append(s)
    for t, w in zip(roots, want):
        sx.check(t.text == w and t.compute_text() == w, 'text')
    for i, x in enumerate(x for t in roots for x in t.descendants):
        sx.check((x.misc['SpaceAfter'] == 'No') == (gaps[i] == '' and i < m - 1), 'space flag')
    sx.check(bool(roots[0].newpar) == block.add_newpar, 'the text starts with a paragraph')
    sx.check(bool(roots[1].newpar) == (block.add_newpar and gaps[cut - 1] == '\n\n'), 'paragraphs')
    sx.reach('matches')
    if '\n' in gaps[:-1]:
        sx.reach('wrapped')
    if roots[1].newpar:
        sx.reach('paragraph')
