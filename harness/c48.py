"""C48: reports on coreference, MISC and fixed expressions count and list what is there."""
import os
import re
import tempfile
from collections import Counter
import udapi.core.coref
from udapi.core.document import Document
from sx import api as sx
from harness.c20 import sentence, subset, text_of
from harness.c39 import printed


# ------------------------------------------------------------ corefud.CountGaps
def histogram(lengths):
    count = Counter(lengths)
    return ['%2d: %d' % (k, count[k]) for k in sorted(count)] + ['-------', 'SUM: %d' % sum(lengths)]


def runs(flags):
    """Lengths of the runs of False."""
    out, n = [], 0
    for f in flags + [True]:
        if not f:
            n += 1
        elif n:
            out.append(n)
            n = 0
    return out


@sx.harness(quick=[dict(n=3, parts=False, unreached=('per document', 'two files')), dict(n=2, parts=True)], thorough=[dict(n=4, parts=False, unreached=('per document', 'two files')), dict(n=3, parts=True)],
            reach=['paragraph', 'no mention', 'empty node', 'documents', 'per document', 'two files'],
            bounds='n sentences, each with a mention of a word, of an empty node or none, and perhaps the start of a paragraph or a document; one or two files')
def gaps(n, parts, unreached=()):
    from udapi.block.corefud.countgaps import CountGaps
    udapi.core.coref.highest_doc_n = 0
    docs, want_total = [], [[], []]
    text = []
    for f in range(2 if parts and sx.bool('two files') else 1):
        doc = Document()
        has, pars, starts = [], [], []
        for i in range(n):
            _, root = sentence(1, (0, 1), doc)
            kind = sx.choice('mention%d.%d' % (f, i), ['none', 'word', 'empty'] if i == 0 and f == 0 else ['none', 'word'])
            has.append(kind != 'none')
            where = root.empty_nodes[0] if kind == 'empty' else root.descendants[0]
            if kind == 'empty':
                sx.reach('empty node')
            if kind != 'none':
                where.create_coref_entity() if not doc.coref_entities else doc.coref_entities[0].create_mention(words=[where])
            mark = sx.choice('starts%d.%d' % (f, i), ['', 'par', 'doc', 'both'] if f == 0 else ['', 'doc'])
            if mark in ('par', 'both'):
                root.newpar = True
            if mark in ('doc', 'both'):
                root.newdoc = 'd%d' % i
            pars.append(i == 0 or mark != '')
            starts.append(i == 0 or mark in ('doc', 'both'))
        docs.append(doc)
        seqs, empty_pars = [], []
        for i in range(n):
            if starts[i]:
                end = next((j for j in range(i + 1, n) if starts[j]), n)
                seqs.append(runs(has[i:end]))
            if pars[i]:
                end = next((j for j in range(i + 1, n) if pars[j]), n)
                if not any(has[i:end]):
                    empty_pars.append(end - i)
                    sx.reach('paragraph')
        if not any(has):
            sx.reach('no mention')
        if len(seqs) > 1:
            sx.reach('documents')
        all_seqs = [k for s in seqs for k in s]
        text.append((all_seqs, empty_pars, [(s, [p for p, at in zip(empty_pars, [i for i in range(n) if pars[i] and not any(has[i:next((j for j in range(i + 1, n) if pars[j]), n)])])
                                              if sum(starts[:at + 1]) == d]) for d, s in enumerate(seqs, 1)]))
        want_total[0] += all_seqs
        want_total[1] += empty_pars
    per_doc = parts and sx.bool('per document')
    per_file = True if parts else sx.bool('per file')
    total = True if parts else sx.bool('total')
    out = printed(CountGaps(report_per_newdoc=per_doc, report_per_file=per_file, report_total=total), *docs).split('\n')
    want = []
    for seqs, empty_pars, each in text:
        if per_doc:
            for s, p in each:
                want += ['=SEQ'] + histogram(s) + ['=PAR'] + histogram(p)
            sx.reach('per document')
        if per_file:
            want += ['=SEQ'] + histogram(seqs) + ['=PAR'] + histogram(empty_pars)
    if total:
        want += ['=SEQ'] + histogram(want_total[0]) + ['=PAR'] + histogram(want_total[1])
    sx.check([re.sub(r'^=+ (SEQ|PAR) .*', r'=\1', l) for l in out] == want + [''], 'lengths of the gaps')
    if len(docs) == 2:
        sx.reach('two files')


# ------------------------------------------------------------ corefud.PrintMentions
class Recorder:
    """Instead of the drawing of the tree (see C39)."""
    def __init__(self):
        self.seen = []

    def before_process_document(self, doc):
        pass

    after_process_document = before_process_document

    def process_tree(self, root):
        self.seen.append((root, [x for x in root.descendants_and_empty if x.misc['Mark'] != '']))


FILTERS = ['oneword', 'continuous', 'almost_continuous', 'empty', 'treelet', 'forest', 'almost_forest', 'singleton']
AUX = {'case', 'cc', 'conj', 'mark', 'appos', 'vocative', 'discourse'}


def kind_of(name, words, root, entity):
    every = root.descendants_and_empty
    inside = lambda x: any(x is y for y in words)
    if name == 'oneword':
        return len(words) == 1
    if name == 'continuous':
        return ',' not in text_of(words, every)
    if name == 'almost_continuous':
        return ',' not in text_of([x for x in words if not x.is_empty()], root.descendants)
    if name == 'empty':
        return any(x.is_empty() for x in words)
    if name == 'singleton':
        return len(entity.mentions) == 1
    tops = [x for x in words if (not any(inside(d['parent']) for d in x.deps) if x.is_empty() else not inside(x.parent))]
    if name == 'treelet':
        return len(tops) <= 1
    for x in words:
        if x.is_empty() or any(c.udeprel == 'cop' for c in x.children):
            continue
        for c in x.children:
            if inside(c):
                continue
            if name == 'forest':
                return False
            if c.udeprel == 'punct' and (c.ord < words[0].ord or c.ord > words[-1].ord):
                continue
            aux = c.udeprel in AUX or c.deprel == 'advmod:emph' or c.udeprel == 'dep' and c.upos in ('ADP', 'SCONJ', 'CCONJ', 'PUNCT')
            if not (aux and x in tops):
                return False
    return True


@sx.harness(quick=[dict(n=3, names=['treelet', 'forest', 'almost_forest'], unreached=('empty', 'limit')),
                   dict(n=3, empties=(0, 1), names=['oneword', 'continuous', 'almost_continuous', 'empty', 'treelet', 'singleton'], chain=True, unreached=('aux', 'cop', 'marked')),
                   dict(n=2, names=['almost_forest', 'forest'], wide=True, unreached=('empty', 'limit', 'cop', 'discontinuous'))],
            thorough=[dict(n=4, names=['treelet', 'forest', 'almost_forest'], unreached=('empty', 'limit')), dict(n=3, names=['almost_forest', 'forest'], wide=True, unreached=('empty', 'limit', 'cop')),
                      dict(n=4, empties=(0, 1, 1), names=['oneword', 'continuous', 'almost_continuous', 'empty', 'treelet', 'singleton'], chain=True, unreached=('aux', 'cop', 'marked'))],
            reach=['printed', 'not printed', 'empty', 'discontinuous', 'aux', 'cop', 'marked', 'limit'],
            bounds='every tree of n words (or a chain with empty nodes), any set of words and empty nodes as the mention, each of the filters; one word with any of the relations that matter')
def mentions(n, names, empties=(), chain=False, wide=False, unreached=()):
    from udapi.block.corefud.printmentions import PrintMentions
    udapi.core.coref.highest_doc_n = 0
    name = sx.choice('filter', names)
    if chain:
        doc, root = sentence(n, empties)
        for a, b in zip(root.descendants, root.descendants[1:]):
            b.parent = a
    else:
        t = sx.tree('t', n)
        doc, root = t.doc, t.root
        for k in range(1, n + 1):
            sx.fix(t.head(k))
    every = root.descendants_and_empty
    for k, x in enumerate(every):
        x.form, x.deprel, x.upos = 'f%d' % k, 'x', 'NOUN'
    if not chain:
        k = sx.choice('labelled', range(n)) if n < 4 else 1
        every[k].deprel = sx.choice('deprel', sorted(AUX) + ['cop:x', 'dep', 'dep:x', 'case:x', 'advmod', 'nmod', 'punct:x']) if wide else sx.choice('deprel', {'almost_forest': ['x', 'cop', 'punct', 'case', 'advmod:emph', 'dep'], 'forest': ['x', 'cop'], 'treelet': ['x']}[name])
        if every[k].deprel.startswith('dep'):
            every[k].upos = sx.choice('upos', ['ADP', 'SCONJ', 'CCONJ', 'PUNCT', 'VERB', 'ADV'] if wide else ['ADP', 'VERB'])
    words = subset('m', every)
    e = words[0].create_coref_entity()
    m = e.mentions[0]
    m.words = words
    other = sx.bool('other mention') if chain else False
    if other:
        e.create_mention(words=[root.descendants[0]])
    value = sx.choice('value', ['only', 'exclude', 1, 0] if name == names[0] else ['only', 'exclude'])
    should = sx.bool('should') if 'forest' in name and k == 1 else True
    limit = 0 if not chain else sx.choice('max', [0, 1])
    total = True if not chain else sx.bool('total')
    block = PrintMentions(shuffle=False, max_trees=limit, print_should=should, print_total=total, **{name: value})
    block.print_block = Recorder()
    wants = {'only': True, 'exclude': False, 1: True, 0: False}[value]
    ok = [x for x in e.mentions if kind_of(name, x.words, root, e) == wants]
    # these words show why it is not a forest
    lines = printed(block, doc).split('\n')
    shown = ok[:limit] if limit else ok
    sx.check([r for r, _ in block.print_block.seen] == [root] * len(shown), 'the mentions that match are printed')
    sx.check([[id(x) for x in marked] for _, marked in block.print_block.seen] == [[id(x) for x in x.words] for x in shown], 'with their words marked')
    sx.check([l for l in lines if l.startswith('# Mention = ')] == ['# Mention = ' + ' '.join(x.form for x in y.words) for y in shown], 'with their forms')
    if other:
        texts = [' '.join(x.form for x in y.words) for y in e.mentions]
        extra = ['# 1 other forms: "%s"(1)' % next(z for z in texts if z != ' '.join(x.form for x in y.words)) for y in shown] if len(set(texts)) > 1 else []
        sx.check([l for l in lines if 'other forms' in l] == extra, 'with the other forms of the entity')
    single = name == 'singleton' and (len(e.mentions) == 1) != wants
    tail = ['######## Total matching/all mentions = %d / %d' % (len(ok), 0 if single else len(e.mentions))] if total else []
    sx.check([l for l in lines if l.startswith('######## Total')] == tail, 'totals')
    sx.check(any(l.startswith('######## Only first') for l in lines) == (limit > 0 and len(ok) > limit), 'the limit is reported')
    sx.check(all(x.misc['Mark'] == '' for x in every), 'no marks are left')
    flagged = [x for x in every if x.misc['ShouldBeInSpanOf'] != '']
    sx.check(not flagged or should and 'forest' in name, 'the reasons are marked if asked')
    if flagged:
        sx.check(all(x not in words and x.parent in words for x in flagged), 'the reason is a child outside of the mention')
        sx.reach('marked')
    if should and 'forest' in name and not kind_of(name, words, root, e):
        sx.check(len(flagged) == 1, 'a mention that is no forest shows why')
    sx.reach('printed' if ok else 'not printed')
    if any(x.is_empty() for x in words):
        sx.reach('empty')
    if ',' in m.span:
        sx.reach('discontinuous')
    if limit and len(ok) > limit:
        sx.reach('limit')
    for x in every:
        if x.deprel == 'case':
            sx.reach('aux')
        if x.deprel == 'cop':
            sx.reach('cop')


@sx.harness(quick=[dict(n=4, forms='ab', unreached=('cut',)), dict(n=4, forms='abcd', one=True, unreached=('all',))], thorough=[dict(n=5, forms='ab', unreached=('cut',)), dict(n=4, forms='abcd')],
            reach=['limit', 'all', 'other forms', 'cut', 'same form', 'no forms', 'second entity'],
            bounds='n mentions of one entity (and perhaps one of another entity) of single words with any of the given forms, any limits of the trees and of the other forms')
def other_forms(n, forms, one=False, unreached=()):
    from udapi.block.corefud.printmentions import PrintMentions
    udapi.core.coref.highest_doc_n = 0
    doc, root = sentence(n + 1, ())
    words = root.descendants
    for k, x in enumerate(words):
        x.form = 'z' if k == n else sx.choice('form%d' % k, forms)
    e = words[0].create_coref_entity()
    for x in words[1:n]:
        e.create_mention(words=[x])
    second = sx.bool('second entity') and (words[n].create_coref_entity() or True)
    limit = 1 if one else sx.choice('max', [0, 1, 2, n + 1])
    most = sx.choice('forms', [0, 1, 2, 5])
    total = True if one else sx.bool('total')
    block = PrintMentions(shuffle=False, max_trees=limit, print_other_forms=most, print_total=total)
    block.print_block = Recorder()
    lines = printed(block, doc).split('\n')
    many = n + 1 if second else n
    shown = min(limit, many) if limit else many
    sx.check([marked for _, marked in block.print_block.seen] == [[x] for x in words[:shown]], 'the first mentions are printed')
    if second:
        sx.reach('second entity')
    want = []
    for k in range(shown):
        want.append('# Mention = ' + words[k].form)
        if k == n:
            continue
        rest = [x.form for x in words[:n] if x.form != words[k].form]
        counts = sorted(set(rest), key=lambda f: (-rest.count(f), rest.index(f)))
        if counts and most:
            want.append('# %d other forms:' % min(most, len(counts)) + ''.join(' "%s"(%d)' % (f, rest.count(f)) for f in counts[:most]))
            sx.reach('other forms')
            if most < len(counts):
                sx.reach('cut')
        elif counts:
            sx.reach('no forms')
        else:
            sx.reach('same form')
    if limit and many > limit:
        want.append('######## Only first %d matching mentions printed. Use max_trees=0 to see all.' % limit)
        sx.reach('limit')
    else:
        sx.reach('all')
    if total:
        want.append('######## Total matching/all mentions = %d / %d' % (many, many))
    sx.check(lines == want + [''], 'forms and totals')


# ------------------------------------------------------------ corefud.PrintEntities
@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['aggregated', 'separate', 'no ranges', 'too few', 'other id', 'same form'],
            bounds='two mentions with any words of n words of two forms in one or two sentences, any options')
def entities(n):
    from udapi.block.corefud.printentities import PrintEntities
    udapi.core.coref.highest_doc_n = 0
    doc = Document()
    roots = [sentence(n, (), doc)[1] for _ in range(2)]
    for i, r in enumerate(roots):
        r.bundle.bundle_id = 's%d' % (i + 1)
        for x in r.descendants:
            x.form = 'a' if x.ord != 2 else 'b'
    second = roots[sx.choice('sentence', [0, 1])]
    first = roots[0]
    a = subset('a', first.descendants)
    b = subset('b', second.descendants)
    sx.assume(first is not second or [id(x) for x in a] != [id(x) for x in b])
    e = a[0].create_coref_entity(eid='e5')
    e.mentions[0].words = a
    e.create_mention(words=b)
    ms = e.mentions
    opts = dict(print_ranges=sx.bool('ranges'), mark_head=sx.bool('heads'), aggregate_mentions=sx.bool('aggregate'), min_mentions=sx.choice('min', [0, 2, 3]))
    regex = sx.choice('regex', [None, 'e5', 'e4'])
    lines = printed(PrintEntities(eid_re=regex, **opts), doc).split('\n')[:-1]
    want = []
    if regex == 'e4':
        sx.reach('other id')
    elif opts['min_mentions'] == 3:
        sx.reach('too few')
    else:
        want.append(' e5 has 2 mentions:')
        forms = [' '.join('**%s**' % x.form if opts['mark_head'] and x is m.head else x.form for x in m.words) for m in ms]
        places = ['%s:%s' % (m.head.root.bundle.bundle_id, m.span) for m in ms]
        if opts['aggregate_mentions']:
            sx.reach('aggregated')
            if forms[0] == forms[1]:
                want.append('   2: ' + forms[0])
                sx.reach('same form')
                if opts['print_ranges']:
                    k = 0
                    while k < min(map(len, places)) and places[0][k] == places[1][k]:
                        k += 1
                    want.append('        %s (%s %s)' % (places[0][:k], places[0][k:], places[1][k:]))
            else:
                for f, p in zip(forms, places):
                    want.append('   1: ' + f)
                    if opts['print_ranges']:
                        want.append('        ' + p)
        else:
            sx.reach('separate')
            for f, p in zip(forms, places):
                want.append('   ' + f)
                if opts['print_ranges']:
                    want.append('     ' + p)
        if not opts['print_ranges']:
            sx.reach('no ranges')
    sx.check(lines == want, 'the mentions of the entity')


# ------------------------------------------------------------ corefud.MiscStats
@sx.harness(quick=[dict(n=3, size=1)], thorough=[dict(n=4, size=1)], reach=['cut', 'brackets', 'same', 'none'],
            bounds='n words with one of two attributes, perhaps with an index, any values of up to size characters')
def misc(n, size):
    from udapi.block.corefud.miscstats import MiscStats
    doc = Document()
    root = doc.create_bundle().create_tree()
    most = sx.choice('maxvalues', [1, 10])
    counts, order = {}, []
    for k in range(n):
        x = root.create_child(form='w')
        name = sx.choice('name%d' % k, ['A', 'A[1]', 'A[12]' if k else 'A[305]', 'B', None])
        if name is None:
            continue
        if name.startswith('A['):
            sx.reach('brackets')
        value = sx.str('value%d' % k, 1, size, 'lower')
        x.misc[name] = value
        short = name[0]
        if short not in order:
            order.append(short)
            counts[short] = []
        same = next((c for c in counts[short] if c[0] == value), None)
        if same:
            same[1] += 1
            sx.reach('same')
        else:
            counts[short].append([value, 1])
    out = printed(MiscStats(maxvalues=most), doc)
    want = ''
    for short in order:
        want = want + '\n' + short + '\t' + str(sum(c[1] for c in counts[short])) + '\n'
        rows = sorted(counts[short], key=lambda c: -c[1])
        if len(rows) > most:
            sx.reach('cut')
        for v, c in rows[:most]:
            want = want + '\t' + v + '\t' + str(c) + '\n'
    if not order:
        sx.reach('none')
    sx.check(out == want, 'the most frequent values of each attribute')


# ------------------------------------------------------------ ud.PrintFixed
@sx.harness(quick=[dict(n=4, known=False, unreached=('known', 'unmarked')), dict(n=3, known=True, unreached=('gap', 'other left'))], thorough=[dict(n=5, known=False, unreached=('known', 'unmarked')), dict(n=4, known=True)],
            reach=['fixed', 'gap', 'known', 'unmarked', 'only forms', 'none', 'other left'],
            bounds='every tree of n words any of which are fixed (their heads to the left), forms of two kinds, and a list of two known expressions')
def fixed(n, known, unreached=()):
    from udapi.block.ud.printfixed import PrintFixed
    t = sx.tree('t', n)
    fix = [False] + [sx.bool('fixed%d' % k) for k in range(2, n + 1)]
    for k in range(2, n + 1):
        if fix[k - 1]:
            sx.assume(sx.and_(t.head(k) < k, t.head(k) > 0))
    forms = ['ABCDE'[k] for k in range(n)] if not known else [sx.choice('form%d' % k, 'Ab') for k in range(n)]
    for k, x in enumerate(t.nodes[1:], 1):
        x.form, x.upos, x.deprel = forms[k - 1], 'T%d' % k, ('fixed:y' if k == 2 else 'fixed') if fix[k - 1] else 'd%d' % k
    only = sx.bool('only forms')
    name = None
    if known:
        with tempfile.NamedTemporaryFile('w', delete=False) as f:
            f.write('a b\nb a b\na b\n')
        name = f.name
        sx.reach('known')
    try:
        block = PrintFixed(only_forms=only, known_expressions=name)
    finally:
        if name:
            os.remove(name)
    lines = printed(block, t.doc).split('\n')[:-1]
    head = [0] + [sx.fix(t.head(k)) for k in range(1, n + 1)]
    low = [f.lower() for f in forms]
    want = []
    for k in range(1, n + 1):
        mine = [j for j in range(1, n + 1) if head[j] == k and fix[j - 1]]
        if mine:
            words = [(low[j - 1], 'T%d' % j) if j == k or j in mine else ('X', 'X') for j in range(k, mine[-1] + 1)]
            tail = t.nodes[k].deprel
            sx.reach('fixed')
            if ('X', 'X') in words:
                sx.reach('gap')
            if any(head[j] == k and j < k for j in range(1, n + 1)):
                sx.reach('other left')
        elif known:
            words = None
            for length in (2, 3):
                if words is None and ' '.join(low[k - 1:k - 1 + length]) in ('a b', 'b a b') and k - 1 + length <= n:
                    words = [(low[j - 1], 'T%d' % j) for j in range(k, k + length)]
            tail = 'NOT FIXED'
            if words is None:
                continue
            sx.reach('unmarked')
        else:
            continue
        text = ' '.join(f for f, _ in words)
        want.append(text if only else '%s / %s / %s' % (text, ' '.join(u for _, u in words), tail))
    if only and want:
        sx.reach('only forms')
    if not want:
        sx.reach('none')
    sx.check(lines == want, 'the fixed expressions in the order of their first words')
