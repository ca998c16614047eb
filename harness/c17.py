from sx import api as sx
from harness.common import check_wf


def row(o, head='0', form='f', deps='_', misc='_'):
    return [o, form, 'l', 'X', '_', '_', head, 'dep', deps, misc]


def read(text, **kw):
    """The document, or the error that the reader reports."""
    import io
    from udapi.core.document import Document
    from udapi.block.read.conllu import Conllu
    doc = Document()
    err = sx.raises((ValueError, RuntimeError), lambda: Conllu(filehandle=io.StringIO(text), **kw).apply_on_document(doc))
    return doc, err


def head_value(s):
    """The number that stands in a HEAD column, or None."""
    neg = s[0] == '-'
    digits = s[1:] if neg else s
    if len(digits) == 0 or not digits.isdecimal():
        return None
    v = int(digits)
    return -v if neg else v


def climb(heads, k):
    """Does word k reach the root?  Heads are numbers in range."""
    for _ in range(len(heads) + 1):
        if k == 0:
            return True
        k = heads[k]
    return False


def on_cycle(heads, k):
    j = heads[k]
    for _ in range(len(heads)):
        if j == k:
            return True
        if j == 0:
            return False
        j = heads[j]
    return False


@sx.harness(quick=[dict(n=3, fix=False), dict(n=3, fix=True)], thorough=[dict(n=4, fix=False), dict(n=4, fix=True)],
            reach=['tree', 'range', 'cycle', 'no head', 'not a number'],
            bounds='n words, any HEAD column of one or two characters out of digits, minus and underscore, with and without fix_cycles '
                   'and strict; at most one multi-word token and one empty node')
def heads(n, fix):
    cols = [sx.str('head%d' % k, 1, 2 if k == 1 else 1, '0123456789-_') for k in range(1, n + 1)]
    strict = sx.bool('strict')
    extra = sx.choice('extra', ['none', 'mwt', 'empty']) if n == 3 else 'none'
    lines = []
    for k in range(1, n + 1):
        if extra == 'mwt' and k == 2:
            lines.append(['2-3', 'ff'] + ['_'] * 8)
        lines.append(row(str(k), head=cols[k - 1], form='w%d' % k))
        if extra == 'empty' and k == 1:
            lines.append(row('1.1', head='_', deps='1:dep'))
    text = '# sent_id = s\n'
    for l in lines:
        text = text + '\t'.join(l) + '\n'
    # what the columns say
    values, wrong = {}, None
    for k in range(1, n + 1):
        c = cols[k - 1]
        if c == '_':
            values[k] = 0
            if strict:
                wrong = wrong or 'no head'
        else:
            values[k] = head_value(c)
            if values[k] is None:
                wrong = 'not a number'
    if wrong is None and not all(0 <= values[k] <= n for k in values):
        wrong = 'range'
    if wrong is None:
        values = {k: sx.fix(values[k]) for k in values}
        if not all(climb(values, k) for k in values):
            wrong = 'cycle'
    doc, err = read(text + '\n', fix_cycles=fix, strict=strict, empty_parent='ignore')
    sx.reach(wrong or 'tree')
    if wrong and not (wrong == 'cycle' and fix):
        sx.check(err is not None, 'accepted: %s' % wrong)
        return
    sx.check(err is None, 'refused: %s' % err)
    root = doc.bundles[0].trees[0]
    check_wf(root, 'loaded tree')
    got = root.descendants
    sx.check([x.form for x in got] == ['w%d' % k for k in range(1, n + 1)], 'words')
    for k in range(1, n + 1):
        if not on_cycle(values, k):
            sx.check(got[k - 1].parent.ord == values[k], 'head of a word outside of cycles changed')
        else:
            sx.check(got[k - 1].parent.ord in (values[k], 0), 'head of a word on a cycle is neither kept nor the root')
    # every cycle is cut only once
    cut = [k for k in values if on_cycle(values, k) and got[k - 1].parent.ord == 0]
    for a in cut:
        for b in cut:
            sx.check(a == b or not same_cycle(values, a, b), 'a cycle is cut twice')
    sx.observe([x.parent.ord for x in got])


def same_cycle(heads, a, b):
    j = heads[a]
    while j != a:
        if j == b:
            return True
        j = heads[j]
    return False


NAMES = ['form', 'lemma', 'upos', 'xpos', 'feats', 'head', 'deprel', 'raw_deps', 'misc']
FULL = ['f', 'l', 'X', 'x', 'A=1', '0', 'dep', '0:root', 'B=1']


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=4)], reach=['strict', 'missing', 'ok', 'more', 'mwt', 'empty'],
            bounds='a token line with 1..12 columns (word, multi-word token, empty node), strict or not; the contents of all columns are any texts')
def columns(size):
    kind = sx.choice('kind', ['word', 'mwt', 'empty'])
    cols = sx.choice('cols', range(2, 13))
    strict = sx.bool('strict')
    special = sx.choice('special', [i for i in range(len(NAMES)) if NAMES[i] not in ('head', 'raw_deps')] + [9, 10])
    vals = list(FULL) + ['more', 'evenmore']
    if not strict or cols == 10:
        vals[special] = sx.str('v', 1, size, 'field')
        sx.assume(vals[special] != '_')
    first = row('1', form='a')
    if kind == 'word':
        line = ['2'] + vals
    elif kind == 'mwt':
        line = ['2-3'] + vals
        line[2:9] = ['_'] * 7
    else:
        line = ['1.1'] + vals
        line[6] = '_'
        line[7] = '_'
    lines = [first, line[:cols]]
    if kind == 'mwt':
        lines += [row('2', form='b'), row('3', form='c')]
    elif kind == 'empty':
        lines += [row('2', form='b')]
    text = '# sent_id = s\n'
    for l in lines:
        text = text + '\t'.join(l) + '\n'
    doc, err = read(text + '\n', strict=strict, empty_parent='ignore')
    if strict and cols != 10:
        sx.check(err is not None, 'wrong number of columns accepted')
        sx.reach('strict')
        return
    sx.check(err is None, 'refused')
    sx.reach('missing' if cols < 10 else 'more' if cols > 10 else 'ok')
    if kind != 'word':
        sx.reach(kind)
    root = doc.bundles[0].trees[0]
    check_wf(root, 'loaded tree')
    node = root.descendants[1] if kind == 'word' else root.multiword_tokens[0] if kind == 'mwt' else root.empty_nodes[0]
    there = lambda i: i + 1 < cols
    for i, name in enumerate(NAMES):
        if name == 'head':
            if kind == 'word':
                sx.check(node.parent is root, 'missing head')
            continue
        if kind == 'mwt' and name not in ('form', 'misc') or kind == 'empty' and name == 'deprel':
            continue
        got = getattr(node, name)
        if name in ('feats', 'misc'):
            got = str(got)
        if there(i):
            sx.check(got == vals[i], name)
        else:
            sx.check(got is None or got == '_', 'missing %s reads as a value' % name)


@sx.harness(quick=[dict()], thorough=[dict(size=3)], reach=['accepted', 'refused'],
            bounds='a multi-word token line with any range of one-digit numbers in a sentence of three words')
def ranges(size=3):
    a = sx.str('a', 1, 1, '0123456789')
    b = sx.str('b', 1, 1, '0123456789')
    text = '# sent_id = s\n' + '\t'.join([a + '-' + b, 'ff'] + ['_'] * 8) + '\n'
    for k in (1, 2, 3):
        text = text + '\t'.join(row(str(k), form='w%d' % k)) + '\n'
    import io
    from udapi.core.document import Document
    doc = Document()
    err = sx.raises((ValueError, RuntimeError, IndexError, AttributeError), lambda: doc.from_conllu_string(text + '\n'))
    if err is not None:
        sx.reach('refused')
        sx.check(not (a >= '1' and a <= b and b <= '3'), 'a correct range is refused')
        return
    sx.reach('accepted')
    sx.check(not (a > b or a > '3'), 'a range without any word is accepted')
    root = doc.bundles[0].trees[0]
    check_wf(root, 'loaded tree')
    if a >= '1' and a <= b and b <= '3':
        i, j = sx.fix(int(a)), sx.fix(int(b))
        sx.check([w.form for w in root.multiword_tokens[0].words] == ['w%d' % k for k in range(i, j + 1)], 'words of the token')
