from sx import api as sx
from harness.common import check_tree


class Model:
    def __init__(self, t):
        self.t = t
        self.tokens = []            # (token, [numbers of words])
        self.no_space = {}          # word number or id of token -> True

    def of(self, k):
        for tok, ws in self.tokens:
            if k in ws:
                return tok
        return None


def agree(t, m, msg):
    root = t.root
    n = t.n
    sx.check(sorted(id(x) for x in root.multiword_tokens) == sorted(id(x) for x, _ in m.tokens), msg + ': set of multi-word tokens')
    want, seen = [], []
    for k in range(1, n + 1):
        tok = m.of(k)
        sx.check(t.nodes[k].multiword_token is tok, msg + ': token of a word')
        sx.check((t.nodes[k].misc['SpaceAfter'] == 'No') == m.no_space.get(k, False), msg + ': space flag of a word')
        sx.check(t.nodes[k].no_space_after == m.no_space.get(k, False), msg + ': no_space_after of a word')
        if tok is None:
            want.append(id(t.nodes[k]))
        elif tok not in seen:
            seen.append(tok)
            want.append(id(tok))
    sx.check([id(x) for x in root.token_descendants] == want, msg + ': tokens of the sentence')
    for tok, ws in m.tokens:
        sx.check(tok.ord_range == '%d-%d' % (min(ws), max(ws)), msg + ': range of a token')
        sx.check([id(x) for x in tok.words] == [id(t.nodes[k]) for k in sorted(ws)], msg + ': words of a token')
        sx.check((tok.misc['SpaceAfter'] == 'No') == m.no_space.get(id(tok), False), msg + ': space flag of a token')
        sx.check(tok.no_space_after == m.no_space.get(id(tok), False), msg + ': no_space_after of a token')
        sx.check(tok.root is root and tok.is_mwt(), msg + ': root of a token')
    check_tree(t, msg)


def create(t, m, name, lo, hi, backwards=False, misc=None):
    ws = list(range(lo, hi + 1))
    given = [t.nodes[k] for k in ws]
    if backwards:
        given.reverse()
    form = sx.str('form' + name, 1, 1, 'field')
    tok = t.root.create_multiword_token(given, form=form, misc=misc)
    m.tokens = [(x, old) for x, old in m.tokens if not set(old) & set(ws)]
    m.tokens.append((tok, ws))
    m.no_space[id(tok)] = bool(m.no_space.get(ws[-1])) or bool(misc)
    for k in ws:
        m.no_space[k] = False
    sx.check(tok.form == form, 'form of a token')
    sx.check(misc is None or tok.misc['X'] == 'y', 'misc of a token')


@sx.harness(quick=[dict(n=3, k=3), dict(n=5, k=2)], thorough=[dict(n=4, k=3), dict(n=3, k=4), dict(n=6, k=2)], reach=['create', 'remove', 'overlap'],
            bounds='n words with any space flags, k creations (any contiguous range, words given in either order) and removals')
def history(n, k):
    t = sx.tree('t', n)
    m = Model(t)
    for w in range(1, n + 1):
        if sx.bool('flag%d' % w) if w in (2, n) else w == n - 1:
            t.nodes[w].misc['SpaceAfter'] = 'No'
            m.no_space[w] = True
    for i in range(k):
        op = sx.choice('op%d' % i, ['create', 'remove'] if m.tokens else ['create'])
        sx.reach(op)
        if op == 'create':
            lo = sx.choice('lo%d' % i, range(1, n + 1))
            hi = sx.choice('hi%d' % i, range(lo + (1 if lo < n and n > 3 else 0), n + 1))
            old = len(m.tokens)
            create(t, m, str(i), lo, hi, i == 1 and sx.bool('backwards%d' % i),
                   misc='SpaceAfter=No|X=y' if i == 2 and sx.bool('misc%d' % i) else None)
            if len(m.tokens) <= old:
                sx.reach('overlap')
        else:
            tok, _ = m.tokens.pop(sx.choice('which%d' % i, range(len(m.tokens))))
            tok.remove()
    agree(t, m, 'after the history')
    sx.observe([x.ord_range for x in t.root.multiword_tokens])


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['word', 'around', 'across'],
            bounds='a token over any range of n words; one of its words moved to any place within it, or any word outside it to any other place outside it')
def moved(n):
    t = sx.tree('t', n)
    lo = sx.choice('lo', range(1, n))
    hi = sx.choice('hi', range(lo + 1, n + 1))
    for j in range(1, n + 1):
        t.nodes[j].form = 'w'
    tok = t.root.create_multiword_token(t.nodes[lo:hi + 1], form='x')
    order = list(range(1, n + 1))
    k = sx.choice('word', order)
    inside = lambda j: lo <= j <= hi
    if inside(k):
        to = sx.choice('to', [j for j in order if inside(j) and j != k])
        after = sx.bool('after')
    else:
        to = sx.choice('to', [j for j in order if j != k and (not inside(j) or j in (lo, hi))])
        after = to == hi if inside(to) else sx.bool('after')
    order.remove(k)
    order.insert(order.index(to) + after, k)
    if after:
        t.nodes[k].shift_after_node(t.nodes[to], without_children=True)
    else:
        t.nodes[k].shift_before_node(t.nodes[to], without_children=True)
    sx.check(t.order() == order, 'order')
    span = [order.index(j) + 1 for j in range(lo, hi + 1)]
    if max(span) - min(span) != hi - lo:
        return      # cannot happen
    sx.reach('word' if inside(k) else 'across' if (k < lo) != (order.index(k) + 1 < min(span)) else 'around')
    want, seen = [], False
    for j in order:
        if not inside(j):
            want.append(id(t.nodes[j]))
        elif not seen:
            want.append(id(tok))
            seen = True
    sx.check([id(x) for x in t.root.token_descendants] == want, 'tokens of the sentence')
    sx.check(t.root.compute_text() == ' '.join('x' if k == id(tok) else 'w' for k in want), 'text of the sentence')
    sx.check([x.ord for x in tok.words] == sorted(span), 'words of the token')
    sx.check(tok.ord_range == '%d-%d' % (min(span), max(span)), 'range of the token')
    check_tree(t, 'moved')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=6)], reach=['gap', 'no gap', 'two'],
            bounds='a token over any non-empty subset of n words and possibly another over any of the words after it: every word or its token is listed exactly once')
def gaps(n):
    t = sx.tree('t', n)
    part = [sx.choice('part%d' % k, [0, 1, 2]) for k in range(1, n + 1)]
    first = [k for k in range(1, n + 1) if part[k - 1] == 1]
    second = [k for k in range(1, n + 1) if part[k - 1] == 2]
    sx.assume(first and (not second or first[-1] < second[0]))
    toks = {1: t.root.create_multiword_token([t.nodes[k] for k in first], form='x')}
    if second:
        toks[2] = t.root.create_multiword_token([t.nodes[k] for k in second], form='y')
        sx.reach('two')
    sx.reach('gap' if first[-1] - first[0] >= len(first) else 'no gap')
    for p, ws in ((1, first), (2, second)):
        if ws:
            sx.check([id(w) for w in toks[p].words] == [id(t.nodes[k]) for k in ws], 'words of a token')
            for k in ws:
                sx.check(t.nodes[k].multiword_token is toks[p], 'token of a word')
    got = [id(x) for x in t.root.token_descendants]
    for k in range(1, n + 1):
        sx.check(got.count(id(t.nodes[k])) == (1 if part[k - 1] == 0 else 0), 'a word outside of tokens is listed once, others not')
    adjacent = all(ws[-1] - ws[0] < len(ws) for ws in (first, second) if ws)
    if adjacent:
        want = []
        for k in range(1, n + 1):
            x = toks[part[k - 1]] if part[k - 1] else t.nodes[k]
            if not want or want[-1] != id(x):
                want.append(id(x))
        sx.check(got == want, 'tokens of the sentence')
    for p in toks:
        sx.check(id(toks[p]) in got, 'every token is listed')
    check_tree(t, 'tokens')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['address'],
            bounds='address and range of a token over any range of a sentence of n words in a bundle with any id of up to 3 characters')
def address(n):
    from udapi.core.document import Document
    doc = Document()
    bundle = doc.create_bundle()
    ident = sx.str('id', 1, 3, 'ident')
    bundle.bundle_id = ident
    t = bundle.create_tree()
    for k in range(n):
        t.create_child(form='w%d' % k)
    lo = sx.choice('lo', range(1, n + 1))
    hi = sx.choice('hi', range(lo, n + 1))
    tok = t.create_multiword_token(t.descendants[lo - 1:hi], form='x')
    sx.check(tok.address() == ident + '#' + '%d-%d' % (lo, hi), 'address of a multi-word token')
    sx.reach('address')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4), dict(n=3, two=True)], reach=['whole', 'part', 'untouched', 'all words'],
            bounds='a token (or two) over any ranges of n words of any tree; any of the words moved into another tree with a word and a token')
def stolen(n, two=False):
    """No multi-word token spans two trees after words are moved from one to the other."""
    t = sx.tree('t', n)
    ranges = []
    lo = sx.choice('lo', range(1, n))
    hi = sx.choice('hi', range(lo + 1, n + 1))
    ranges.append((lo, hi))
    if two:
        sx.assume(hi < n)
        lo2 = sx.choice('lo2', range(hi + 1, n + 1))
        ranges.append((lo2, sx.choice('hi2', range(lo2, n + 1))))
    toks = [t.root.create_multiword_token(t.nodes[a:b + 1], form='x%d' % i, misc='X=%d' % i) for i, (a, b) in enumerate(ranges)]
    u = sx.tree('u', 2)
    own = u.root.create_multiword_token(u.nodes[1:], form='own')
    moved = [k for k in range(1, n + 1) if sx.bool('move%d' % k)]
    sx.assume(moved)
    u.root.steal_nodes([t.nodes[k] for k in moved])
    for root in (t.root, u.root):
        sx.check(all(w.root is root and w.multiword_token is m for m in root.multiword_tokens for w in m.words), 'a token covers words of its tree only')
        sx.check(all(m.root is root for m in root.multiword_tokens), 'the tree of a token')
        for w in root.descendants:
            sx.check(w.multiword_token is None or w.multiword_token in root.multiword_tokens, 'the token of a word is in its tree')
    sx.check(own in u.root.multiword_tokens and own.words == u.nodes[1:], 'the tokens of the other tree stay')
    want_old, want_new = [], [('own', '_', u.nodes[1:])]
    for i, (a, b) in enumerate(ranges):
        gone = [t.nodes[k] for k in moved if a <= k <= b]
        if not gone:
            want_old.append(('x%d' % i, 'X=%d' % i, t.nodes[a:b + 1]))
            sx.reach('untouched')
        else:
            want_new.append(('x%d' % i, 'X=%d' % i, gone))
            sx.reach('whole' if len(moved) == n else 'all words' if len(gone) == b - a + 1 else 'part')
    def seen(root):
        return sorted(((m.form, str(m.misc), [x.ord for x in m.words]) for m in root.multiword_tokens))
    sx.check(seen(t.root) == sorted((f, m, [x.ord for x in ws]) for f, m, ws in want_old), 'tokens that stay')
    sx.check(seen(u.root) == sorted((f, m, [x.ord for x in ws]) for f, m, ws in want_new), 'tokens that move')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['kept', 'turned', 'empty', 'moved whole'],
            bounds='a token over any range of at least two of n words of any tree, with or without an empty node, after any of the four shifts of any word with or without its subtree (the words of the token stay next to each other)')
def shifted(n):
    t = sx.tree('t', n)
    for j in range(1, n + 1):
        t.nodes[j].form = 'w'
    lo = sx.choice('lo', range(1, n))
    hi = sx.choice('hi', range(lo + 1, n + 1))
    tok = t.root.create_multiword_token(t.nodes[lo:hi + 1], form='x')
    if sx.bool('empty'):
        t.nodes[lo].create_empty_child('dep')
        sx.reach('empty')
    k = sx.choice('word', range(1, n + 1))
    to = sx.choice('to', [j for j in range(1, n + 1) if j != k])
    alone = sx.bool('alone')
    how = sx.choice('how', ['shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree'])
    sx.assume(alone or not t.anc(k, to))
    getattr(t.nodes[k], how)(t.nodes[to], without_children=alone)
    order = t.order()
    span = [order.index(j) + 1 for j in range(lo, hi + 1)]
    sx.assume(max(span) - min(span) == hi - lo)
    sx.reach('kept' if span == sorted(span) else 'turned')
    if span == sorted(span) and span[0] != lo:
        sx.reach('moved whole')
    want, seen = [], False
    for j in order:
        if not lo <= j <= hi:
            want.append(id(t.nodes[j]))
        elif not seen:
            want.append(id(tok))
            seen = True
    sx.check([id(x) for x in t.root.token_descendants] == want, 'tokens of the sentence')
    sx.check(t.root.compute_text() == ' '.join('x' if i == id(tok) else 'w' for i in want), 'text of the sentence')
    sx.check([x.ord for x in tok.words] == sorted(span), 'words of the token')
    check_tree(t, 'shifted')
