"""C30: tree repair blocks."""
from sx import api as sx
from harness.common import check_tree, check_wf


def words(n, rels=None, forms=None):
    t = sx.tree('t', n)
    for k in range(1, n + 1):
        x = t.nodes[k]
        x.form = forms[k - 1] if forms else 'w%d' % k
        if rels:
            x.deprel = rels[k - 1]
    return t


def same_words(t, n, msg):
    check_tree(t, msg)
    sx.check(t.order() == list(range(1, n + 1)), msg + ': words and their order stay')
    sx.check([x.form for x in t.nodes[1:n + 1]] == ['w%d' % k for k in range(1, n + 1)], msg + ': forms stay')


def sym_rels(n, letters):
    """Relations out of one letter, every second one with a subtype."""
    r = [sx.str('rel%d' % k, 1, 1, letters) for k in range(1, n + 1)]
    return r, [s if k % 2 else s + ':y' for k, s in enumerate(r)]


# ------------------------------------------------------------ ud.FixChain
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['changed', 'same', 'long'],
            bounds='every tree of n words with any of three relations, two of which must not form chains')
def chain(n):
    from udapi.block.ud.fixchain import FixChain
    u, rels = sym_rels(n, 'fgx')
    t = words(n, rels)
    FixChain(deprels='f,g').process_document(t.doc)
    same_words(t, n, 'FixChain')
    for k in range(1, n + 1):
        cur = t.current(k)
        inlist = sx.or_(u[k - 1] == 'f', u[k - 1] == 'g')
        sx.check(sx.implies(sx.not_(inlist), cur == t.head(k)), 'other words keep their heads')
        for j in range(n + 1):
            if j == k:
                sx.check(cur != j, 'own head')
                continue
            is_j = cur == j
            if j:
                sx.check(sx.implies(sx.and_(is_j, inlist), u[j - 1] != u[k - 1]), 'no chain remains')
                sx.check(sx.implies(is_j, t.anc(j, k)), 'the new head is an ancestor')
            for i in range(1, n + 1):
                if i not in (j, k):
                    between = sx.and_(t.anc(i, k), t.anc(j, i)) if j else t.anc(i, k)
                    sx.check(sx.implies(sx.and_(is_j, inlist, between), u[i - 1] == u[k - 1]), 'only words of the chain are skipped')
        sx.check(t.nodes[k].deprel == rels[k - 1], 'relations stay')
    moved = [k for k in range(1, n + 1) if t.nodes[k].parent is not t.nodes[sx.fix(t.head(k))]]
    sx.reach('changed' if moved else 'same')
    if len(moved) > 1:
        sx.reach('long')


# ------------------------------------------------------------ ud.FixRightheaded
@sx.harness(quick=[dict(n=4, both=False, unreached=('conj',)), dict(n=3, unreached=('twice',))], thorough=[dict(n=4), dict(n=5, both=False, unreached=('conj',))], reach=['changed', 'same', 'twice', 'conj'],
            bounds='every tree of n words with any of three relations, two of which must be head-initial (one of them may be conj)')
def rightheaded(n, both=True, unreached=()):
    from udapi.block.ud.fixrightheaded import FixRightheaded
    conj = sx.bool('conj') if both else False
    u = [sx.str('rel%d' % k, 1, 1, 'fgx') for k in range(1, n + 1)]
    if conj:
        rels = [s.replace('g', 'conj') for s in u]
        sx.reach('conj')
    else:
        rels = [s if k % 2 else s + ':y' for k, s in enumerate(u)]
    t = words(n, rels)
    FixRightheaded(deprels='f,conj' if conj else 'f,g').process_document(t.doc)
    same_words(t, n, 'FixRightheaded')
    before_ok = []
    new = [t.nodes[k].deprel for k in range(1, n + 1)]
    for k in range(1, n + 1):
        r = t.nodes[k].udeprel
        inlist = sx.or_(r == 'f', r == ('conj' if conj else 'g'))
        sx.check(sx.implies(inlist, t.current(k) < k), 'the heads precede their dependents')
        was = sx.or_(u[k - 1] == 'f', u[k - 1] == 'g')
        before_ok.append(sx.implies(was, t.head(k) < k))
    good = sx.and_(*before_ok)
    sx.check(sx.implies(good, sx.and_(*[t.current(k) == t.head(k) for k in range(1, n + 1)])), 'a tree that is right stays')
    sx.check(sx.implies(good, sx.and_(*[a == b for a, b in zip(new, rels)])), 'the relations of a tree that is right stay')
    sx.check(sorted(sx.fix(x) for x in new) == sorted(sx.fix(x) for x in rels), 'relations are only exchanged')
    moved = [k for k in range(1, n + 1) if t.nodes[k].parent is not t.nodes[sx.fix(t.head(k))]]
    sx.reach('changed' if moved else 'same')
    if len(moved) > 2:
        sx.reach('twice')
    old = [0] + [sx.fix(t.head(k)) for k in range(1, n + 1)]
    wrong = [k for k in range(1, n + 1) if k < old[k] and sx.fix(u[k - 1]) in ('f', 'g')]
    if len(wrong) == 1 and sx.fix(u[old[wrong[0]] - 1]) == 'x':
        k, h = wrong[0], old[wrong[0]]
        want = [k if old[j] == h and not (conj and sx.fix(u[k - 1]) == 'g') else old[j] for j in range(n + 1)]
        want[k], want[h] = old[h], k
        sx.check([x.parent.ord for x in t.nodes[1:]] == want[1:], 'the first word takes the place of its head with all its dependents')


# ------------------------------------------------------------ ud.FixLeaf
@sx.harness(quick=[dict(n=4, rels=3), dict(n=3, rels=8)], thorough=[dict(n=4, rels=8), dict(n=5, rels=4)], reach=['moved', 'allowed', 'same'],
            bounds='every tree of n words with any of the first rels of eight relations')
def leaf(n, rels):
    from udapi.block.ud.fixleaf import FixLeaf
    names = ['case', 'x', 'fixed', 'cc', 'conj', 'aux:pass', 'mark', 'punct'][:rels]
    r = [sx.choice('rel%d' % k, names) for k in range(1, n + 1)]
    t = words(n, r)
    FixLeaf().process_document(t.doc)
    same_words(t, n, 'FixLeaf')
    func = {'case', 'cc', 'mark', 'aux:pass'}
    for k in range(1, n + 1):
        cur = t.current(k)
        def stays(p):
            """May k depend on the word p?"""
            rp, rk = r[p - 1], r[k - 1]
            return rp not in func or rk in ('fixed', 'punct') or (rp != 'cc' and rk in ('conj', 'cc'))
        for h in range(n + 1):
            if h == k:
                continue
            here = t.head(k) == h
            if h == 0 or stays(h):
                sx.check(sx.implies(here, cur == h), 'words with admissible heads stay')
                if h and r[h - 1] in func:
                    sx.reach('allowed')
            else:
                sx.reach('moved')
                for j in range(n + 1):
                    if j in (k, h):
                        sx.check(sx.implies(here, cur != j), 'children of function words move')
                        continue
                    if j and r[j - 1] in func:
                        sx.check(sx.implies(here, cur != j), 'not to another function word')
                        continue
                    up = [sx.not_(t.anc(i, h)) if j == 0 else sx.not_(sx.and_(t.anc(i, h), t.anc(j, i))) for i in range(1, n + 1) if i not in (h, j, k) and r[i - 1] not in func]
                    near = sx.and_(here, *([t.anc(j, h)] if j else []), *up)
                    sx.check(sx.implies(near, cur == j), 'the new head is the nearest ancestor that is no function word')
        sx.check(t.nodes[k].deprel == r[k - 1], 'relations stay')
    sx.reach('same')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['redirected', 'other edge', 'kept'],
            bounds='every tree of n words, any of which is a function word; one word with one or two enhanced dependencies on any nodes')
def leaf_enhanced(n):
    from udapi.block.ud.fixleaf import FixLeaf
    func = [sx.bool('function%d' % k) for k in range(1, n + 1)]
    t = words(n, ['case' if f else 'x' for f in func])
    k = sx.choice('word', range(1, n + 1))
    others = [t.root] + [x for x in t.nodes[1:] if x is not t.nodes[k]]
    deps = [sx.choice('parent%d' % i, others) for i in range(sx.choice('many', [1, 2]))]
    x = t.nodes[k]
    x.deps = [{'parent': p, 'deprel': 'e%d' % i} for i, p in enumerate(deps)]
    old = x.parent
    FixLeaf().process_document(t.doc)
    moved = x.parent is not old
    sx.check([d['deprel'] for d in x.deps] == ['e%d' % i for i in range(len(deps))], 'enhanced relations stay')
    for d, p in zip(x.deps, deps):
        if moved and p is old:
            sx.check(d['parent'] is x.parent, 'the enhanced dependency on the function word moves with the basic one')
            sx.reach('redirected')
        else:
            sx.check(d['parent'] is p, 'other enhanced dependencies stay')
            sx.reach('other edge' if moved else 'kept')
    for y in t.nodes[1:]:
        if y is not x:
            sx.check(y.raw_deps == '_', 'other words have none')


# ------------------------------------------------------------ ud.FixPunctChild
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['some'], bounds='every tree of n words, any of which has the relation punct')
def punct_child(n):
    from udapi.block.ud.fixpunctchild import FixPunctChild
    p = [sx.bool('punct%d' % k) for k in range(1, n + 1)]
    r = ['punct' if q else 'x' for q in p]
    t = words(n, r)
    FixPunctChild().process_document(t.doc)
    same_words(t, n, 'FixPunctChild')
    for k in range(1, n + 1):
        cur = t.current(k)
        for j in range(n + 1):
            if j == k:
                continue
            if j and r[j - 1] == 'punct':
                sx.check(cur != j, 'punctuation has no children')
                continue
            near = sx.and_(*([t.anc(j, k)] if j else []),
                           *[sx.not_(t.anc(i, k)) if j == 0 else sx.not_(sx.and_(t.anc(i, k), t.anc(j, i))) for i in range(1, n + 1) if i not in (k, j) and r[i - 1] != 'punct'])
            sx.check(sx.implies(near, cur == j), 'the head is the nearest ancestor that is no punctuation')
    sx.reach('some')


# ------------------------------------------------------------ ud.FixPunct
def nonproj(t, k, h, n):
    """A word between k and its head h that h does not dominate (current heads, concrete)."""
    return h != 0 and any(h not in ups(t, m) for m in range(min(h, k) + 1, max(h, k)))


def ups(t, k):
    out = []
    while k:
        k = t[k - 1]
        out.append(k)
    return out


@sx.harness(quick=[dict(n=4, forms='w,.()'), dict(n=4, forms='w"!)', unreached=('enhanced',))], thorough=[dict(n=5, forms='w,()'), dict(n=5, forms='w,.', unreached=('pair',))],
            reach=['changed', 'same', 'pair', 'child', 'enhanced', 'nonprojective'],
            bounds='every tree of n words under one word that is no punctuation; forms out of those given (w: a word); final punctuation does not come before all words, or between a comma and a word; '
                   'paired marks contain a word')
def punct(n, forms, unreached=()):
    from udapi.block.ud.fixpunct import FixPunct
    kinds = [sx.choice('form%d' % k, forms) for k in range(1, n + 1)]
    t = sx.tree('t', n)
    mark = [f != 'w' for f in kinds]
    w = [k for k in range(1, n + 1) if not mark[k - 1]]
    sx.assume(bool(w))
    for k in range(1, w[0]):
        sx.assume(kinds[k - 1] not in '.!?')
    # final punctuation after a comma, but within the sentence: out of the bounds
    for k in range(2, w[-1]):
        sx.assume(kinds[k - 1] not in '.!?' or kinds[k - 2] != ',')
    # every mark that is closed has a word inside
    for k in range(1, n + 1):
        c = {'(': ')', '"': '"'}.get(kinds[k - 1])
        if c and any(kinds[j - 1] == c for j in range(k + 1, n + 1)):
            first = [j for j in range(k + 1, n + 1) if kinds[j - 1] == c][0]
            sx.assume(any(k < j < first for j in w))
    sx.assume(sx.or_(*[sx.and_(t.head(k) == 0, *[t.head(j) != 0 for j in range(1, n + 1) if j != k]) for k in w]))
    for k in range(1, n + 1):
        x = t.nodes[k]
        x.form = kinds[k - 1]
        x.upos = 'PUNCT' if mark[k - 1] else 'NOUN'
        x.deprel = 'punct' if mark[k - 1] else 'dep'
    head = [sx.fix(t.head(k)) for k in range(1, n + 1)]
    for x in t.root.children:
        x.deprel = 'root'
    enhanced = sx.bool('enhanced') if n < 4 else kinds[0] == ','
    FixPunct(copy_to_enhanced=enhanced).process_document(t.doc)
    check_wf(t.root, 'FixPunct')
    sx.check(t.order() == list(range(1, n + 1)), 'words and their order stay')
    now = [x.parent.ord for x in t.root.descendants]
    def overpunct(k):
        h = head[k - 1]
        while h and mark[h - 1]:
            h = head[h - 1]
        return h
    for k in range(1, n + 1):
        x = t.nodes[k]
        if not mark[k - 1]:
            sx.check(now[k - 1] == overpunct(k), 'a word keeps its head, or gets the nearest ancestor that is no punctuation')
            sx.check(x.deprel == ('root' if head[k - 1] == 0 else 'dep'), 'relations of words stay')
            if head[k - 1] != now[k - 1]:
                sx.reach('child')
        else:
            sx.check(x.children == [], 'punctuation has no children')
            sx.check(x.deprel == 'punct' and now[k - 1] != 0, 'punctuation depends on a word')
            sx.check(not nonproj(now, k, now[k - 1], n), 'punctuation is attached projectively')
            # a gap: some word has k inside the span of its head's edge without dominating it
            for m in range(1, n + 1):
                h = now[m - 1]
                if not mark[m - 1] and h and min(m, h) < k < max(m, h) and h not in ups(now, k):
                    sx.check(any(min(m, h) < i < max(m, h) and not mark[i - 1] and h not in ups(now, i) for i in w), 'punctuation makes no other edge non-projective')
            if enhanced:
                sx.reach('enhanced')
                sx.check(x.raw_deps == '%d:punct' % now[k - 1], 'enhanced dependencies of punctuation')
        if not mark[k - 1] or not enhanced:
            sx.check(x.raw_deps == '_', 'other enhanced dependencies stay')
        if head[k - 1] != now[k - 1] and nonproj(head, k, head[k - 1], n):
            sx.reach('nonprojective')
    sx.reach('changed' if now != head else 'same')
    if '(' in kinds and ')' in kinds or kinds.count('"') > 1:
        sx.reach('pair')


@sx.harness(quick=[dict(n=3, forms='w,.()"')], thorough=[dict(n=4, forms='w,("', unreached=('enhanced',))],
            reach=['word', 'mark', 'several', 'no word', 'paired root', 'enhanced'],
            bounds='every tree of n words with any forms out of those given, any of which depend on the root')
def punct_root(n, forms, unreached=()):
    from udapi.block.ud.fixpunct import FixPunct
    kinds = [sx.choice('form%d' % k, forms) for k in range(1, n + 1)]
    t = sx.tree('t', n)
    for k in range(1, n + 1):
        x = t.nodes[k]
        x.form = kinds[k - 1]
        x.upos = 'NOUN' if kinds[k - 1] == 'w' else 'PUNCT'
    head = [sx.fix(t.head(k)) for k in range(1, n + 1)]
    for k in range(1, n + 1):
        t.nodes[k].deprel = 'root' if head[k - 1] == 0 else 'punct' if kinds[k - 1] != 'w' else 'dep'
    tops = [k for k in range(1, n + 1) if head[k - 1] == 0]
    enhanced = sx.bool('enhanced') if n < 4 else False
    FixPunct(copy_to_enhanced=enhanced).process_document(t.doc)
    check_wf(t.root, 'FixPunct')
    sx.check(t.order() == list(range(1, n + 1)), 'words and their order stay')
    now = [x.parent.ord for x in t.root.descendants]
    sx.check(now.count(0) == 1, 'one word depends on the root')
    top = now.index(0) + 1
    sx.check(t.nodes[top].deprel == 'root', 'it has the relation root')
    if len(tops) == 1:
        sx.check([k for k in range(1, n + 1) if t.nodes[k].deprel == 'root'] == [top], 'no other word has the relation root')
    if kinds.count('w') >= n - 1 and kinds[0] not in '.!?':
        sx.check(kinds[top - 1] == 'w', 'the root is a word')
    if enhanced:
        sx.reach('enhanced')
        for k in range(1, n + 1):
            if kinds[k - 1] != 'w':
                sx.check(t.nodes[k].raw_deps == '%d:%s' % (now[k - 1], t.nodes[k].deprel), 'enhanced dependencies of punctuation')
    sx.reach('several' if len(tops) > 1 else 'word' if kinds[tops[0] - 1] == 'w' else 'mark')
    if not any(c == 'w' for c in kinds):
        sx.reach('no word')
    if len(tops) == 1 and kinds[tops[0] - 1] in '("':
        sx.reach('paired root')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['fixed', 'left alone'],
            bounds='every tree of n words under one word, one pair of brackets or quotation marks around a word at any place, both not tagged as punctuation')
def paired_upos(n):
    from udapi.block.ud.fixpunct import FixPunct
    a = sx.choice('opening', range(1, n - 1))
    b = sx.choice('closing', range(a + 2, n + 1))
    kind = sx.choice('kind', ['()', '""', '“”', "''"])
    check = sx.bool('check_paired_punct_upos')
    t = words(n)
    mark = [k in (a, b) for k in range(1, n + 1)]
    w = [k for k in range(1, n + 1) if k not in (a, b)]
    sx.assume(sx.or_(*[sx.and_(t.head(k) == 0, *[t.head(j) != 0 for j in range(1, n + 1) if j != k]) for k in w]))
    for k, x in enumerate(t.nodes[1:], 1):
        x.upos, x.deprel = ('SYM' if mark[k - 1] else 'NOUN'), 'dep'
    t.nodes[a].form, t.nodes[b].form = kind
    head = [sx.fix(t.head(k)) for k in range(1, n + 1)]
    for x in t.root.children:
        x.deprel = 'root'
    FixPunct(check_paired_punct_upos=check).process_document(t.doc)
    check_tree(t, 'FixPunct')
    sx.check(t.order() == list(range(1, n + 1)), 'words and their order stay')
    now = [x.parent.ord for x in t.root.descendants]
    if check or kind in ('""', "''"):
        sx.check(now == head, 'what is not tagged as punctuation is left alone')
        sx.reach('left alone')
        return
    sx.reach('fixed')
    for k in range(1, n + 1):
        h = head[k - 1]
        while h and mark[h - 1]:
            h = head[h - 1]
        if mark[k - 1]:
            sx.check(t.nodes[k].children == [] and now[k - 1] != 0, 'brackets are leaves')
            sx.check(not nonproj(now, k, now[k - 1], n), 'brackets are attached projectively')
            sx.check(a < now[k - 1] < b or not any(a < j < b and (now[j - 1] < a or now[j - 1] > b) for j in w), 'to a word inside')
        else:
            sx.check(now[k - 1] == h, 'a word keeps its head, or gets the nearest ancestor that is no bracket')


@sx.harness(quick=[dict(k=2)], thorough=[dict(k=3)], reach=['nested', 'in a row', 'unclosed'],
            bounds='brackets ( a ( b ) c ), ( a ) ( b ), ( a ( b ) c or ( a ( ( b ) ) c ) in a sentence of k + 4 or more words, any tree of the words a, b and c (and one before), brackets attached anywhere projective')
def brackets(k):
    from udapi.block.ud.fixpunct import FixPunct
    kind = sx.choice('kind', ['w(a(b)c)', 'w(a)(b)', 'w(a(b)c', 'w(a((b))c)'][:4 if k == 2 else 3])
    t = sx.tree('t', len(kind))
    n = len(kind)
    mark = [c in '()' for c in kind]
    w = [i for i in range(1, n + 1) if not mark[i - 1]]
    sx.assume(sx.or_(*[sx.and_(t.head(i) == 0, *[t.head(j) != 0 for j in w if j != i]) for i in w]))
    tops = sx.choice('marks', w if k > 2 else w[:1] + w[-1:])
    for i in range(1, n + 1):
        if mark[i - 1]:
            sx.assume(t.head(i) == tops)
        else:
            sx.assume(sx.or_(t.head(i) == 0, *[t.head(i) == j for j in w]))
    for i, x in enumerate(t.nodes[1:], 1):
        x.form = kind[i - 1]
        x.upos, x.deprel = ('PUNCT', 'punct') if mark[i - 1] else ('NOUN', 'dep')
    head = [sx.fix(t.head(i)) for i in range(1, n + 1)]
    for x in t.root.children:
        x.deprel = 'root'
    FixPunct().process_document(t.doc)
    check_tree(t, 'brackets')
    now = [x.parent.ord for x in t.root.descendants]
    for i in w:
        sx.check(now[i - 1] == head[i - 1], 'words keep their heads')
    stack, pairs = [], []
    for i, c in enumerate(kind, 1):
        if c == '(':
            stack.append(i)
        elif c == ')':
            pairs.append((stack.pop(), i))
    for i in range(1, n + 1):
        if mark[i - 1]:
            sx.check(t.nodes[i].children == [] and not mark[now[i - 1] - 1] and now[i - 1] != 0, 'brackets are leaves')
            sx.check(not nonproj(now, i, now[i - 1], n), 'brackets are attached projectively')
    sx.reach('unclosed' if stack else 'nested' if 'c' in kind else 'in a row')
    for a, b in pairs:
        tops = [j for j in w if a < j < b and not a < head[j - 1] < b]
        out = [j for j in w if not a <= j <= b and a < head[j - 1] < b]
        if len(tops) == 1 and not out:
            sx.check(now[a - 1] == now[b - 1] == tops[0], 'a pair is attached to the head of the words inside')


# ------------------------------------------------------------ ud.FixRoot
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5), dict(n=6)], reach=['several', 'one', 'renamed', 'empty'],
            bounds='every tree of n words and the empty tree, any word with the relation root or a subtype of it')
def fix_root(n):
    from udapi.block.ud.fixroot import FixRoot
    r = [('root' if k % 2 else 'root:y') if sx.bool('root%d' % k) else 'x:y' for k in range(1, n + 1)]
    t = words(n, r)
    empty = t.doc.create_bundle().create_tree()
    FixRoot().process_document(t.doc)
    sx.check(empty.children == [], 'empty tree')
    sx.reach('empty')
    same_words(t, n, 'FixRoot')
    tops = t.root.children
    sx.check(len(tops) == 1 and tops[0].udeprel == 'root', 'one word under the root, with the relation root')
    top = t.index[id(tops[0])]
    sx.check(sx.and_(t.head(top) == 0, *[t.head(j) != 0 for j in range(1, top)]), 'the first of the words under the root stays')
    sx.check(tops[0].deprel == (r[top - 1] if r[top - 1].startswith('root') else 'root'), 'a subtype of the relation root stays')
    for k in range(1, n + 1):
        if k == top:
            continue
        was = t.head(k) == 0
        sx.check(sx.ite(was, t.current(k) == top, t.current(k) == t.head(k)), 'heads')
        if r[k - 1].startswith('root'):
            sx.check(t.nodes[k].deprel == 'parataxis', 'no other word has the relation root')
            sx.reach('renamed')
        else:
            sx.check(sx.ite(was, t.nodes[k].deprel == 'parataxis', t.nodes[k].deprel == 'x:y'), 'relations of other words')
    several = sx.or_(*[t.head(k) == 0 for k in range(1, n + 1) if k != top])
    sx.reach('several' if several else 'one')


# ------------------------------------------------------------ ud.FixMultiSubjects
@sx.harness(quick=[dict(n=4, kinds=2, unreached=('outer',)), dict(n=3, kinds=7)], thorough=[dict(n=4, kinds=4)], reach=['changed', 'outer', 'same'],
            bounds='every tree of n words with any of the first kinds of seven relations')
def multi_subjects(n, kinds, unreached=()):
    from udapi.block.ud.fixmultisubjects import FixMultiSubjects
    r = [sx.choice('rel%d' % k, ['nsubj', 'x', 'nsubj:outer', 'csubj:pass', 'csubj', 'nsubjx', 'csubj:pass:outer'][:kinds]) for k in range(1, n + 1)]
    t = words(n, r)
    FixMultiSubjects().process_document(t.doc)
    same_words(t, n, 'FixMultiSubjects')
    subj = [q.split(':')[0] in ('nsubj', 'csubj') and not q.endswith(':outer') for q in r]
    for k in range(1, n + 1):
        sx.check(t.current(k) == t.head(k), 'heads stay')
        now = t.nodes[k].deprel
        if not subj[k - 1]:
            sx.check(now == r[k - 1], 'other relations stay')
            sx.reach('outer' if 'outer' in r[k - 1] else 'same')
            continue
        later = sx.or_(*[t.head(j) == t.head(k) for j in range(1, k) if subj[j - 1]])
        later = sx.and_(t.head(k) != 0, later)       # the block looks at words, not at the root
        if sx.fix(later) if not isinstance(later, bool) else later:
            sx.check(now == ('obl' if r[k - 1][0] == 'n' else 'advcl'), 'further subjects get another relation')
            sx.reach('changed')
        else:
            sx.check(now == r[k - 1], 'the first subject stays')


# ------------------------------------------------------------ ud.FixCompoundName
@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['changed', 'number', 'same', 'chain'],
            bounds='every tree of n words, any of them a proper noun with the relation compound (compound:x for even words), another proper noun, a proper noun with a number, or another word')
def compound_name(n):
    from udapi.block.ud.fixcompoundname import FixCompoundName
    kind = [sx.choice('kind%d' % k, ['c', 'p', 'n', 'x'] if k < 4 else ['c', 'p']) for k in range(1, n + 1)]
    rel = {'c': 'compound', 'p': 'dep', 'n': 'compound', 'x': 'compound'}
    forms = ['w%d' % k if q == 'n' else 'w' for k, q in enumerate(kind)]
    t = words(n, [rel[q] for q in kind], forms)
    for k in range(1, n + 1):
        t.nodes[k].upos = 'NOUN' if kind[k - 1] == 'x' else 'PROPN'
        if kind[k - 1] == 'c' and k % 2 == 0:
            t.nodes[k].deprel = 'compound:x'
    FixCompoundName().process_document(t.doc)
    check_tree(t, 'FixCompoundName')
    sx.check(t.order() == list(range(1, n + 1)) and [x.form for x in t.nodes[1:]] == forms, 'words stay')
    name = lambda x: x.upos == 'PROPN' and x.udeprel == 'compound'
    for k in range(1, n + 1):
        x = t.nodes[k]
        if name(x) and x.parent.upos == 'PROPN':
            group = [y for y in x.parent.children if name(y)] + [x.parent]
            sx.check(any(kind[t.index[id(y)] - 1] == 'n' for y in group), 'no name remains a compound')
            sx.reach('number')
        if x.deprel == 'flat:name':
            sx.check(x.parent.precedes(x) and not x.parent.is_root() and x.parent.upos == 'PROPN', 'names are head-initial')
            sx.reach('changed')
            sx.check(kind[k - 1] != 'x', 'only proper nouns')
    was = [sx.and_(t.head(j) == k) for k in range(n + 1) for j in range(1, n + 1)]
    for k in range(1, n + 1):
        untouched = sx.and_(*[t.head(j) != k for j in range(1, n + 1) if j != k and kind[j - 1] in 'cn'])
        if kind[k - 1] in 'px':
            sx.check(sx.implies(untouched, sx.and_(t.current(k) == t.head(k), t.nodes[k].deprel == rel[kind[k - 1]])), 'other words stay')
            sx.reach('same')
    if [x.deprel for x in t.nodes[1:]].count('flat:name') > 1:
        sx.reach('chain')


# ------------------------------------------------------------ ud.FixPseudoCop
@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['turned', 'aux', 'other'],
            bounds='every tree of n words with one pseudocopula (a copula, an auxiliary or another word; not under the root) and other words with four relations')
def pseudo_cop(n):
    from udapi.block.ud.fixpseudocop import FixPseudoCop
    k = sx.choice('k', range(1, n + 1))
    kind = sx.choice('relation', ['cop', 'aux:pass', 'x'])
    aux = sx.bool('noncopaux')
    r = [kind if j == k else sx.choice('rel%d' % j, ['nsubj', 'amod', 'obl:arg']) for j in range(1, n + 1)]
    t = words(n, r)
    x = t.nodes[k]
    for y in t.nodes[1:]:
        y.lemma = 'l'
        y.upos = 'X'
    x.lemma = 'become'
    x.upos = sx.choice('upos', ['AUX', 'X'])
    old = x.upos
    sx.assume(t.head(k) != 0)
    FixPseudoCop(lemmas='be,become', noncopaux=aux).process_document(t.doc)
    same_words(t, n, 'FixPseudoCop')
    turn = kind == 'cop' or (kind == 'aux:pass' and aux)
    if not turn:
        sx.check(sx.and_(*[t.current(j) == t.head(j) for j in range(1, n + 1)]), 'heads stay')
        sx.check([y.deprel for y in t.nodes[1:]] == r, 'relations stay')
        sx.check(x.upos == ('VERB' if aux and old == 'AUX' else old), 'UPOS')
        sx.reach('other')
        return
    sx.reach('turned' if kind == 'cop' else 'aux')
    h = sx.fix(t.head(k))
    sx.check(x.upos == 'VERB' and t.current(k) == t.head(h) and x.deprel == r[h - 1], 'the pseudocopula takes the place of its head')
    sx.check(t.current(h) == k and t.nodes[h].deprel == 'xcomp', 'the former head becomes its complement')
    for j in range(1, n + 1):
        if j not in (k, h):
            goes = r[j - 1] in ('nsubj', 'obl:arg')
            sx.check(t.current(j) == (sx.ite(t.head(j) == h, k, t.head(j)) if goes else t.head(j)), 'only modifiers of the clause move')
            sx.check(t.nodes[j].deprel == r[j - 1] and t.nodes[j].upos == 'X', 'other words stay')


# ------------------------------------------------------------ ud.FixAdvmodByUpos
UPOS = ['NOUN', 'PROPN', 'PRON', 'DET', 'NUM', 'VERB', 'AUX', 'ADP', 'SCONJ', 'CCONJ', 'INTJ', 'ADV', 'ADJ', 'PART', 'PUNCT', 'X', 'SYM']
# the relation of a function word (or a modifier) with the given tag that is annotated with a relation which does not fit the tag
TURNS = {
    'advmod': dict([(u, 'obl') for u in ('NOUN', 'PROPN', 'PRON', 'DET', 'NUM')], VERB='advcl', AUX='aux', CCONJ='cc', INTJ='discourse', ADJ='dep', PART='dep', PUNCT='dep', X='dep', SYM='dep'),
    'expl': dict(AUX='aux', ADP='case', CCONJ='cc'), 'case': dict(DET='det'), 'mark': dict(INTJ='discourse'), 'cc': dict(AUX='aux', DET='det', INTJ='discourse'),
    'det': dict(NOUN='nmod', ADJ='amod', ADV='advmod', AUX='aux', VERB='dep', X='dep'), 'nummod': dict(PRON='nmod', DET='det'),
    'aux': dict((u, 'dep') for u in UPOS if u != 'AUX'), 'cop': dict((u, 'dep') for u in UPOS if u != 'AUX'), 'punct': dict((u, 'dep') for u in UPOS if u != 'PUNCT'),
}
RELS = ['advmod', 'advmod:emph', 'expl', 'aux', 'cop', 'case', 'mark', 'cc', 'det', 'nummod', 'punct', 'nsubj']


@sx.harness(reach=['kept', 'changed'], bounds='two words, every UPOS tag and every relation that the block treats, with every UPOS tag of the head')
def advmod():
    from udapi.block.ud.fixadvmodbyupos import FixAdvmodByUpos
    from udapi.core.document import Document
    root = Document().create_bundle().create_tree()
    a = root.create_child(form='a', upos=sx.choice('head', UPOS), deprel='root')
    b = a.create_child(form='b', upos=sx.choice('upos', UPOS), deprel=sx.choice('rel', RELS))
    u, r = b.upos, b.deprel
    FixAdvmodByUpos().process_document(root.document)
    check_wf(root, 'FixAdvmodByUpos')
    sx.check(a.parent is root and b.parent is a and a.deprel == 'root' and b.upos == u, 'only relations change')
    now = b.udeprel
    good = {'advmod': ['ADV'], 'aux': ['AUX'], 'cop': ['AUX'], 'punct': ['PUNCT']}
    for name, tags in good.items():
        sx.check(now != name or u in tags, 'the relation fits the tag')
        if r.split(':')[0] == name and u in tags:
            sx.check(b.deprel == r, 'a relation that fits the tag stays')
            sx.reach('kept')
    never = {'case': ['DET'], 'mark': ['PRON', 'DET', 'INTJ'], 'cc': ['AUX', 'DET', 'INTJ'], 'nummod': ['PRON', 'DET'], 'det': ['NOUN', 'ADJ', 'ADV', 'AUX', 'VERB', 'X'],
             'expl': ['AUX', 'ADP', 'CCONJ']}
    for name, tags in never.items():
        if r == name:
            sx.check((now == name) == (u not in tags), 'exactly the relations that do not fit the tag change')
    if r == 'nsubj':
        sx.check(b.deprel == r, 'other relations stay')
    old = r.split(':')[0]
    if old == 'advmod' and u in ('ADP', 'SCONJ'):
        sx.check(b.deprel == ('mark' if a.upos == 'VERB' else 'case'), 'an adposition or subordinator marks a clause or a case')
    elif u in TURNS.get(old, {}):
        sx.check(b.deprel == TURNS[old][u], 'the new relation is that of the tag')
    elif not (old == 'mark' and u in ('PRON', 'DET')):
        sx.check(b.deprel == r, 'a relation that fits stays')
    if b.deprel != r:
        sx.reach('changed')


# ------------------------------------------------------------ ud.Basic2Enhanced
@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['filled', 'kept', 'empty'],
            bounds='every tree of n words with any one-letter relations, any of the words with enhanced dependencies or a list of them that was emptied, one empty node with or without them')
def basic2enhanced(n):
    from udapi.block.ud.basic2enhanced import Basic2Enhanced
    r = [sx.str('rel%d' % k, 1, 2, 'ab:') for k in range(1, n + 1)]
    t = words(n, r)
    have = [sx.choice('have%d' % k, ['no', 'yes', 'cleared']) for k in range(1, n + 1)]
    for k in range(1, n + 1):
        if have[k - 1] != 'no':
            t.nodes[k].raw_deps = '0:e'
        if have[k - 1] == 'cleared':
            if k % 2:
                t.nodes[k].deps = []
            else:
                t.nodes[k].deps.clear()
    e = t.nodes[1].create_empty_child('dep')
    if not sx.bool('empty'):
        e.raw_deps = '_'
        sx.reach('empty')
    old = e.raw_deps
    Basic2Enhanced().process_document(t.doc)
    same_words(t, n, 'Basic2Enhanced')
    sx.check(e.raw_deps == old, 'empty nodes stay')
    for k in range(1, n + 1):
        x = t.nodes[k]
        sx.check(t.current(k) == t.head(k) and x.deprel == r[k - 1], 'the basic tree stays')
        if have[k - 1] == 'yes':
            sx.check(x.raw_deps == '0:e', 'present dependencies stay')
            sx.reach('kept')
        else:
            h = sx.fix(t.head(k))
            sx.check(x.raw_deps == str(h) + ':' + r[k - 1], 'missing dependencies are those of the basic tree')
            sx.check(len(x.deps) == 1 and x.deps[0]['parent'] is t.nodes[h] and x.deps[0]['deprel'] == r[k - 1], 'the parsed form agrees')
            sx.reach('filled')
