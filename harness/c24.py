"""C24: attachment scores and token F1."""
import itertools
from sx import api as sx


def capture(make, bundles):
    """The block made, applied to the bundles, and what it prints at the end."""
    import sys
    old, out = sys.stdout, sx.out()
    sys.stdout = out
    try:
        block = make()
        for b in bundles:
            block.process_bundle(b)
        block.process_end()
    finally:
        sys.stdout = old
    return block, out.getvalue()


def two_zones(n, m, pair='p'):
    """Two symbolic trees as zones of one bundle."""
    p = sx.tree(pair + 'pred', n)
    g = sx.tree(pair + 'gold', m)
    p.root.zone, g.root.zone = 'pred', 'gold'
    g.bundle.trees.remove(g.root)
    p.bundle.add_tree(g.root)
    return p, g


RELS = ['a', 'b', 'a:x', 'a:y', None]


def udep(r):
    return None if r is None else r.split(':')[0]


@sx.harness(quick=[dict(n=2, m=0, rels=True), dict(n=3, m=2, rels=False, unreached=('subtype', 'all'))],
            thorough=[dict(n=3, m=0, rels=True), dict(n=4, m=2, rels=False, unreached=('subtype', 'all'))], reach=['all', 'none', 'some', 'subtype'],
            bounds='one or two sentences, of n and m words, any heads in both trees; relations out of five, or any strings of 1-3 characters')
def attachment(n, m, rels, unreached=()):
    from udapi.block.eval.parsing import Parsing
    gold_first = sx.bool('gold first')
    bundles = []
    total, uas, las, ulas = 0, 0, 0, 0
    for k, size in enumerate([n, m] if m else [n]):
        p, g = two_zones(size, size, 'st'[k])
        if gold_first:
            p.bundle.trees.reverse()
        for i in range(1, size + 1):
            if rels:
                # relations of the first two words vary
                pr = sx.str('rel%d' % i, 1, 3, 'ab:') if i == 1 else sx.choice('rel%d' % i, RELS[2:4]) if i == 2 else 'a'
                gr = sx.choice('gold rel%d' % i, RELS) if i < 2 else 'a:x' if i == 2 else 'a'
                if i == 1:
                    sx.assume(sx.not_(pr[0] == ':'))
            else:
                pr, gr = 'a', 'ab'[i == 2]
            p.nodes[i].deprel, g.nodes[i].deprel = pr, gr
            same = p.head(i) == g.head(i)
            total += 1
            uas = uas + sx.ite(same, 1, 0)
            full = (pr is None and gr is None) if pr is None or gr is None else pr == gr
            if pr is None or gr is None:
                univ = pr is None and gr is None
            else:
                univ = udep(pr) == udep(gr)
            las = las + sx.ite(sx.and_(same, full), 1, 0)
            ulas = ulas + sx.ite(sx.and_(same, univ), 1, 0)
            if sx.is_symbolic() and k == 0 and pr is not None and gr is not None and univ and not full:
                sx.reach('subtype')
        bundles.append(p.bundle)
    block, text = capture(lambda: Parsing(gold_zone='gold'), bundles)
    sx.check(block.total == total, 'every word of the predicted trees is counted once')
    u, l, ul = sx.fix(uas), sx.fix(las), sx.fix(ulas)
    sx.reach('all' if l == total else 'none' if u == 0 else 'some')
    want = 'nodes = %d\n' % total
    want += 'UAS           = %6.2f\n' % (100 * u / total)
    want += 'LAS (deprel)  = %6.2f\n' % (100 * l / total)
    want += 'LAS (udeprel) = %6.2f\n' % (100 * ul / total)
    sx.check(text == want, 'printed scores')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['refused'], bounds='two trees of 0 to n words')
def alignment(n):
    from udapi.block.eval.parsing import Parsing
    a, b = sx.choice('pred', range(1, n + 1)), sx.choice('gold', range(1, n + 1))
    p, g = two_zones(a, b)
    block = Parsing(gold_zone='gold')
    e = sx.raises(ValueError, block.process_tree, p.root)
    if a != b:
        sx.reach('refused')
    sx.check((e is not None) == (a != b), 'trees of different sizes are refused, others are not')
    block.process_tree(g.root)
    sx.check(block.total == (a if a == b else 0), 'the gold tree is not compared with itself')


def lcs_is_longest(x, y, k):
    """No common subsequence of x and y is longer than k (a formula)."""
    if k >= min(len(x), len(y)):
        return True
    bad = []
    for ix in itertools.combinations(range(len(x)), k + 1):
        for iy in itertools.combinations(range(len(y)), k + 1):
            bad.append(sx.and_(*[x[i] == y[j] for i, j in zip(ix, iy)]))
    return sx.not_(sx.or_(*bad))


def is_subsequence(s, x):
    """s is a subsequence of x (a formula)."""
    if not s:
        return True
    return sx.or_(*[sx.and_(*[x[i] == c for i, c in zip(ix, s)]) for ix in itertools.combinations(range(len(x)), len(s))])


@sx.harness(quick=[dict(m=4, n=4)], thorough=[dict(m=5, n=5), dict(m=6, n=4), dict(m=3, n=6)],
            reach=['equal', 'disjoint', 'between'], bounds='any two sequences of m and n tokens')
def lcs(m, n):
    from udapi.block.eval.f1 import find_lcs
    x = [sx.int('x%d' % i, 0, m + n) for i in range(sx.choice('m', range(m + 1)))]
    y = [sx.int('y%d' % i, 0, m + n) for i in range(sx.choice('n', range(n + 1)))]
    r = find_lcs(list(x), list(y))
    sx.reach('equal' if len(r) == len(x) == len(y) else 'disjoint' if not r else 'between')
    sx.check(is_subsequence(r, x), 'the result is a subsequence of the first')
    sx.check(is_subsequence(r, y), 'the result is a subsequence of the second')
    sx.check(lcs_is_longest(x, y, len(r)), 'no longer common subsequence exists')


def sentence(doc, forms, gold):
    bundle = doc.create_bundle()
    trees = []
    for zone, words in (('pred', forms), ('gold', gold)):
        t = bundle.create_tree(zone=zone)
        for i, w in enumerate(words):
            t.create_child(form=w, upos='X' if i % 2 else None)
        trees.append(t)
    return bundle, trees


@sx.harness(quick=[dict(m=3, n=2)], thorough=[dict(m=4, n=3), dict(m=3, n=4)], reach=['two sentences', 'details', 'attributes'],
            bounds='one or two sentences; the first with any forms of one character, m predicted and n gold words, attributes form or form,upos')
def f1(m, n):
    from udapi.core.document import Document
    from udapi.block.eval.f1 import F1
    doc = Document()
    x = [sx.str('x%d' % i, 1, 1, 'ident') for i in range(m)]
    y = [sx.str('y%d' % i, 1, 1, 'ident') for i in range(n)]
    sentence(doc, x, y)
    pred, gold, extra = m, n, 0
    if sx.bool('second'):
        sx.reach('two sentences')
        sentence(doc, ['a', 'b', 'c'], ['c', 'a', 'd', 'c'])
        pred, gold, extra = m + 3, n + 4, 2
    attrs = sx.choice('attributes', ['form', 'form,upos']) if not extra else 'form'
    if attrs != 'form':
        sx.reach('attributes')
    details = sx.choice('details', [0, 20] if attrs == 'form' else [20])
    block, text = capture(lambda: F1(gold_zone='gold', attributes=attrs, details=details), doc.bundles)
    if attrs == 'form':
        kx, ky = x, y
    else:
        kx = [w + ('_X' if i % 2 else '_None') for i, w in enumerate(x)]
        ky = [w + ('_X' if i % 2 else '_None') for i, w in enumerate(y)]
    lines = text.split('\n')
    sx.check(lines[-1] == '', 'last line terminated')
    tail = lines[-7:-1]
    correct = block.correct
    if attrs == 'form' or not extra:
        sx.check(lcs_is_longest(kx, ky, correct - extra), 'the longest common subsequence is counted')
    sx.check(correct <= min(pred, gold) and correct >= extra, 'number of correct words')
    prec, rec = correct / pred, correct / gold
    f = 2 * prec * rec / (prec + rec) if correct else 0
    want = ['predicted = %7d' % pred, 'gold      = %7d' % gold, 'correct   = %7d' % correct,
            'precision = %6.2f%%' % (100 * prec), 'recall    = %6.2f%%' % (100 * rec), 'F1        = %6.2f%%' % (100 * f)]
    sx.check(tail == want, 'printed totals follow from the counts')
    sx.check(lines[0] == 'Comparing predicted trees (zone=pred) with gold trees (zone=gold), sentences=%d' % len(doc.bundles), 'first line')
    if details:
        sx.reach('details')
        sx.check(lines[1] == '=== Details ===' and lines[-8] == '=== Totals ===', 'details')
        rows = [l.split() for l in lines[3:-8]]
        cols = [[int(str(r[c])) for r in rows] for c in (1, 2, 3)]
        sx.check([sum(c) for c in cols] == [pred, gold, correct], 'the details add up to the totals')
        sums = [a + b for a, b in zip(cols[0], cols[1])]
        sx.check(sums == sorted(sums, reverse=True), 'the most frequent first')
        for a in range(len(rows)):
            sx.check(cols[2][a] <= min(cols[0][a], cols[1][a]), 'correct words of a token')
            for b in range(a):
                sx.check(rows[a][0] != rows[b][0], 'one row per token')
            if attrs == 'form' and not extra:
                sx.check(sx.eq(sx.count([k == rows[a][0] for k in kx]), cols[0][a]), 'predicted count of a token')
                sx.check(sx.eq(sx.count([k == rows[a][0] for k in ky]), cols[1][a]), 'gold count of a token')


@sx.harness(quick=[dict(m=3, n=4)], thorough=[dict(m=5, n=4), dict(m=4, n=5)], reach=['focused', 'between others'],
            bounds='any m predicted and n gold forms out of four, two of them in focus')
def focus(m, n):
    """The counts with a focus: of the focused words only; correct words form a common subsequence."""
    from udapi.core.document import Document
    from udapi.block.eval.f1 import F1
    doc = Document()
    x = [sx.str('x%d' % i, 1, 1, 'abxy') for i in range(m)]
    y = [sx.str('y%d' % i, 1, 1, 'abxy') for i in range(n)]
    sentence(doc, x, y)
    block = F1(gold_zone='gold', focus='[xy]', details=9)
    block.process_bundle(doc.bundles[0])
    fx = [w for w in x if w == 'x' or w == 'y']
    fy = [w for w in y if w == 'x' or w == 'y']
    sx.check(block.pred == len(fx) and block.gold == len(fy), 'only focused words are counted')
    sx.check(0 <= block.correct <= min(len(fx), len(fy)), 'number of correct words')
    if fx and fy:
        sx.reach('focused')
    # not more than the longest common subsequence of the focused words
    k = block.correct
    if k:
        sx.check(sx.not_(lcs_is_longest(fx, fy, k - 1)), 'the correct words are a common subsequence')
    if len(fx) == len(x) and len(fy) == len(y):
        sx.check(lcs_is_longest(x, y, k), 'the longest common subsequence if all words are in focus')
        return
    # the other words are aligned first: as many of them as possible
    inx = [w == 'x' or w == 'y' for w in x]
    iny = [w == 'x' or w == 'y' for w in y]
    ox, oy = [w for w, f in zip(x, inx) if not f], [w for w, f in zip(y, iny) if not f]
    best = next(c for c in range(min(len(ox), len(oy)), -1, -1) if not c or not lcs_is_longest(ox, oy, c - 1))

    def aligned(k):
        'There is a common subsequence of best words out of focus and k in focus.'
        some = []
        for ix in itertools.combinations(range(len(x)), best + k):
            if sum(inx[i] for i in ix) == k:
                for iy in itertools.combinations(range(len(y)), best + k):
                    if all(inx[i] == iny[j] for i, j in zip(ix, iy)):
                        some.append(sx.and_(*[x[i] == y[j] for i, j in zip(ix, iy)]))
        return sx.or_(*some)
    if k:
        sx.check(aligned(k), 'the correct words are between the other words that agree')
    if best and best == len(ox) == len(oy) and all(a != b for a, b in itertools.combinations(ox, 2)):
        sx.reach('between others')
        sx.check(sx.not_(aligned(k + 1)), 'as many as possible between the other words that agree')


@sx.harness(quick=[dict(m=4)], thorough=[dict(m=5)], reach=['done'], bounds='equal sequences of m forms out of four, two in focus')
def focus_equal(m):
    from udapi.core.document import Document
    from udapi.block.eval.f1 import F1
    doc = Document()
    x = [sx.str('x%d' % i, 1, 1, 'abxy') for i in range(m)]
    sentence(doc, x, list(x))
    block = F1(gold_zone='gold', focus='[xy]', details=0)
    block.process_bundle(doc.bundles[0])
    sx.reach('done')
    sx.check(block.correct == block.pred == block.gold, 'equal sentences agree completely')


# ------------------------------------------------------------ the metrics of the shared tasks
# pairs of predicted and gold tokens, and which of them correspond
TOKENS = {
    'same': (['a', 'B', 'c'], ['A', 'b', 'c'], [(1, 1), (2, 2), (3, 3)]),
    'split': (['a', 'b', 'c'], ['a', 'bc'], [(1, 1)]),
    'inserted': (['x', 'a', 'b'], ['a', 'b'], [(2, 1), (3, 2)]),
    'dropped': (['a', 'c'], ['a', 'b', 'c'], [(1, 1), (2, 3)]),
    'replaced': (['a', 'x', 'c'], ['a', 'y', 'c'], [(1, 1), (3, 3)]),
    'two': (['a', 'b'], ['a', 'b'], [(1, 1), (2, 2)]),
    'nothing': (['a', 'b'], ['c'], []),
}
FUNCTION = ('aux', 'case', 'cc', 'clf', 'cop', 'det', 'mark')


def content(year, rel):
    u = rel.split(':')[0]
    return u not in FUNCTION and u != 'punct'


def percent(x, y):
    return '%.2f' % (100 * x / y if y else 0)


def shared_task(year, tokens, vary, upper='', **kw):
    """A bundle with two trees; the expected numbers of matching words of each metric."""
    pf, gf, pairs = TOKENS[tokens]
    p, g = two_zones(len(pf), len(gf))
    for t, forms in ((p, pf), (g, gf)):
        for k, f in enumerate(forms, 1):
            x = t.nodes[k]
            x.form, x.deprel, x.upos, x.xpos, x.lemma = f.upper() if upper in (t is p and 'pred', t is g and 'gold') else f, 'obj', 'X', 'T', 'l'
    first = pairs[0] if pairs else (1, 1)
    a, b = p.nodes[first[0]], g.nodes[first[1]]
    if vary == 'tags':
        a.upos, b.upos = sx.str('upos', 1, 1, 'XY'), sx.str('gold upos', 1, 1, 'XY')
        a.xpos, b.xpos = sx.str('xpos', 1, 1, 'XY'), sx.str('gold xpos', 1, 1, 'XY')
        feats = ['_', 'Case=Nom', 'Case=Nom|My=1', 'Case=Gen']
        a.feats, b.feats = sx.choice('feats', feats), sx.choice('gold feats', feats)
    elif vary == 'lemma':
        a.lemma, b.lemma = sx.str('lemma', 1, 1, '_ab'), sx.str('gold lemma', 1, 1, '_ab')
        a.deprel, b.deprel = sx.choice('rel', ['obj', 'punct']), sx.choice('gold rel', ['obj', 'punct'])
    elif vary == 'rels':
        rels = ['obj', 'obj:x', 'nsubj', 'punct', 'aux', 'clf:y']
        a.deprel, b.deprel = sx.choice('rel', rels), sx.choice('gold rel', rels)
    elif vary == 'function':
        # function words below the first word
        kids = [(i, j) for i, j in pairs if (i, j) != first]
        for i, j in kids:
            sx.assume(sx.eq(p.head(i), first[0]))
            p.nodes[i].deprel, g.nodes[j].deprel = sx.choice('rel%d' % i, ['det', 'det:x', 'case', 'obj']), sx.choice('gold rel%d' % i, ['det', 'obj'])
        if len(kids) > 1:
            # which words are the function words of each tree
            return p, g, pairs
        i, j = kids[0]
        p.nodes[i].upos, g.nodes[j].upos = sx.str('kid', 1, 1, 'XY'), 'X'
        p.nodes[i].feats = sx.choice('kid feats', ['_', 'Case=Nom', 'My=1'])
    return p, g, pairs


def universal(x):
    # the features that the task knows
    return sorted(f for f in str(x.feats).split('|') if f.startswith('Case='))


def matches(p, g, pairs, year):
    """What each metric counts (symbolic numbers), by the definition of the task."""
    to = dict(pairs)
    c = {m: 0 for m in ('UPOS', 'XPOS', 'UFeats', 'AllTags', 'Feats', 'Lemma', 'Lemmas', 'UAS', 'LAS', 'CLAS', 'MLAS', 'BLEX')}

    def count(m, cond):
        c[m] = c[m] + sx.ite(cond, 1, 0)

    def same_head(i, j):
        return sx.or_(sx.and_(sx.eq(p.head(i), 0), sx.eq(g.head(j), 0)), *[sx.and_(sx.eq(p.head(i), a), sx.eq(g.head(j), b)) for a, b in pairs])

    def functional(t, k, head):
        u = t.nodes[k].deprel.split(':')[0]
        return sx.eq(t.head(k), head) if u in FUNCTION else False

    for i, j in pairs:
        x, y = p.nodes[i], g.nodes[j]
        upos, xpos = x.upos == y.upos, x.xpos == y.xpos
        ufeats = universal(x) == universal(y)
        lemma = x.lemma == y.lemma
        count('UPOS', upos), count('XPOS', xpos), count('UFeats', ufeats)
        count('AllTags', sx.and_(upos, xpos, ufeats))
        count('Feats', str(x.feats) == str(y.feats))
        count('Lemma', lemma)
        free = sx.or_(lemma, y.lemma == '_')
        count('Lemmas', free)
        head, rel = same_head(i, j), x.deprel.split(':')[0] == y.deprel.split(':')[0]
        count('UAS', head), count('LAS', sx.and_(head, rel))
        if not content(year, y.deprel):
            continue
        count('CLAS', sx.and_(head, rel)), count('BLEX', sx.and_(head, rel, free))
        # all function words of both are aligned with one another and agree
        ok = []
        for k in range(1, len(p.nodes)):
            f = functional(p, k, i)
            if k not in to:
                ok.append(sx.not_(f))
                continue
            q, r = p.nodes[k], g.nodes[to[k]]
            agree = sx.and_(q.upos == r.upos, universal(q) == universal(r), q.deprel.split(':')[0] == r.deprel.split(':')[0])
            ok.append(sx.implies(f, sx.and_(functional(g, to[k], j), agree)))
            ok.append(sx.implies(functional(g, to[k], j), f))
        ok += [sx.not_(functional(g, k, j)) for k in range(1, len(g.nodes)) if k not in to.values()]
        count('MLAS', sx.and_(head, rel, upos, ufeats, *ok))
    return c


@sx.harness(quick=[dict(year=18, tokens='two', vary=v) for v in ('tags', 'lemma', 'rels')]
            + [dict(year=18, tokens=t, vary='function') for t in ('inserted', 'same')]
            + [dict(year=y, tokens=t, vary='') for y in (17, 18) for t in ('split', 'inserted', 'nothing')]
            + [dict(year=17, tokens='two', vary=v) for v in ('tags', 'lemma', 'rels')],
            thorough=[dict(year=y, tokens=t, vary=v) for y in (17, 18) for t in TOKENS for v in ('', 'tags', 'lemma', 'rels')]
            + [dict(year=18, tokens=t, vary='function') for t in ('two', 'inserted', 'dropped', 'replaced', 'same')],
            reach=['table'], bounds='two trees with any heads, their tokens one of seven pairs of up to three words; any tags, lemmas, or relations out of six of an '
            'aligned word; function words out of four relations below it; scores as a table, as counts, or raw')
def shared(year, tokens, vary):
    import importlib
    cls = getattr(importlib.import_module('udapi.block.eval.conll%d' % year), 'Conll%d' % year)
    # letter case of the tokens does not matter
    p, g, pairs = shared_task(year, tokens, vary, sx.choice('upper case', ['', 'pred', 'gold']) if vary == '' else '')
    c = matches(p, g, pairs, year)
    kw = {}
    if year == 18 and vary in ('', 'lemma'):
        kw['print_counts'] = sx.bool('counts')
    block, text = capture(lambda: cls(gold_zone='gold', **kw), [p.bundle])
    n, m = len(p.nodes) - 1, len(g.nodes) - 1
    cont = lambda t, some: len([k for k in some if content(year, t.nodes[k].deprel)])
    cn, cm, ca = cont(p, range(1, n + 1)), cont(g, range(1, m + 1)), cont(g, [j for _, j in pairs])
    names = ['UPOS', 'XPOS', 'Feats', 'Lemma', 'UAS', 'LAS', 'CLAS'] if year == 17 else \
        ['UPOS', 'XPOS', 'UFeats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS', 'MLAS', 'BLEX']
    lines = text.split('\n')
    sx.check(len(lines) == len(names) + 4, 'one line per metric')
    for name, line in zip(['Words'] + names, lines[2:]):
        correct = len(pairs) if name == 'Words' else sx.fix(c[name])
        pred, gold, alig = (cn, cm, ca) if name in ('CLAS', 'MLAS', 'BLEX') else (n, m, len(pairs))
        cells = [x.strip() for x in line.split('|')]
        if kw.get('print_counts'):
            want = [name] + [str(x) for x in (correct, gold, pred, alig)]
        else:
            want = [name, percent(correct, pred), percent(correct, gold), percent(2 * correct, pred + gold), percent(correct, alig) if name != 'Words' or year == 17 else '']
        sx.check(cells == want, 'scores of ' + name)
    sx.reach('table')


@sx.harness(quick=[dict(year=17), dict(year=18)], thorough=[dict(year=17, sizes=('two', 'dropped')), dict(year=18, sizes=('two', 'dropped'))], reach=['raw'],
            bounds='two sentences of two or three words with any heads; the numbers of each sentence, for one of four metrics')
def raw(year, sizes=('two',)):
    import importlib
    cls = getattr(importlib.import_module('udapi.block.eval.conll%d' % year), 'Conll%d' % year)
    p, g, pairs = shared_task(year, sx.choice('tokens', list(sizes)), 'rels')
    c = matches(p, g, pairs, year)
    metric = 'LAS' if year == 17 else sx.choice('metric', ['LAS', 'UAS', 'CLAS', 'MLAS'])
    block, text = capture(lambda: cls(gold_zone='gold', print_raw=True if year == 17 else metric, print_results=False), [p.bundle])
    n, m = len(p.nodes) - 1, len(g.nodes) - 1
    want = [n, m, len(pairs), sx.fix(c[metric])]
    if metric in ('CLAS', 'MLAS'):
        cont = lambda t, some: len([k for k in some if content(year, t.nodes[k].deprel)])
        want = [cont(p, range(1, n + 1)), cont(g, range(1, m + 1)), cont(g, [j for _, j in pairs]), sx.fix(c[metric])]
    sx.check(text == ' '.join(map(str, want)) + '\n', 'the numbers of one sentence')
    sx.reach('raw')


@sx.harness(quick=[dict(n=100)], thorough=[dict(n=100), dict(n=130)], reach=['long'],
            bounds='a sentence of 2n or 2n + 1 words, with the gold n times one of the two words before or after n times the other, the extra word in any of four places (at the ends if all words are the same)')
def long_sentence(n):
    'The words are aligned in the same way in long sentences.'
    from udapi.block.eval.conll17 import Conll17
    from udapi.block.eval.conll18 import Conll18
    from udapi.core.document import Document
    cls = sx.choice('year', [Conll17, Conll18])
    same = sx.choice('same word', [False, True])
    gold = ['a'] * n + ['a' if same else 'b'] * n
    at = sx.choice('at', [None, 0, 2 * n] if same else [None, 0, 1, n, 2 * n])
    pred = list(gold)
    if at is not None:
        pred.insert(at, 'x')
    bundle = Document().create_bundle()
    for zone, forms in (('pred', pred), ('gold', gold)):
        t = bundle.create_tree(zone=zone)
        for f in forms:
            t.create_child(form=f, deprel='obj', upos='X', lemma='l')
    metric = 'LAS'
    block, text = capture(lambda: cls(gold_zone='gold', print_raw=True if cls is Conll17 else metric, print_results=False), [bundle])
    sx.check(text == '%d %d %d %d\n' % (len(pred), len(gold), len(gold), len(gold)), 'all words but the extra one are aligned')
    sx.reach('long')
