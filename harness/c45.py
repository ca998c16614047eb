"""C45: ud.MarkBugs and ud.MarkFeatsBugs mark exactly the words that break their rules."""
import types
from udapi.core.document import Document
from udapi.block.ud.markbugs import MarkBugs
from udapi.block.ud.markfeatsbugs import MarkFeatsBugs
from sx import api as sx
from harness.common import check_tree

FUNC = ('aux', 'cop', 'mark', 'clf', 'case')
UNDER_FUNC = ('conj', 'cc', 'punct', 'fixed', 'goeswith', 'advmod')


def marks(x, key='Bug', sep=','):
    text = x.misc[key]
    return [m for m in text.split(sep)] if text != '' else []


def compare(nodes, want, msg):
    """want: for each node the names of its bugs with how often they were found."""
    for x in nodes:
        mine = want.get(id(x), [])
        got = marks(x)
        sx.check(sorted(got) == sorted(set(mine)), msg)
    return sum(len(v) for v in want.values())


def totals(doc, want):
    """The overview that is stored in the document."""
    counts = {}
    for bugs in want.values():
        for b in bugs:
            counts[b] = counts.get(b, 0) + 1
    lines = doc.meta['bugs'].split('\n')
    sx.check(lines[0] == 'ud.MarkBugs Error Overview:' and lines[-1] == '', 'overview')
    rows = [l.split() for l in lines[1:-1]]
    sx.check(rows[-1] == ['TOTAL', str(sum(counts.values()))], 'total of the overview')
    sx.check(sorted((r[0], int(r[1])) for r in rows[:-1]) == sorted(counts.items()), 'counts of the overview')
    numbers = [int(r[1]) for r in rows[:-1]]
    sx.check(numbers == sorted(numbers), 'rows are sorted by the counts')


def relation_bugs(u, s, heads, k):
    """Rules about the relation of word k, its head and its children (u: universal relations, s: subtypes)."""
    out = []
    h = heads[k - 1]
    r = u[k - 1]
    p = u[h - 1] if h else None
    if r in ('aux', 'fixed', 'goeswith', 'list') and p == r:
        out.append(r + '-chain')
    if r in ('flat', 'fixed', 'conj', 'appos', 'goeswith', 'list') and k < h:
        out.append(r + '-rightheaded')
    if p in FUNC and r not in UNDER_FUNC:
        out.append((p + (':' + s[h - 1] if s[h - 1] else '')) + '-child')
    kids = [j for j in range(1, len(u) + 1) if heads[j - 1] == k]
    if len([j for j in kids if 'subj' in u[j - 1] and s[j - 1] != 'outer']) > 1:
        out.append('multi-subj')
    if len([j for j in kids if u[j - 1] == 'obj']) > 1:
        out.append('multi-obj')
    return out


@sx.harness(quick=[dict(n=3, names=a) for a in (['aux', 'goeswith', 'x'], ['flat', 'obj', 'conj'], ['fixed', 'case', 'advmod'], ['nsubj', 'list', 'csubj'], ['mark', 'appos', 'cc'], ['clf', 'punct', 'obj'])] + [dict(n=4, names=['nsubj', 'csubj', 'obj'], star=True)],
            thorough=[dict(n=4, names=a) for a in (['aux', 'x'], ['goeswith', 'conj'], ['obj', 'nsubj'])] +
                     [dict(n=4, names=['nsubj', 'csubj', 'obj', 'x'], star=True), dict(n=5, names=['nsubj', 'obj'], star=True)] +
                     [dict(n=3, names=a) for a in (['aux', 'goeswith', 'x', 'fixed'], ['flat', 'obj', 'conj', 'list'], ['fixed', 'case', 'advmod', 'mark'], ['clf', 'punct', 'nsubj', 'csubj'])],
            reach=['bugs', 'none'],
            bounds='every tree of n words (or n - 1 words under the first one) with any of the given relations with or without a subtype; universal part of speech VERB with a form of the verb')
def relations(n, names, star=False):
    u = ['root' if star and k == 1 else sx.choice('rel%d' % k, names) for k in range(1, n + 1)]
    sub = [sx.choice('sub%d' % k, ['', 'outer']) if k < 3 or star else '' for k in range(1, n + 1)]
    t = sx.tree('t', n)
    if star:
        sx.assume(sx.and_(t.head(1) == 0, *[t.head(k) == 1 for k in range(2, n + 1)]))
    for k, x in enumerate(t.nodes[1:], 1):
        x.form, x.upos, x.deprel = 'w', 'VERB', u[k - 1] + (':' + sub[k - 1] if sub[k - 1] else '')
        x.feats['VerbForm'] = 'Inf'
    heads = [sx.fix(t.head(k)) for k in range(1, n + 1)]
    MarkBugs(skip='-upos|goeswith-(gap|space)').apply_on_document(t.doc)
    check_tree(t, 'MarkBugs')
    want = {id(t.nodes[k]): relation_bugs(u, sub, heads, k) for k in range(1, n + 1)}
    many = compare(t.nodes[1:], want, 'marks for relations')
    totals(t.doc, want)
    sx.check([x.parent.ord for x in t.nodes[1:]] == heads, 'heads stay')
    sx.check([x.deprel.split(':')[0] for x in t.nodes[1:]] == u, 'relations stay')
    sx.reach('bugs' if many else 'none')


def form_of(upos, size):
    if upos not in ('SYM', 'PUNCT'):
        return 'w'
    form = sx.str('form', 1, size, 'any')
    return sx.choice('before', ['', '.', 'a']) + form


@sx.harness(quick=[dict(size=1)], thorough=[dict(size=2)], reach=['bugs', 'none', 'finite', 'zone'],
            bounds='two words; any of twelve parts of speech and six relations, any form of up to size characters, perhaps after a letter or a full stop, the features PronType, NumType, VerbForm, Mood set or not, a zone with or without the form of verbs')
def attributes(size):
    upos = sx.choice('upos', ['PRON', 'DET', 'NUM', 'VERB', 'AUX', 'SYM', 'PUNCT', 'NOUN'])
    rel = sx.choice('rel', ['cop', 'mark', 'det', 'punct', 'dep', 'root'])
    doc = Document()
    zone = sx.choice('zone', ['', 'id', 'jv_x', 'idx']) if upos == 'VERB' else ''
    root = doc.create_bundle().create_tree(zone=zone)
    x = root.create_child(form=form_of(upos, size), upos=upos, deprel=rel, lemma='l')
    y = x.create_child(form='y', upos='NOUN', deprel='dep')
    verb = sx.choice('VerbForm', ['', 'Fin', 'Inf'])
    mood = sx.bool('Mood')
    has = upos in ('PRON', 'DET', 'NUM') and sx.bool('has')
    wrong = upos in ('PRON', 'DET', 'NUM') and not has and sx.bool('has the other')
    name = {'PRON': 'PronType', 'DET': 'PronType', 'NUM': 'NumType'}.get(upos)
    if verb:
        x.feats['VerbForm'] = verb
    if mood:
        x.feats['Mood'] = 'm'
    if has:
        x.feats[name] = 'v'
    if wrong:
        x.feats[{'PronType': 'NumType', 'NumType': 'PronType'}[name]] = 'v'
    form = x.form
    MarkBugs().apply_on_document(doc)
    want = []
    if rel == 'cop' and upos not in ('AUX', 'PRON'):
        want.append('cop-upos')
    if rel == 'mark' and upos == 'PRON':
        want.append('mark-upos')
    if rel == 'det' and upos not in ('DET', 'PRON'):
        want.append('det-upos')
    if rel == 'punct' and upos != 'PUNCT':
        want.append('punct-upos')
    if upos == 'PUNCT' and rel not in ('punct', 'root'):
        want.append('punct-deprel')
    if name and not has:
        want.append('no-' + name)
    if upos == 'VERB' and not verb:
        if zone in ('id', 'jv_x'):
            sx.reach('zone')
        else:
            want.append('no-VerbForm')
    if verb == 'Fin':
        sx.reach('finite')
        if upos not in ('VERB', 'AUX'):
            want.append('finverb-upos')
        if not mood:
            want.append('finverb-mood')
    got = marks(x)
    letters = [c.isalpha() for c in form]
    if upos == 'SYM':
        sx.check(sx.iff('sym-alpha' in got, sx.and_(*letters)), 'symbols of letters')
    elif upos == 'PUNCT':
        sx.check(sx.iff('punct-alpha' in got, sx.or_(*letters)), 'punctuation with letters')
    got = [g for g in got if not g.endswith('-alpha')]
    sx.check(sorted(got) == sorted(want), 'marks for the attributes')
    sx.check(marks(y) == (['%s-child' % rel] if rel in FUNC else []), 'marks of the other word')
    sx.check(x.form == form and x.upos == upos and x.deprel == rel, 'attributes stay')
    sx.reach('bugs' if want else 'none')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['nonprojective', 'gap', 'none'],
            bounds='every tree of n words, one of them punctuation')
def nonprojective(n):
    t = sx.tree('t', n)
    p = sx.choice('punct', range(1, n + 1))
    for k, x in enumerate(t.nodes[1:], 1):
        x.form, x.upos, x.deprel = ('.', 'PUNCT', 'punct') if k == p else ('w', 'X', 'dep')
    heads = [sx.fix(t.head(k)) for k in range(1, n + 1)]
    MarkBugs().apply_on_document(t.doc)
    def over(j, k):
        while k and k != j:
            k = heads[k - 1]
        return k == j
    def nonproj(k):
        h = heads[k - 1]
        return h != 0 and any(not over(h, j) for j in range(min(h, k) + 1, max(h, k)))
    def gap(k):
        return any(heads[j - 1] and min(j, heads[j - 1]) < k < max(j, heads[j - 1]) and not over(heads[j - 1], k) for j in range(1, n + 1))
    want = []
    h = heads[p - 1]
    if nonproj(p):
        want.append('punct-nonproj')
        sx.reach('nonprojective')
    if gap(p) and not (h and gap(h)):
        want.append('punct-nonproj-gap')
        sx.reach('gap')
    if not want:
        sx.reach('none')
    sx.check(sorted(marks(t.nodes[p])) == want, 'marks of punctuation')
    for k in range(1, n + 1):
        if k != p:
            sx.check(marks(t.nodes[k]) == [], 'no marks of other words')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['gap', 'space', 'fine'],
            bounds='n words under the first one, any of them with the relation goeswith, any of them without a space after')
def goeswith(n):
    doc = Document()
    root = doc.create_bundle().create_tree()
    x = root.create_child(form='w', upos='X', deprel='root')
    go = [False] + [sx.bool('goeswith%d' % k) for k in range(2, n + 1)]
    glued = [sx.bool('glued%d' % k) for k in range(1, n + 1)]
    nodes = [x] + [x.create_child(form='w', upos='X', deprel='goeswith' if g else 'dep') for g in go[1:]]
    for y, g in zip(nodes, glued):
        if g:
            y.misc['SpaceAfter'] = 'No'
    MarkBugs(tests='goeswith').apply_on_document(doc)
    want = {id(y): [] for y in nodes}
    for k in range(1, n):
        if go[k]:
            holes = [j for j in range(1, k) if not go[j]]
            if holes:
                want[id(nodes[holes[0]])].append('goeswith-gap')
                sx.reach('gap')
            else:
                for j in range(k):
                    if glued[j]:
                        want[id(nodes[j])].append('goeswith-space')
                        sx.reach('space')
    if not compare(nodes, want, 'marks for goeswith'):
        sx.reach('fine')
    totals(doc, want)


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['many', 'few', 'form'],
            bounds='n copulas in two sentences with any lemmas out of letters (or none, then the form counts), any limit of the number of different lemmas')
def copulas(n):
    doc = Document()
    limit = sx.choice('max_cop_lemmas', [None, 0, 1, 3])
    names, nodes = [], []
    for s in range(2):
        root = doc.create_bundle().create_tree()
        for i in range(n if s == 0 else 1):
            lemma = sx.str('lemma%d%d' % (s, i), 1, 1, 'abc')
            if i == 0 and sx.bool('no lemma%d' % s):
                x = root.create_child(form=lemma, lemma='_', upos='AUX', deprel='cop')
                sx.reach('form')
            else:
                x = root.create_child(form='w', lemma=lemma, upos='AUX', deprel='cop')
            names.append(sx.fix(lemma))
            nodes.append(x)
    kw = {} if limit is None else dict(max_cop_lemmas=limit)
    block = MarkBugs(tests='cop', **kw)
    block.apply_on_document(doc)
    limit = 2 if limit is None else limit
    got = [nm for x, nm in zip(nodes, names) if marks(x)]
    for x, nm in zip(nodes, names):
        sx.check(marks(x) in ([], ['cop-many-lemmas']), 'marks')
        sx.check(bool(marks(x)) == (nm in got), 'all copulas with a lemma are treated alike')
    count = lambda nm: len([m for m in names if m == nm])
    kept = set(names) - set(got)
    sx.check(len(kept) == min(limit, len(set(names))), 'so many lemmas are accepted')
    sx.check(all(count(a) >= count(b) for a in kept for b in got), 'the most frequent ones')
    sx.reach('many' if got else 'few')
    # the next document starts from the beginning
    doc2 = Document()
    root = doc2.create_bundle().create_tree()
    x = root.create_child(form='w', lemma='new', upos='AUX', deprel='cop')
    block.apply_on_document(doc2)
    sx.check(marks(x) == (['cop-many-lemmas'] if limit == 0 else []), 'documents are independent')


@sx.harness(reach=['tests', 'skip', 'both', 'old', 'twice', 'quiet'],
            bounds='a word with three bugs; any of the names as tests and as skip, older marks of any of the names or another one, run once or twice')
def selection():
    t = sx.tree('t', 3)
    sx.assume(sx.and_(t.head(1) == 3, t.head(2) == 0, t.head(3) == 2))
    a, b, c = t.nodes[1:]
    a.form, a.upos, a.deprel = 'w', 'PUNCT', 'dep'      # a non-projective edge and its head in a gap
    b.form, b.upos, b.deprel = 'w', 'X', 'root'
    c.form, c.upos, c.deprel = 'w', 'X', 'dep'
    names = ['punct-alpha', 'punct-deprel', 'punct-nonproj']
    tests = sx.choice('tests', [None, '', 'alpha', 'alpha|deprel', '^nothing'])
    skip = sx.choice('skip', [None, '', 'deprel', 'punct-(alpha|nonproj)'])
    old = sx.choice('old', [None, 'other', 'punct-deprel', 'punct-nonproj-gap', 'punct-alpha,x'])
    if old:
        a.misc['Bug'] = old
        sx.reach('old')
    save = sx.bool('save_stats')
    import udapi.block.ud.markbugs as mod
    reports = []
    mod.logging = types.SimpleNamespace(warning=lambda m, *a: reports.append(m), debug=lambda *a: None)
    block = MarkBugs(tests=tests, skip=skip, save_stats=save)
    block.apply_on_document(t.doc)
    want = [m for m in names if not tests or {'alpha': 'alpha' in m, 'alpha|deprel': 'nonproj' not in m, '^nothing': False}[tests]]
    want = [m for m in want if not skip or {'deprel': 'deprel' not in m, 'punct-(alpha|nonproj)': 'deprel' in m}[skip]]
    was = old.split(',') if old else []
    sx.check(marks(a) == was + [m for m in want if m not in was], 'marks are added to the older ones')
    def overview(k):
        if save:
            totals(t.doc, {0: want})
        else:
            sx.check('bugs' not in t.doc.meta, 'no overview')
            sx.reach('quiet')
        sx.check(len(reports) == k, 'one report for each document')
        rows = [l.split() for l in reports[-1].rstrip().split('\n')[1:]]
        sx.check(sorted((r[0], int(r[1])) for r in rows) == sorted([('TOTAL', len(want))] + [(m, 1) for m in want]), 'counts of the report')

    overview(1)
    text = a.misc['Bug']
    block.apply_on_document(t.doc)
    overview(2)
    sx.check(a.misc['Bug'] == text, 'marking again changes nothing')
    sx.reach('twice')
    if tests:
        sx.reach('tests')
    if skip:
        sx.reach('skip')
    if tests and skip:
        sx.reach('both')


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=3)], reach=['bugs', 'none', 'missing', 'old'],
            bounds='a word with up to two features with names and values of up to size characters, two allowed features with values of one character, two required ones')
def features(size):
    x = Document().create_bundle().create_tree().create_child(form='w')
    feats = {}
    for i in range(sx.choice('features', [0, 1, 2])):
        name, value = sx.str('name%d' % i, 1, size, 'key'), sx.str('value%d' % i, 1, size, 'letter')
        sx.assume(sx.and_(sx.not_('+' in name), *[name != other for other in feats]))
        feats[name] = value
        x.feats[name] = value
    va, vb = sx.str('va', 1, 1, 'letter'), sx.str('vb', 1, 1, 'letter')
    allowed = {'A': [va, 'Z'], 'b': [vb]}
    old = sx.bool('older mark')
    if old:
        x.misc['Bug'] = 'Old'
        sx.reach('old')
    block = MarkFeatsBugs()
    block.check_allowed_features(x, allowed)
    block.check_required_features(x, ['A', 'b'])
    text = x.misc['Bug']
    got = marks(x, sep='+')
    want = ['Old'] if old else []
    for name, value in sorted(feats.items()):
        if name == 'A' or name == 'b':
            ok = sx.or_(value == va, value == 'Z') if name == 'A' else value == vb
            if sx.not_(ok):
                want.append('Feat' + name + 'Value' + value + 'NotAllowed')
        else:
            want.append('Feat' + name + 'NotAllowed')
    for name in ('A', 'b'):
        if not sx.or_(*[name == f for f in feats]):
            want.append('Feat' + name + 'Missing')
            sx.reach('missing')
    sx.check(len(got) == len(want), 'number of marks')
    for w in want:
        sx.check(sx.or_(*[g == w for g in got]), 'marks')
    sx.reach('none' if want == ['Old'][:1 if old else 0] else 'bugs')
    block.check_allowed_features(x, allowed)
    block.check_required_features(x, ['A', 'b'])
    sx.check(x.misc['Bug'] == text, 'marking again changes nothing')
