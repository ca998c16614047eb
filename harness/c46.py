"""C46: ud.Convert1to2 makes the listed changes of UD v2 and nothing else."""
from udapi.core.document import Document
from udapi.block.ud.convert1to2 import Convert1to2
from sx import api as sx
from harness.common import check_tree, check_wf

LABELS = {'mwe': 'fixed', 'dobj': 'obj', 'nsubjpass': 'nsubj:pass', 'csubjpass': 'csubj:pass', 'auxpass': 'aux:pass', 'name': 'flat:name', 'foreign': 'flat'}
STEPS = ['upos', 'upos_copula', 'deprel_simple', 'neg', 'nmod', 'feats', 'remnants', 'goeswith', 'flat', 'coord', 'text']


def skip(*used):
    """All steps but these are switched off."""
    return ','.join(s for s in STEPS if s not in used)


def pair(upos='NOUN', deprel='x', above='VERB'):
    doc = Document()
    root = doc.create_bundle().create_tree()
    p = root.create_child(form='p', upos=above, deprel='root', lemma='p')
    x = p.create_child(form='x', upos=upos, deprel=deprel, lemma='x')
    return doc, root, p, x


@sx.harness(quick=[dict(size=1)], thorough=[dict(size=2)], reach=['changed', 'kept', 'lost', 'skipped', 'subtype'],
            bounds='a word with any of the old labels, a new one, or any label of up to size characters, with a subtype of up to size characters or none')
def labels(size):
    name = sx.choice('label', sorted(LABELS) + ['mwes', None])
    if name is None:
        name = sx.str('other', 1, size, 'ident')
        sx.assume(sx.and_(*[sx.not_(c == ':') for c in name]))
    sub = sx.str('subtype', 1, size, 'alpha') if sx.bool('has') else ''
    doc, root, p, x = pair(deprel=name + (':' + sub if sub != '' else ''))
    off = sx.bool('skip')
    Convert1to2(skip=skip() if off else skip('deprel_simple')).apply_on_document(doc)
    new = LABELS.get(name) if not off and name in LABELS else None
    if new is None:
        sx.check(x.deprel == name + (':' + sub if sub != '' else ''), 'other labels stay')
        sx.reach('skipped' if off else 'kept')
    else:
        lost = ':' in new and sub != ''
        sx.check(x.deprel == new + ('' if lost or sub == '' else ':' + sub), 'new label')
        sx.check(x.misc['ToDo'] == ('deprel' if lost else ''), 'lost subtypes are reported')
        sx.reach('lost' if lost else 'subtype' if sub != '' else 'changed')
    sx.check((x.feats['Foreign'] == 'Yes') == (name == 'foreign' and not off), 'feature of foreign words')
    sx.check(p.deprel == 'root' and x.form == 'x' and x.upos == 'NOUN' and x.parent is p, 'nothing else changes')


@sx.harness(quick=[dict()], thorough=[dict()], reach=['neg', 'todo', 'particle', 'interjection', 'pronoun', 'skipped', 'copula', 'conj'],
            bounds='a word with the relation neg, cop or another one and any of eight parts of speech, under a verb or a noun with or without a copula')
def negation():
    upos = sx.choice('upos', ['ADV', 'PART', 'AUX', 'DET', 'INTJ', 'PRON', 'NOUN', 'CONJ'])
    rel = sx.choice('rel', ['neg', 'cop', 'x', 'neg:y'])
    above = sx.choice('above', ['VERB', 'NOUN'])
    doc, root, p, x = pair(upos, rel, above)
    cop = sx.bool('copula')
    if cop:
        p.create_child(form='c', upos='AUX', deprel='cop')
    pron = sx.choice('PronType', ['', 'Neg', 'Ind,Neg', 'Ind'])
    if pron:
        x.feats['PronType'] = pron
    off = sx.bool('skip')
    Convert1to2(skip=skip() if off else skip('neg', 'upos', 'upos_copula')).apply_on_document(doc)
    want, tag, polarity, todo = rel, upos, '', ''
    if off:
        sx.reach('skipped')
    else:
        if upos == 'CONJ':
            tag = 'CCONJ'
            sx.reach('conj')
        if rel == 'cop' and upos not in ('AUX', 'PRON'):
            tag = 'AUX'
            sx.reach('copula')
        if rel == 'neg':
            sx.reach('neg')
            if 'Neg' in pron:
                sx.reach('pronoun')
            else:
                polarity = 'Neg'
            if upos in ('ADV', 'PART', 'AUX', 'INTJ'):
                want = 'advmod'
                if upos == 'INTJ' and (above == 'VERB' or cop):
                    tag = 'PART'
                    sx.reach('particle')
                elif upos == 'INTJ':
                    sx.reach('interjection')
            elif upos == 'DET':
                want = 'det'
            else:
                todo = 'neg'
                sx.reach('todo')
    sx.check(x.deprel == want and x.upos == tag, 'relation and part of speech')
    sx.check(x.feats['Polarity'] == polarity and x.feats['PronType'] == pron, 'features')
    sx.check(x.misc['ToDo'] == todo, 'what cannot be decided is reported')


@sx.harness(reach=['obl', 'nmod', 'todo', 'tmod', 'poss', 'skipped'],
            bounds='a word with any of five relations under a word with any part of speech, with or without a subject or a copula')
def nominal():
    above = sx.choice('above', ['VERB', 'AUX', 'ADV', 'ADJ', 'NOUN', 'PRON', 'PROPN', 'NUM', 'DET', 'SYM', 'X'])
    rel = sx.choice('rel', ['nmod', 'nmod:tmod', 'nmod:poss', 'nmod:y', 'nsubj'])
    doc, root, p, x = pair('NOUN', rel, above)
    other = sx.choice('other', [None, 'nsubj', 'csubj:pass', 'cop', 'cop:y', 'obj'])
    if other:
        p.create_child(form='o', upos='NOUN', deprel=other)
    off = sx.bool('skip')
    Convert1to2(skip=skip() if off else skip('nmod')).apply_on_document(doc)
    pred = other in ('nsubj', 'csubj:pass', 'cop') or rel == 'nsubj'
    if above in ('VERB', 'AUX', 'ADV') or above == 'ADJ' and pred:
        kind = 'no'
    elif above in ('NOUN', 'PRON', 'PROPN', 'NUM', 'DET') and not pred:
        kind = 'yes'
    else:
        kind = 'maybe'
    want, todo = rel, ''
    if off:
        sx.reach('skipped')
    elif rel != 'nsubj':
        if kind == 'no':
            want = rel.replace('nmod', 'obl')
            sx.reach('obl')
        elif rel == 'nmod:tmod':
            want = 'obl:tmod'
            sx.reach('tmod')
        elif rel == 'nmod:poss':
            sx.reach('poss')
        elif kind == 'maybe':
            todo = 'nmod'
            sx.reach('todo')
        else:
            sx.reach('nmod')
    sx.check(x.deprel == want, 'nominal modifiers of predicates are oblique')
    sx.check(x.misc['ToDo'] == todo, 'what cannot be decided is reported')


@sx.harness(quick=[dict(size=1)], thorough=[dict(size=3)], reach=['changed', 'todo', 'kept', 'twice'],
            bounds='a word with any of the old features and values, another value of up to size characters, and another feature')
def features(size):
    doc, root, p, x = pair()
    change = {'Negative': ('Neg', None), 'Aspect': ('Pro', 'Prosp'), 'VerbForm': ('Trans', 'Conv'), 'Definite': ('Red', 'Cons'), 'Foreign': ('Foreign', 'Yes'),
              'Tense': ('Nar', 'Nar'), 'NumType': ('Gen', 'Gen')}
    name = sx.choice('feature', sorted(change))
    old, new = change[name]
    is_old = sx.bool('old value')
    value = old if is_old else sx.str('value', 1, size, 'letter')
    if not is_old:
        sx.assume(value != old)
    x.feats[name] = value
    x.feats['Other'] = 'v'
    before = sx.bool('polarity')
    if before:
        x.feats['Polarity'] = 'Pos'
    block = Convert1to2(skip=skip('feats'))
    block.apply_on_document(doc)
    sx.check(x.feats['Other'] == 'v', 'other features stay')
    if name == 'Negative':
        sx.check(x.feats['Polarity'] == value and x.feats['Negative'] == '', 'Negative becomes Polarity')
    else:
        sx.check(x.feats[name] == (new if is_old else value), 'value of the feature')
        sx.check(x.feats['Polarity'] == ('Pos' if before else ''), 'polarity stays')
    sx.reach('changed' if is_old else 'kept')
    todo = {'Tense': 'nar', 'NumType': 'gen'}.get(name) if is_old else None
    sx.check(x.misc['ToDo'] == (todo or ''), 'what is not allowed is reported')
    if todo:
        sx.reach('todo')
    text = str(x.feats)
    block.apply_on_document(doc)
    sx.check(str(x.feats) == text and x.misc['ToDo'] == (todo or ''), 'a second time changes nothing')
    sx.reach('twice')
    rows = [l.split() for l in doc.meta['todo'].split('\n')[1:-1]]
    sx.check(rows == ([[todo, '1']] if todo else []) + [['TOTAL', '1' if todo else '0']], 'overview')


def words(t):
    for k, x in enumerate(t.nodes[1:], 1):
        x.form = x.lemma = 'w%d' % k


def same_words(t, n):
    check_tree(t, 'Convert1to2')
    sx.check(t.order() == list(range(1, n + 1)), 'words and their order stay')
    sx.check([x.form for x in t.nodes[1:]] == ['w%d' % k for k in range(1, n + 1)], 'forms stay')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['changed', 'same', 'skipped'],
            bounds='every tree of n words, any of which has the relation goeswith or flat, with or without a subtype')
def headfinal(n):
    t = sx.tree('t', n)
    words(t)
    rel = sx.choice('relation', ['goeswith', 'flat'])
    is_rel = [sx.bool('rel%d' % k) for k in range(1, n + 1)]
    for k, x in enumerate(t.nodes[1:], 1):
        x.deprel = (rel + (':s' if k % 2 else '')) if is_rel[k - 1] else 'd%d' % k
    old = [sx.fix(t.head(k)) for k in range(1, n + 1)]
    labels = [x.deprel for x in t.nodes[1:]]
    off = sx.bool('skip')
    Convert1to2(skip=skip() if off else skip(rel)).apply_on_document(t.doc)
    same_words(t, n)
    now = [x.parent.ord for x in t.nodes[1:]]
    bad = [k for k in range(1, n + 1) if is_rel[k - 1] and k < old[k - 1]]
    if off or not bad:
        sx.check(now == old and [x.deprel for x in t.nodes[1:]] == labels, 'head-initial relations stay')
        sx.reach('skipped' if off else 'same')
        return
    sx.reach('changed')
    if len(set(old[k - 1] for k in bad)) == 1 and not is_rel[old[bad[0] - 1] - 1]:
        # one group: its first word becomes the head of all
        h = old[bad[0] - 1]
        top = min(k for k in range(1, n + 1) if old[k - 1] == h and is_rel[k - 1])
        want, names = list(old), list(labels)
        want[top - 1], names[top - 1] = old[h - 1], labels[h - 1]
        names[h - 1] = labels[top - 1]
        for k in range(1, n + 1):
            if k == h or old[k - 1] == h and k != top:
                want[k - 1] = top
        sx.check(now == want, 'the first word becomes the head')
        sx.check([x.deprel for x in t.nodes[1:]] == names, 'relations')


@sx.harness(quick=[dict(n=4, kinds=('cc',), unreached=('comma',)), dict(n=3, kinds=(',', ';', '.'), unreached=('skipped', 'reported'))], thorough=[dict(n=4, kinds=('cc', ',', ';', '.'))], reach=['moved', 'kept', 'no conjuncts', 'reported', 'skipped', 'comma'],
            bounds='every tree of n words, one of which is a conjunction or a comma, any others have the relation conj or another one (one of three)')
def coordination(n, kinds, unreached=()):
    t = sx.tree('t', n)
    words(t)
    c = sx.choice('which', range(1, n + 1))
    kind = sx.choice('kind', kinds)
    conj = [k != c and sx.bool('conj%d' % k) for k in range(1, n + 1)]
    other = sx.choice('other', ['dep', 'det', 'mark']) if kind == 'cc' else 'det'
    for k, x in enumerate(t.nodes[1:], 1):
        x.deprel = 'conj' if conj[k - 1] else other
    x = t.nodes[c]
    x.deprel = 'cc' if kind == 'cc' else 'punct'
    if kind != 'cc':
        x.lemma = kind
        sx.reach('comma')
    off = kind == 'cc' and c == 1 and sx.bool('skip')
    old = [sx.fix(t.head(k)) for k in range(1, n + 1)]
    Convert1to2(skip=skip() if off else skip('coord')).apply_on_document(t.doc)
    same_words(t, n)
    now = [y.parent.ord for y in t.nodes[1:]]
    h = old[c - 1]
    sibs = [k for k in range(1, n + 1) if old[k - 1] == h]
    conjuncts = [k for k in sibs if conj[k - 1]]
    want, todo = h, ''
    if off:
        sx.reach('skipped')
    elif kind != '.':
        later = [k for k in conjuncts if k > c]
        if not conjuncts:
            sx.reach('no conjuncts')
            if kind == 'cc' and h < c:
                todo = 'cc-without-conj'
        elif c < conjuncts[0] and c < h:
            pass
        elif later:
            if [k for k in sibs if k > c][0] == later[0]:
                want = later[0]
                sx.reach('moved')
            else:
                todo = x.deprel + '-in-coord'
        elif kind == 'cc':
            todo = 'cc-after-conj'
    if todo:
        sx.reach('reported')
    sx.check(now[c - 1] == want, 'attachment of the conjunction')
    if want == h:
        sx.reach('kept')
    sx.check([v for k, v in enumerate(now, 1) if k != c] == [v for k, v in enumerate(old, 1) if k != c], 'other heads stay')
    sx.check(x.misc['ToDo'] == todo, 'what cannot be decided is reported')


@sx.harness(quick=[dict(n=4, pair=('cc', 'cc')), dict(n=4, pair=(',', 'cc'))], thorough=[dict(n=5, pair=('cc', 'cc')), dict(n=5, pair=(',', 'cc')), dict(n=5, pair=(',', ','))], reach=['both', 'one', 'none'],
            bounds='every tree of n words, two of which are conjunctions or commas, any others have the relation conj or another one')
def two_conjunctions(n, pair):
    t = sx.tree('t', n)
    words(t)
    c1 = sx.choice('first', range(1, n))
    c2 = sx.choice('second', range(c1 + 1, n + 1))
    kind = {c1: pair[0], c2: pair[1]}
    names = []
    for k, x in enumerate(t.nodes[1:], 1):
        names.append(('cc' if kind[k] == 'cc' else 'punct') if k in kind else 'conj' if sx.bool('conj%d' % k) else 'dep')
        x.deprel = names[-1]
        if kind.get(k) == ',':
            x.lemma = ','
    old = [sx.fix(t.head(k)) for k in range(1, n + 1)]
    Convert1to2(skip=skip('coord')).apply_on_document(t.doc)
    same_words(t, n)
    want = list(old)
    moved = 0
    for c in (c1, c2):
        h = want[c - 1]
        sibs = [k for k in range(1, n + 1) if want[k - 1] == h]
        conjuncts = [k for k in sibs if names[k - 1] == 'conj']
        later = [k for k in conjuncts if k > c]
        if later and not (c < conjuncts[0] and c < h) and [k for k in sibs if k > c and names[k - 1] != 'cc'][0] == later[0]:
            want[c - 1] = later[0]
            moved += 1
    sx.reach(['none', 'one', 'both'][moved])
    sx.check([y.parent.ord for y in t.nodes[1:]] == want, 'each conjunction moves to the next conjunct')


PRIORITY = ['nsubj', 'obj', 'iobj', 'obl', 'advmod', 'csubj', 'xcomp', 'ccomp', 'advcl']


@sx.harness(quick=[dict(chain=False, unreached=('chain',)), dict(chain=True, unreached=('report', 'none'))], thorough=[dict(chain=False, unreached=('chain',)), dict(chain=True, unreached=('report', 'none'))],
            reach=['one', 'two', 'chain', 'report', 'same label', 'none'],
            bounds='a verb with two dependents of any of four relations, each with a remnant or none (also under them), and a remnant of a remnant')
def remnants(chain, unreached=()):
    doc = Document()
    root = doc.create_bundle().create_tree()
    top = sx.choice('label', ['root', 'obj'])
    v = root.create_child(form='v', lemma='v', upos='VERB', deprel=top)
    rels = [sx.choice('rel%d' % i, ['nsubj', 'obj', 'obl', 'dep']) for i in range(2)]
    cores = [v.create_child(form='c%d' % i, lemma='c', upos='NOUN', deprel=r) for i, r in enumerate(rels)]
    has = [sx.bool('remnant%d' % i) for i in range(2)]
    made = []
    for i in range(2):
        if has[i]:
            made.append((cores[i].create_child(form='r%d' % i, lemma='r', upos='NOUN', deprel='remnant'), rels[i]))
    chained = None
    if chain:
        sx.assume(bool(made))
        chained = sx.choice('under', made)
        chained = (chained[0].create_child(form='rr', lemma='r', upos='NOUN', deprel='remnant'), chained[1])
        sx.reach('chain')
    if sx.bool('under the root') and not made and not chain:
        above = sx.choice('above', [v, root])
        x = above.create_child(form='r', lemma='r', upos='NOUN', deprel='remnant')
        Convert1to2(skip=skip('remnants')).apply_on_document(doc)
        sx.check(x.parent is above and x.deprel == 'remnant' and x.misc['ToDo'] == 'remnant', 'a remnant of the first word or the root is reported')
        sx.reach('report')
        check_wf(root, 'remnants')
        return
    order = [x.form for x in root.descendants]
    Convert1to2(skip=skip('remnants')).apply_on_document(doc)
    check_wf(root, 'remnants')
    sx.check([x.form for x in root.descendants] == order, 'words and their order stay')
    sx.check(v.parent is root and all(c.parent is v and c.deprel == r for c, r in zip(cores, rels)), 'other words stay')
    if not made:
        sx.reach('none')
        return
    rank = lambda m: PRIORITY.index(m[1]) if m[1] in PRIORITY else 99
    best = min(rank(m) for m in made)
    heads = [x for x, _ in made if x.parent is v]
    sx.check(len(heads) == 1 and min(rank(m) for m in made if m[0] is heads[0]) == best, 'the remnant with the highest priority is the head')
    head = heads[0]
    sx.check(head.deprel == 'conj', 'which is a conjunct')
    for x, r in made:
        if x is not head:
            sx.check(x.parent is head and x.deprel == 'orphan', 'the others are orphans of it')
        want = '' if x is head and r == top else r
        sx.check(x.misc['orig_deprel'] == want, 'their original relations')
        if x is head and r == top:
            sx.reach('same label')
    if chained:
        sx.check(chained[0].parent is v and chained[0].deprel == 'conj', 'a remnant of a remnant is in the next conjunct')
        sx.check(chained[0].misc['orig_deprel'] == ('' if chained[1] == top else chained[1]), 'its original relation')
    sx.reach('one' if len(made) == 1 else 'two')


@sx.harness(quick=[dict(size=5)], thorough=[dict(size=6)], reach=['none', 'same', 'spaces', 'different', 'skipped'],
            bounds='two words with one-character forms with or without a space between them, any stored text of up to size characters or none')
def text(size):
    doc = Document()
    root = doc.create_bundle().create_tree()
    a = root.create_child(form='a', upos='X', deprel='root', lemma='a')
    b = a.create_child(form='b', upos='X', deprel='x', lemma='b')
    if sx.bool('glued'):
        a.misc['SpaceAfter'] = 'No'
    computed = root.compute_text()
    stored = sx.str('text', 0, size, 'ab \xa0') if sx.bool('has text') else None
    root.text = stored
    off = sx.bool('skip')
    Convert1to2(skip=skip() if off else skip('text')).apply_on_document(doc)
    if off:
        two = root.text is None if stored is None else root.text == stored
        sx.check(two, 'the text stays')
        sx.reach('skipped')
    elif stored is None:
        sx.check(root.text == computed, 'a missing text is computed')
        sx.reach('none')
    elif stored == computed or ' '.join(stored.split()) == computed:
        sx.check(root.text == stored, 'a text that agrees up to spaces stays')
        sx.reach('same' if stored == computed else 'spaces')
    else:
        sx.check(root.text == computed, 'a text that does not agree is replaced')
        sx.check(root.comment.strip('\n') == ' ToDoOrigText = ' + stored, 'the original text is kept in a comment')
        sx.reach('different')
    sx.check(root.compute_text() == computed, 'the words stay')
