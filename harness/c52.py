"""C52: language-specific repair blocks reattach and relabel exactly the words of their construction."""
from udapi.core.document import Document
from sx import api as sx
from harness.common import check_tree, check_wf


def heads_of(t, n):
    return [0] + [sx.fix(t.head(k)) for k in range(1, n + 1)]


def below(heads, a, b):
    """Is a in the subtree of b?"""
    while a and a != b:
        a = heads[a]
    return a == b


def compare(t, heads, rels, msg):
    n = len(heads) - 1
    check_tree(t, msg)
    sx.check([x.parent.ord for x in t.nodes[1:n + 1]] == heads[1:], msg + ': heads')
    sx.check([x.deprel for x in t.nodes[1:n + 1]] == rels[1:], msg + ': relations')


# ------------------------------------------------------------ kk.FixSpuriousAux, ug.FixSpuriousAux, hi.FixAux
CLAUSAL = ('nsubj', 'csubj', 'obl', 'advmod', 'advcl', 'vocative', 'discourse', 'parataxis', 'punct')
HINDI = CLAUSAL + ('obj', 'iobj', 'aux', 'mark', 'cc', 'expl', 'dislocated')
LEMMAS = {'kk': ['баста', 'кет'], 'ug': ['بەر', 'بار', 'چىق', 'چىقىش', 'يۈر', 'ئولتۇر', 'باق', 'ئۆت', '_', 'كۆرۈش', 'باشلى', 'يەت', 'قايت', 'چۈش', 'قىل', 'چاپ', 'قورق', 'كەلتۈر', 'كىر'],
          'hi': ['लग', 'चुक', 'चाह', 'दिखा', 'बन', 'करा', 'لگ', 'چک', 'چاہ', 'دکھا', 'بن']}
OTHERS = {'kk': ['баст', 'кета', 'екет'], 'ug': ['بەرر', 'بە', 'x', '__'], 'hi': ['लगा_', 'हो', 'xलग', 'بنx']}


def block_of(lang):
    if lang == 'kk':
        from udapi.block.ud.kk.fixspuriousaux import FixSpuriousAux as Block
    elif lang == 'ug':
        from udapi.block.ud.ug.fixspuriousaux import FixSpuriousAux as Block
    else:
        from udapi.block.ud.hi.fixaux import FixAux as Block
    return Block()


def lift(heads, rels, j, clausal):
    """Word j takes the place of its head, which becomes its xcomp; clausal dependents move along."""
    lex = heads[j]
    heads[j], rels[j] = heads[lex], rels[lex]
    for c in range(1, len(heads)):
        if heads[c] == lex and c != j and rels[c].split(':')[0] in clausal:
            heads[c] = j
    heads[lex], rels[lex] = j, 'xcomp'


@sx.harness(quick=[dict(n=3, lang=l) for l in LEMMAS] + [dict(n=4, lang=l, few=True, unreached=('not listed', 'subtype', 'tag')) for l in LEMMAS],
            thorough=[dict(n=4, lang=l) for l in LEMMAS] + [dict(n=5, lang=l, few=True, unreached=('not listed', 'subtype', 'tag', 'twice')) for l in LEMMAS],
            reach=['lifted', 'twice', 'moved', 'stays', 'not listed', 'root', 'subtype', 'tag'],
            bounds='every tree of n words, one or two of which are auxiliaries (with a listed lemma or another one), any relation of one other word')
def spurious_aux(n, lang, few=False, unreached=()):
    t = sx.tree('t', n)
    aux = sx.choice('aux', range(1, n + 1))
    second = sx.choice('second', [0] + [k for k in range(1, n + 1) if k != aux and (not few or k == n)]) if n < 5 else 0
    rest = [k for k in range(1, n + 1) if k not in (aux, second)]
    labelled = rest[0] if few else sx.choice('labelled', rest)
    clausal = HINDI if lang == 'hi' else CLAUSAL
    sx.assume(t.head(aux) != 0)
    if second:
        sx.assume(t.head(second) != 0)
    for k, x in enumerate(t.nodes[1:], 1):
        x.form, x.lemma, x.upos, x.deprel = 'f%d' % k, 'l%d' % k, 'VERB', 'd%d' % k
    what = sx.choice('kind', ['deprel', 'lemma', 'tag'] if not few and not second else ['deprel'])
    if what == 'deprel':
        names = ['nsubj', 'obj', 'obl:arg', 'xcomp', 'cc', 'mark', 'advmod:emph', 'conj', 'punct', 'aux:x'] if second and not few else ['nsubj', 'obl:arg', 'xcomp', 'aux'] if few else sorted(set(HINDI + (('ccomp',) if lang != 'hi' else ()) + ('conj', 'xcomp', 'compound', 'det', 'nsubj:pass', 'obl:x', 'flat', 'appos', 'root')))
        t.nodes[labelled].deprel = sx.choice('deprel', names)
    lemma, upos, rel = LEMMAS[lang][-1], 'AUX', 'aux'
    if what == 'lemma':
        lemma = sx.choice('lemma', LEMMAS[lang] + OTHERS[lang])
    if what == 'tag':
        rel = sx.choice('rel', ['aux', 'aux:pass', 'cop', 'aux_'])
        upos = sx.choice('upos', ['AUX', 'VERB', 'PART'])
    for k in (aux, second):
        if k:
            t.nodes[k].lemma, t.nodes[k].upos, t.nodes[k].deprel = lemma, upos, rel
    heads, rels = heads_of(t, n), [None] + [x.deprel for x in t.nodes[1:]]
    tags = [x.upos for x in t.nodes[1:]]
    lemmas = [x.lemma for x in t.nodes[1:]]
    ok = lemma in LEMMAS[lang] and rel.split(':')[0] == 'aux' and (upos == 'AUX' or lang == 'ug')
    before = list(heads)
    if ok:
        for k in sorted(k for k in (aux, second) if k):
            if rels[k].split(':')[0] != 'aux' or tags[k - 1] == 'VERB' and lang != 'ug':
                continue
            sx.assume(heads[k] != 0)
            if heads[heads[k]] == 0:
                sx.reach('root')
            lift(heads, rels, k, clausal)
            tags[k - 1] = 'VERB'
            sx.reach('lifted')
        if second:
            sx.reach('twice')
        sx.reach('moved' if any(before[c] != heads[c] for c in rest if heads[c] == aux and before[c] == before[aux]) else 'stays')
        if rel == 'aux:pass':
            sx.reach('subtype')
    else:
        sx.reach('not listed')
        if upos != 'AUX':
            sx.reach('tag')
    block_of(lang).process_document(t.doc)
    compare(t, heads, rels, 'spurious auxiliary')
    sx.check([x.upos for x in t.nodes[1:]] == tags, 'auxiliaries become verbs')
    sx.check([x.lemma for x in t.nodes[1:]] == lemmas, 'lemmas stay')


@sx.harness(reach=['compound', 'nominal', 'lemma', 'plural', 'adposition', 'other'], bounds='a word under a verb with any of the listed lemmas and forms, AUX or VERB, aux or another relation')
def hindi():
    from udapi.block.ud.hi.fixaux import FixAux
    root = Document().create_bundle().create_tree()
    verb = root.create_child(form='v', lemma='v', upos='VERB', deprel='root')
    upos, rel = sx.choice('upos', ['AUX', 'VERB']), sx.choice('deprel', ['aux', 'aux:x', 'mark'])
    # lemma as annotated: the right one
    table = {'آنہ': 'آ', 'چاہے': 'چاہ', 'चुका': 'चुक', 'چکا': 'چک', 'दिया': 'दे', 'دیا': 'دے', 'دی': 'دے', 'دیت': 'دے', 'گی': 'گا', 'گے': 'گا', 'जाना': 'जा', 'जान': 'जा',
             'گیا': 'جا', 'جائے': 'جا', 'جانا': 'جا', 'हों': 'है', 'है.': 'है', 'ہوں': 'ہے', 'ہوا': 'ہے', 'लिया': 'ले', 'لیا': 'لے', 'لو': 'لے', 'लगा': 'लग', 'لگا': 'لگ', 'पहुंचा': 'पहुंच', 'پڑے': 'پڑ',
             'پھرے': 'پھر', 'रहा': 'रह', 'رہا': 'رہ', 'رہی': 'رہ', 'سکے': 'سک', 'थी': 'था', 'تھ': 'تھا', 'تھیں': 'تھا', 'उठा': 'उठ', 'اٹھا': 'اٹھ', 'والی': 'والا'}
    compounds = ['ले', 'दे', 'डाल', 'फेंक', 'बैठ', 'उठ', 'रख', 'आ', 'पहुंच', 'चल', 'निकल', 'निकाल', 'गिरा', 'समा', 'धमक', 'खडा', 'दबोच', 'गुजर', 'फूंक', 'घेर', 'बच',
                 'لے', 'دے', 'ڈال', 'پھینک', 'بیٹھ', 'اٹھ', 'رکھ', 'آ', 'لا', 'پہنچ', 'دیکھ', 'پھر', 'چل', 'چڑھ', 'سڑ']
    lemma = sx.choice('lemma', sorted(set(list(table) + compounds + ['वाला', 'والا', 'x'])))
    form = sx.choice('form', ['x', 'چاہئے', 'چاہئیں', 'ہے', 'لیا', 'دکھائیں']) if lemma == 'x' else 'x'
    x = verb.create_child(form=form, lemma=lemma, upos=upos, deprel=rel)
    for f in ('AdpType', 'VerbForm', 'Aspect', 'Voice'):
        x.feats[f] = 'Q'
    want = lemma
    if upos == 'AUX':
        want = {'چاہئے': 'چاہئے', 'چاہئیں': 'چاہئے', 'ہے': 'ہے', 'لیا': 'لے', 'دکھائیں': 'دکھا'}.get(form) or table.get(lemma, lemma)
    FixAux().process_document(root.document)
    sx.check(x.lemma == want, 'the lemma')
    if want != lemma:
        sx.reach('lemma')
    if form == 'چاہئیں' and upos == 'AUX':
        sx.check(x.feats['Number'] == 'Plur', 'the plural form')
        sx.reach('plural')
    else:
        sx.check(x.feats['Number'] == '', 'no number')
    gone = False
    if want in compounds and upos == 'AUX' and rel != 'mark':
        sx.check(x.parent is verb and x.deprel == 'compound' and x.upos == 'VERB', 'the less salient verb of a compound')
        sx.reach('compound')
    elif want in ('वाला', 'والا'):
        sx.check(x.parent is verb and x.deprel == 'compound' and x.upos == 'ADJ', 'the nominal part')
        gone = True
        sx.reach('nominal')
    elif want in LEMMAS['hi'] and upos == 'AUX' and rel != 'mark':
        sx.check(verb.parent is x and x.parent is root and x.deprel == 'root' and verb.deprel == 'xcomp' and x.upos == 'VERB', 'a phase verb')
    else:
        sx.check(x.parent is verb and x.deprel == rel and x.upos == upos, 'other words stay')
        sx.reach('other')
    sx.check([x.feats[f] for f in ('AdpType', 'VerbForm', 'Aspect', 'Voice')] == ([''] * 3 if gone else ['Q'] * 3) + ['Q'], 'features')
    y = verb.create_child(form='کے', lemma='کا', upos=upos, deprel=rel)
    FixAux().process_node(y)
    sx.check((y.upos, y.deprel, y.lemma) == (('ADP', 'mark', 'کا') if upos == 'AUX' else (upos, rel, 'کا')), 'the postposition')
    sx.reach('adposition')


# ------------------------------------------------------------ es.FixTenerQue
@sx.harness(quick=[dict(n=3), dict(n=4, few=True, unreached=('other lemma', 'promoted', 'other deps'))], thorough=[dict(n=4), dict(n=5, few=True, unreached=('other lemma', 'promoted', 'other deps'))], reach=['lifted', 'que', 'moved', 'stays', 'promoted', 'other lemma', 'deps', 'other deps'],
            bounds='every tree of n words with tener or ir as an auxiliary, one further word of any relation and any form, with enhanced dependencies or without')
def tener_que(n, few=False, unreached=()):
    from udapi.block.ud.es.fixtenerque import FixTenerQue
    t = sx.tree('t', n)
    aux = sx.choice('aux', range(1, n + 1))
    k2 = sx.choice('other', [k for k in range(1, n + 1) if k != aux])
    lemma = 'tener' if few else sx.choice('lemma', ['tener', 'ir', 'tenera', 'xir'])
    rel = sx.choice('rel', ['aux', 'aux:x', 'cop']) if lemma == 'ir' else 'aux'
    for k, x in enumerate(t.nodes[1:], 1):
        x.form, x.lemma, x.upos, x.deprel = 'f%d' % k, 'l%d' % k, 'VERB', 'd%d' % k
    x, y = t.nodes[aux], t.nodes[k2]
    x.lemma, x.upos, x.deprel = lemma, sx.choice('upos', ['AUX', 'VERB']) if lemma == 'ir' else 'AUX', rel
    stay = ['obj', 'iobj', 'obl', 'ccomp', 'xcomp', 'conj', 'list', 'compound', 'flat', 'fixed', 'goeswith', 'reparandum']
    if sx.bool('particle'):
        y.form, y.deprel = sx.choice('form', ['que'] if few else ['que', 'A', 'ques', 'va']), 'fixed'
    elif lemma == 'tener':
        y.deprel = sx.choice('deprel', ['obj', 'nsubj'] if few else stay + ['nsubj', 'obl:x', 'conjx', 'mark', 'punct'])
    heads, rels = heads_of(t, n), [None] + [z.deprel for z in t.nodes[1:]]
    spurious = lemma in ('tener', 'ir') and x.upos == 'AUX'
    goes = spurious and rel.split(':')[0] == 'aux'
    sx.assume(not goes or heads[aux] != 0)
    deps = sx.choice('deps', ['same'] if few else ['none', 'same', 'more', 'other']) if lemma == 'tener' else 'none'
    if deps != 'none':
        sx.reach('deps' if deps != 'other' else 'other deps')
        for k, z in enumerate(t.nodes[1:], 1):
            graph = []
            if deps in ('same', 'more'):
                graph.append({'parent': t.nodes[heads[k]], 'deprel': rels[k] + ':enh'})
            if deps in ('more', 'other'):
                graph.append({'parent': t.nodes[heads[k]], 'deprel': 'different'})
            z.deps = graph
    old = list(heads), list(rels)
    if goes:
        main = heads[aux]
        heads[aux], rels[aux] = heads[main], rels[main]
        heads[main], rels[main] = aux, 'xcomp'
        for c in range(1, n + 1):
            if heads[c] == main and c != aux:
                if rels[c].split(':')[0] in stay:
                    sx.reach('stays')
                else:
                    heads[c] = aux
                    sx.reach('moved')
        for c in range(1, n + 1):
            if heads[c] == aux and aux < c < main and t.nodes[c].form.lower() in ('que', 'a'):
                heads[c], rels[c] = main, 'mark'
                sx.reach('que')
        sx.reach('lifted')
    elif spurious:
        sx.reach('promoted')
    else:
        sx.reach('other lemma')
    was = x.upos
    FixTenerQue().process_document(t.doc)
    compare(t, heads, rels, 'tener que')
    sx.check(x.upos == ('VERB' if spurious else was), 'it is a verb')
    for k, z in enumerate(t.nodes[1:], 1):
        want = []
        touched = (heads[k], rels[k]) != (old[0][k], old[1][k])
        if deps in ('more', 'other'):
            want.append((old[0][k], 'different'))
        if deps in ('same', 'more'):
            want.append((heads[k], rels[k]) if touched else (old[0][k], rels[k] + ':enh'))
        sx.check(sorted((d['parent'].ord, d['deprel']) for d in z.deps) == sorted(want), 'the enhanced relation follows the basic one')


# ------------------------------------------------------------ es.ElQue, ca.ElQue
NEW = {'nsubj': 'nsubj', 'csubj': 'nsubj', 'ccomp': 'obj', 'advcl': 'obl', 'acl': 'nmod', 'xcomp': None, 'conj': None, 'appos': None, 'root': None}


@sx.harness(quick=[dict(n=4, lang='es'), dict(n=5, lang='ca', shape=True, unreached=('no preposition', 'not que', 'dependent')), dict(n=5, lang='ca', shape=True, el=3, unreached=('no preposition', 'not que'))], thorough=[dict(n=4, lang='ca'), dict(n=5, lang='es', shape=True, el=3, unreached=('no preposition', 'not que')), dict(n=6, lang='ca', shape=True, el=3, unreached=('no preposition', 'not que'))],
            reach=['no preposition', 'preposition', 'nested', 'clause moved', 'clause stays', 'dependent', 'not que', 'deps'],
            bounds='every tree of n words, three of them "adp el que" (or two: "el que"), any relation of the head of que and of another word')
def el_que(n, lang, shape=False, el=2, unreached=()):
    if lang == 'es':
        from udapi.block.ud.es.elque import ElQue
    else:
        from udapi.block.ud.ca.elque import ElQue
    t = sx.tree('t', n)
    el = el if shape else sx.choice('el', range(1, n))
    que = el + 1
    adp = el - 1 if el > 1 and (shape or sx.bool('preposition')) else 0
    lemma = 'que' if shape else sx.choice('lemma', ['que', 'cual', 'quien'])
    for k, x in enumerate(t.nodes[1:], 1):
        x.form, x.lemma, x.upos, x.deprel = 'f%d' % k, 'l%d' % k, 'NOUN', 'd%d' % k
    t.nodes[el].lemma = 'el'
    t.nodes[que].lemma, t.nodes[que].upos = lemma, 'PRON'
    if adp:
        t.nodes[adp].upos = 'ADP'
        sx.reach('preposition')
    else:
        sx.reach('no preposition')
    heads = heads_of(t, n)
    verb = heads[que]
    sx.assume(verb > que if lemma == 'que' and shape else verb > 0)
    if verb not in (el, adp):
        t.nodes[verb].deprel = sx.choice('verb', ['nsubj', 'appos', 'obl'] if shape and n > 4 else list(NEW) + ['obl', 'xcomp:x', 'csubj:pass'])
    labelled = [k for k in range(1, n + 1) if k not in (el, que, adp, verb)]
    if labelled and labelled[0] < el and heads[labelled[0]] == verb:
        t.nodes[labelled[0]].deprel = sx.choice('dependent', ['cc', 'advmod'] if shape and el == 2 else ['cc', 'mark:x', 'advmod', 'punct', 'case'])
    rels = [None] + [x.deprel for x in t.nodes[1:]]
    deps = sx.choice('deps', [0, 1, 2]) if t.nodes[verb].deprel in ('nsubj', 'd%d' % verb) and lemma == 'que' else 1
    if deps:
        sx.reach('deps')
        for x in t.nodes[1:]:
            x.deps = [{'parent': t.root, 'deprel': 'e'}] * 1 + ([{'parent': t.root, 'deprel': 'f'}] if deps == 2 else [])
    old = list(heads), list(rels)
    edeps = {k: (0, 'e') for k in range(1, n + 1)}

    def attach(k, h, rel=None):
        heads[k] = h
        if rel:
            rels[k] = rel
        edeps[k] = (h, rel or edeps[k][1])

    ok = lemma in (('que', 'cual') if lang == 'es' else ('que',)) and verb > que
    if ok:
        if adp and heads[adp] in (que, verb):
            if below(heads, el, adp):
                attach(el, heads[adp])
                sx.reach('nested')
            attach(adp, el, 'case')
        if heads[el] == que:
            attach(el, verb)
        if heads[verb] not in (adp or -1, el, que) and not below(heads, verb, el):
            base = rels[verb].split(':')[0]
            if base in NEW:
                attach(el, heads[verb], NEW[base] or rels[verb])
                attach(verb, el, 'acl:relcl')
                sx.reach('clause moved')
                for c in range(1, el):
                    if heads[c] == verb and rels[c].split(':')[0] in ('cc', 'mark', 'case', 'punct'):
                        attach(c, el)
                        sx.reach('dependent')
            else:
                sx.reach('clause stays')
    else:
        sx.reach('not que')
    ElQue(fix=1).process_document(t.doc)
    compare(t, heads, rels, 'el que')
    for k in range(1, n + 1):
        want = [] if not deps else [(0, 'e'), (0, 'f')] if deps == 2 else [edeps[k]]
        sx.check([(d['parent'].ord, d['deprel']) for d in t.nodes[k].deps] == want, 'a single enhanced relation follows')


# ------------------------------------------------------------ gl.To2
PREFER = {'NOUN': 10, 'PRON': 9, 'ADJ': 8, 'VERB': 8, 'PUNCT': -10}


@sx.harness(quick=[dict(n=3), dict(n=4, few=True, unreached=('case-upos', 'xcomp'))], thorough=[dict(n=4), dict(n=5, few=True, unreached=('case-upos', 'xcomp'))], reach=['copula', 'xcomp', 'case', 'case-upos', 'punct', 'leaf', 'tie', 'best later'],
            bounds='every tree of n words one of which is a former cop, case or punct, any parts of speech of two words')
def galician(n, few=False, unreached=()):
    from udapi.block.ud.gl.to2 import To2
    t = sx.tree('t', n)
    k = sx.choice('k', range(1, n + 1))
    rel = sx.choice('rel', ['cop', 'case', 'punct'])
    for j, x in enumerate(t.nodes[1:], 1):
        x.form, x.lemma, x.upos, x.deprel = 'f%d' % j, 'l%d' % j, 'X', 'd%d' % j
    heads = heads_of(t, n)
    x = t.nodes[k]
    x.deprel = rel
    rels = [None] + [y.deprel for y in t.nodes[1:]]
    kids = [j for j in range(1, n + 1) if heads[j] == k]
    todo = ''
    if rel == 'cop':
        h = heads[k]
        sx.assume(h != 0)
        lemma = t.nodes[h].lemma = sx.choice('lemma', ['ser'] if few else ['ser', 'estar', 'resultar'])
        if lemma == 'resultar':
            rels[k] = 'xcomp'
            sx.reach('xcomp')
        else:
            heads[k], rels[k] = heads[h], rels[h]
            for c in range(1, n + 1):
                if heads[c] == h:
                    heads[c] = k
            heads[h], rels[h] = k, 'cop'
            sx.reach('copula')
    else:
        x.upos = upos = sx.choice('upos', (['ADP'] if few else ['ADP', 'CONJ', 'PART', 'NOUN', 'SCONJ']) if rel == 'case' else ['PUNCT', 'NOUN'])
        tags = {c: sx.choice('upos%d' % c, ['VERB', 'PRON', 'ADV'] if few else ['NOUN', 'PRON', 'ADJ', 'VERB', 'PUNCT', 'ADV']) for c in kids[:2]}
        for c, v in tags.items():
            t.nodes[c].upos = v
        if not kids:
            sx.reach('leaf')
        elif rel == 'case' and upos not in ('ADP', 'CONJ', 'PART'):
            todo = 'case-upos'
            sx.reach(todo)
        elif rel == 'case' or upos == 'PUNCT':
            weight = lambda c: PREFER.get(t.nodes[c].upos, 0)
            best = max(weight(c) for c in kids)
            top = [c for c in kids if weight(c) == best][0]
            if len([c for c in kids if weight(c) == best]) > 1:
                sx.reach('tie')
            elif top != kids[0]:
                sx.reach('best later')
            heads[top] = heads[k]
            heads[k] = top
            for c in kids:
                if c != top:
                    heads[c] = top
            sx.reach(rel)
    To2().process_document(t.doc)
    compare(t, heads, rels, 'Galician')
    sx.check(x.misc['ToDo'] == todo, 'ToDo')


# ------------------------------------------------------------ da.FixMultiSubject
@sx.harness(quick=[dict(n=5)], thorough=[dict(n=6, unreached=('three', 'one')), dict(n=5)], reach=['xcomp', 'advcl', 'amod', 'no copula', 'three', 'one', 'moved', 'kept', 'comma'],
            bounds='a predicate at any position among n words under it, which are subjects, xcomp, advcl, amod, obl, commas or others, one of them perhaps with a copula')
def danish(n, unreached=()):
    from udapi.block.ud.da.fixmultisubject import FixMultiSubject
    pos = sx.choice('predicate', range(1, n + 1)) if n < 6 else sx.choice('predicate', [1, 3, 4])
    places = [k for k in range(1, n + 1) if k != pos]
    pair = sx.choice('subjects', [(a, b) for a in places for b in places if a < b])
    lone = n < 6 and sx.bool('only one subject')
    pair = pair[:1] if lone else pair
    doc = Document()
    root = doc.create_bundle().create_tree()
    nodes = [None] + [root.create_child(form='w%d' % k, upos='X', deprel='root') for k in range(1, n + 1)]
    rels = [None] * (n + 1)
    for k in range(1, n + 1):
        x = nodes[k]
        if k == pos:
            rels[k] = 'root'
            continue
        if k in pair:
            role = 'nsubj' if k == pair[0] else 'csubj:x'
        else:
            role = sx.choice('role%d' % k, ['nsubj:x', 'xcomp', 'advcl:x', 'amod', 'obl', ',', 'dep'] if n < 6 else ['xcomp', 'advcl', 'amod', ',', 'dep'])
        if role == ',':
            x.form, role = ',', 'punct'
        x.deprel = rels[k] = role
        x.parent = nodes[pos]
    base = lambda k: rels[k].split(':')[0]
    heads = [0] + [0 if k == pos else pos for k in range(1, n + 1)]
    subj = [k for k in range(1, n + 1) if base(k) in ('nsubj', 'csubj')]
    mods = [k for k in range(1, n + 1) if base(k) in ('amod', 'obl')]
    cop = [k for k in range(1, n + 1) if rels[k] == 'dep']
    if mods and cop and sx.bool('copula'):
        rels[cop[0]] = nodes[cop[0]].deprel = 'cop'
        heads[cop[0]] = mods[-1]
        nodes[cop[0]].parent = nodes[mods[-1]]

    def dist(a, b):
        a, b = min(a, b), max(a, b)
        return b - a + 10 * len([k for k in range(a + 1, b) if nodes[k].form == ','])

    todo = None
    if len(subj) == 2:
        near = lambda s, m, strict: dist(m, s) < dist(pos, s) if strict else dist(m, s) <= dist(pos, s)
        far = lambda s, m, strict: dist(pos, s) < dist(m, s) if strict else dist(pos, s) <= dist(m, s)
        def pick(m, strict):
            for a, b in ((0, 1), (1, 0)):
                if near(subj[a], m, strict) and far(subj[b], m, strict):
                    return subj[a]
            return None
        xc = [k for k in range(1, n + 1) if base(k) == 'xcomp']
        adv = [k for k in range(1, n + 1) if base(k) == 'advcl']
        if xc:
            cands, strict, kind = xc, False, 'xcomp'
        elif adv:
            cands, strict, kind = adv, True, 'advcl'
        else:
            cands, strict, kind = [m for m in mods if any(heads[c] == m and rels[c] == 'cop' for c in range(1, n + 1))], True, 'amod'
            if mods and not cands:
                sx.reach('no copula')
        for m in cands:
            s = pick(m, strict)
            if s:
                heads[s] = m
                sx.reach(kind)
                if kind != 'advcl':
                    for c in range(1, n + 1):
                        if heads[c] == pos and c != m and dist(m, c) < dist(pos, c):
                            heads[c] = m
                            sx.reach('moved')
                if kind == 'amod':
                    rels[m] = 'advcl'
                if kind == 'xcomp':
                    todo = m
                if any(x.form == ',' for x in nodes[1:]):
                    sx.reach('comma')
                break
        else:
            sx.reach('kept')
    else:
        sx.reach('three' if len(subj) > 2 else 'one')
    FixMultiSubject().process_node(nodes[pos])
    check_wf(root, 'two subjects')
    sx.check(root.descendants == nodes[1:], 'words and their order')
    sx.check([x.parent.ord for x in nodes[1:]] == heads[1:], 'heads')
    sx.check([x.deprel for x in nodes[1:]] == rels[1:], 'relations')
    sx.check([k for k in range(1, n + 1) if nodes[k].misc['ToDo'] != ''] == ([todo] if todo else []), 'what is to be checked')


@sx.harness(quick=[dict(n=5)], thorough=[dict(n=8)], reach=['moved', 'kept', 'two commas'],
            bounds='a subject, the predicate, up to three words, another subject, up to n words, an xcomp, where the first words of both gaps are commas, up to three of them')
def danish_commas(n):
    from udapi.block.ud.da.fixmultisubject import FixMultiSubject
    a, b = sx.choice('before', range(4)), sx.choice('after', range(n + 1))
    ca, cb = sx.choice('commas before', range(a + 1)), sx.choice('commas after', range(min(b, 3) + 1))
    doc = Document()
    root = doc.create_bundle().create_tree()
    forms = ['s', 'v'] + [','] * ca + ['w'] * (a - ca) + ['s'] + [','] * cb + ['w'] * (b - cb) + ['x']
    words = [root.create_child(form=f, deprel={'s': 'nsubj', 'x': 'xcomp', 'v': 'root'}.get(f, 'dep')) for f in forms]
    pred, xcomp = words[1], words[-1]
    for x in words:
        if x is not pred:
            x.parent = pred

    def dist(x, y):
        x, y = sorted((words.index(x), words.index(y)))
        return y - x + 10 * forms[x + 1:y].count(',')

    second = words[2 + a]
    move = dist(xcomp, second) <= dist(pred, second)
    moved = [x for x in words if x is not xcomp and x is not pred and dist(xcomp, x) < dist(pred, x)] if move else []
    FixMultiSubject().process_node(pred)
    sx.check(root.descendants == words and pred.parent is root and xcomp.parent is pred, 'words and the predicates')
    for x in words:
        if x is not pred and x is not xcomp:
            sx.check(x.parent is (xcomp if any(x is y for y in moved) or move and x is second else pred), 'words nearer to the other predicate move there, a comma counts as ten words')
    sx.reach('moved' if move else 'kept')
    if ca > 1 or cb > 1:
        sx.reach('two commas')


# ------------------------------------------------------------ pt.AddHyphenMwt
@sx.harness(quick=[dict(n=4, unreached=('long',)), dict(n=5, hyphens=True, unreached=('mwt', 'not alphanumeric', 'al', 'untouched'))], thorough=[dict(n=4, unreached=('long',)), dict(n=5, unreached=('not alphanumeric', 'al')), dict(n=6, hyphens=True, unreached=('mwt', 'not alphanumeric', 'al', 'untouched'))],
            reach=['compound', 'long', 'heads', 'children', 'not alphanumeric', 'al', 'mwt', 'hyphen head', 'hyphen inside', 'untouched'],
            bounds='every tree of n words, any of which is a hyphen, an alphanumeric word, Al or another sign; perhaps the first two words are a multi-word token')
def hyphens(n, hyphens=False, unreached=()):
    from udapi.block.ud.pt.addhyphenmwt import AddHyphenMwt
    t = sx.tree('t', n)
    forms = [None]
    for k in range(1, n + 1):
        fixed = '-' if hyphens and k % 2 == 0 else 'w' if hyphens and k < 5 else None
        forms.append(fixed or sx.choice('form%d' % k, ['w', '-'] if hyphens or n > 4 or k in (2, 4) else ['w', '-', 'Al', "d'"]))
    sx.assume('-' in forms[2:n])
    for k, x in enumerate(t.nodes[1:], 1):
        x.form, x.deprel = forms[k], 'd%d' % k
    token = not hyphens and forms[1:3] == ['w', 'w'] and sx.bool('token')
    mwt = t.root.create_multiword_token([t.nodes[1], t.nodes[2]], form='ww') if token else None
    if token:
        sx.reach('mwt')
    glue = n < 6 and not hyphens and 'Al' not in forms and "d'" not in forms and sx.bool('no space')
    if glue:
        # the last word of the first compound
        for x in t.nodes[1:-1]:
            (x.multiword_token or x).misc['SpaceAfter'] = 'No'
    t.root.text = 'T'
    heads = heads_of(t, n)
    # the tokens as (form, words)
    tokens = ([('ww', [1, 2])] if token else []) + [(forms[k], [k]) for k in range(3 if token else 1, n + 1)]
    ok = lambda f: f.isalnum() and f.lower() != 'al'
    i, compounds = 0, []
    while i + 2 < len(tokens):
        j = i
        while j + 2 < len(tokens) and tokens[j + 1][0] == '-' and ok(tokens[j][0]) and ok(tokens[j + 2][0]):
            j += 2
        if j > i:
            compounds.append((i, j))
            i = j + 1
        else:
            i += 1
    joined, todo, gone = [], {}, []
    for i, j in compounds:
        words = [w for _, ws in tokens[i:j + 1] for w in ws]
        tops = [w for w in words if heads[w] not in words]
        bad = [w for w in words if w not in tops and any(heads[c] == w and c not in words for c in range(1, n + 1))]
        if len(tops) > 1:
            todo.update({w: 'NonCatenaCompound' for w in tops})
            sx.reach('heads')
        elif bad:
            todo.update({w: 'HasChildrenOutsideCompound' for w in bad})
            sx.reach('children')
        else:
            sx.reach('compound')
            if j > i + 2:
                sx.reach('long')
            joined.append((''.join(f for f, _ in tokens[i:j + 1]), [w for w in words if forms[w] != '-']))
            for w in words:
                if forms[w] == '-':
                    gone.append(w)
                    if w in tops:
                        sx.reach('hyphen head')
                    elif w in heads:
                        sx.reach('hyphen inside')
    if "d'" in forms:
        sx.reach('not alphanumeric')
    if 'Al' in forms and '-' in forms:
        sx.reach('al')
    if not compounds:
        sx.reach('untouched')
    AddHyphenMwt().process_document(t.doc)
    for w in gone:
        t.alive.discard(w)
    check_wf(t.root, 'hyphens')
    rest = [k for k in range(1, n + 1) if k not in gone]
    sx.check(t.root.descendants == [t.nodes[k] for k in rest], 'only the hyphens of the compounds are removed')
    def up(k):
        h = heads[k]
        while h in gone:
            h = heads[h]
        return t.nodes[h]
    sx.check([t.nodes[k].parent for k in rest] == [up(k) for k in rest], 'heads')
    sx.check([t.nodes[k].deprel for k in rest] == ['d%d' % k for k in rest], 'relations')
    sx.check([t.nodes[k].misc['ToDo'] for k in rest] == [todo.get(k, '') for k in rest], 'compounds that are not converted are marked')
    wants = list(joined)
    if token and not any(1 in ws for _, ws in joined):
        wants.insert(0, ('ww', [1, 2]))
    got = [(m.form, [x for x in m.words]) for m in sorted(t.root.multiword_tokens, key=lambda m: m.words[0].ord)]
    sx.check(got == [(f, [t.nodes[k] for k in ws]) for f, ws in wants], 'each compound becomes a multi-word token')
    sx.check(t.root.text == (None if joined else 'T'), 'the text is computed anew')
    text = ''
    if glue:
        sx.check(t.root.compute_text() == ''.join(f for f, _ in tokens), 'the text stays')


# ------------------------------------------------------------ de.FixHDT
CONTRACTIONS = {'am': ('an', 'm'), 'a.': ('an', 'm'), 'ans': ('an', 's'), 'aufs': ('auf', 's'), 'beim': ('bei', 'm'), 'durchs': ('durch', 's'), 'fürs': ('für', 's'), 'hinterm': ('hinter', 'm'),
                'hinters': ('hinter', 's'), 'im': ('in', 'm'), 'ins': ('in', 's'), 'übers': ('über', 's'), 'ums': ('um', 's'), 'unterm': ('unter', 'm'), 'unters': ('unter', 's'), 'vom': ('von', 'm'),
                'vorm': ('vor', 'm'), 'vors': ('vor', 's'), 'z.': ('zu', 'm'), 'zum': ('zu', 'm'), 'zur': ('zu', 'r')}
ARTICLES = {'m': ('dem', 'Case=Dat|Definite=Def|Gender=Masc,Neut|Number=Sing|PronType=Art', 'Dat'), 's': ('das', 'Case=Acc|Definite=Def|Gender=Neut|Number=Sing|PronType=Art', 'Acc'),
            'r': ('der', 'Case=Dat|Definite=Def|Gender=Fem|Number=Sing|PronType=Art', 'Dat')}


@sx.harness(reach=['split', 'upper', 'capital', 'own head', 'kept', 'space'], bounds='a word out of the listed contractions or some others in three kinds of letter case, between two words, of any relation out of six, with or without PronType=Art')
def contractions():
    from udapi.block.ud.de.fixhdt import FixHDT
    t = sx.tree('t', 3)
    sx.assume(sx.and_(t.head(1) == 0, sx.or_(t.head(3) == 1, t.head(3) == 2), t.head(2) != 0))
    a, x, b = t.nodes[1:]
    for y in (a, b):
        y.form, y.deprel, y.upos = 'w', 'dep', 'NOUN'
    low = sx.choice('form', list(CONTRACTIONS) + ['an', 'ab', 'vo', 'zus', 'amm', 'imx', 'azur'])
    case = sx.choice('case', [0, 1, 2])
    form = [low, low[:1].upper() + low[1:], low.upper()][case]
    rel = sx.choice('deprel', ['case', 'mark', 'root', 'conj:x', 'reparandum', 'advmod']) if low in ('zur', 'an') else 'case'
    x.form, x.lemma, x.upos, x.deprel, x.xpos = form, 'L', 'ADP', rel, 'XP'
    x.feats['Case'] = 'Q'
    art = sx.choice('PronType', ['Art', '', 'Dem']) if low in ('zur', 'am') else 'Art'
    if art:
        x.feats['PronType'] = art
    x.misc['A'] = 'b'
    if sx.bool('no space'):
        x.misc['SpaceAfter'] = 'No'
        sx.reach('space')
    text = t.root.compute_text()
    feats = str(x.feats)
    head, bhead = x.parent, b.parent
    FixHDT().process_document(t.doc)
    check_wf(t.root, 'contraction')
    sx.check(t.root.compute_text() == text, 'the text stays')
    sx.check(b.parent is bhead and a.parent is t.root and x.parent is head, 'heads of the old words')
    if low not in CONTRACTIONS or art != 'Art':
        sx.check(t.root.descendants == [a, x, b] and (x.form, x.lemma, x.deprel, str(x.feats), x.xpos) == (form, 'L', rel, feats, 'XP') and not t.root.multiword_tokens, 'other words stay')
        sx.reach('kept')
        return
    sx.reach('split')
    prep, end = CONTRACTIONS[low]
    art, afeats, acase = ARTICLES[end]
    # a single letter is upper case as a whole
    upper, capital = form.isupper(), form[:1].isupper()
    prep2 = prep.upper() if upper else prep[:1].upper() + prep[1:] if capital else prep
    if upper:
        sx.reach('upper')
    elif capital:
        sx.reach('capital')
    nodes = t.root.descendants
    sx.check(len(nodes) == 4 and nodes[0] is a and nodes[1] is x and nodes[3] is b, 'one new word after it')
    y = nodes[2]
    sx.check((x.form, x.lemma, x.upos, x.xpos, str(x.feats)) == (prep2, prep, 'ADP', 'APPR', 'AdpType=Prep|Case=' + acase), 'the preposition')
    sx.check((y.form, y.lemma, y.upos, y.xpos, str(y.feats), y.deprel) == (art.upper() if upper else art, 'der', 'DET', 'ART', afeats, 'det'), 'the article')
    if rel.split(':')[0] in ('root', 'conj', 'reparandum'):
        sx.check(y.parent is x and x.deprel == rel, 'a word with its own function is the head of the article')
        sx.reach('own head')
    else:
        sx.check(y.parent is head and x.deprel == 'case', 'both depend on the noun')
    m = x.multiword_token
    sx.check(m is not None and m is y.multiword_token and m.words == [x, y] and m.form == form and len(t.root.multiword_tokens) == 1, 'the token')


# ------------------------------------------------------------ small ones
@sx.harness(reach=['cc', 'kept', 'enhanced', 'no enhanced'], bounds='every tree of three words, the first with the lemma, relation and fixed dependent of the expression or others, any enhanced relations of it')
def to_est():
    from udapi.block.ud.ru.fixtoest import FixToEst
    t = sx.tree('t', 3)
    x = t.nodes[sx.choice('k', [1, 2])]
    for y in t.nodes[1:]:
        y.form, y.lemma, y.deprel = 'f', 'l', 'dep'
    z = t.nodes[3]
    x.lemma, x.deprel = sx.choice('lemma', ['то', 'что']), sx.choice('deprel', ['mark', 'mark:x', 'cc', 'advmod'])
    z.lemma, z.deprel = sx.choice('second lemma', ['быть', 'есть']), sx.choice('second deprel', ['fixed', 'fixed:x', 'dep'])
    heads = heads_of(t, 3)
    sx.assume(heads[x.ord] != 0)
    h = heads[x.ord]
    old = sx.choice('deps', [[], [(h, 'mark')], [(0, 'e')], [(h, 'mark'), (h, 'e')], [(0, 'e'), (h, 'mark')], [(h, 'e'), (0, 'mark')]])
    x.deps = [{'parent': t.nodes[p], 'deprel': d} for p, d in old]
    rels = [None] + [y.deprel for y in t.nodes[1:]]
    if x.lemma == 'то' and x.deprel.startswith('mark') and z.lemma == 'быть' and z.deprel.startswith('fixed') and heads[3] == x.ord:
        rels[x.ord] = 'cc'
        kept = [d for d in old if d[0] != heads[x.ord]]
        sx.reach('enhanced' if kept != old else 'no enhanced')
        old = kept + [(heads[x.ord], 'cc')]
        sx.reach('cc')
    else:
        sx.reach('kept')
    FixToEst().process_document(t.doc)
    compare(t, heads, rels, 'то есть')
    sx.check([(d['parent'].ord, d['deprel']) for d in x.deps] == old, 'the enhanced relations')


@sx.harness(reach=['copula', 'warning', 'pronoun', 'adverb', 'kept'], bounds='a word with any of two relations, four parts of speech and two forms, the features VerbType and Person and a mark or none')
def negation():
    from udapi.block.ud.he.fixneg import FixNeg as Hebrew
    from udapi.block.ud.ro.fixneg import FixNeg as Romanian
    he = sx.bool('Hebrew')
    root = Document().create_bundle().create_tree()
    rel, upos = sx.choice('deprel', ['neg', 'neg:x', 'advmod']), sx.choice('upos', ['VERB', 'PRON', 'ADJ', 'PART'])
    form = sx.choice('form', ['ne', 'nu'])
    x = root.create_child(form=form, upos=upos, deprel=rel)
    x.feats['Person'] = '1'
    cop = sx.choice('VerbType', ['', 'Cop', 'Mod'])
    if cop:
        x.feats['VerbType'] = cop
    todo = sx.choice('ToDo', ['', 'neg', 'other'])
    if todo:
        x.misc['ToDo'] = todo
    feats = str(x.feats)
    (Hebrew if he else Romanian)().process_document(root.document)
    want = (upos, rel, feats, todo)
    if rel == 'neg' and he:
        if cop == 'Cop':
            want = ('AUX', 'cop', 'Person=1', '' if todo == 'neg' else todo)
            sx.reach('copula')
        else:
            sx.reach('warning')
    elif rel == 'neg':
        want = ('ADV', 'advmod', 'Polarity=Neg' if upos == 'PRON' and form == 'ne' else feats, todo)
        sx.reach('pronoun' if 'Pol' in want[2] else 'adverb')
    else:
        sx.reach('kept')
    sx.check((x.upos, x.deprel, str(x.feats), x.misc['ToDo']) == want and x.form == form, 'negation')


@sx.harness(reach=['case', 'emphatic', 'prep', 'abbreviation', 'copula', 'foreign', 'todo', 'infinitive', 'verbal noun', 'first'],
            bounds='two words in any tree; any of the features, tags, relations and marks that matter and others')
def irish():
    from udapi.block.ud.ga.to2 import To2
    t = sx.tree('t', 2)
    a, x = t.nodes[1:]
    a.form, a.upos, a.deprel, a.lemma = 'a', 'X', 'dep', sx.choice('lemma', ['ag', 'do'])
    x.form, x.lemma, x.upos, x.deprel = 'x', 'l', 'X', 'dep'
    which = sx.choice('which', ['Case', 'Form', 'deprel', 'xpos', 'ToDo', 'VerbForm'])
    want = {'Other': 'o'}
    x.feats['Other'] = 'o'
    upos, rel, todo = 'X', 'dep', ''
    value = None
    if which == 'Case':
        value = x.feats['Case'] = sx.choice('value', ['Com', 'Gen', 'Comx'])
        want['Case'] = 'NomAcc' if value == 'Com' else value
        sx.reach('case')
    elif which == 'Form':
        value = x.feats['Form'] = sx.choice('value', ['Emph', 'Len'])
        upos = x.upos = sx.choice('upos', ['PRON', 'ADP', 'NOUN'])
        if value == 'Emph' and upos != 'NOUN':
            want['PronType'] = 'Emp'
        else:
            want['Form'] = 'Emp' if value == 'Emph' else value
        sx.reach('emphatic')
    elif which == 'deprel':
        x.deprel = sx.choice('value', ['nmod:prep', 'nmod:tmod', 'nmod', 'nmod:poss'])
        rel = {'nmod:prep': 'obl:prep', 'nmod:tmod': 'obl:tmod'}.get(x.deprel, x.deprel)
        sx.reach('prep')
    elif which == 'xpos':
        value = x.xpos = sx.choice('value', ['Abr', 'Cop', 'Foreign', 'Cops'])
        if value == 'Abr':
            want['Abbr'] = 'Yes'
            sx.reach('abbreviation')
        elif value == 'Cop':
            upos = 'AUX'
            sx.reach('copula')
        elif value == 'Foreign':
            want['Foreign'] = 'Yes'
            sx.reach('foreign')
    elif which == 'ToDo':
        value = x.misc['ToDo'] = sx.choice('value', ['nmod', 'mwe,nmod', 'mwe'])
        todo = value if value == 'mwe' else ''
        sx.reach('todo')
    else:
        y = x if sx.bool('second') else a
        value = sx.choice('value', ['Inf', 'Vnoun', 'Ger', 'Part'])
        y.feats['VerbForm'] = value
        if value == 'Part':
            new = 'Part'
        elif y is x and a.lemma == 'ag' and sx.fix(t.head(1)) == 2:
            new = 'Vnoun'
            sx.reach('verbal noun')
        else:
            new = 'Inf'
            sx.reach('infinitive')
        if y is x:
            want['VerbForm'] = new
        else:
            sx.reach('first')
    heads = heads_of(t, 2)
    To2().process_document(t.doc)
    compare(t, heads, [None, 'dep', rel], 'Irish')
    sx.check(dict(x.feats) == want and x.upos == upos and x.misc['ToDo'] == todo, 'features, tag and mark')
    if which == 'VerbForm' and y is a:
        sx.check(a.feats['VerbForm'] == new, 'the first word')


@sx.harness(quick=[dict(size=3)], thorough=[dict(size=4), dict(size=5)], reach=['infinitive', 'gerund', 'participle', 'entiendo', 'other', 'noun', 'kept feature', 'irregular', 'lemma'],
            bounds='forms of up to size letters before each of the endings that matter, in lower or upper case, verb or noun, with Gender, Number or neither')
def spanish(size):
    from udapi.block.ud.es.fixverbfeats import FixVerbFeats
    root = Document().create_bundle().create_tree()
    end = sx.choice('end', ['ar', 'er', 'ir', 'or', 'ndo', 'ado', 'adas', 'ido', 'ida', 'idos', 'adase', 'udo', 'abierto', 'dichas', 'muerta', 'visto', 'hecho', 'puestos', 'satisfecha', 'nda', ''])
    start = 'entie' if end == 'ndo' and sx.bool('entiendo') else sx.str('start', 0 if end else 1, size if not end else 2, 'aeirdnotsbcx' if not end else 'xyz')
    form = start + end
    if sx.bool('upper'):
        form = form.upper()
    upos = sx.choice('upos', ['VERB', 'AUX', 'NOUN'])
    x = root.create_child(form=form, lemma='L', upos=upos)
    g, nr = sx.choice('Gender', ['', 'Com']), sx.choice('Number', ['', 'Dual'])
    x.feats['VerbForm'] = 'Fin'
    if g:
        x.feats['Gender'] = g
    if nr:
        x.feats['Number'] = nr
    old = str(x.feats)
    FixVerbFeats().process_document(root.document)
    low = form.lower()
    lemma, feats = 'L', old
    ends = lambda *a: sx.or_(*[low.endswith(e) for e in a])
    stems = ('ad', 'id', 'biert', 'dich', 'fech', 'hech', 'muert', 'puest', 'vist')
    if upos == 'NOUN':
        sx.reach('noun')
    elif ends('ar', 'er', 'ir'):
        if not low.endswith('er') or True:
            lemma, feats = low, 'VerbForm=Inf'
        sx.reach('infinitive')
    elif ends('ndo'):
        if low != 'entiendo':
            feats = 'VerbForm=Ger'
            sx.reach('gerund')
        else:
            sx.reach('entiendo')
    elif ends(*[s + e for s in stems for e in ('o', 'a', 'os', 'as')]):
        gender = g or ('Masc' if ends('o', 'os') else 'Fem')
        number = nr or ('Plur' if ends('s') else 'Sing')
        feats = 'Gender=%s|Number=%s|Tense=Past|VerbForm=Part' % (gender, number)
        sx.reach('participle')
        if g or nr:
            sx.reach('kept feature')
        if ends('ado', 'ada', 'ados', 'adas'):
            lemma = low[:-3] if ends('s') else low[:-2]
            lemma = lemma + 'r'
            sx.reach('lemma')
        else:
            sx.reach('irregular')
    else:
        sx.reach('other')
    sx.check(x.lemma == lemma, 'the lemma')
    sx.check(str(x.feats) == feats, 'the features')
    sx.check(x.form == form and x.upos == upos, 'form and tag stay')
