"""C54: morphosyntactic features: periphrastic verb forms of Slavic languages, cases of phrases, abstract subjects."""
from sx import api as sx
from harness.common import check_wf

KEYS = {'person': 'PhrasePerson', 'number': 'PhraseNumber', 'mood': 'PhraseMood', 'tense': 'PhraseTense', 'voice': 'PhraseVoice', 'aspect': 'PhraseAspect',
        'form': 'PhraseForm', 'reflex': 'PhraseReflex', 'polarity': 'PhrasePolarity', 'gender': 'PhraseGender', 'animacy': 'PhraseAnimacy', 'ords': 'Phrase'}
AGREE = ['Person', 'Number', 'Gender', 'Animacy', 'Aspect']
PAST = ['Past', 'Imp', 'Pqp']


class View:
    """The attributes of a word as the description of the verb forms needs them."""

    def __init__(self, node, kind=''):
        self.node, self.kind = node, kind
        self.f = {k: node.feats[k] for k in AGREE + ['Tense', 'VerbForm', 'Mood', 'Voice', 'Polarity', 'Reflex']}


def agreement(tag, *names):
    return {n: sx.str(tag + n, 1, 1, 'ascii') for n in names}


LENGTHS = {'Mood': (3, 3), 'Voice': (4, 4)}


def any_value(tag, name):
    lo, hi = LENGTHS.get(name, (3, 4))
    return sx.str(tag + name, lo, hi, 'ascii')


def make_child(parent, kind, tag, before, syms, few=False, given=None):
    c = parent.create_child(form='c' + tag, lemma='l' + tag, upos='X')
    if before:
        c.shift_before_node(parent)
    feats = {}
    if kind in ('aux', 'cop', 'hteti', 'ще'):
        c.upos, c.deprel = 'AUX', 'aux' if kind != 'cop' else 'cop'
        if kind in ('hteti', 'ще'):
            c.lemma = kind
        skip = ('VerbForm',) if kind != 'cop' and ('Mood' in syms or few) else ('Mood',) if kind == 'cop' and 'Tense' in syms else ()
        feats = {n: any_value(tag, n) for n in syms if n not in skip}
        if given:
            feats = dict(given)
        if kind == 'hteti':
            feats['Tense'] = 'Pres'
        feats.update(agreement(tag, 'Person', 'Number') if not given else {'Person': tag, 'Number': tag.upper()})
    elif kind.startswith('refl'):
        c.upos, c.deprel, feats = 'PRON', 'expl:pass' if kind == 'refl:pass' else 'expl:pv', {'Reflex': 'Yes'}
    elif kind == 'neg':
        c.upos, c.deprel, feats = 'PART', 'advmod', {'Polarity': 'Neg'}
    elif kind == 'prep':
        c.upos, c.deprel = 'ADP', 'case'
    elif kind == 'cnd':
        c.upos, c.deprel, feats = 'SCONJ', 'mark', {'Mood': 'Cnd'}
        feats['Person'] = sx.str(tag + 'Person', 0, 1, 'digit')
    elif kind == 'subj':
        c.upos, c.deprel = 'NOUN', 'nsubj'
        feats['Person'] = sx.str(tag + 'Person', 0, 1, 'digit')
    else:
        c.upos, c.deprel = 'NOUN', 'obj'
    for k, v in feats.items():
        c.feats[k] = v
    return View(c, kind)


def of(kids, *kinds):
    return [k for k in kids if k.kind in kinds]


AUX = ('aux', 'hteti', 'ще')


def voice(v, refl):
    return 'Pass' if refl and refl[0].kind == 'refl:pass' else v.f['Voice']


def polarity(v, neg):
    if v.f['Polarity'] != '':
        return v.f['Polarity']
    return 'Neg' if neg else None


def reflex(v, refl):
    return 'Yes' if refl else v.f['Reflex']


def row(v, names):
    return {n.lower(): v.f[n] for n in names}


def phrase(v, *groups):
    return sorted([v.node.ord] + [k.node.ord for g in groups for k in g])


def conditional(v, kids, refl, neg, prep):
    cnd = [k for k in kids if k.kind == 'cnd' or k.f['Mood'] == 'Cnd']
    cop = of(kids, 'cop')
    if not cnd:
        return None
    if v.f['VerbForm'] in ('Part', 'PartRes', 'Fin') and not cop:
        aux = [k for k in kids if k.kind in AUX or k.kind == 'cnd']
        return dict(row(v, ['Number', 'Aspect', 'Gender', 'Animacy']), mood='Cnd', form='Fin', person=cnd[0].f['Person'] if cnd[0].f['Person'] != '' else '3',
                    reflex=reflex(v, refl), polarity=polarity(v, neg), voice=voice(v, refl), ords=phrase(v, aux, refl, neg))
    main = [k for k in cop if k.f['VerbForm'] in ('Part', 'Fin')]
    if main:
        aux = [k for k in kids if k.kind in AUX or k.kind == 'cnd']
        c = main[0]
        return dict(row(c, ['Person', 'Number', 'Aspect', 'Gender', 'Animacy']), mood='Cnd', form='Fin', reflex=reflex(v, refl), polarity=polarity(c, neg),
                    voice=voice(c, refl), ords=phrase(v, aux, main, refl, neg, prep))
    return None


def converb(v, kids, refl, neg, prep):
    if v.f['VerbForm'] == 'Conv' and v.node.upos == 'VERB':
        return dict(row(v, AGREE), tense=v.f['Tense'], form='Conv', reflex=reflex(v, refl), polarity=polarity(v, neg), voice=voice(v, refl), ords=phrase(v, refl, neg))
    if v.node.upos == 'ADJ':
        aux = [k for k in of(kids, *AUX) if k.f['VerbForm'] == 'Conv']
        if aux:
            return dict(row(aux[0], ['Person', 'Number', 'Gender', 'Animacy']), tense=aux[0].f['Tense'], aspect=v.f['Aspect'], form='Conv', polarity=polarity(aux[0], neg),
                        voice='Pass', ords=phrase(v, aux, neg))
        return None
    cop = [k for k in of(kids, 'cop') if k.f['VerbForm'] == 'Conv']
    if cop:
        return dict(row(cop[0], ['Person', 'Number', 'Gender', 'Animacy']), tense=cop[0].f['Tense'], form='Conv', polarity=polarity(v, neg), voice=voice(cop[0], refl),
                    ords=phrase(v, cop, prep, neg, refl))
    return None


def future(v, kids, refl, neg, prep):
    aux = of(kids, 'hteti')
    cop = of(kids, 'cop')
    base = dict(tense='Fut', mood='Ind', form='Fin')
    if v.node.upos != 'AUX' and aux:
        return dict(base, **row(aux[0], ['Person', 'Number']), **row(v, ['Aspect', 'Gender', 'Animacy', 'Voice']), polarity=polarity(v, neg), reflex=reflex(v, refl),
                    ords=phrase(v, refl, neg, of(kids, *AUX), cop, prep if cop else []))
    aux = of(kids, 'ще')
    if v.f['Tense'] == 'Pres' and aux:
        return dict(base, **row(v, ['Person', 'Number', 'Aspect', 'Voice']), polarity=polarity(v, neg), reflex=reflex(v, refl), ords=phrase(v, refl, neg, aux))
    if v.node.upos in ('VERB', 'ADJ'):
        aux = [k for k in of(kids, *AUX) if k.f['Tense'] == 'Fut']
        if aux:
            return dict(base, **row(aux[0], ['Person', 'Number']), **row(v, ['Aspect', 'Gender', 'Animacy']), voice=voice(v, refl), polarity=polarity(aux[0], neg),
                        reflex=reflex(v, refl), ords=phrase(v, aux, refl, neg))
        if v.f['Tense'] == 'Fut':
            return dict(base, **row(v, ['Person', 'Number', 'Aspect']), voice=voice(v, refl), polarity=polarity(v, neg), reflex=reflex(v, refl), ords=phrase(v, refl, neg))
    cop = [k for k in cop if k.f['Tense'] == 'Fut']
    if cop:
        aux = [k for k in of(kids, *AUX) if k.f['Mood'] == 'Ind']
        return dict(base, **row(cop[0], ['Person', 'Number']), voice=voice(cop[0], refl), polarity=polarity(cop[0], neg), ords=phrase(v, cop, aux, prep, neg, refl))
    return None


def imperative(v, kids, refl, neg, prep):
    base = dict(mood='Imp', form='Fin')
    if v.f['Mood'] == 'Imp' and v.node.upos == 'VERB':
        return dict(base, **row(v, ['Person', 'Number', 'Aspect']), voice='Act', polarity=polarity(v, neg), reflex=reflex(v, refl), ords=phrase(v, refl, neg))
    if v.node.upos == 'ADJ' and v.f['Voice'] == 'Pass':
        aux = [k for k in of(kids, *AUX) if k.f['Mood'] == 'Imp']
        if aux:
            return dict(base, **row(aux[0], ['Person', 'Number']), **row(v, ['Aspect', 'Gender', 'Animacy']), voice='Pass', polarity=polarity(v, neg), ords=phrase(v, aux, neg))
    cop = [k for k in of(kids, 'cop') if k.f['Mood'] == 'Imp']
    if cop:
        return dict(base, **row(cop[0], ['Person', 'Number']), voice=voice(cop[0], refl), polarity=polarity(v, neg), reflex=reflex(v, refl), ords=phrase(v, cop, prep, neg, refl))
    return None


def infinitive(v, kids, refl, neg, prep):
    auxs = of(kids, *AUX)
    if v.f['VerbForm'] == 'Inf' and v.node.upos == 'VERB' and not auxs:
        return dict(aspect=v.f['Aspect'], voice='Pass' if refl and refl[0].kind == 'refl:pass' else 'Act', form='Inf', polarity=polarity(v, neg), reflex=reflex(v, refl),
                    ords=phrase(v, refl, neg))
    if v.node.upos == 'ADJ' and v.f['Voice'] == 'Pass' and auxs and all(k.f['VerbForm'] == 'Inf' for k in auxs):
        return dict(row(v, ['Aspect', 'Gender', 'Animacy', 'Number']), voice='Pass', form='Inf', polarity=polarity(auxs[0], neg), reflex=reflex(v, refl),
                    ords=phrase(v, auxs, neg, refl))
    cop = [k for k in of(kids, 'cop') if k.f['VerbForm'] == 'Inf']
    out = None
    if cop and not auxs:
        out = dict(voice=voice(cop[0], refl), form='Inf', polarity=polarity(cop[0], neg), reflex=reflex(v, refl), ords=phrase(v, cop, prep, neg, refl))
    if v.f['VerbForm'] == 'Sup':
        new = dict(aspect=v.f['Aspect'], voice='Act', form='Sup', polarity=polarity(v, neg), reflex=reflex(v, refl), ords=phrase(v, refl, neg))
        # features of the form found first stay where the second one says nothing
        out = dict(out or {}, **{k: x for k, x in new.items() if x is not None})
    return out


def present(v, kids, refl, neg, prep):
    base = dict(tense='Pres', mood='Ind', form='Fin')
    if v.f['Tense'] == 'Pres' and v.node.upos == 'VERB' and v.f['VerbForm'] == 'Fin' and not [k for k in of(kids, *AUX, 'cop') if k.kind == 'ще' or k.f['Mood'] == 'Cnd']:
        return dict(base, **row(v, ['Person', 'Number', 'Aspect']), voice=voice(v, refl), polarity=polarity(v, neg), reflex=reflex(v, refl), ords=phrase(v, refl, neg))
    auxs = of(kids, *AUX)
    if v.node.upos == 'ADJ' and v.f['Voice'] == 'Pass':
        aux = [k for k in auxs if k.f['Tense'] == 'Pres' and k.kind != 'hteti']
        if aux and all(k.f['Tense'] == 'Pres' for k in auxs):
            return dict(base, **row(aux[0], ['Person', 'Number']), **row(v, ['Aspect', 'Gender', 'Animacy']), voice='Pass', polarity=polarity(aux[0], neg), ords=phrase(v, aux, neg))
    cop = [k for k in of(kids, 'cop') if k.f['Tense'] == 'Pres']
    if cop and all(k.f['Tense'] == 'Pres' for k in of(kids, *AUX, 'cop')):
        aux = [k for k in auxs if k.f['Mood'] == 'Ind']
        return dict(base, **row(cop[0], ['Person', 'Number']), aspect=v.f['Aspect'], voice=voice(cop[0], refl), polarity=polarity(cop[0], neg), reflex=reflex(v, refl),
                    ords=phrase(v, cop, aux, prep, neg, refl))
    return None


def past(v, kids, refl, neg, prep):
    first = None
    if v.f['Person'] == '0':
        first = dict(row(v, ['Person', 'Number', 'Aspect', 'Gender', 'Animacy', 'Tense', 'Mood']), voice='Pass', form=v.f['VerbForm'], polarity=polarity(v, neg),
                     reflex=reflex(v, refl), ords=phrase(v, refl, neg))
    out = None
    auxs = of(kids, *AUX)
    pres = [k for k in auxs if k.f['Tense'] == 'Pres']
    older = [k for k in auxs if k.f['Tense'] in PAST]
    cop = [k for k in of(kids, 'cop') if k.f['Tense'] in PAST]
    cnd = [k for k in kids if k.kind == 'cnd' or k.f['Mood'] == 'Cnd']
    if v.f['VerbForm'] in ('Part', 'PartRes') and v.node.upos == 'VERB' and v.f['Voice'] != 'Pass':
        if not cnd:
            out = dict(row(v, ['Number', 'Aspect', 'Gender', 'Animacy']), tense=v.f['Tense'] if v.f['Tense'] in ('Imp', 'Pqp') else 'Past', mood='Ind', form='Fin',
                       person=older[0].f['Person'] if older else pres[0].f['Person'] if pres else '3', voice=voice(v, refl), polarity=polarity(v, neg), reflex=reflex(v, refl),
                       ords=phrase(v, pres, refl, neg, older))
    elif v.f['Tense'] in PAST and v.node.upos == 'VERB' and v.f['VerbForm'] != 'Conv':
        if not auxs:
            out = dict(row(v, AGREE), tense=v.f['Tense'], mood='Ind', form=v.f['VerbForm'], voice=voice(v, refl), polarity=polarity(v, neg), reflex=reflex(v, refl),
                       ords=phrase(v, refl, neg))
    elif v.node.upos == 'ADJ' and v.f['Voice'] == 'Pass' and not cop:
        if not cnd and older:
            person = pres[0].f['Person'] if pres else '3'
            subj = of(kids, 'subj')
            if subj and subj[0].f['Person'] != '':
                person = subj[0].f['Person']
            out = dict(row(v, ['Aspect', 'Gender', 'Animacy']), tense=older[0].f['Tense'], number=older[0].f['Number'], person=person, mood='Ind', voice='Pass', form='Fin',
                       polarity=polarity(older[0], neg), ords=phrase(v, older, pres, neg))
    elif cop and not cnd:
        person = pres[0].f['Person'] if pres else '3'
        if cop[0].f['VerbForm'] == 'Fin':
            person = ''
        out = dict(row(cop[0], ['Number', 'Aspect', 'Gender', 'Animacy']), tense=cop[0].f['Tense'], person=person, mood='Ind', form='Fin', voice=voice(cop[0], refl),
                   reflex=reflex(v, refl), polarity=polarity(cop[0], neg), ords=phrase(v, pres, cop, prep, neg, refl))
    if first and out:
        return dict(first, **{k: x for k, x in out.items() if x is not None})
    return out or first


# block -> description, features of auxiliaries and copulas, features of the head, kinds of dependents
SPEC = {'conditional': (conditional, ['Mood', 'VerbForm'], ['VerbForm'], ['aux', 'cop', 'refl', 'refl:pass', 'neg', 'prep', 'cnd', 'other']),
        'converb': (converb, ['VerbForm', 'Tense'], ['VerbForm', 'Tense'], ['aux', 'cop', 'refl', 'refl:pass', 'neg', 'prep', 'other']),
        'future': (future, ['Tense', 'Mood'], ['Tense'], ['aux', 'cop', 'refl:pass', 'neg', 'prep', 'hteti', 'ще']),
        'imperative': (imperative, ['Mood'], ['Mood', 'Voice'], ['aux', 'cop', 'refl', 'refl:pass', 'neg', 'prep', 'other']),
        'infinitive': (infinitive, ['VerbForm'], ['VerbForm', 'Voice'], ['aux', 'cop', 'refl', 'refl:pass', 'neg', 'prep', 'other']),
        'present': (present, ['Tense', 'Mood'], ['Tense', 'VerbForm', 'Voice'], ['aux', 'cop', 'refl', 'refl:pass', 'neg', 'prep', 'hteti', 'ще']),
        'past': (past, ['Tense', 'VerbForm', 'Mood'], ['Tense', 'VerbForm', 'Voice'], ['aux', 'cop', 'refl:pass', 'neg', 'prep', 'cnd', 'subj'])}


def judge(block, root, node, v, kids):
    import importlib
    spec = SPEC[block][0]
    # a dependent of a dependent does not belong to the phrase
    if kids:
        kids[0].node.create_child(form='deep', upos='PART', deprel='aux', feats='Polarity=Neg|Mood=Cnd|Tense=Pres')
    old = node.misc['PhraseTense'] = 'Old'
    getattr(importlib.import_module('udapi.block.msf.slavic.' + block), block.title())().process_node(node)
    kids = sorted(kids, key=lambda k: k.node.ord)
    want = spec(v, kids, of(kids, 'refl', 'refl:pass'), of(kids, 'neg'), of(kids, 'prep'))
    sx.reach('found' if want else 'nothing')
    for k, name in KEYS.items():
        value = want.get(k) if want else None
        if value is None:
            value = old if k == 'tense' else ''
        if k == 'ords':
            sx.check(node.misc['Phrase'] == value, 'the words of the phrase')
        else:
            sx.check(node.misc[name] == value, 'the features of the phrase: ' + k)
    sx.check(all(str(k.node.misc) == '_' for k in kids), 'nothing is written at the other words')
    sx.check(sx.and_(*[node.feats[k] == x for k, x in v.f.items()]), 'the features of the words stay')
    sx.check(len(root.descendants) == (len(kids) + 2 if kids else 1), 'the words stay')


def detect(block, m, light=False):
    from udapi.core.document import Document
    spec, csyms, vsyms, kinds = SPEC[block]
    if light:
        csyms = [x for x in csyms if x != 'Mood']
    root = Document().create_bundle().create_tree()
    node = root.create_child(form='head', upos=sx.choice('upos', ['VERB', 'ADJ', 'NOUN']), deprel='root')
    for k in vsyms:
        node.feats[k] = any_value('v', k)
    node.feats['Person'] = sx.str('vPerson', 1, 1, '0123')
    node.feats['Number'] = sx.str('vNumber', 1, 1, 'ascii')
    for k in ['Gender', 'Animacy', 'Aspect']:
        node.feats[k] = k[:2]
    chosen, first = [], 0
    for i in range(m):
        # dependents of different kinds are interchangeable
        chosen.append(sx.choice('kind%d' % i, kinds[first:]))
        first = kinds.index(chosen[-1])
    if ('neg' in chosen or chosen[:1] == ['aux']) and sx.bool('negative'):
        node.feats['Polarity'] = 'Pos'
        node.feats['Reflex'] = 'Yes'
    v = View(node)
    kids = [make_child(node, kind, 'abc'[i], i == 0, csyms, light and block == 'past') for i, kind in enumerate(chosen)]
    judge(block, root, node, v, kids)



@sx.harness(quick=[dict(block=b, m=1 if b == 'past' else 2) for b in SPEC], thorough=[dict(block=b, m=2) for b in SPEC], reach=['found', 'nothing'],
            bounds='a verb, adjective or noun with any m dependents of the kinds that verb forms are built from (auxiliaries, copula, reflexives, negation, prepositions, '
                   'conditional conjunctions, subjects); any values of the features that the form depends on (light: but the mood of auxiliaries), any person and number')
def forms(block, m, light=False):
    detect(block, m, light)


@sx.harness(quick=[dict()], thorough=[dict(size=2)], reach=['voice', 'adjective', 'conditional', 'future', 'gender', 'reflexive'],
            bounds='a word with any part of speech out of four, any of its features that are harmonized, four relations, and up to two dependents of three kinds')
def preprocessor(size=1):
    from udapi.core.document import Document
    from udapi.block.msf.slavic.preprocessor import Preprocessor
    root = Document().create_bundle().create_tree()
    node = root.create_child(form='head', lemma=sx.choice('lemma', ['l', 'ми']), upos=sx.choice('upos', ['VERB', 'AUX', 'NOUN', 'ADJ']),
                             deprel=sx.choice('deprel', ['aux:cnd', 'expl:pv', 'expl:pass', 'expl:impers', 'obj']))
    pick = sx.choice('about', ['Voice', 'Case', 'Mood', 'Polarity', 'Tense', 'Gender', 'PronType'])
    feats = {'VerbForm': sx.choice('VerbForm', ['Fin', 'Inf'])}
    value = {'Voice': lambda: sx.str('Voice', 0, 4, 'ascii'), 'Case': lambda: sx.str('Case', 0, size, 'ascii'), 'Mood': lambda: sx.str('Mood', 3, 3, 'ascii'),
             'Polarity': lambda: sx.str('Polarity', 3, 3, 'ascii'), 'Tense': lambda: sx.str('Tense', 4, 4, 'ascii'),
             'Gender': lambda: sx.choice('Gender', ['Fem,Neut', 'Fem,Masc', 'Fem']), 'PronType': lambda: sx.choice('PronType', ['Prs', 'Dem'])}[pick]()
    feats[pick] = value
    for k, v in feats.items():
        node.feats[k] = v
    kids = []
    for i in range(2 if pick in ('Tense', 'Gender') else 0):
        kind = sx.choice('kid%d' % i, ['ще', 'ќе', 'other'] if pick == 'Tense' else ['subj', 'subj with conj', 'other'])
        c = node.create_child(form='c%d' % i, lemma=kind, upos='X', deprel='nsubj:x' if kind[:4] == 'subj' else 'obj')
        c.feats['Gender'], c.feats['Number'] = 'G%d' % i, 'N%d' % i
        if kind == 'subj with conj':
            c.create_child(form='d', deprel='conj')
        kids.append((kind, c))
    upos, rel, f = node.upos, node.deprel, {k: node.feats[k] for k in ['Voice', 'Case', 'Mood', 'Polarity', 'Tense', 'Gender', 'Number', 'Reflex', 'VerbForm', 'PronType']}
    Preprocessor().process_node(node)
    want = dict(f)
    verb = upos
    if (upos == 'VERB' or upos == 'AUX' and f['VerbForm'] == 'Fin') and f['Voice'] == '':
        want['Voice'] = 'Act'
        sx.reach('voice')
    if upos == 'VERB' and (f['Case'] != '' or want['Voice'] == 'Pass'):
        verb = 'ADJ'
        sx.reach('adjective')
    if rel == 'aux:cnd' or f['Mood'] == 'Sub':
        want['Mood'] = 'Cnd'
        sx.reach('conditional')
    if f['Polarity'] == 'Pos':
        want['Polarity'] = ''
    if rel.startswith('expl'):
        want['Reflex'] = 'Yes'
        sx.reach('reflexive')
    future = [c for kind, c in kids if kind in ('ще', 'ќе')]
    if f['Tense'] != 'Pres' or len(future) != 1:
        future = []
    for kind, c in kids:
        sx.check(c.feats['Tense'] == ('Fut' if c in future else ''), 'the future auxiliary')
        if c in future:
            sx.reach('future')
    subj = [(kind, c) for kind, c in kids if kind[:4] == 'subj']
    if f['Gender'] in ('Fem,Neut', 'Fem,Masc') and len(subj) == 1 and subj[0][0] == 'subj':
        want['Gender'], want['Number'] = subj[0][1].feats['Gender'], subj[0][1].feats['Number']
        sx.reach('gender')
    sx.check(node.upos == verb, 'the part of speech')
    sx.check(node.deprel == ('iobj' if rel == 'expl:pv' and node.lemma == 'ми' and f['PronType'] == 'Prs' else rel), 'the relation')
    for k, v in want.items():
        sx.check(node.feats[k] == v, 'the features: ' + k)
    sx.check(str(node.misc) == '_' and len(root.descendants) == 1 + len(kids) + len([1 for kind, c in kids if kind == 'subj with conj']), 'nothing else changes')


def noun_phrase(kids, deprel):
    from udapi.core.document import Document
    root = Document().create_bundle().create_tree()
    verb = root.create_child(form='v', upos='VERB', deprel='root')
    node = verb.create_child(form='n', lemma='n', upos='NOUN', deprel=deprel)
    out = []
    for i, kind in enumerate(kids):
        c = node.create_child(form='k%d' % i, lemma='k%d' % i, upos='X', deprel='dep')
        out.append(c)
        if i == 0:
            c.shift_before_node(node)
    return root, verb, node, out


@sx.harness(quick=[dict(m=2)], thorough=[dict(m=3)], reach=['own', 'adposition', 'modifier', 'relation', 'phrase', 'none'],
            bounds='a noun with up to m adpositions (perhaps of several words), adjectives or determiners, any case of each of them (or none), five relations, features that '
                   'are not copied, features of a verb form found before')
def init(m):
    from udapi.block.msf.init import Init
    kinds = [sx.choice('kind%d' % i, ['case', 'multi', 'case NOUN', 'amod', 'det:x', 'other']) for i in range(m)]
    rel = sx.choice('deprel', ['nsubj', 'nsubj:pass', 'obj', 'iobj', 'root'])
    root, verb, node, kids = noun_phrase(kinds, rel)
    cases = []
    for i, (kind, c) in enumerate(zip(kinds, kids)):
        c.deprel = {'multi': 'case', 'case NOUN': 'case', 'other': 'nmod'}.get(kind, kind)
        c.upos = 'NOUN' if kind == 'case NOUN' else 'ADP' if c.udeprel == 'case' else 'ADJ'
        if kind == 'multi':
            c.create_child(form='f', deprel='fixed')
        value = sx.str('case%d' % i, 1, 1, 'ascii') if sx.bool('with%d' % i) else ''
        c.feats['Case'] = value
        cases.append(value)
    own = sx.str('own', 1, 2, 'ascii') if sx.bool('own case') else ''
    node.feats['Case'] = own
    node.feats['Number'] = sx.str('number', 1, 2, 'ascii')
    for k in ['Abbr', 'AdpType', 'Emph', 'Foreign', 'NameType', 'Style', 'Typo', 'Variant']:
        node.feats[k] = 'x'
    found = sx.bool('phrase')
    if found:
        node.misc['PhraseTense'], node.misc['PhraseForm'], node.misc['Phrase'], node.misc['PhraseNumber'] = 'T', 'F', '1,2', 'P'
    before = str(node.feats)
    Init().process_node(node)
    want, how = own, 'own'
    adps = [i for i in range(m) if kinds[i] in ('case', 'multi')]
    mods = [i for i in range(m) if kinds[i] in ('amod', 'det:x') and cases[i] != '']
    if want == '' and len(adps) == 1 and kinds[adps[0]] == 'case':
        want, how = cases[adps[0]], 'adposition'
    if want == '' and mods:
        want, how = cases[mods[0]], 'modifier'
    if want == '':
        want, how = {'nsubj': 'Nom', 'nsubj:pass': 'Nom', 'obj': 'Acc'}.get(rel, ''), 'relation'
    sx.reach(how if want != '' else 'none')
    sx.check(node.misc['MSFCase'] == want, 'the case')
    expect = {'MSFNumber': node.feats['Number']}
    if found:
        expect = {'MSFNumber': 'P', 'MSFTense': 'T', 'MSFVerbForm': 'F', 'Phrase': '1,2'}
        sx.reach('phrase')
    for k, v in expect.items():
        sx.check(node.misc[k] == v, 'the copied features')
    sx.check(sorted(node.misc) == sorted(list(expect) + (['MSFCase'] if want != '' else [])), 'no other attributes in MISC')
    sx.check(str(node.feats) == before, 'the features stay')
    sx.check(all(str(c.misc) == '_' for c in kids), 'other words stay')


@sx.harness(quick=[dict(m=2)], thorough=[dict(m=3)], reach=['quantifier', 'adposition', 'nsubj', 'obj', 'stay', 'unknown'],
            bounds='a noun with any case and up to m quantifiers (with any case or none) and adpositions (perhaps of several words), four relations')
def num_phrase(m):
    from udapi.block.msf.numphrase import NumPhrase
    kinds = [sx.choice('kind%d' % i, ['nummod:gov', 'det:numgov', 'nummod', 'case', 'multi', 'case NOUN']) for i in range(m)]
    rel = sx.choice('deprel', ['nsubj', 'obj', 'obl', 'nsubj:pass'])
    root, verb, node, kids = noun_phrase(kinds, rel)
    cases = []
    for i, (kind, c) in enumerate(zip(kinds, kids)):
        c.deprel = {'multi': 'case', 'case NOUN': 'case'}.get(kind, kind)
        c.upos = 'NOUN' if kind == 'case NOUN' else 'ADP' if c.udeprel == 'case' else 'NUM'
        if kind == 'multi':
            c.create_child(form='f', deprel='fixed')
        value = sx.str('case%d' % i, 1, 1, 'ascii') if sx.bool('with%d' % i) else ''
        if c.upos == 'NUM':
            c.misc['MSFCase'] = value
        else:
            c.feats['Case'] = value
        cases.append(value)
    own = sx.str('own', 0, 3, 'ascii')
    node.misc['MSFCase'] = own
    NumPhrase().process_node(node)
    quant = [i for i in range(m) if kinds[i] in ('nummod:gov', 'det:numgov')]
    want, how = own, 'stay'
    if quant and (own == 'Gen' or own == ''):
        adps = [i for i in range(m) if kinds[i] in ('case', 'multi')]
        want, how = cases[quant[0]], 'quantifier'
        if want == '' and len(adps) == 1 and kinds[adps[0]] == 'case':
            want, how = cases[adps[0]], 'adposition'
        if want == '':
            want, how = {'nsubj': 'Nom', 'nsubj:pass': 'Nom', 'obj': 'Acc'}.get(rel, ''), {'nsubj:pass': 'nsubj'}.get(rel, rel)
        if want == '':
            how = 'unknown'
    sx.reach(how)
    sx.check(node.misc['MSFCase'] == want, 'the case of the phrase')
    sx.check(str(node.feats) == '_' and len(root.descendants) == 2 + m + kinds.count('multi'), 'nothing else changes')


@sx.harness(reach=['function word', 'other'], bounds='any MSF attributes of a function word or another word')
def remove_func():
    from udapi.block.msf.removefunc import RemoveFunc
    root, verb, node, kids = noun_phrase([], 'dep')
    func = sx.str('func', 0, 3, 'ascii')
    node.misc['MSFFunc'] = func
    names = ['MSFCase', 'MSFNumber', 'AMSF', 'Msf', 'MSF', 'Gloss']
    values = {}
    for k in names:
        values[k] = 'x' if sx.bool('with' + k) else ''
        node.misc[k] = values[k]
    RemoveFunc().process_node(node)
    gone = func == 'Yes'
    sx.reach('function word' if gone else 'other')
    for k in names:
        sx.check(node.misc[k] == ('' if gone and k.startswith('MSF') else values[k]), 'exactly the MSF attributes of function words go')
    sx.check(node.misc['MSFFunc'] == ('' if gone else func), 'the mark of function words')


AGR = ['Number', 'Person', 'Gender', 'Animacy', 'Polite']


@sx.harness(quick=[dict()], thorough=[dict(size=2)], reach=['created', 'subject', 'abstract subject', 'clausal subject', 'no agreement', 'not finite'],
            bounds='a verb with any agreement features, under the root or as a clausal subject of another verb; a subject, a clausal subject, an abstract subject of it or '
                   'of the other verb, or none')
def abstract(size=1):
    from udapi.core.document import Document
    from udapi.block.msf.createabstract import CreateAbstract
    doc = Document()
    root = doc.create_bundle().create_tree()
    top = root.create_child(form='t', upos='VERB', deprel='root')
    node = top.create_child(form='v', upos='VERB', deprel=sx.choice('deprel', ['ccomp', 'csubj']))
    for x in (top, node):
        x.deps = [{'parent': x.parent, 'deprel': x.deprel}]
    have = sx.choice('have', ['', 'nsubj', 'nsubj:pass', 'csubj', 'obj', 'abstract', 'abstract of the other', 'abstract obj'])
    if have in ('nsubj', 'nsubj:pass', 'csubj', 'obj'):
        node.create_child(form='s', deprel=have)
    elif have:
        (top if have == 'abstract of the other' else node).create_empty_child('obj' if have == 'abstract obj' else 'nsubj', form='e')
    empty = len(root.empty_nodes)
    form = sx.str('form', 0, 3, 'ascii')
    node.misc['MSFVerbForm'] = form
    values = {}
    for k in AGR:
        values[k] = sx.str(k, 1, size, 'ascii') if sx.bool('with' + k) else ''
        node.misc['MSF' + k] = values[k]
    node.misc['MSFTense'] = 'T'
    words = [x for x in root.descendants]
    CreateAbstract().process_document(doc)
    agree = any(values[k] != '' for k in AGR)
    new = [x for x in root.empty_nodes if x.form != 'e']
    sx.check(len(root.empty_nodes) == empty + len(new) and [id(x) for x in root.descendants] == [id(x) for x in words], 'the words stay')
    if form != 'Fin' or not agree:
        sx.reach('not finite' if form != 'Fin' else 'no agreement')
        sx.check(new == [] and all(node.misc['MSF' + k] == values[k] for k in AGR), 'nothing to do')
        return
    sx.check(all(node.misc['MSF' + k] == '' for k in AGR) and node.misc['MSFTense'] == 'T' and node.misc['MSFVerbForm'] == 'Fin', 'agreement is removed from the verb')
    if node.deprel == 'csubj':
        sx.reach('clausal subject')
    if have in ('nsubj', 'nsubj:pass', 'csubj', 'abstract'):
        sx.reach('abstract subject' if have == 'abstract' else 'subject')
        sx.check(new == [], 'the verb has a subject')
        return
    sx.reach('created')
    sx.check(len(new) == 1, 'one abstract subject')
    s = new[0]
    sx.check(len(s.deps) == 1 and s.deps[0]['parent'] is node and s.deps[0]['deprel'] == 'nsubj', 'the subject of the verb')
    sx.check(s.upos == 'PRON' and s.feats['PronType'] == 'Prs' and s.feats['Case'] == 'Nom' and s.misc['MSFCase'] == 'Nom' and s.misc['MSFPronType'] == 'Prs'
             and s.misc['MSFFunc'] == 'No', 'a personal pronoun in nominative')
    for k in AGR:
        sx.check(s.feats[k] == values[k] and s.misc['MSF' + k] == values[k], 'the agreement features of the verb')


@sx.harness(quick=[dict(m=2)], thorough=[dict(m=3)], reach=['function word', 'modifier', 'adposition', 'unknown', 'subordinator', 'coordinator', 'plain', 'multi-word'],
            bounds='a word with one of seven relations, any case or one of three known ones, and up to m adpositions, subordinators and coordinators, perhaps of two words, known or unknown')
def case(m):
    import logging
    from udapi.block.msf.case import Case
    rel = sx.choice('deprel', ['case', 'aux:pass', 'punct', 'det', 'amod', 'obl:arg', 'advcl'])
    kinds = [sx.choice('kind%d' % i, ['case', 'mark', 'cc', 'other']) for i in range(m)] if rel in ('obl:arg', 'det') else []
    root, verb, node, kids = noun_phrase(kinds, rel)
    lemmas = []
    for i, (kind, c) in enumerate(zip(kinds, kids)):
        c.deprel = 'nmod' if kind == 'other' else kind
        c.lemma = sx.choice('lemma%d' % i, {'case': ['v', 's', 'xx'], 'mark': ['že', 'xx'], 'cc': ['a', 'xx'], 'other': ['v']}[kind])
        two = kind == 'case' and c.lemma == 'v' and sx.bool('two%d' % i)
        if two:
            c.create_child(form='f', lemma='průběh', deprel='fixed')
            c.create_child(form='g', lemma='no', deprel='dep')
            sx.reach('multi-word')
        lemmas.append('v_průběh' if two else c.lemma)
    own = sx.str('own', 3, 3, 'ascii') if sx.bool('with case') else ''
    node.misc['MSFCase'] = own
    node.misc['MSFNumber'] = 'N'
    logging.disable(logging.CRITICAL)
    try:
        Case().process_node(node)
    finally:
        logging.disable(logging.NOTSET)
    sx.check(node.misc['MSFNumber'] == 'N' and all(str(c.misc) == '_' for c in kids), 'nothing else changes')
    u = rel.split(':')[0]
    if u in ('case', 'aux', 'punct', 'det', 'amod'):
        sx.reach('modifier' if u in ('det', 'amod') else 'function word')
        sx.check(node.misc['MSFFunc'] == ('No' if u in ('det', 'amod') else 'Yes') and node.misc['MSFCase'] == own, 'words without a case of their own')
        return
    sx.check(node.misc['MSFFunc'] == 'No', 'not a function word')
    # a few lines of the table
    known = {('v', 'Loc'): 'Ine', ('v', 'Acc'): 'Tem', ('v', 'Nom'): 'Tem', ('v', 'Gen'): 'Tem', ('s', 'Ins'): 'Com', ('s', 'Gen'): 'Del', ('s', 'Nom'): 'Com', ('v_průběh', 'Gen'): 'Dur'}
    by = lambda kind: '_'.join(x for k, x in zip(kinds, lemmas) if k == kind)
    want = own
    how = 'plain'
    if by('case'):
        want, how = by('case') + '+' + own, 'unknown'
        for (lemma, c), value in known.items():
            if by('case') == lemma and own == c:
                want, how = value, 'adposition'
    elif own == '' and by('mark') == 'že':
        want, how = 'Atr', 'subordinator'
    elif own == '' and by('cc') == 'a':
        want, how = 'Conj', 'coordinator'
    sx.reach(how)
    sx.check(node.misc['MSFCase'] == want, 'the case of the phrase')


# block -> values of the deciding feature of auxiliaries and copulas, features of verbs that build the form
TYPICAL = {'conditional': ('VerbForm', ['Part', 'Inf'], 'VerbForm=Part'), 'converb': ('VerbForm', ['Conv', 'Fin'], 'VerbForm=Conv'), 'future': ('Tense', ['Fut', 'Pres'], 'Tense=Pres'),
           'imperative': ('Mood', ['Imp', 'Ind'], 'Mood=Imp'), 'infinitive': ('VerbForm', ['Inf', 'Fin'], 'VerbForm=Inf'), 'present': ('Tense', ['Pres', 'Past'], 'Tense=Pres|VerbForm=Fin'),
           'past': ('Tense', ['Past', 'Pres'], 'Tense=Past|VerbForm=Part')}


@sx.harness(quick=[dict(block=b, m=3) for b in SPEC], thorough=[dict(block=b, m=4) for b in SPEC], reach=['found', 'nothing'],
            bounds='a verb, a passive adjective or a noun with any m dependents of these kinds, two values of the feature of auxiliaries and copulas that the form depends on')
def bigger(block, m):
    from udapi.core.document import Document
    feature, values, own = TYPICAL[block]
    kinds = SPEC[block][3]
    root = Document().create_bundle().create_tree()
    head = sx.choice('head', ['VERB', 'ADJ', 'NOUN'])
    node = root.create_child(form='head', upos=head, deprel='root', feats={'VERB': own, 'ADJ': 'Voice=Pass', 'NOUN': '_'}[head])
    node.feats['Aspect'] = 'As'
    chosen, first = [], 0
    for i in range(m):
        chosen.append(sx.choice('kind%d' % i, kinds[first:]))
        first = kinds.index(chosen[-1])
    v = View(node)
    kids = []
    for i, kind in enumerate(chosen):
        given = {feature: sx.choice('value%d' % i, values)} if kind in ('aux', 'cop') else {feature: values[1]}
        kids.append(make_child(node, kind, 'abcd'[i], i % 2 == 0, (), given=given))
    judge(block, root, node, v, kids)
