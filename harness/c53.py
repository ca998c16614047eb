"""C53: fixers of enhanced relations."""
import importlib
import re
from sx import api as sx
from harness.common import check_tree

LANGS = ['ar', 'cs', 'lt', 'ru', 'sk']
NOMINAL = ['obl', 'obl:arg', 'nmod']
ALL = NOMINAL + ['advcl', 'acl', 'acl:relcl']
CASES = ['nom', 'gen', 'dat', 'acc', 'voc', 'loc', 'ins']


def fixer(lang):
    return importlib.import_module('udapi.block.ud.%s.fixedeprels' % lang).FixEdeprels


def sentence(label, kids=()):
    """verb -> noun with three enhanced edges (the first and last one with the label) and adpositions."""
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    verb = root.create_child(form='v', lemma='v', upos='VERB', deprel='root')
    noun = verb.create_child(form='n', lemma='n', upos='NOUN', deprel='obl')
    other = root.create_child(form='o', lemma='o', upos='NOUN', deprel='dep')
    for lemma, feats in kids:
        c = noun.create_child(form='k', lemma=lemma, upos='ADP', deprel='case', feats=feats)
        c.shift_before_node(noun)
    noun.deps = [{'parent': verb, 'deprel': label}, {'parent': other, 'deprel': 'conj:a'}, {'parent': root, 'deprel': label}]
    return doc, root, verb, noun, other


def run(lang, s, msg):
    """The new label; nothing else may change."""
    doc, root, verb, noun, other = s
    words = root.descendants
    rows = [(x, x.parent, x.form, x.lemma, x.upos, x.deprel, str(x.feats), str(x.misc)) for x in words]
    fixer(lang)().process_document(doc)
    sx.check([id(x) for x in root.descendants] == [id(x) for x in words] and root.empty_nodes == [], msg + ': the words stay')
    for x, *row in rows:
        sx.check(x.parent is row[0] and [x.form, x.lemma, x.upos, x.deprel, str(x.feats), str(x.misc)] == row[1:], msg + ': the words and the tree stay')
        if x is not noun:
            sx.check(x.deps == [], msg + ': no new edges')
    deps = noun.deps
    sx.check(len(deps) == 3 and deps[0]['parent'] is verb and deps[1]['parent'] is other and deps[2]['parent'] is root, msg + ': the edges stay')
    sx.check(deps[1]['deprel'] == 'conj:a', msg + ': other edges stay')
    sx.check(deps[2]['deprel'] == deps[0]['deprel'], msg + ': all edges are corrected')
    return deps[0]['deprel']


def shadowed(lang, key):
    """An outermost marker is taken first; a few early repairs of the languages."""
    for x in getattr(fixer(lang), 'outermost', {}):
        if key == x or key.startswith(x + '_'):
            return True
    return early(lang, key)


def early(lang, key):
    return {'cs': bool(re.match('(až_|když|ačkoli|jestli)', key)), 'ru': '?' in key or bool(re.match('(столько|то|точно)_|(быть|сколь|столько|типа)', key)),
            'ar': key.startswith('وَ_') or key == 'وَ'}.get(lang, False)


@sx.harness(quick=[dict(lang=x, few=x in ('ar', 'cs')) for x in LANGS], thorough=[dict(lang=x, more=True) for x in LANGS], reach=['bare', 'with case'],
            bounds='every preposition or marker with a single case that the language lists (without those that an earlier rule takes), relations of nominals '
                   '(more: and of clauses in Arabic and Slovak), no case or one out of three (more: seven; few: a single relation and case)')
def listed(lang, more=False, few=False):
    table = fixer(lang).unambiguous
    keys = sorted(k for k in table if not shadowed(lang, k))
    key = keys[sx.choice('key', range(len(keys)))]
    base = sx.choice('base', (ALL[:5] if lang in ('ar', 'sk') else NOMINAL) if more else ['obl:arg'] if few else NOMINAL)
    case = sx.choice('case', ['', 'acc'] if few else ['', 'gen', 'acc', 'ins'] if not more else [''] + CASES)
    sx.reach('with case' if case else 'bare')
    label = run(lang, sentence(base + ':' + key + (':' + case if case else '')), 'listed')
    sx.check(label == base + ':' + table[key], 'the form and case of the list')


@sx.harness(quick=[dict(lang=x, unreached=() if x in ('cs', 'ru') else ('exception',)) for x in LANGS[:4]],
            thorough=[dict(lang=x, n=4, unreached=() if x in ('cs', 'ru') else ('exception',)) for x in LANGS[:4]], reach=['rest', 'exception'], bounds='every outermost marker followed by an underscore or colon and any n letters; or one of its exceptions')
def outermost(lang, n=2, unreached=()):
    table = fixer(lang).outermost
    names = sorted(k for k in table if not any(k.startswith(x + '_') for x in table) and not (lang == 'ru' and early('ru', k + '_')))
    key = names[sx.choice('key', range(len(names)))]
    base = sx.choice('base', ['obl', 'advcl', 'acl'])
    if lang == 'cs' and base != 'advcl' and key in ('když', 'ačkoli', 'ačkoliv'):
        return
    if table[key] and sx.bool('exception'):
        sx.reach('exception')
        rest = table[key][0][len(key):]
        label = run(lang, sentence(base + ':' + key + rest), 'exception')
        sx.check(label != base + ':' + key, 'the exception is not shortened')
        return
    rest = sx.choice('sep', ['_', ':']) + sx.str('rest', n, n, 'lower')
    sx.assume(sx.and_(*[key + rest != e for e in table[key]]))
    sx.reach('rest')
    label = run(lang, sentence(base + ':' + key + rest), 'outermost')
    sx.check(label == base + ':' + key, 'only the outermost marker stays')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=5)], reach=LANGS, bounds='any label of another relation: one of nine relations with a subtype of any n letters, underscores or colons, or a bare relation')
def others(n):
    lang = sx.choice('lang', LANGS)
    sx.reach(lang)
    base = sx.choice('base', ['nsubj', 'nsubj:pass', 'conj', 'obl', 'nmod', 'advcl', 'acl', 'xobl', 'ccomp', 'oblx', 'acl_relcl'])
    label = base
    if base not in ('obl', 'nmod', 'advcl', 'acl'):
        label += ':' + sx.str('sub', 1, n, 'abcdefghijklmnopqrstuvwxyz_:')
    sx.check(run(lang, sentence(label), 'other') == label, 'labels without a case stay')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['unknown', 'listed', 'default', 'bare case'],
            bounds='Slovak: any label of a nominal or clause with a preposition of up to n small letters (as in the language) and any case, no adposition in the tree')
def slovak(n):
    table = fixer('sk').unambiguous
    base = sx.choice('base', ['obl', 'obl:arg', 'nmod', 'advcl', 'acl'])
    prep = sx.str('prep', 1, n, 'abcdefghijklmnopqrstuvwxyzž_')
    case = sx.choice('case', ['', 'gen', 'loc', 'acc'])
    tail = ':' + case if case else ''
    label = run('sk', sentence(base + ':' + prep + tail), 'Slovak')
    for k in table:
        if prep == k:
            sx.reach('listed')
            sx.check(label == base + ':' + table[k], 'the form and case of the list')
            return
    want = base + ':' + prep + tail
    if base in NOMINAL and case == '':
        for k, c in (('o', 'acc'), ('po', 'loc'), ('v', 'loc')):
            if prep == k:
                want = base + ':' + k + ':' + c
                sx.reach('default')
    sx.check(label == want, 'other labels stay')
    sx.reach('unknown')
    if base in NOMINAL and case == '' and sx.bool('no preposition'):
        sx.reach('bare case')
        c = sx.choice('bare', ['voc', 'loc', 'gen', 'ins'])
        label = run('sk', sentence(base + ':' + c), 'bare case')
        sx.check(label == (base if c in ('voc', 'loc') else base + ':' + c), 'cases without a preposition')


# language -> (prepositions, cases that are replaced, cases of the adposition that are not believed, default case by preposition)
AMBIGUOUS = {
    'cs': (['mezi', 'na', 'nad', 'o', 'po', 'pod', 'před', 'v', 'za'], ['', 'nom', 'gen', 'dat', 'voc'], ['nom', 'gen', 'dat', 'voc'], None),
    'sk': (['medzi', 'na', 'o', 'po', 'pred', 'v', 'za'], ['', 'nom', 'gen', 'dat', 'voc'], [], None),
    'lt': (['po', 'už'], ['', 'nom', 'voc'], ['nom', 'voc'], {'po': 'acc', 'už': 'acc'}),
    'ru': (['в', 'во', 'на', 'о', 'за', 'под', 'между', 'по', 'с'], ['', 'nom', 'voc'], [],
           {'в': 'loc', 'во': 'loc', 'на': 'loc', 'о': 'loc', 'за': 'acc', 'под': 'acc', 'между': 'gen', 'по': 'dat', 'с': 'ins'})}
# what Czech and Slovak do with a bare preposition whose case no adposition tells
BARE = {'cs': {'mezi': 'ins', 'na': 'loc', 'nad': 'ins', 'o': 'loc', 'po': 'loc', 'pod': 'ins', 'před': 'ins', 'v': 'loc', 'za': 'acc'}, 'sk': {'o': 'acc', 'po': 'loc', 'v': 'loc'}}


@sx.harness(quick=[dict(lang=x) for x in AMBIGUOUS], thorough=[dict(lang=x, more=True) for x in AMBIGUOUS], reach=['told', 'default', 'kept'],
            bounds='every preposition with several cases, relations of nominals, no case or a case that it cannot have, up to two adpositions with these or other lemmas, with any case of three letters or none')
def ambiguous(lang, more=False):
    preps, wrong, refused, default = AMBIGUOUS[lang]
    prep = sx.choice('prep', preps)
    base = sx.choice('base', NOMINAL)
    case = sx.choice('case', wrong[:2] + ['acc'])
    kids, told = [], None
    for i in range(sx.choice('kids', [0, 1, 2])):
        same = sx.bool('same%d' % i)
        value = sx.str('value%d' % i, 3, 3, 'alpha' if more else 'lower') if sx.bool('has%d' % i) else ''
        kids.append((prep if same else 'zz', '_'))
        if same and told is None:
            told = value
        kids[-1] += (value,)
    s = sentence(base + ':' + prep + (':' + case if case else ''), [k[:2] for k in kids])
    for c, k in zip([x for x in s[3].children], kids):
        c.feats['Case'] = k[2]
    label = run(lang, s, 'ambiguous')
    told = told.lower() if told else ''
    if case == 'acc' and (lang != 'ru' or prep in ('на', 'в', 'во', 'о', 'за', 'под', 'по')):
        sx.reach('kept')
        sx.check(label == base + ':' + prep + ':acc', 'a case that the preposition can have stays')
        return
    if told != '' and not any(told == r for r in refused):
        sx.reach('told')
        sx.check(label == base + ':' + prep + ':' + told, 'the case of the adposition')
        return
    if default:
        sx.reach('default')
        if case == 'acc' and lang == 'lt':
            return
        sx.check(label == base + ':' + prep + ':' + default[prep], 'the usual case')
    elif case == '':
        sx.reach('default')
        sx.check(label == base + ':' + prep + (':' + BARE[lang][prep] if prep in BARE[lang] else ''), 'the usual case')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['cs', 'sk', 'lt'],
            bounds='every tree of n words, any word moved under any other one that is not below it in both structures; the word depends on its head in the enhanced graph once, twice or not at all, and on another word or not')
def repair(n):
    lang = sx.choice('lang', ['cs', 'sk', 'lt', 'ru', 'ar'])
    if lang in ('cs', 'sk', 'lt'):
        sx.reach(lang)
    t = sx.tree('t', n)
    k = sx.choice('k', range(1, n + 1))
    node = t.nodes[k]
    for j in range(1, n + 1):
        t.nodes[j].deprel = 'd%d' % j
    to = sx.choice('to', [j for j in range(0, n + 1) if j != k])
    sx.assume(sx.not_(t.anc(k, to)) if to else True)
    old = node.parent
    times = sx.choice('times', [0, 1, 2])
    deps = [{'parent': old, 'deprel': 'x%d' % i} for i in range(times)]
    far = [x for x in t.nodes if x is not old and x is not node][0]
    if sx.bool('far'):
        deps.insert(0, {'parent': far, 'deprel': 'far'})
    node.deps = list(deps)
    fixer(lang)().set_basic_and_enhanced(node, t.nodes[to], 'new', 'enh')
    sx.check(node.parent is t.nodes[to] and node.deprel == 'new', 'the basic relation')
    want = [(id(d['parent']), d['deprel']) for d in deps if d['parent'] is not old] + [(id(t.nodes[to]), 'enh')]
    sx.check([(id(d['parent']), d['deprel']) for d in node.deps] == want, 'the enhanced relations')
    for j in range(1, n + 1):
        if j != k:
            sx.check(t.current(j) == t.head(j) and t.nodes[j].deprel == 'd%d' % j and t.nodes[j].deps == [], 'other words stay')
