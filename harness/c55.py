"""C55: the report of syntactic complexity (demo.Complexity)."""
from sx import api as sx
from harness.c40 import printed
from harness.c52 import heads_of, below

# what a word can be: part of speech, relation, features
KINDS = {
    'v': ('VERB', 'root', 'VerbForm=Fin'), 'r': ('VERB', 'acl:relcl', 'VerbForm=Part'), 'c': ('VERB', 'conj', 'VerbForm=Fin'), 'x': ('VERB', 'xcomp', ''),
    'i': ('VERB', 'ccomp', 'VerbForm=Inf'), 'a': ('ADJ', 'acl', 'VerbForm=Part'), 'm': ('ADJ', 'amod', 'VerbForm=Part'), 'p': ('AUX', 'aux:pass', 'VerbForm=Fin'),
    'k': ('AUX', 'cop', ''), 'n': ('NOUN', 'nsubj', ''), 'N': ('PROPN', 'conj', ''), 'j': ('NOUN', 'root', ''), 'g': ('NOUN', 'nmod', ''),
    's': ('PRON', 'obj', 'PronType=Prs'), 'o': ('PRON', 'nmod', 'Poss=Yes|PronType=Prs'), 'w': ('PRON', 'nsubj', 'PronType=Int,Rel'), 'e': ('CCONJ', 'cc', ''), 'q': ('ADV', 'conj', ''), 'Q': ('ADV', 'advmod', ''),
    'D': ('DET', 'det', ''), 'A': ('ADJ', 'conj', ''), '.': ('PUNCT', 'punct', ''), 't': ('NOUN', 'root:x', ''), 'y': ('ADJ', 'conj', 'VerbForm=Part'), 'u': ('VERB', 'csubj:pass', 'VerbForm=Part'),
    'b': ('ADP', 'case', ''), 'd': ('NOUN', 'dep', ''), 'E': ('CCONJ', 'cc:preconj', ''), 'B': ('NOUN', 'conj:x', ''),
}
CLAUSAL = {'root', 'conj', 'acl', 'advcl', 'ccomp', 'csubj', 'obl', 'parataxis', 'amod', 'dep', 'orphan'}


def oracle(heads, kinds):
    """The groups of words of each category, and the depths."""
    n = len(heads) - 1
    words = range(1, n + 1)
    upos = ['<ROOT>'] + [KINDS[k][0] for k in kinds]
    rel = [''] + [KINDS[k][1] for k in kinds]
    feats = [{}] + [dict(p.split('=') for p in KINDS[k][2].split('|') if p) for k in kinds]
    urel = [r.split(':')[0] for r in rel]
    kids = lambda i: [k for k in words if heads[k] == i]
    under = lambda i: [k for k in words if below(heads, k, i)]
    finite = lambda i: feats[i].get('VerbForm') in ('Fin', 'Part') and (upos[i] == 'VERB' or upos[i] == 'ADJ' and any(rel[c] == 'aux:pass' for c in kids(i)))
    cop = lambda i: any(urel[c] == 'cop' for c in kids(i))

    def clause(i):
        if urel[i] in CLAUSAL and finite(i) or cop(i) and urel[i] != 'xcomp':
            return True
        xc = [c for c in kids(i) if urel[c] == 'xcomp']
        return bool(xc) and cop(xc[0])
    heads_ = [i for i in words if clause(i)]
    np = lambda i: upos[i] in ('NOUN', 'PROPN') or upos[i] == 'PRON' and feats[i].get('PronType') == 'Prs' and 'Poss' not in feats[i]
    vp = lambda i: upos[i] == 'VERB' or i in heads_

    def up(i):
        out = []
        while i:
            out.append(i)
            i = heads[i]
        return out

    def within(i, above=0):
        """The words under i that no clause head separates from it."""
        return [k for k in under(i) if k != i and not any(a in heads_ for a in up(k)[:up(k).index(i)])]

    def own(i):
        """The phrase of a word without its conjuncts and without subordinate clauses."""
        return sorted([i] + [k for k in within(i) if urel[up(k)[up(k).index(i) - 1]] != 'conj'])

    def units(i):
        main = sorted([i] + within(i))
        tops = [k for k in heads_ if k != i and k in under(i) and heads[k] in main]
        return [main + under(k) for k in tops]

    def coordinated(kind):
        out = []
        for i in words:
            conjuncts = [c for c in kids(i) if urel[c] == 'conj' and kind(c)]
            if kind(i) and conjuncts:
                out.append(sorted([i] + conjuncts + [k for c in conjuncts for k in kids(c) if urel[k] == 'cc']))
        return out
    later = lambda i: 0 < heads[i] < i
    relative = [i for i in words if rel[i] == 'acl:relcl' or urel[i] == 'acl' and any('Rel' in feats[c].get('PronType', '') for c in kids(i))]
    t_units = [u for i in kids(0) if rel[i] == 'root' for u in units(i)]
    groups = {
        'clauses': [under(i) for i in heads_],
        'adjectivized_predicates': [[i] for i in words if feats[i].get('VerbForm') == 'Part' and upos[i] == 'ADJ' and i not in heads_
                                    and (upos[heads[i]] in ('NOUN', 'PROPN') or urel[i] == 'conj' and upos[heads[i]] == 'ADJ')],
        'controlled_predicates': [[i] for i in words if rel[i] == 'xcomp'],
        'main_clauses': [own(m) for r in kids(0) for m in [r] + [c for c in kids(r) if urel[c] == 'conj']],
        'coordinated_verb_phrases': coordinated(vp),
        'coordinated_noun_phrases': coordinated(np),
        'coordinated_adjective_phrases': coordinated(lambda i: upos[i] in ('ADJ', 'DET')),
        'coordinated_adverb_phrases': coordinated(lambda i: upos[i] == 'ADV'),
        't-units': t_units,
        'complex_t-units': [u for i in heads_ if rel[i] != 'root' for u in units(i)],
        'relative_clauses': [own(i) for i in relative],
        'postponed_nominal_modifiers': [[i] for i in words if urel[i] != 'conj' and np(i) and later(i) and np(heads[i])],
        'postponed_adjective_modifiers': [[i] for i in words if upos[i] == 'ADJ' and later(i) and np(heads[i])],
        'complex_nominals': [[i] for i in words if np(i) and len([k for k in under(i) if k != i and rel[k] not in ('conj', 'punct', 'case', 'cc', 'dep', 'cop')]) > 1],
    }
    depth = max([len(up(i)) for i in words])
    nested = max([len([a for a in up(i) if a in heads_]) for i in words])
    return groups, depth, nested, upos, t_units, coordinated(lambda i: True)


@sx.harness(quick=[dict(n=3, kinds='vrc.k'), dict(n=3, kinds='vax', ), dict(n=3, kinds='jtNe'), dict(n=3, kinds='ijp'), dict(n=3, kinds='sogn'), dict(n=3, kinds='ymjA'), dict(n=3, kinds='awq'), dict(n=3, kinds='QqD'), dict(n=3, kinds='nbd'),
                   dict(n=3, kinds='uvk'), dict(n=3, kinds='jNE'), dict(n=3, kinds='jBg')],
            thorough=[dict(n=4, kinds='vrc'), dict(n=4, kinds='kax'), dict(n=4, kinds='jNe'), dict(n=4, kinds='vrk'), dict(n=4, kinds='yjm'), dict(n=4, kinds='awn'), dict(n=3, kinds='vrc.kxanNjg'), dict(n=4, kinds='cve'), dict(n=4, kinds='uik')],
            reach=['counts', 'matches'],
            bounds='every tree of n words, each word of one of the listed kinds (part of speech, relation and features), as counts and as the list of matches')
def complexity(n, kinds):
    from udapi.block.demo.complexity import Complexity
    t = sx.tree('t', n)
    heads = heads_of(t, n)
    sx.assume(sx.count([h == 0 for h in heads[1:]]) <= 2)
    ks = [sx.choice('k%d' % k, list(kinds)) for k in range(1, n + 1)]
    matches = sx.bool('matches')
    forms = [sx.choice('f%d' % k, ['(', 'x', '–', ':', ';', '-']) if not matches and k == n else 'x' for k in range(1, n + 1)]
    for k, x in enumerate(t.nodes[1:], 1):
        x.upos, x.deprel, fs = KINDS[ks[k - 1]]
        x.feats = fs
        x.lemma = 'l%d' % k
        x.form = forms[k - 1]
    t.root.sent_id = 's1'
    t.root.text = 'The text.'
    groups, depth, nested, upos, t_units, total = oracle(heads, ks)
    got = printed(Complexity, t.doc, matches=matches).split('\n')
    sx.check(got[0] == '# The text.' and got[-1] == '', 'first line')
    words = [i for i in range(1, n + 1) if upos[i] != 'PUNCT']
    if matches:
        sx.reach('matches')
        want = ['\t'.join([name, 's1', ' '.join('l%d' % i for i in g), ' '.join(upos[i] for i in g), str(len([i for i in g if i in words]))]) for name, gs in groups.items() for g in gs]
        sx.check(sorted(got[1:-1]) == sorted(want), 'listed matches')
    else:
        sx.reach('counts')
        sx.check(len(got) == 3, 'one line of numbers')
        first = [upos[i] for i in words][:2]
        mean = sum(len(u) for u in t_units) / (len(t_units) or 1)
        want = ['s1', str(len(words)), str(depth), str(nested), str(mean)] + [str(len(g)) for g in groups.values()] + [str(len(total))]
        want += first + ['NONE'] * (2 - len(first)) + [str(len([f for f in forms if f in c])) for c in ('(', '-–—―', ':', ';')]
        sx.check([c.strip() for c in got[1].split('\t') if c.strip()] == want, 'numbers')
    sx.check([x.parent.ord for x in t.nodes[1:]] == heads[1:] and [x.lemma for x in t.nodes[1:]] == ['l%d' % k for k in range(1, n + 1)], 'the tree is changed')


@sx.harness(quick=[dict(size=s) for s in (3, 4, 5, 6, 9)] + [dict(size=7, unreached=['clause'])], thorough=[dict(size=s) for s in (3, 4, 5, 6, 9)] + [dict(size=s, unreached=['clause']) for s in (7, 8, 10)], reach=['clause', 'no clause'],
            bounds='two words, the second (a finite verb) depending on the first (a verb) with any relation of size characters, with or without a subtype')
def relation(size, unreached=()):
    from udapi.block.demo.complexity import Complexity
    t = sx.tree('t', 2)
    sx.assume(t.head(1) == 0)
    sx.assume(t.head(2) == 1)
    a, b = t.nodes[1:]
    a.upos, a.deprel, a.lemma, a.form = 'VERB', 'root', 'a', 'a'
    b.upos, b.lemma, b.form = 'VERB', 'b', 'b'
    base = sx.str('rel', size, size, 'lower')
    rel = base + ':' + sx.str('sub', 5, 5, 'lower') if sx.bool('subtype') else base
    b.deprel = rel
    b.feats = 'VerbForm=Fin'
    t.root.sent_id, t.root.text = 's1', 'a b'
    starts = lambda w: sx.eq(base, w)
    universal = lambda ws: sx.or_(*[starts(w) for w in ws])
    clause, conj, xcomp = universal(sorted(CLAUSAL)), starts('conj'), sx.eq(rel, 'xcomp')
    relcl, cop = sx.eq(rel, 'acl:relcl'), starts('cop')
    row = printed(Complexity, t.doc).split('\n')[1]
    clause, conj, xcomp, relcl, cop = [1 if c else 0 for c in (clause, conj, xcomp, relcl, cop)]
    sx.reach('clause' if clause else 'no clause')
    # clauses, adjectivized, controlled, main clauses, verb, noun, adjective, adverb phrases, T-units, complex T-units, relative clauses, modifiers (2), nominals, coordinations
    want = ['s1', '2', '2', str(clause + cop), str(2.0 if clause else 0.0), str(clause + cop), '0', str(xcomp), str(1 + conj), str(conj), '0', '0', '0', str(clause), '0', str(relcl), '0', '0', '0', str(conj)]
    sx.check([c.strip() for c in row.split('\t') if c.strip()][:len(want)] == want, 'numbers')
