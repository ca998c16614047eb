"""C47: util.ResegmentGold gives each bundle the predicted words of its gold sentence."""
from udapi.core.document import Document
from udapi.core.root import Root
from udapi.block.util.resegmentgold import ResegmentGold
from sx import api as sx
from harness.common import check_wf

LETTERS = 'abcdef'
# forms with spaces inside, which are not compared
ATOMS = ['a', 'b\u00a00', 'c', 'd e', 'f', 'g']


def cuts(name, size, values):
    """One decision for each place between two characters."""
    return [sx.choice('%s%d' % (name, i), values) for i in range(1, size)] + [2]


def parts(cut, chars):
    """[[words of the sentence]] for the cuts: 0 none, 1 word, 2 sentence."""
    out, word = [[]], ''
    for c, k in zip(chars, cut):
        word += c
        if k:
            out[-1].append(word)
            word = ''
        if k == 2:
            out.append([])
    return out[:-1]


def build(gold, pred, order='gold first'):
    """A document with the sentences of both zones; the trees of the predicted one are arbitrary."""
    doc = Document()
    trees = []
    for i in range(max(len(gold), len(pred))):
        if i < len(pred):
            t = sx.tree('t%d' % i, len(pred[i]), doc=doc)
            for form, x in zip(pred[i], t.nodes[1:]):
                x.form, x.lemma = form, form + '_'
            t.root.zone = 'pred'
            trees.append(t)
            bundle = t.bundle
        else:
            bundle = doc.create_bundle()
        if i < len(gold):
            g = Root(zone='gold')
            bundle.add_tree(g)
            # the last word is the head of the others
            made = [g.create_child(form=form, deprel='d') for form in gold[i]]
            for x in made[:-1]:
                x.parent = made[-1]
    return doc, trees


def flat(doc, zone):
    return [[x.form for x in b.get_tree(zone).descendants] for b in doc]


@sx.harness(quick=[dict(size=4, most=3), dict(size=5, most=2, unreached=('same', 'three', 'merged', 'split'))], thorough=[dict(size=5, most=3), dict(size=6, most=2, unreached=('same', 'three', 'merged', 'split'))],
            reach=['same', 'merged', 'split', 'three', 'both', 'rehanged', 'kept', 'function', 'root by form'],
            bounds='size characters (two of them pairs with a space between) in the predicted words of one or more, with at most most sentences in each zone, any sentence boundaries, any tree of each predicted sentence')
def resegment(size, most, unreached=()):
    chars = ATOMS[:size]
    if size > 4:
        # one word per character, one boundary in each zone
        at, pt = sx.choice('gold', range(1, size)), sx.choice('pred', range(1, size))
        gcut = [2 if i == at else 1 for i in range(1, size)] + [2]
        pcut = [2 if i == pt else 1 for i in range(1, size)] + [2]
        sx.assume(at != pt)
    else:
        pcut = cuts('pred', size, [0, 1, 2])
        # the gold sentences end at ends of predicted words; the words are single characters
        gcut = [sx.choice('gold%d' % i, [1, 2]) if pcut[i - 1] else 1 for i in range(1, size)] + [2]
        sx.assume(pcut.count(2) <= most and gcut.count(2) <= most)
    gold, pred = parts(gcut, chars), parts(pcut, chars)
    doc, trees = build(gold, pred)
    heads, rootwords, func = {}, set(), sx.choice('function', range(sum(map(len, pred)))) if size == 4 and most == 3 and pcut.count(0) == 0 else 0
    words = [x for t in trees for x in t.nodes[1:]]
    for t in trees:
        for k, x in enumerate(t.nodes[1:], 1):
            h = sx.fix(t.head(k))
            heads[x] = t.nodes[h] if h else None
            x.deprel = 'dep'
    single = all(len([x for x in t.nodes[1:] if heads[x] is None]) == 1 for t in trees)
    words[func].deprel = 'aux:x'
    gtrees = [b.get_tree('gold') for b in list(doc)[:len(gold)]]
    ResegmentGold().apply_on_document(doc)
    sx.check([b.get_tree('gold') for b in doc] == gtrees and flat(doc, 'gold') == gold, 'the gold trees stay')
    sx.check([sorted(t.zone for t in b) for b in doc] == [['gold', 'pred']] * len(gold), 'each bundle has one tree of both zones')
    now = flat(doc, 'pred')
    sx.check([''.join(s) for s in now] == [''.join(s) for s in gold], 'each bundle has the same characters in both zones')
    sx.check([f for s in now for f in s] == [f for s in pred for f in s], 'all words, in order')
    sx.check([x for b in doc for x in b.get_tree('pred').descendants] == words, 'the same words')
    sx.check([x.lemma for x in words] == [x.form + '_' for x in words], 'lemmas stay')
    for b in doc:
        tree = b.get_tree('pred')
        check_wf(tree, 'resegmented')
        sx.check(tree.bundle is b and tree.document is doc, 'the tree belongs to its bundle')
        mine = tree.descendants
        changed = now[list(doc).index(b)] not in pred
        if changed:
            sx.check(len(tree.children) == 1, 'one word depends on the root')
            olds = [x for x in mine if heads[x] is None]
            top = tree.children[0]
            if olds:
                sx.check(top in olds, 'which was a root before if there is any')
                gtop = gtrees[list(doc).index(b)].children[0]
                if len(olds) > 1 and olds[0].form != gtop.form and top.form == gtop.form:
                    sx.reach('root by form')
                same = [x for x in olds if x.form == gtop.form]
                # the choice is made also in sentences that are split later
                if same and single:
                    sx.check(top in same or len(gold) > 2 or len(pred) > 2, 'and is the root of the gold tree')
        else:
            sx.reach('same')
        for x in mine:
            if heads[x] in mine:
                sx.check(x.parent is heads[x], 'a word keeps its parent if it is in the sentence')
                sx.reach('kept')
            elif not changed:
                sx.check(x.parent is tree, 'a sentence that needs no change keeps its roots')
            elif heads[x] is not None:
                sx.check(x.misc['Rehanged'] == 'Yes', 'a word that lost its parent is marked')
                sx.reach('rehanged')
            elif x.parent is not tree and single:
                sx.check(x.misc['Rehanged'] == 'Yes', 'a root that got a parent is marked')
            if not changed or heads[x] in mine or single and heads[x] is None and x.parent is tree:
                sx.check(x.misc['Rehanged'] == '', 'other words are not')
    f = words[func]
    if heads[f] is not None:
        lost = heads[f].root is not f.root
        sx.check((heads[f].misc['FuncChildMissing'] == 'Yes') == lost, 'a word that lost a function word is marked')
        if lost:
            sx.reach('function')
    if len(now) < len(pred):
        sx.reach('merged')
    if len(now) > len(pred):
        sx.reach('split')
    if len(now) == len(pred) and len(now) > 1 and now != pred:
        sx.reach('both')
    if len(now) == 3:
        sx.reach('three')


@sx.harness(quick=[dict(size=4)], thorough=[dict(size=5)], reach=['last', 'next', 'twice', 'mwt'],
            bounds='size characters in the predicted words, any sentence boundaries of both zones, one of the words perhaps with a multi-word token')
def crossing(size):
    chars = LETTERS[:size]
    pcut = cuts('pred', size, [0, 1, 2])
    gcut = cuts('gold', size, [1, 2])
    across = [i for i in range(size - 1) if gcut[i] == 2 and pcut[i] == 0]
    sx.assume(bool(across))
    gold, pred = parts(gcut, chars), parts(pcut, chars)
    doc = Document()
    words, first = [], True
    for i in range(max(len(gold), len(pred))):
        bundle = doc.create_bundle()
        if i < len(gold):
            g = bundle.create_tree(zone='gold')
            for form in gold[i]:
                g.create_child(form=form)
        if i < len(pred):
            t = bundle.create_tree(zone='pred')
            top = t
            for form in pred[i]:
                x = top.create_child(form=form, lemma=form + '_', deprel='dep')
                words.append(x)
                top = x if top is t else top
            if len(pred[i]) > 1 and first and sx.bool('mwt'):
                # the second word of the token has no form of its own in the text
                x = top.create_child(form='+', lemma='+', deprel='dep')
                x.shift_after_node(top, without_children=True)
                words.insert(words.index(top) + 1, x)
                t.create_multiword_token([top, x], form=top.form)
                sx.reach('mwt')
            first = False
    ResegmentGold().apply_on_document(doc)
    sx.check(flat(doc, 'gold') == gold, 'the gold trees stay')
    sx.check([sorted(t.zone for t in b) for b in doc] == [['gold', 'pred']] * len(gold), 'each bundle has one tree of both zones')
    done = 0
    for i, b in enumerate(doc):
        tree = b.get_tree('pred')
        check_wf(tree, 'crossing')
        done += len(gold[i])
        end = done
        while end < size and pcut[end - 1] == 0:
            end += 1
        if end > done and pcut[end - 1] == 1:
            pcut[end - 1] = 0       # its rest goes to the next word
        text = ''.join(x.form for x in tree.token_descendants)
        sx.check(text == chars[done - len(gold[i]):end], 'the characters of the sentence and the end of the crossing word')
        for m in tree.multiword_tokens:
            sx.check(all(w.root is tree for w in m.words), 'a token is in one sentence')
    # the rest of a crossing word that ends a predicted sentence is a word of its own
    every = [x for b in doc for x in b.get_tree('pred').descendants]
    olds = [x for x in every if x in words]
    sx.check(olds == words and [x.lemma for x in words if x.lemma == '+' or not x.form.endswith(x.lemma[:-1])] in ([], ['+']), 'all words, in order')
    for x in every:
        if x not in words:
            sx.check(x.deprel == 'wrong' and x.misc['Rehanged'] == 'Yes', 'new words are marked')
            sx.reach('last')
    if any(x.lemma != '+' and x.form != x.lemma[:-1] for x in words if not x.multiword_token):
        sx.reach('next')
    if len(across) > 1:
        sx.reach('twice')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5), dict(n=6)], reach=['nearest', 'second sentence', 'left alone'],
            bounds='n one-word predicted sentences of two forms that belong to one gold sentence (and a further word) or n predicted words under the root of one tree that belongs to two gold sentences, any word as the root of the gold tree')
def roots(n):
    doc = Document()
    forms = [sx.choice('form%d' % k, 'ab') for k in range(n)]
    merge = sx.bool('merge')
    cut = n if merge else sx.choice('cut', range(1, n))
    gtop = [sx.choice('gold root', range(cut)), 0 if merge else sx.choice('second gold root', range(n - cut))]
    gold = [forms[:cut], ['x'] if merge else forms[cut:]]
    for i in range(2):
        g = doc.create_bundle().create_tree(zone='gold')
        made = [g.create_child(form=f) for f in gold[i]]
        for k, x in enumerate(made):
            if k != gtop[i]:
                x.parent = made[gtop[i]]
    words, bundles = [], list(doc)
    if merge:
        for k, f in enumerate(forms + ['x']):
            b = bundles[k] if k < 2 else doc.create_bundle()
            words.append(b.create_tree(zone='pred').create_child(form=f))
    else:
        t = bundles[0].create_tree(zone='pred')
        words = [t.create_child(form=f) for f in forms]
    ResegmentGold().apply_on_document(doc)
    sx.check(flat(doc, 'pred') == gold and flat(doc, 'gold') == gold, 'the words of each sentence')
    for i, part in enumerate((range(cut), range(cut, len(words)))):
        tree = bundles[i].get_tree('pred')
        mine = [words[k] for k in part]
        sx.check(tree.descendants == mine, 'the same words')
        check_wf(tree, 'roots')
        want = gold[i][gtop[i]]
        if merge and i == 1:
            sx.check(mine[0].parent is tree and mine[0].misc['Rehanged'] == '', 'a sentence that needs no change')
            sx.reach('left alone')
            continue
        dist = lambda k: abs(k - gtop[i])
        same = [k for k in range(len(mine)) if mine[k].form == want]
        best = min(same, key=dist)
        top = tree.children[0]
        sx.check(len(tree.children) == 1 and top in mine and top.form == want and dist(mine.index(top)) == dist(best), 'the root is the nearest word with the form of the gold root')
        if len(same) > 1:
            sx.reach('nearest')
        for x in mine:
            if x is not top:
                sx.check(x.parent is top, 'the others depend on it')
        if i:
            sx.reach('second sentence')
