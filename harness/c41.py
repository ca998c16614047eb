"""C41: sentences survive the VISL-cg format."""
import io
from udapi.core.document import Document
from udapi.block.read.vislcg import Vislcg as Reader
from udapi.block.write.vislcg import Vislcg as Writer
from sx import api as sx
from harness.common import check_wf
from harness.c40 import printed


def load(text):
    doc = Document()
    Reader(filehandle=io.StringIO(text)).apply_on_document(doc)
    return [t for b in doc.bundles for t in b.trees]


def same(a, b, msg):
    check_wf(b, msg)
    x, y = a.descendants, b.descendants
    sx.check(len(x) == len(y), msg + ': number of words')
    sx.check([n.parent.ord for n in x] == [n.parent.ord for n in y], msg + ': heads')
    sx.check([[w.ord for w in t.words] for t in a.token_descendants] == [[w.ord for w in t.words] for t in b.token_descendants],
             msg + ': tokens')
    for s, t in zip(a.token_descendants, b.token_descendants):
        sx.check(t.form == ('_' if s.form is None else s.form), msg + ': form of a token')
    for t in b.multiword_tokens:
        parts = t.form.split()
        want = parts if len(parts) == len(t.words) else [t.form] + ['_'] * (len(t.words) - 1)
        sx.check(sx.and_(*[w.form == f for w, f in zip(t.words, want)]), msg + ': words of a multi-word token')
    for n, m in zip(x, y):
        for name in ('lemma', 'xpos', 'deprel'):
            v = getattr(n, name)
            sx.check(getattr(m, name) == ('_' if v is None else v), msg + ': ' + name)
        sx.check(str(m.feats) == str(n.feats), msg + ': feats')


def roundtrip(doc, msg):
    text = printed(Writer, doc)
    trees = [t for b in doc.bundles for t in b.trees if t.children]
    got = load(text)
    sx.check(len(got) == len(trees), msg + ': number of sentences')
    for a, b in zip(trees, got):
        same(a, b, msg)
    return text


def fill(x, k):
    x.form, x.lemma, x.xpos, x.feats, x.deprel = 'w%d' % k, 'l%d' % k, 'x', 'A=1|B=2|C=3', 'dep'


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['none', 'inside', 'end', 'all', 'empty sentence'],
            bounds='every tree of n words with a multi-word token over any range or none, followed by a sentence without words or with one, and one more')
def structure(n):
    t = sx.tree('t', n)
    for k, x in enumerate(t.nodes[1:], 1):
        fill(x, k)
    a = sx.fix(sx.int('from', 0, n - 1))
    if a:
        b = sx.fix(sx.int('to', 2, n))
        sx.assume(a < b)
        sx.reach('all' if b - a == n - 1 else 'end' if b == n else 'inside')
        t.root.create_multiword_token(t.nodes[a:b + 1], form=sx.choice('form', ['abc', 'x y', 'x y z', 'x y z u']) if n < 5 else 'x y')
    else:
        sx.reach('none')
    t.root.comment = ''
    second = t.doc.create_bundle().create_tree()
    if sx.bool('second'):
        fill(second.create_child(), 8)
    else:
        sx.reach('empty sentence')
    third = t.doc.create_bundle().create_tree()
    x = third.create_child()
    y = x.create_child()
    fill(x, 6)
    fill(y, 7)
    roundtrip(t.doc, 'structure')


@sx.harness(quick=[dict(size=3)], thorough=[dict(size=5)], reach=['form', 'lemma', 'xpos', 'feats', 'key', 'token', 'unset'],
            bounds='two words, one of them with any form, lemma (also with spaces inside) or XPOS of up to size characters, any feature, or nothing set')
def values(size):
    doc = Document()
    root = doc.create_bundle().create_tree()
    a = root.create_child()
    b = a.create_child()
    fill(a, 1)
    fill(b, 2)
    kind = sx.choice('kind', ['form', 'lemma', 'xpos', 'feats', 'key', 'token', 'unset', 'deprel', 'flags'])
    if kind in ('form', 'lemma', 'token'):
        v = sx.str('value', 1, size, 'text')
        sx.assume(v.strip() == v)
        if sx.bool('escape'):
            # the escape sequences of the format in the value itself
            v = sx.choice('sequence', ['§quot.', '§sect.', '§lpar', '§']) + sx.str('more', 1, 1, 'a.§"')
        if kind == 'token':
            root.create_multiword_token([a, b], form=v)
        else:
            setattr(b, kind, v)
    elif kind == 'xpos':
        b.xpos = sx.str('value', 1, size, 'nospace')
    elif kind == 'feats':
        v = sx.str('value', 1, size, 'nospace')
        sx.assume('|' not in v and v != '_')
        b.feats = 'Aa=' + v + '|B=2'
    elif kind == 'key':
        v = sx.str('value', 1, size, 'nospace')
        sx.assume('|' not in v and '=' not in v)
        b.feats = v + '=x'
    elif kind == 'flags':
        b.feats = 'px3sp|nom'
    elif kind == 'deprel':
        b.deprel = sx.str('value', 1, size, 'nospace')
        sx.assume('"' not in b.deprel)
    else:
        b.form = b.lemma = b.xpos = b.deprel = None
        b.feats = None
    if kind not in ('deprel', 'flags'):
        sx.reach(kind)
    roundtrip(doc, 'values')


@sx.harness(quick=[dict(n=11)], thorough=[dict(n=12), dict(n=102)], reach=['two digits', 'one digit', 'token'],
            bounds='a sentence of n words, each of which depends on the previous one except one that depends on any other, with a multi-word token of its last words or not')
def long_sentence(n):
    doc = Document()
    root = doc.create_bundle().create_tree()
    words = [root]
    for k in range(1, n + 1):
        x = words[-1].create_child()
        fill(x, k)
        words.append(x)
    w = sx.choice('word', [2, 9, n])
    h = sx.choice('head', [k for k in range(min(n, 12)) if k < w] if w > 2 else range(2, min(n, 12)))
    if w == 2 and h > 2:
        words[3].parent = words[1]
        words[h].parent = words[1]
    if not (w == 2 and h == 2):
        words[w].parent = words[h]
    sx.reach('two digits' if h > 9 else 'one digit')
    if sx.bool('token'):
        root.create_multiword_token(words[n - 1:], form='xy')
        sx.reach('token')
    roundtrip(doc, 'long sentence')


EXAMPLE = '''"<a>"
\t"l1" n nom @nsubj #1->3
"<b>"
\t"l2" prn pers p3 sg @nmod:poss #2->3
"<cd>"
\t"l3" n px3sp nom @parataxis #3->0
\t\t"l4" cop aor p3 sg @cop #4->3
'''


@sx.harness(quick=[dict(k=2)], thorough=[dict(k=4)], reach=['terminated', 'open', 'comment', 'twice'],
            bounds='a file with the documented example once or twice, up to k empty lines before, between and after it, comments of up to k characters (followed by an empty line or not), an empty line at the end or not')
def layout(k):
    times = sx.choice('times', [1, 2])
    text = ''
    comment = sx.bool('comment')
    for i in range(times):
        text += '\n' * sx.fix(sx.int('before%d' % i, 0 if i == 0 else 1, k))
        if comment and i == 0:
            c = sx.str('text', 0, k, 'line')
            sx.assume(c.rstrip() == c)
            text = text + '#' + c + '\n' + '\n' * sx.fix(sx.int('after comment', 0, 1))
            sx.reach('comment')
        text = text + EXAMPLE
    after = sx.fix(sx.int('after', 0, k))
    text = text + '\n' * after
    sx.reach('terminated' if after else 'open')
    trees = load(text)
    sx.check(len(trees) == times, 'layout: number of sentences')
    if times == 2:
        sx.reach('twice')
    for i, t in enumerate(trees):
        check_wf(t, 'layout')
        sx.check([(x.lemma, x.xpos, str(x.feats), x.deprel, x.parent.ord) for x in t.descendants] ==
                 [('l1', 'n', 'nom', 'nsubj', 3), ('l2', 'prn', 'pers|p3|sg', 'nmod:poss', 3), ('l3', 'n', 'px3sp|nom', 'parataxis', 0),
                  ('l4', 'cop', 'aor|p3|sg', 'cop', 3)], 'layout: words')
        sx.check([x.form for x in t.token_descendants] == ['a', 'b', 'cd'], 'layout: tokens')
        if comment and i == 0:
            sx.check(t.comment == c + '\n', 'layout: comment')
        else:
            sx.check(t.comment == '', 'layout: comment out of nothing')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['range', 'cycle', 'tree'], bounds='n words with any heads from 0 to n + 1')
def heads(n):
    hs = [sx.fix(sx.int('head%d' % k, 0, n + 1)) for k in range(1, n + 1)]
    text = ''.join('"<w%d>"\n\t"l" x @r #%d->%d\n' % (k, k, h) for k, h in enumerate(hs, 1))
    res = []
    err = sx.raises(Exception, lambda: res.extend(load(text)))
    if any(h > n for h in hs):
        sx.reach('range')
        sx.check(err is not None, 'heads: out of range')
        return
    good = True
    for k in range(1, n + 1):
        x, steps = k, 0
        while x and steps <= n:
            x, steps = hs[x - 1], steps + 1
        good = good and x == 0
    sx.reach('tree' if good else 'cycle')
    sx.check((err is None) == good, 'heads: cycles are errors')
    if good:
        check_wf(res[0], 'heads')
        sx.check([x.parent.ord for x in res[0].descendants] == hs, 'heads')
