from sx import api as sx
from harness.common import check_tree

FLAGS = [None, 'SpaceAfter=No', 'SpaceAfter=Yes', 'X=No']


def expected(items):
    """items: (form, no space after)"""
    s = ''
    for i, (form, tight) in enumerate(items):
        s = s + form
        if not tight and i < len(items) - 1:
            s = s + ' '
    return s


@sx.harness(quick=[dict(n=4, what='root'), dict(n=4, what='subtree'), dict(n=2, what='both')],
            thorough=[dict(n=5, what='root'), dict(n=5, what='subtree'), dict(n=3, what='both')],
            reach=['token'],
            bounds='n words with any forms of up to 2 characters (no white space), any space flags, one multi-word token over any range '
                   'or none; text of the sentence and of the subtree of any word, with and without multi-word tokens')
def text(n, what):
    t = sx.tree('t', n)
    root = t.root
    lo = sx.choice('lo', range(0, n + 1))
    tok = None
    forms, tight = {}, {}
    for k in range(1, n + 1):
        forms[k] = sx.str('form%d' % k, 1, 1, 'field')
        t.nodes[k].form = forms[k]
    if lo:
        hi = sx.choice('hi', range(lo, n + 1))
        tform = sx.str('token', 1, 1, 'field')
        tok = root.create_multiword_token(t.nodes[lo:hi + 1], form=tform)
        ttight = sx.bool('ttight')
        if ttight:
            tok.misc['SpaceAfter'] = 'No'
    for k in range(1, n + 1):
        f = sx.choice('flag%d' % k, FLAGS if k == 2 else FLAGS[:2]) if what != 'subtree' else FLAGS[k % 2]
        if f:
            t.nodes[k].misc = f
        tight[k] = f == FLAGS[1]
    use = sx.choice('use_mwt', [True, False, 'default'])
    k = 0 if what == 'root' else sx.choice('node', range(1, n + 1))
    sub = [m for m in range(1, n + 1) if k == 0 or m == k or t.anc(k, m)]
    sx.reach('subtree' if k else 'root')
    items, done = [], False
    for m in sub:
        if tok is not None and use is not False and lo <= m <= hi:
            if not done:
                items.append((tform, ttight))
                sx.reach('token')
                if not set(range(lo, hi + 1)) <= set(sub):
                    sx.reach('split token')
            done = True
        else:
            items.append((forms[m], tight[m]))
    got = t.nodes[k].compute_text() if use == 'default' else t.nodes[k].compute_text(use_mwt=use)
    sx.check(got == expected(items), 'computed text')
    if k == 0:
        sx.check(root.text is None, 'computing the text stored it')
        sx.check(root.get_sentence() == root.compute_text(), 'sentence without stored text')
    check_tree(t, 'after computing the text')
    sx.observe(got)


@sx.harness(quick=[dict(n=5)], thorough=[dict(n=6)], reach=['two', 'split', 'whole'],
            bounds='n words, two multi-word tokens over any disjoint ranges of at least two words, of any tree; text of the subtree of any word or of the sentence')
def tokens(n):
    t = sx.tree('t', n)
    for m in range(1, n + 1):
        t.nodes[m].form = 'w%d' % m
    a = sx.choice('a', range(1, n - 2))
    b = sx.choice('b', range(a + 1, n - 1))
    c = sx.choice('c', range(b + 1, n))
    d = sx.choice('d', range(c + 1, n + 1))
    t.root.create_multiword_token(t.nodes[a:b + 1], form='X')
    t.root.create_multiword_token(t.nodes[c:d + 1], form='Y')
    k = sx.choice('node', range(0, n + 1))
    sub = [m for m in range(1, n + 1) if k == 0 or m == k or t.anc(k, m)]
    items = []
    for m in sub:
        f = 'X' if a <= m <= b else 'Y' if c <= m <= d else 'w%d' % m
        if f not in items:
            items.append(f)
    sx.check(t.nodes[k].compute_text() == ' '.join(items), 'computed text')
    sx.check([x.form for x in t.root.token_descendants] == (items if k == 0 else [x.form for x in t.root.token_descendants]), 'tokens')
    sx.reach('whole' if k == 0 else 'two')
    if a not in sub and 'X' in items or c not in sub and 'Y' in items:
        sx.reach('split')


@sx.harness(quick=[dict()], thorough=[dict(size=4)], reach=['stored', 'missing', 'fatal'],
            bounds='stored text None or any text of up to size characters, every policy for missing text')
def sentence(size=2):
    t = sx.tree('t', 2)
    root = t.root
    a, b = sx.str('a', 1, 2, 'field'), sx.str('b', 1, 2, 'field')
    t.nodes[1].form, t.nodes[2].form = a, b
    policy = sx.choice('policy', ['detokenize', 'empty', 'warn_detokenize', 'warn_empty', 'fatal', 'default'])
    ask = (lambda: root.get_sentence()) if policy == 'default' else (lambda: root.get_sentence(if_missing=policy))
    if sx.bool('stored'):
        s = sx.str('text', 0, size, 'line')
        root.text = s
        sx.check(ask() == s, 'the stored text is not the sentence')
        sx.reach('stored')
    elif policy == 'fatal':
        sx.check(sx.raises(RuntimeError, ask) is not None, 'missing text was not refused')
        sx.reach('fatal')
    else:
        got = ask()
        sx.check(got == ('' if policy.endswith('empty') else a + ' ' + b), 'sentence for a missing text')
        sx.reach('missing')
    sx.check(root.compute_text() == a + ' ' + b, 'computed text')


@sx.harness(quick=[dict()], thorough=[dict(size=3)], reach=['spaces'],
            bounds='two words whose forms are any texts of up to size characters including spaces')
def spaces(size=2):
    t = sx.tree('t', 2)
    a, b = sx.str('a', 1, size, 'text'), sx.str('b', 1, size, 'text')
    t.nodes[1].form, t.nodes[2].form = a, b
    sx.assume(sx.not_(b[-1].isspace()))
    if sx.bool('tight'):
        t.nodes[1].misc['SpaceAfter'] = 'No'
        sx.check(t.root.compute_text() == a + b, 'computed text')
    else:
        sx.check(t.root.compute_text() == a + ' ' + b, 'computed text')
    if ' ' in a:
        sx.reach('spaces')


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=4)], reach=['tight', 'loose', 'name', 'value'],
            bounds='MISC of the first of two words or of a token: any text of up to size characters before and after SpaceAfter=No')
def flags(size):
    t = sx.tree('t', 2)
    a, b = t.nodes[1:3]
    pre, post = sx.str('pre', 0, size, 'text'), sx.str('post', 0, size, 'text')
    where = sx.choice('where', ['word', 'token'])
    misc = pre + 'SpaceAfter=No' + post
    items = misc.split('|')
    tight = False
    for item in items:
        if item == 'SpaceAfter=No':
            tight = True
    for item in items:
        if item.startswith('SpaceAfter') and item != 'SpaceAfter=No':
            sx.reach('value')
    if where == 'word':
        a.misc = misc
    else:
        t.root.create_multiword_token([a], form=a.form, misc=misc)
    if not tight and pre:
        sx.reach('name')
    sx.reach('tight' if tight else 'loose')
    sx.check(t.root.compute_text() == (a.form + b.form if tight else a.form + ' ' + b.form), 'computed text')
