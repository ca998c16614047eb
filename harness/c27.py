"""C27: tokenization of raw texts."""
from sx import api as sx
from harness.common import check_tree, check_wf

ESC = {'\\s': ' ', '\\t': '\t', '\\r': '\r', '\\n': '\n'}


def unescape(s):
    out, i = '', 0
    while i < len(s):
        two = s[i:i + 2]
        hit = None
        for e, c in ESC.items():
            if two == e:
                hit = c
        if hit is None:
            out = out + s[i]
            i += 1
        else:
            out = out + hit
            i += 2
    return out


def block(name, **kw):
    if name == 'simple':
        from udapi.block.tokenize.simple import Simple as B
    else:
        from udapi.block.tokenize.onwhitespace import OnWhitespace as B
    return B(**kw)


def raw_tree(text):
    t = sx.tree('t', 0)
    t.root.text = text
    return t


def wordish(c):
    return sx.or_(c.isalnum(), c == '_')


def expected_tokens(text, simple):
    """Maximal runs without white space; for the simple tokenizer runs of letters, digits and underscores, and single other characters."""
    out, cur, curword = [], '', False
    for c in text:
        if c.isspace():
            if cur:
                out.append(cur)
            cur = ''
            continue
        w = bool(wordish(c)) if simple else True
        if cur and simple and not (w and curword):
            out.append(cur)
            cur = ''
        cur, curword = cur + c, w
    if cur:
        out.append(cur)
    return out


@sx.harness(quick=[dict(name='ws', n=5), dict(name='simple', n=4)], thorough=[dict(name='ws', n=8), dict(name='simple', n=6)],
            reach=['empty', 'one', 'more', 'spaces'], bounds='any text of up to n characters (also line breaks and other white space)')
def tokens(name, n):
    text = sx.str('text', 0, n, 'any')
    t = raw_tree(text)
    root = t.root
    block(name).process_tree(root)
    words = root.descendants
    want = expected_tokens(text, name == 'simple')
    sx.reach(['empty', 'one', 'more'][min(len(want), 2)])
    for x in words:
        t.add(x)
    check_wf(root, 'tokenized')
    sx.check([x.parent is root for x in words] == [True] * len(words), 'words hang under the root')
    sx.check(len(words) == len(want) and sx.and_(*[x.form == w for x, w in zip(words, want)]), 'tokens')
    sx.check(root.text == text, 'the text stays')
    sx.check(root.compute_text() == ' '.join(text.split()), 'the computed text is the text up to the amount of white space')
    for x in words[:-1]:
        m = str(x.misc)
        sx.check(m in ('_', 'SpaceAfter=No'), 'space flag')
        if m == '_':
            sx.reach('spaces')
    if words:
        sx.check(str(words[-1].misc) == '_', 'no flag at the end')


@sx.harness(quick=[dict(name='ws', n=4), dict(name='simple', n=3)], thorough=[dict(name='ws', n=6), dict(name='simple', n=5)],
            reach=['before', 'after', 'none', 'single'], bounds='any text of 1 to n characters with something else than white space')
def keep_spaces(name, n):
    text = sx.str('text', 1, n, 'any')
    sx.assume(sx.not_(text.isspace()))
    t = raw_tree(text)
    root = t.root
    block(name, keep_spaces=True).process_tree(root)
    words = root.descendants
    check_wf(root, 'tokenized')
    got = ''
    for i, x in enumerate(words):
        if i == 0 and x.misc['SpacesBefore'] != '':
            sx.reach('before')
            got = got + unescape(x.misc['SpacesBefore'])
        else:
            sx.check('SpacesBefore' not in x.misc, 'spaces before the first word only')
        got = got + x.form
        for c in x.form:
            sx.check(sx.not_(c.isspace()), 'white space in a form')
        after = x.misc['SpacesAfter']
        if x.misc['SpaceAfter'] == 'No':
            sx.reach('none')
            sx.check(after == '', 'both kinds of space flags')
        elif after != '':
            sx.reach('after')
            sx.check(x.misc['SpaceAfter'] == '', 'both kinds of space flags')
            for c in after:
                sx.check(sx.not_(sx.or_(*[c == w for w in ' \t\r\n'])), 'white space is escaped')
            got = got + unescape(after)
        else:
            sx.reach('single')
            got = got + ' '
    sx.check(got == text, 'the text can be reconstructed')
    sx.check(root.text == text, 'the text stays')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['refused'], bounds='trees of 1 to n words, any stored text of up to 3 characters')
def tokenized(n):
    t = sx.tree('t', sx.choice('n', range(1, n + 1)))
    t.root.text = sx.str('text', 0, 3, 'any')
    b = block(sx.choice('name', ['ws', 'simple']), keep_spaces=sx.bool('keep'))
    sx.check(sx.raises(ValueError, b.process_tree, t.root) is not None, 'a tokenized tree is refused')
    sx.reach('refused')
    check_tree(t, 'refused')
    sx.check([x.form for x in t.nodes[1:]] == ['w%d' % k for k in range(1, len(t.nodes))], 'forms stay')
