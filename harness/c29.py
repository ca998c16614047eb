"""C29: the picture of a tree, read back by following its lines."""
from sx import api as sx
from harness.common import heads_now

UP, DOWN, LEFT, RIGHT = 1, 2, 4, 8
LINES = {'─': LEFT | RIGHT, '╼': LEFT | RIGHT, '┾': UP | DOWN | LEFT | RIGHT, '┮': DOWN | LEFT | RIGHT, '┶': UP | LEFT | RIGHT,
         '│': UP | DOWN, '╭': DOWN | RIGHT, '╰': UP | RIGHT, '├': UP | DOWN | RIGHT, '┡': UP | DOWN | RIGHT, '┢': UP | DOWN | RIGHT}


def read_picture(lines, words, root_line):
    """Returns (index of the line of the head of each line, None for the top), or a complaint.

    A line of a word: ... branch glyph, horizontal line, end (a node glyph or the end of a leaf) ... word ...
    Each branch glyph belongs to a vertical line that contains exactly one node glyph: the head."""
    n = len(lines)
    branch, end = [None] * n, [None] * n
    at = []
    for i, line in enumerate(lines):
        p = -1
        if i != root_line:
            p = line.find(words[i])
            if p < 0 or line.find(words[i], p + 1) >= 0:
                return 'word %d is not in its line exactly once' % i
        for j, w in enumerate(words):
            if j not in (i, root_line) and line.find(w) >= 0:
                return 'word %d is in the line of word %d' % (j, i)
        at.append(p)
    for i, line in enumerate(lines):
        for c, ch in enumerate(line):
            if ch in '╭╰├┡┢':
                if branch[i] is not None:
                    return 'line %d has two branches' % i
                branch[i] = c
            elif ch in '┾┮┶':
                if end[i] is not None:
                    return 'line %d has two nodes' % i
                end[i] = c
    for i, line in enumerate(lines):
        if branch[i] is None:
            if i != root_line:
                return 'line %d has no branch' % i
        else:
            c = branch[i] + 1
            while c < len(line) and line[c] in '─╪':
                c += 1
            if c >= len(line) or line[c] not in '┾┮┶╼':
                return 'the branch of line %d leads nowhere' % i
            if line[c] == '╼':
                if end[i] is not None:
                    return 'line %d has a leaf and a node' % i
            elif end[i] != c:
                return 'the branch of line %d leads to another node' % i
            if i != root_line and at[i] < c:
                return 'the word of line %d stands before its node' % i
    heads = [None] * n
    for i, line in enumerate(lines):
        c = branch[i]
        if c is None:
            continue
        found = []
        for step, towards, back in ((-1, UP, DOWN), (1, DOWN, UP)):
            if not LINES[line[c]] & towards:
                continue
            j = i
            while True:
                j += step
                if not 0 <= j < n or c >= len(lines[j]):
                    return 'the vertical line at line %d breaks' % i
                g = lines[j][c]
                if g == '╪':
                    continue
                if not LINES.get(g, 0) & back:
                    return 'the vertical line at line %d breaks' % i
                if g in '┾┮┶':
                    found.append(j)
                if not LINES[g] & towards or g in '┾┮┶':
                    break
        if len(found) != 1:
            return 'line %d has %d heads' % (i, len(found))
        heads[i] = found[0]
        g = line[c]
        if g == '┡' and not found[0] < i or g == '┢' and not found[0] > i:
            return 'hint of line %d is wrong' % i
    return heads


def picture(node, **kw):
    """Draw and return the lines of the tree."""
    import sys
    old, out = sys.stdout, sx.out()
    sys.stdout = out
    try:
        node.draw(color=False, print_sent_id=False, print_text=False, add_empty_line=False, **kw)
    finally:
        sys.stdout = old
    text = out.getvalue()
    sx.check(text.endswith('\n'), 'the last line is terminated')
    return text.split('\n')[:-1]


LENGTHS = ['abc', 'ab', 'a', 'abcd', 'x', 'xy']


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['classic', 'compact', 'align-words', 'align', 'nonprojective', 'no hints', 'marked'],
            bounds='every tree of up to n words with forms of different lengths; the four layouts, indent 1 or 2, with and without hints and '
                   'minimizing of crossings, one word marked')
def whole_tree(n):
    t = sx.tree('t', n)
    layout = sx.choice('layout', ['classic', 'compact', 'align-words', 'align'])
    kw = dict(layout=layout, attributes='form,upos')
    opt = sx.choice('options', ['default', 'indent', 'hints', 'cross', 'mark'])
    if opt == 'indent':
        kw['indent'] = 2
    elif opt == 'hints':
        kw['hints'] = False
        sx.reach('no hints')
    elif opt == 'cross':
        kw['minimize_cross'] = False
    words = ['']
    for k in range(1, n + 1):
        t.nodes[k].form = 'w%d' % k + LENGTHS[k - 1]
        t.nodes[k].upos = 'U%d' % k
        words.append('w%d' % k + LENGTHS[k - 1])
    if opt == 'mark':
        marked = sx.choice('marked', range(1, n + 1))
        t.nodes[marked].misc = 'Mark=1'
        sx.reach('marked')
    before = [t.nodes[k].parent.ord for k in range(1, n + 1)]
    lines = picture(t.root, **kw)
    sx.reach(layout)
    sx.check(len(lines) == n + 1, 'one line per word and one for the root')
    heads = read_picture(lines, words, 0)
    sx.check(not isinstance(heads, str), 'the picture: %s' % heads)
    sx.check(heads[1:] == before, 'the drawn heads')
    for k in range(1, n + 1):
        w = words[k]
        mark = opt == 'mark' and k == marked
        if layout == 'align':
            tail = lines[k][lines[k].index(w) + len(w):].split()
            sx.check(tail[:1] == ['U%d' % k] or mark, 'the requested attributes in columns')
        else:
            want = ' **%s U%d**' % (w, k) if mark else ' %s U%d' % (w, k)
            sx.check(want in lines[k], 'the requested attributes next to the word')
    if any(t.nodes[k].is_nonprojective() for k in range(1, n + 1)):
        sx.reach('nonprojective')
    sx.check([t.nodes[k].parent.ord for k in range(1, n + 1)] == before, 'drawing changes nothing')
    sx.check([x.ord for x in t.root.descendants] == list(range(1, n + 1)), 'drawing changes nothing')
    if layout == 'align':
        cols = set()
        for k in range(1, n + 1):
            cols.add(lines[k].index('U%d' % k))
        sx.check(len(cols) == 1 or opt == 'mark', 'aligned columns')


@sx.harness(quick=[dict(n=4)], thorough=[dict(n=5)], reach=['foreign line', 'leaf'],
            bounds='the subtree of any word of any tree of n words, drawn alone, two layouts')
def subtree(n):
    t = sx.tree('t', n)
    k = sx.choice('node', range(1, n + 1))
    words = []
    for i in range(1, n + 1):
        t.nodes[i].form = 'w%d' % i
    node = t.nodes[k]
    members = [i for i in range(1, n + 1) if t.nodes[i] is node or t.nodes[i].is_descendant_of(node)]
    if members[-1] - members[0] + 1 > len(members):
        sx.reach('foreign line')
    if len(members) == 1:
        sx.reach('leaf')
    lines = picture(node, layout=sx.choice('layout', ['classic', 'align']), attributes='form')
    sx.check(len(lines) == len(members), 'one line per word of the subtree')
    if len(members) == 1:
        sx.check('w%d' % k in lines[0], 'the word itself')
        return
    top = members.index(k)
    words = ['w%d' % i for i in members]
    sx.check(words[top] in lines[top], 'the top word')
    heads = read_picture(lines, words, None)
    want = [members.index(t.nodes[i].parent.ord) if i != k else None for i in members]
    if isinstance(heads, str):
        # the top node has no branch
        heads = read_picture([x.replace(words[top], ' ' * len(words[top])) if i == top else x for i, x in enumerate(lines)], words, top)
    sx.check(not isinstance(heads, str), 'the picture: %s' % heads)
    sx.check(heads == want, 'the drawn heads')


@sx.harness(quick=[dict(n=3, m=2)], thorough=[dict(n=4, m=2)], reach=['shown', 'hidden'],
            bounds='every tree of n words with m empty nodes anywhere, printed or not')
def with_empty(n, m):
    t = sx.tree('t', n)
    for k in range(1, n + 1):
        t.nodes[k].form = 'w%d' % k
    for i in range(m):
        at = sx.choice('at%d' % i, range(n + 1))
        if at:
            t.nodes[at].create_empty_child('dep', after=True, form='e%d' % i)
        else:
            t.nodes[1].create_empty_child('dep', after=False, form='e%d' % i)
    show = sx.bool('print_empty')
    sx.reach('shown' if show else 'hidden')
    lines = picture(t.root, print_empty=show, attributes='form', layout=sx.choice('layout', ['classic', 'compact']))
    order = t.root.descendants_and_empty if show else t.root.descendants
    sx.check(len(lines) == len(order) + 1, 'one line per word and empty node')
    rows, words, back = [], [], {}
    for i, node in enumerate([t.root] + order):
        line = lines[i]
        if i and node.is_empty():
            sx.check(node.form in line, 'empty nodes in their place')
            sx.check(not any(c in line for c in '╭╰├┡┢┾┮┶╼'), 'an empty node has no edges')
            for other in t.root.descendants_and_empty:
                sx.check(other is node or other.form not in line, 'one node per line')
            line = line.replace(node.form, '  ')
        back[id(node)] = i
        rows.append(line)
        words.append('' if i == 0 else node.form)
    # the lines of empty nodes carry vertical lines only
    keep = [i for i in range(len(rows)) if i == 0 or not order[i - 1].is_empty()]
    for i in range(len(rows)):
        if i not in keep:
            for c, ch in enumerate(rows[i]):
                above = next(r for r in range(i, -1, -1) if r in keep)
                below = [r for r in range(i, len(rows)) if r in keep]
                if ch in '│╪':
                    sx.check(below and c < len(rows[above]) and c < len(rows[below[0]]), 'the line goes on')
                    sx.check(LINES.get(rows[above][c], UP | DOWN) & DOWN and LINES.get(rows[below[0]][c], UP | DOWN) & UP, 'the line goes on')
                else:
                    sx.check(ch in ' ─', 'nothing else in the line of an empty node')
    heads = read_picture([rows[i] for i in keep], [words[i] for i in keep], 0)
    sx.check(not isinstance(heads, str), 'the picture: %s' % heads)
    sx.check(heads[1:] == [t.nodes[k].parent.ord for k in range(1, n + 1)], 'the drawn heads')


ATTRS = ['form', 'lemma', 'upos', 'deprel', 'feats', 'misc', 'ord']


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=4)], reach=['unset', 'set', 'header'],
            bounds='two words; any attribute with any value of up to size characters or none, any replacement for missing values')
def attributes(size):
    import sys
    from udapi.core.document import Document
    doc = Document()
    root = doc.create_bundle().create_tree()
    a, b = root.create_child(form='a'), None
    b = a.create_child(form='b')
    attr = sx.choice('attr', ATTRS)
    undef = sx.choice('undef', ['_', ''])
    v = undef
    if attr == 'ord':
        v = '2'
    elif sx.bool('set') or attr == 'form':
        v = sx.str('v', 1, size, 'nospace')
        setattr(b, attr, v)
        v = getattr(b, attr)
        if attr in ('feats', 'misc'):
            v = str(v)
        sx.reach('set')
    else:
        if attr in ('feats', 'misc'):
            v = '_'
        sx.reach('unset')
    old, out = sys.stdout, sx.out()
    sys.stdout = out
    root.text = 't'
    header = sx.bool('header')
    try:
        root.draw(color=False, attributes='ord,' + attr + ',form', print_undef_as=undef, mark='', print_sent_id=header, print_text=header)
    finally:
        sys.stdout = old
    lines = out.getvalue().split('\n')
    if header:
        sx.reach('header')
        sx.check(lines[0] == '# sent_id = 1' and lines[1] == '# text = t', 'header')
        lines = lines[2:]
    sx.check(len(lines) == 5 and lines[3] == '' and lines[4] == '', 'three lines and an empty one')
    form = v if attr == 'form' else 'b'
    sx.check(lines[2] == '     ╰─╼ 2 ' + v + ' ' + form or lines[2] == '   ╰─╼ 2 ' + v + ' ' + form, 'the line of the word')


def plain_text(text):
    """The text without terminal colours, and which characters are in reverse video."""
    chars, rev, on, i = '', [], False, 0
    while i < len(text):
        if text[i] == '\x1b':
            j = text.index('m', i)
            code = text[i + 2:j]
            on = False if code == '0' else on or code == '7'
            i = j + 1
            continue
        chars += text[i]
        rev.append(on)
        i += 1
    return chars, rev


@sx.harness(quick=[dict(m=2)], thorough=[dict(m=3)], reach=['hidden', 'only an empty node', 'subtree'],
            bounds='a sentence of two words and m empty nodes in any places, any of which are marked; drawn as a whole or the subtree of the second word')
def marked_empty(m):
    import sys
    from udapi.core.document import Document
    from udapi.block.write.textmodetrees import TextModeTrees
    root = Document().create_bundle().create_tree()
    a = root.create_child(form='a')
    b = a.create_child(form='b')
    c = b.create_child(form='c')
    places, last = {}, 0
    for i in range(m):
        last = sx.choice('after%d' % i, range(last, 4))
        e = [a, b, c][last - 1].create_empty_child('dep', form='e%d' % i) if last else root.create_empty_child(form='e%d' % i)
        if not last:
            e.ord = '0.%d' % (i + 1)
        places[id(e)] = last
    nodes = root.descendants_and_empty
    marked = [x for i, x in enumerate(nodes) if sx.bool('mark%d' % i)]
    for x in marked:
        x.misc['Mark'] = '1'
    some = sx.bool('marked_only')
    sub = sx.bool('subtree')
    old, out = sys.stdout, sx.out()
    sys.stdout = out
    try:
        TextModeTrees(print_sent_id=False, print_text=False, add_empty_line=False, marked_only=some, color=False, attributes='form').process_tree(b if sub else root)
    finally:
        sys.stdout = old
    if sub:
        sx.reach('subtree')
        nodes = [x for x in nodes if x is b or x is c or places.get(id(x)) == 2]
        marked = [x for x in marked if any(x is y for y in nodes)]
    want = [] if sub else ['']
    if some and not marked:
        want = []
        nodes = []
        sx.reach('hidden')
    elif marked and all(x.is_empty() for x in marked):
        sx.reach('only an empty node')
    got = out.getvalue().split('\n')[:-1]
    sx.check(len(got) == len(want) + len(nodes), 'one line for each word')
    for line, x in zip(got[len(want):], nodes):
        form = '**' + x.form + '**' if any(x is y for y in marked) else x.form
        sx.check(line.endswith(' ' + form) and ('**' in line) == ('**' in form), 'exactly the marked words are highlighted')


COMMENTS = {None: [], ' a': [], ' Mark = e\n': [0], ' b\n Bug = e\n c': [1], ' Mark=e': [], ' x Mark = e': []}


@sx.harness(quick=[dict()], thorough=[dict(all=True)], reach=['colour', 'reverse', 'comment', 'hidden', 'subtree', 'meta', 'no marks'],
            bounds='two sentences, the first with one of six comments and one of four MISC values, drawn with any switches of headers, comments, colours, marks and marked trees; a '
                   'subtree drawn alone')
def headers(all=False):
    import sys
    from udapi.core.document import Document
    from udapi.block.write.textmodetrees import TextModeTrees
    doc = Document()
    doc.meta = {'_hidden': 'x', 'k2': 'v2', 'k1': 'v1'}
    root, other = doc.create_bundle().create_tree(), doc.create_bundle().create_tree()
    a = root.create_child(form='a', upos='X')
    b = a.create_child(form='b', upos='X')
    other.create_child(form='o', upos='Y')
    root.text, other.text = 'stored', 'o'
    root.comment = sx.choice('comment', list(COMMENTS))
    b.misc = sx.choice('misc', ['_', 'Mark=1', 'XBug=1', 'Note=Mark'])
    sid, txt, empty, meta = (sx.bool(x) for x in ('sent_id', 'text', 'empty line', 'meta')) if all else (True, sx.bool('text'), sx.bool('empty line'), sx.bool('meta'))
    comments, colour, some = sx.bool('comments'), sx.bool('colour'), sx.bool('marked_only')
    mark = sx.choice('marks', ['default', 'none', 'own'])
    kw = {'default': {}, 'none': dict(mark=''), 'own': dict(mark='Note')}[mark]
    sub = sx.bool('subtree')
    old, out = sys.stdout, sx.out()
    sys.stdout = out
    try:
        block = TextModeTrees(print_sent_id=sid, print_text=txt, add_empty_line=empty, print_doc_meta=meta, print_comments=comments, color=colour, marked_only=some,
                              attributes='form,upos', **kw)
        block.before_process_document(doc)
        for t in [b] if sub else [root, other]:
            block.process_tree(t)
        block.after_process_document(doc)
    finally:
        sys.stdout = old
    text, rev = plain_text(out.getvalue())
    node_mark = {'default': b.misc['Mark'] != '' or b.misc['XBug'] != '', 'none': False, 'own': b.misc['Note'] != ''}[mark]
    lines_marked = COMMENTS[root.comment] if mark == 'default' and comments and not sub else []
    want = ['k1 = v1', 'k2 = v2'] if meta else []
    if meta:
        sx.reach('meta')
    reverse = set()
    for t in [b] if sub else [root, other]:
        if some and not (t is not other and (node_mark or lines_marked)):
            sx.reach('hidden')
            continue
        if sid:
            want.append('# sent_id = ' + {root: '1', other: '2', b: '1#2'}[t])
        if txt:
            want.append('# text = ' + {root: 'stored', other: 'o', b: 'b'}[t])
        if t is root and comments and root.comment:
            for i, line in enumerate(root.comment.rstrip().split('\n')):
                if i in lines_marked and colour:
                    reverse.add((len(want), line.split('=')[0] + '= '))
                    sx.reach('comment')
                want.append('#' + line)
        star = lambda s: ' **%s**' % s if node_mark and not colour else ' ' + s
        if node_mark and colour and t is not other:
            reverse |= {(len(want) + (0 if sub else 2), 'b'), (len(want) + (0 if sub else 2), 'X')}
            sx.reach('reverse')
        want += ['─╼' + star('b X')] if sub else ['─┮', ' ╰─┮ a X', '   ╰─╼' + star('b X')] if t is root else ['─┮', ' ╰─╼ o Y']
        if empty:
            want.append('')
    if sub:
        sx.reach('subtree')
    if mark == 'none':
        sx.reach('no marks')
    if colour:
        sx.reach('colour')
    got = text.split('\n')
    sx.check(got == want + [''], 'the printed lines')
    if not colour:
        sx.check('\x1b' not in out.getvalue(), 'no colours')
    found, run, line = set(), '', 0
    for c, on in list(zip(text, rev)) + [('', False)]:
        if on and c != '\n':
            run += c
            continue
        if run:
            found.add((line, run))
            run = ''
        line += c == '\n'
    sx.check(found == reverse, 'what is highlighted')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['after a bigger tree', 'subtree'],
            bounds='any tree of n words drawn after another tree by the same block, with any of the four layouts, empty words printed or not and '
                   'any words marked, against the picture by a new block')
def drawn_again(n):
    import sys
    from udapi.block.write.textmodetrees import TextModeTrees
    t = sx.tree('t', n)
    for k in range(1, n + 1):
        t.nodes[k].form = 'w%d' % k + LENGTHS[k - 1]
        t.nodes[k].upos = 'U%d' % k
        t.nodes[k].deprel = 'd%d' % k
    sub = sx.choice('marked', range(n + 1))
    if sub:
        t.nodes[sub].misc = 'Mark=1'
    other = t.doc.create_bundle().create_tree()
    first, kind = None, sx.choice('before', ['chain', 'word', 'empty', 'itself'])
    if kind == 'chain':
        node = other
        for k in range(n + 2):
            node = node.create_child(form='longword%d' % k, upos='X', deprel='dep')
        node.misc = 'Mark=1'
        sx.reach('after a bigger tree')
    elif kind == 'word':
        other.create_child(form='o', upos='Y', deprel='root')
    elif kind == 'empty':
        other.create_child(form='o', upos='Y', deprel='root').create_empty_child('dep', form='e', upos='Z')
    kw = dict(layout=sx.choice('layout', ['classic', 'compact', 'align-words', 'align']), attributes='form,upos,deprel',
              color=False, print_empty=sx.bool('print_empty'))
    at = sx.choice('node', range(n + 1))
    if at:
        sx.reach('subtree')

    def drawn(block, trees):
        old, out = sys.stdout, sx.out()
        sys.stdout = out
        try:
            for tree in trees:
                block.process_tree(tree)
        finally:
            sys.stdout = old
        return out.getvalue()
    before = t.nodes[at] if kind == 'itself' else other
    used = TextModeTrees(**kw)
    one = drawn(used, [before])
    two = drawn(used, [t.nodes[at]])
    sx.check(two == drawn(TextModeTrees(**kw), [t.nodes[at]]), 'the picture does not depend on what was drawn before')
    if kind == 'itself':
        sx.check(one == two, 'the same picture twice')
