"""C40: exported pictures and pages contain exactly the trees."""
import sys
import udapi.core.coref as coref
from udapi.core.document import Document
from udapi.block.write.html import Html
from udapi.block.write.tikz import Tikz
from udapi.block.write.sdparse import Sdparse
from udapi.block.write.treex import Treex
from udapi.block.write.sentenceshtml import SentencesHtml
from udapi.block.write.textmodetrees import TextModeTrees
from udapi.block.write.textmodetreeshtml import TextModeTreesHtml
from sx import api as sx

ATTRS = ('form', 'lemma', 'upos', 'xpos', 'deprel')


def printed(writer, doc, **kw):
    """What the writer prints (it remembers the standard output at its creation)."""
    old, out = sys.stdout, sx.out()
    sys.stdout = out
    try:
        block = writer(**kw)
        block.process_start()
        block.apply_on_document(doc)
        block.process_end()
    finally:
        sys.stdout = old
    return out.getvalue()


class Bad(Exception):
    pass


def must(cond, msg):
    if not cond:
        raise Bad(msg)


def parsed(f, *args):
    """The result of a parser of the harness; what is printed has to be parsable."""
    try:
        return f(*args)
    except (Bad, IndexError) as e:
        sx.fail('the output is not well-formed: %s' % e)


def two(a, b, msg):
    sx.check(a == b if a is not None and b is not None else a is b, msg)


# ------------------------------------------------------------ JSON
def json_value(s, i):
    c = s[i]
    if c == '"':
        i += 1
        out = ''
        while True:
            c = s[i]
            if c == '"':
                return out, i + 1
            if c == '\\':
                i += 1
                c = s[i]
                if c == 'n':
                    c = '\n'
                else:
                    must(c == '"' or c == '\\' or c == '/', 'unknown escape')
            else:
                must(not (c == '\n'), 'line break in a string')
            out = out + c
            i += 1
    if c == '{' or c == '[':
        obj = c == '{'
        close = '}' if obj else ']'
        pairs, items = {}, []
        i = json_space(s, i + 1)
        if s[i] == close:
            return (pairs if obj else items), i + 1
        while True:
            i = json_space(s, i)
            v, i = json_value(s, i)
            i = json_space(s, i)
            if obj:
                must(s[i] == ':', 'colon missing')
                k = v
                must(k not in pairs, 'repeated key')
                v, i = json_value(s, json_space(s, i + 1))
                i = json_space(s, i)
                pairs[k] = v
            else:
                items.append(v)
            if s[i] == ',':
                i += 1
                continue
            must(s[i] == close, 'end of list or object missing')
            return (pairs if obj else items), i + 1
    if s[i:i + 4] == 'null':
        return None, i + 4
    j = i
    while s[j] in '0123456789':
        j += 1
    must(j > i, 'value missing')
    return int(s[i:j]), j


def json_space(s, i):
    while s[i] in ' \n':
        i += 1
    return i


def html_data(doc):
    out = printed(Html, doc)
    a = out.find('<script>\ndata=') if out.find('<script>\ndata=') >= 0 else out.find('<script>data=')
    if a < 0:
        a = out.find('data=')
    a = out.find('data=', a) + 5
    v, i = parsed(json_value, out, json_space(out, a))
    sx.check(out[i:].lstrip()[:1] == ';', 'html: something follows the data')
    sx.check('</' not in out[a:i], 'html: the script ends within the data')
    return v


def check_html(doc):
    data = html_data(doc)
    sx.check(len(data) == len(doc.bundles), 'html: number of bundles')
    for bundle, one in zip(doc.bundles, data):
        trees = list(bundle.trees)
        zones = one['zones']
        sx.check(list(zones) == [t.zone for t in trees], 'html: zones')
        desc = []
        ids = []
        for tree in trees:
            zone = zones[tree.zone]
            sx.check(zone['sentence'] == (tree.text or ''), 'html: sentence')
            nodes = zone['trees']['a']['nodes']
            real = [tree] + tree.descendants
            sx.check(len(nodes) == len(real), 'html: number of nodes')
            id_of = {id(x): d['id'] for x, d in zip(real, nodes)}
            ids += list(id_of.values())
            desc.append('[%s]' % tree.zone)
            two(nodes[0]['parent'], None, 'html: root')
            sx.check(nodes[0]['labels'] == ['zone=' + tree.zone, 'id=' + tree.address()], 'html: labels of the root')
            for x, d in zip(real, nodes):
                kids = [y for y in real[1:] if y.parent is x]
                two(d.get('firstson'), id_of[id(kids[0])] if kids else None, 'html: first child')
                if x is tree:
                    continue
                two(d['parent'], id_of[id(x.parent)], 'html: head')
                right = [y for y in real[1:] if y.parent is x.parent and y.ord > x.ord]
                two(d.get('rbrother'), id_of[id(right[0])] if right else None, 'html: next sibling')
                sx.check(d['order'] == x.ord and d['data']['ord'] == x.ord, 'html: word order')
                for name in ATTRS:
                    two(d['data'][name], getattr(x, name) or '', 'html: ' + name)
                two(d['data']['feats'], str(x.feats), 'html: feats')
                two(d['data']['misc'], str(x.misc), 'html: misc')
                two(d['data']['id'], x.address(), 'html: address')
                sx.check(len(d['labels']) == 3, 'html: labels')
                two(d['labels'][0], x.form or '', 'html: form label')
                two(d['labels'][1], '#{#bb0000}' + (x.upos or ''), 'html: upos label')
                two(d['labels'][2], '#{#0000bb}' + (x.deprel or ''), 'html: deprel label')
                desc.append((x, id_of[id(x)], x.form or '', x.misc['SpaceAfter'] != 'No'))
        sx.check(len(set(ids)) == len(ids), 'html: two nodes have one id')
        got = one['desc']
        want = []
        for x in desc:
            if isinstance(x, str):
                if want:
                    want.append(['\n', 'newline'])
                want += [[x, 'label'], [' ', 'space']]
            else:
                want.append([x[2], x[1]])
                if x[3]:
                    want.append([' ', 'space'])
        want.append(['\n', 'newline'])
        sx.check(len(got) == len(want), 'html: length of the description')
        for a, b in zip(got, want):
            sx.check(len(a) == 2, 'html: description')
            two(a[0], b[0], 'html: text of the description')
            two(a[1], b[1], 'html: references of the description')


# ------------------------------------------------------------ TeX
WORDS = {'textbackslash': '\\', 'textasciitilde': '~', 'textasciicircum': '^'}


def tex_cells(s):
    """Cells of one row of deptext, unescaped."""
    cells, cur, i = [], '', 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            c = s[i + 1]
            i += 2
            if c == '&':
                cells.append(cur.strip(' '))
                cur = ''
            elif c == '\\':
                must(s[i:].strip(' ') == '', 'end of row within a row')
                cells.append(cur.strip(' '))
                return cells
            elif c in '#$%_{}':
                cur = cur + c
            else:
                j = i - 1
                while j < len(s) and s[j] in 'abcdefghijklmnopqrstuvwxyz':
                    j += 1
                name = s[i - 1:j]
                if name == 'symbol':
                    k = s.find('}', j)
                    must(s[j] == '{' and k > 0, 'symbol')
                    cur = cur + chr(int(s[j + 1:k]))
                    i = k + 1
                else:
                    must(name in WORDS and s[j:j + 2] == '{}', 'unknown command')
                    cur = cur + WORDS[name]
                    i = j + 2
        elif c == '$':
            must(s[i + 2] == '$' and (s[i + 1] == '[' or s[i + 1] == ']'), 'mathematics')
            cur = cur + s[i + 1]
            i += 3
        else:
            must(not (c in '&%#_{}~^[]'), 'special character')
            cur = cur + c
            i += 1
    cells.append(cur.strip(' '))
    return cells


def arguments(line, command, k):
    """The k arguments in braces of a command, or None."""
    if not line.startswith(command):
        return None
    i, args = len(command), []
    for _ in range(k):
        must(line[i] == '{', 'argument missing')
        depth, j = 1, i + 1
        while depth:
            if line[j] == '\\':
                j += 1
            elif line[j] == '{':
                depth += 1
            elif line[j] == '}':
                depth -= 1
            j += 1
        args.append(line[i + 1:j - 1])
        i = j
    must(line[i:] == '', 'something follows the arguments')
    return args


def one_cell(s):
    cells = tex_cells(s)
    must(len(cells) == 1, 'one value expected')
    return cells[0]


def tikz_pictures(text, attrs, as_tree):
    """Per picture: rows of cells, heads with relations, enhanced edges, depths, translation."""
    pics, lines = [], [l for l in text.split('\n')]
    i = 0
    while i < len(lines):
        if lines[i] != '\\begin{dependency}':
            must(not lines[i].startswith('\\begin{dep'), 'environment')
            i += 1
            continue
        must(lines[i + 1] == '\\begin{deptext}', 'deptext')
        i += 2
        rows, comments = [], []
        while lines[i] != '\\end{deptext}':
            if lines[i].startswith('%'):
                comments.append(lines[i])
            else:
                must(lines[i].endswith(' \\\\'), 'end of a row')
                rows.append(tex_cells(lines[i]))
            i += 1
        i += 1
        heads, enhanced, level, trans, guides = {}, [], {}, None, []
        while lines[i] != '\\end{dependency}':
            line = lines[i]
            i += 1
            if as_tree and line.startswith('\\node (w'):
                j = line.find(')')
                w = int(line[8:j])
                p, q = line.find('\\depskip+'), line.find('\\deplevel')
                must(w not in level, 'node twice')
                level[w] = int(line[p + 9:q])
                must(line.endswith(' at (\\wordref{1}{%d}) {};' % w), 'position of a node')
            elif as_tree and line.startswith('\\draw'):
                start = '\\draw[depguide] (w'
                must(line.startswith(start), 'guide')
                j = line.find(')')
                w = int(line[len(start):j])
                first = '\\draw[depguide] (w%d)--(\\wordref{1}{%d});' % (w, w)
                must(line.startswith(first), 'guide')
                guides.append(w)
                rest = line[len(first):].strip(' ')
                if rest == '':
                    heads[w] = (0, None)
                else:
                    start = '\\draw[depedge] (w%d)--node[deplabel] ' % w
                    must(rest.startswith(start) and rest.endswith(');'), 'edge')
                    k = rest.rfind(' (w')
                    rel = arguments('x' + rest[len(start):k], 'x', 1)
                    heads[w] = (int(rest[k + 3:-2]), one_cell(rel[0]))
            elif line.startswith('\\deptrans'):
                must(trans is None, 'two translations')
                trans = one_cell(arguments(line, '\\deptrans', 1)[0])
            else:
                done = False
                for command, k in (('\\deproot[edge below]', 2), ('\\depedge[edge below]', 3), ('\\deproot', 2), ('\\depedge', 3)):
                    if line.startswith(command):
                        args = arguments(line, command, k)
                        dep, head, rel = (args[0], 0, args[1]) if k == 2 else (args[1], int(args[0]), one_cell(args[2]))
                        if 'below' in command:
                            enhanced.append((int(dep), head, rel))
                        else:
                            must(int(dep) not in heads, 'two heads')
                            heads[int(dep)] = (head, None if k == 2 else rel)
                        done = True
                        break
                must(done, 'unknown line')
        pics.append((rows, heads, enhanced, level, trans, comments, guides))
        i += 1
    return pics


def check_tikz(doc, attrs='form,upos,deprel', as_tree=False, enhanced=False, comment_attribute=None, trans=None):
    out = printed(Tikz, doc, attributes=attrs, as_tree=as_tree, enhanced=enhanced, comment_attribute=comment_attribute)
    lines = out.split('\n')
    sx.check(lines[0].startswith('\\documentclass') and '\\begin{document}' in lines and lines[-2] == '\\end{document}', 'tikz: document')
    body = '\n'.join(lines[lines.index('\\begin{document}') + 1:-2])
    pics = parsed(tikz_pictures, body, attrs, as_tree)
    trees = [t for b in doc.bundles for t in b.trees]
    sx.check(len(pics) == len(trees), 'tikz: number of trees')
    for tree, (rows, heads, edges, level, tr, comments, guides) in zip(trees, pics):
        nodes = tree.descendants
        names = attrs.split(',')
        sx.check(len(rows) == len(names), 'tikz: rows')
        for name, row in zip(names, rows):
            if not nodes:
                sx.check(row == [''], 'tikz: words out of nothing')
                continue
            sx.check(len(row) == len(nodes), 'tikz: cells')
            for x, cell in zip(nodes, row):
                v = getattr(x, name)
                two(cell, '_' if v is None else v, 'tikz: ' + name)
        sx.check(sorted(heads) == [x.ord for x in nodes], 'tikz: words with a head')
        for x in nodes:
            sx.check(heads[x.ord][0] == x.parent.ord, 'tikz: head')
            if not x.parent.is_root():
                two(heads[x.ord][1], x.deprel or '_', 'tikz: relation')
        if as_tree:
            depth = {x.ord: x._get_attr('depth') for x in nodes}
            sx.check(guides == [x.ord for x in nodes], 'tikz: guides')
            sx.check(level == {o: max(depth.values()) - d for o, d in depth.items()}, 'tikz: levels')
        if enhanced:
            want = [(x.ord, d['parent'].ord, d['deprel']) for x in nodes for d in x.deps if not d['parent'].is_empty()]
            sx.check(len(edges) == len(want), 'tikz: number of enhanced dependencies')
            for a, b in zip(edges, want):
                sx.check(a[0] == b[0] and a[1] == b[1], 'tikz: enhanced heads')
                if b[1]:
                    two(a[2], b[2], 'tikz: enhanced relations')
        two(tr, trans, 'tikz: translation')
        sx.check(comments[0] == '% sent_id = ' + tree.address(), 'tikz: sentence id')
        two(comments[1], '% text = ' + tree.get_sentence(), 'tikz: text')


# ------------------------------------------------------------ Stanford dependencies
def sd_unescape(s):
    out, i, cut = '', 0, None
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 1
            must(i < len(s) and (s[i] == '\\' or s[i] == '/'), 'escape')
            c = s[i]
        elif c == '/':
            must(cut is None, 'two slashes')
            cut = out
            out = ''
            i += 1
            continue
        out = out + c
        i += 1
    return (out, None) if cut is None else (cut, out)


def check_sdparse(doc, print_upos=True, print_feats=False, always_ord=False):
    out = printed(Sdparse, doc, print_upos=print_upos, print_feats=print_feats, always_ord=always_ord)
    lines = out.split('\n')
    for tree in [t for b in doc.bundles for t in b.trees]:
        nodes = tree.descendants
        forms = ['_' if x.form is None else x.form for x in nodes]
        sx.check(lines[0] == '~~~ sdparse', 'sdparse: beginning')
        words = lines[1].split(' ') if nodes else []
        sx.check(len(words) == len(nodes), 'sdparse: number of words')
        for x, form, w in zip(nodes, forms, words):
            got, tag = parsed(sd_unescape, w)
            two(got, form, 'sdparse: form')
            feats = '[%s]' % x.feats if print_feats and str(x.feats) != '_' else ''
            upos = ('_' if x.upos is None else x.upos) if print_upos else ''
            two(tag, (upos + feats) if print_upos or feats else None, 'sdparse: tags')
        i = 2
        for x in nodes:
            if x.parent.is_root():
                continue
            line = lines[i]
            i += 1
            a, b = line.find('('), line.find(', ')
            sx.check(0 < a < b and line.endswith(')'), 'sdparse: relation line')
            two(line[:a], x.deprel or '_', 'sdparse: relation')
            for got, y in ((line[a + 1:b], x.parent), (line[b + 2:-1], x)):
                form = forms[y.ord - 1]
                many = always_ord or len([f for f in forms if f == form]) > 1
                if many:
                    sx.reach('numbered')
                got, more = parsed(sd_unescape, got)
                two(more, None, 'sdparse: slash in a reference')
                two(got, '%s-%d' % (form, y.ord) if many else form, 'sdparse: reference')
        sx.check(lines[i] == '~~~' and lines[i + 1] == '', 'sdparse: end')
        lines = lines[i + 2:]
    sx.check(lines == [''], 'sdparse: something follows')


# ------------------------------------------------------------ XML and HTML
ENTITIES = [('&amp;', '&'), ('&lt;', '<'), ('&gt;', '>'), ('&quot;', '"'), ('&#x27;', "'"), ('&#39;', "'")]


def unescape(s):
    out, i = '', 0
    while i < len(s):
        c = s[i]
        if c == '&':
            done = False
            for e, r in ENTITIES:
                if s[i:i + len(e)] == e:
                    out, i, done = out + r, i + len(e), True
                    break
            must(done, 'ampersand')
        else:
            must(not (c == '<'), 'less than')
            out = out + c
            i += 1
    return out


def markup(s, void=()):
    """List of ('text', s), ('open', name, attributes), ('close', name); well nested."""
    out, stack, i, text = [], [], 0, 0
    while i < len(s):
        if not (s[i] == '<'):
            i += 1
            continue
        if i > text:
            out.append(('text', unescape(s[text:i])))
        j = i + 1
        if s[j] == '/':
            k = s.find('>', j)
            must(k > 0 and stack and stack[-1] == s[j + 1:k], 'end tag')
            out.append(('close', stack.pop()))
            i = text = k + 1
            continue
        if s[j] == '!' or s[j] == '?':
            i = text = s.find('>', j) + 1
            must(i > 0, 'declaration')
            continue
        while s[j] in 'abcdefghijklmnopqrstuvwxyzLM_0123456789':
            j += 1
        name, attrs = s[i + 1:j], {}
        must(name != '', 'tag')
        while True:
            space = False
            while s[j] in ' \n':
                j += 1
                space = True
            if s[j] == '>':
                out.append(('open', name, attrs))
                if name not in void:
                    stack.append(name)
                j += 1
                break
            if s[j:j + 2] == '/>':
                out.append(('open', name, attrs))
                out.append(('close', name))
                j += 2
                break
            must(space, 'space before an attribute')
            k = j
            while s[k] in 'abcdefghijklmnopqrstuvwxyz-':
                k += 1
            must(k > j and s[k] == '=' and (s[k + 1] == '"' or s[k + 1] == "'"), 'attribute')
            end = s.find(s[k + 1], k + 2)
            must(end > 0, 'end of an attribute')
            must(s[j:k] not in attrs, 'attribute twice')
            attrs[s[j:k]] = unescape(s[k + 2:end])
            j = end + 1
        i = text = j
    if i > text:
        out.append(('text', unescape(s[text:i])))
    must(stack == [], 'an element is not closed')
    return out


class Element:
    def __init__(self, name, attrs):
        self.name, self.attrs, self.kids, self.text = name, attrs, [], ''

    def get(self, name):
        found = [k for k in self.kids if k.name == name]
        must(len(found) < 2, name + ' twice')
        return found[0] if found else None

    def value(self, name):
        e = self.get(name)
        return e.text if e is not None else None


def elements(s):
    top = Element('', {})
    stack = [top]
    for e in markup(s):
        if e[0] == 'open':
            new = Element(e[1], e[2])
            stack[-1].kids.append(new)
            stack.append(new)
        elif e[0] == 'close':
            stack.pop()
        else:
            stack[-1].text = stack[-1].text + e[1]
    return top


def check_treex(doc):
    top = parsed(elements, printed(Treex, doc))
    bundles = top.kids[0].get('bundles')
    sx.check(len(bundles.kids) == len(doc.bundles), 'treex: number of bundles')
    ids = []
    for bundle, lm in zip(doc.bundles, bundles.kids):
        two(lm.attrs['id'], bundle.bundle_id, 'treex: bundle id')
        zones = lm.get('zones').kids
        sx.check(len(zones) == len(bundle.trees), 'treex: zones')
        for tree, zone in zip(bundle.trees, zones):
            name = zone.attrs['selector'] if zone.attrs['language'] == 'und' else zone.attrs['language'] + '_' + zone.attrs['selector']
            two(name, tree.zone, 'treex: zone')
            if tree.zone.count('_') == 1:
                sx.check(zone.attrs['language'] == tree.zone.split('_')[0], 'treex: language')
            two(zone.value('sentence'), tree.text or None, 'treex: sentence')
            a = zone.get('trees').get('a_tree')
            ids.append(a.attrs['id'])
            todo = [(a, tree)]
            while todo:
                e, x = todo.pop()
                sx.check(e.value('ord') == str(x.ord), 'treex: word order')
                kids = x.children
                below = e.get('children')
                below = below.kids if below is not None else []
                sx.check(len(below) == len(kids), 'treex: number of children')
                for b, k in zip(below, kids):
                    sx.check(b.name == 'LM', 'treex: element of a node')
                    ids.append(b.attrs['id'])
                    todo.append((b, k))
                if x is not tree:
                    for tag, name in (('form', 'form'), ('lemma', 'lemma'), ('tag', 'upos'), ('deprel', 'deprel')):
                        two(e.value(tag), getattr(x, name) or None, 'treex: ' + name)
                    two(e.get('conll').value('pos'), x.xpos or '_', 'treex: xpos')
                    two(e.get('conll').value('feat'), str(x.feats), 'treex: feats')
    for i, a in enumerate(ids):
        for b in ids[:i]:
            sx.check(not (a == b), 'treex: two nodes have one id')


# ------------------------------------------------------------ documents
def fresh():
    coref.highest_doc_n = 0
    return Document()


def small(n, zones=('',)):
    """A document with a tree of n words of any shape in the first zone and one word in the others."""
    t = sx.tree('t', n)
    for k, x in enumerate(t.nodes[1:], 1):
        x.form, x.upos, x.deprel = 'w%d' % k, 'X', 'dep'
    return t


FORMATS = ['html', 'tikz', 'tikz-tree', 'tikz-enhanced', 'sdparse', 'treex']


def check_format(fmt, doc):
    if fmt == 'html':
        check_html(doc)
    elif fmt == 'tikz':
        check_tikz(doc)
    elif fmt == 'tikz-tree':
        check_tikz(doc, as_tree=True)
    elif fmt == 'tikz-enhanced':
        check_tikz(doc, enhanced=True)
    elif fmt == 'sdparse':
        check_sdparse(doc)
    else:
        check_treex(doc)
    sx.reach(fmt)


@sx.harness(quick=[dict(n=4, fmt=f, unreached=tuple(x for x in FORMATS if x != f)) for f in FORMATS],
            thorough=[dict(n=5, fmt=f, unreached=tuple(x for x in FORMATS if x != f)) for f in FORMATS], reach=FORMATS,
            bounds='every tree of n words, followed by sentences in other zones and bundles, with or without words')
def shapes(n, fmt, unreached=()):
    t = small(n)
    doc = t.doc
    other = t.bundle.create_tree('en_x')
    rest = sx.choice('rest', ['none', 'empty', 'two'])
    if rest != 'none':
        other.create_child(form='a"b', upos='_', deprel='x', misc='SpaceAfter=No|X=1')
    if rest == 'two':
        more = doc.create_bundle().create_tree('en')
        more.text = 'c & d'
        c = more.create_child(form='c', upos='C', deprel='y')
        d = c.create_child(form='d', upos='D', deprel='z')
        e = c.create_empty_child('dep')
        d.deps = [{'parent': e, 'deprel': 'p'}, {'parent': c, 'deprel': 'q_r'}, {'parent': more, 'deprel': 'root'}]
        more.bundle.create_tree('cs')
        t.bundle.create_tree('cs_x').create_child(form='u')
    check_format(fmt, doc)


@sx.harness(quick=[dict(size=2, fmt=f, unreached=tuple(x for x in FORMATS if x != f)) for f in FORMATS],
            thorough=[dict(size=3, fmt=f, unreached=tuple(x for x in FORMATS if x != f)) for f in FORMATS], reach=FORMATS,
            bounds='two words, one of them with any value of one of the attributes (form, lemma, upos, xpos, deprel, feats, misc) of up to size characters '
                   '(no white space) or unset, or any sentence id or text of up to size characters')
def values(size, fmt, unreached=()):
    doc = fresh()
    names = ['form', 'upos', 'deprel', 'sent_id', 'text', 'unset']
    if fmt in ('html', 'treex'):
        names += ['lemma', 'xpos']
    name = sx.choice('name', names)
    root = doc.create_bundle().create_tree()
    a = root.create_child(form='a', upos='A', lemma='l', xpos='x', deprel='root')
    b = a.create_child(form='b', upos='B', lemma='m', xpos='y', deprel='dep')
    if fmt in ('html', 'treex'):
        b.feats = 'A=1|B=2'
        b.misc = 'X="\\'
    if name == 'sent_id':
        chars = 'nospace'
        root.bundle.bundle_id = sx.str('value', 1, size, 'nospace')
        sx.assume('/' not in root.bundle.bundle_id and '#' not in root.bundle.bundle_id)
    elif name == 'text':
        root.text = sx.str('value', 0, size, 'text')
    elif name == 'unset':
        b.form = b.upos = b.lemma = b.xpos = b.deprel = sx.choice('unset', [None, '']) if fmt.startswith('tikz') else None
        if sx.bool('first'):
            a.form = a.upos = a.deprel = b.form
    else:
        v = sx.str('value', 1, size, 'nospace')
        if fmt == 'sdparse' and name == 'deprel':
            sx.assume('(' not in v)
        if fmt == 'sdparse' and name == 'upos':
            sx.assume('/' not in v and '\\' not in v)
        setattr(b, name, v)
    if fmt.startswith('tikz') and name == 'unset':
        root.text = 'a'
    check_format(fmt, doc)


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['numbered'],
            bounds='n words with any forms of one character (no white space, brackets or hyphen), in one of three trees, with and without tags, features and numbers')
def references(n):
    doc = fresh()
    root = doc.create_bundle().create_tree()
    nodes = [root]
    heads = sx.choice('heads', [(0, 1, 1, 1), (0, 0, 2, 2), (0, 0, 1, 0)])
    for k in range(n):
        x = nodes[heads[k]].create_child(form=sx.str('form%d' % k, 1, 1, 'nospace'), upos='U', deprel='dep')
        if k == 1:
            x.feats = 'A=1'
        nodes.append(x)
    kw = sx.choice('options', [dict(), dict(print_upos=False), dict(print_feats=True), dict(print_upos=False, print_feats=True), dict(always_ord=True)])
    check_sdparse(doc, **kw)


@sx.harness(quick=[dict(size=2)], thorough=[dict(size=4)], reach=['found', 'missing'],
            bounds='a comment with any value of up to size characters among others, or no such comment')
def translation(size):
    doc = fresh()
    root = doc.create_bundle().create_tree()
    root.create_child(form='a', upos='A', deprel='root')
    v = sx.str('value', 1, size, 'line')
    sx.assume(v.strip() == v)
    kind = sx.choice('comments', ['alone', 'first', 'last', 'similar', 'none'])
    comment = ' text_en = ' + v
    root.comment = {'alone': comment, 'first': comment + '\n other = x\n', 'last': ' other = x\n' + comment + '\n',
                    'similar': ' my_text_en = x\n' + comment, 'none': ' text_enx = x\n'}[kind]
    sx.reach('missing' if kind == 'none' else 'found')
    check_tikz(doc, comment_attribute='text_en', trans=None if kind == 'none' else v)


# ------------------------------------------------------------ pages
@sx.harness(quick=[dict(size=2)], thorough=[dict(size=4)], reach=['id', 'text', 'missing'],
            bounds='three sentences, one of them with any id or text of up to size characters or without text and any form; any title')
def sentence_list(size):
    doc = fresh()
    kind = sx.choice('kind', ['id', 'text', 'missing', 'title'])
    v = sx.str('value', 1, size, 'nospace')
    for k in range(3):
        root = doc.create_bundle().create_tree()
        root.create_child(form='w%d' % k)
        root.text = 'text %d' % k
    root = doc.bundles[1].trees[0]
    kw = {}
    if kind == 'id':
        sx.assume('/' not in v and '#' not in v)
        doc.bundles[1].bundle_id = v
    elif kind == 'text':
        root.text = v
    elif kind == 'missing':
        root.text = None
        root.children[0].form = v
        kw['if_missing'] = sx.choice('policy', ['detokenize', 'empty'])
    else:
        kw['title'] = v
    sx.reach(kind) if kind != 'title' else None
    out = parsed(markup, printed(SentencesHtml, doc, **kw), ('meta',))
    items, title, here = [], '', None
    for e in out:
        if e[0] == 'open':
            here = e[1]
            if e[1] == 'li':
                items.append([e[2]['id'], ''])
        elif e[0] == 'close':
            here = None
        elif here == 'li':
            items[-1][1] = items[-1][1] + e[1]
        elif here == 'title':
            title = e[1]
    sx.check(len(items) == 3, 'list: number of sentences')
    for b, (i, text) in zip(doc.bundles, items):
        two(i, b.trees[0].sent_id, 'list: id')
        two(text, '' if kw.get('if_missing') == 'empty' and b.trees[0].text is None else b.trees[0].get_sentence(), 'list: text')
    if kind == 'title':
        two(title, v, 'list: title')


def page_lines(text, mark):
    """The text of the page without markup, and the numbers of the lines with a mark."""
    a, b = text.find('<pre>\n') + 6, text.rfind('</pre>')
    line, lines, marked = '', [], set()
    rows = []
    for e in parsed(markup, text[a:b], ()):
        if e[0] == 'text':
            parts = e[1].split('\n')
            line = line + parts[0]
            for p in parts[1:]:
                lines.append(line)
                line = p
        elif e[1] == 'mark':
            marked.add(len(lines))
        elif e[1] in ('table', 'tr', 'td'):
            rows.append((e[0], e[1], len(lines)))
    lines.append(line)
    return lines, marked, rows


@sx.harness(quick=[dict(n=3, size=1)], thorough=[dict(n=4, size=2)], reach=['color', 'plain', 'marked', 'some', 'zones', 'rows'],
            bounds='every tree of n words with any form of up to size characters, one word marked or none, sentences in two zones and bundles; with and '
                   'without colours, only marked trees, one zone or all, side by side or not, and the four layouts')
def tree_page(n, size):
    coref.highest_doc_n = 0
    t = small(n)
    doc = t.doc
    t.nodes[1].form = sx.str('form', 1, size, 'nospace')
    t.root.zone = 'a'
    t.root.text = 'a < b'
    t.root.comment = ' c & d\n Mark = e\n'
    other = t.bundle.create_tree('b')
    other.create_child(form='o')
    third = doc.create_bundle().create_tree('a')
    third.create_child(form='p')
    for r in (other, third):
        r.text = 'x'
    doc.meta = {'_hidden': 'x', 'key': 'a & b'}
    trees = [t.root, other, third]
    where = sx.choice('mark', ['none', 'first', 'other', 'third'])
    if where != 'none':
        {'first': t.nodes[n], 'other': other.children[0], 'third': third.children[0]}[where].misc['Mark'] = 1
        sx.reach('marked')
    opt = sx.choice('options', ['default', 'color', 'zones', 'rows', 'marked', 'marked-single', 'comments', 'no marks', 'align', 'compact'])
    kw, plain = {}, {}
    if opt == 'color':
        kw['color'] = False
    elif opt == 'zones':
        kw['zones'] = 'b'
        sx.reach('zones')
    elif opt == 'rows':
        kw['zones_in_rows'] = False
        sx.reach('rows')
    elif opt.startswith('marked'):
        kw['marked_only'] = True
        if opt == 'marked-single':
            kw['whole_bundle'] = False
        sx.reach('some')
    elif opt == 'comments':
        plain['print_comments'] = True
    elif opt == 'no marks':
        plain['print_comments'] = True
        kw['mark'] = ''
        where = 'none'
    elif opt in ('align', 'compact'):
        plain['layout'] = opt
    marked = {'first': t.root, 'other': other, 'third': third}.get(where)
    shown = trees
    if opt == 'zones':
        shown = [other]
    elif opt == 'marked':
        shown = [] if marked is None else [third] if marked is third else [t.root, other]
    elif opt == 'marked-single':
        shown = [] if marked is None else [marked]
    text = printed(TextModeTreesHtml, doc, **kw, **plain)
    lines, marks, rows = page_lines(text, where != 'none')
    sx.reach('plain' if opt == 'color' else 'color')
    want, stars = 'key = a & b\n', set()
    for r in shown:
        before = len(want.split('\n')) - 1
        want += tree_text(r, dict(plain))
        if r is marked:
            word = {'first': t.nodes[n], 'other': other.children[0], 'third': third.children[0]}[where]
            body = want.split('\n')
            top = [i for i in range(before, len(body)) if body[i].startswith('─')][0]
            stars.add(top + word.ord)
        if r is t.root and opt == 'comments':
            stars.add(before + 3)
    got = [l for l in lines if l != '']
    for i in sorted(marks):
        sx.check(lines[i] != '', 'page: mark of nothing')
    index = {i: k for k, i in enumerate(i for i, l in enumerate(lines) if l != '')}
    expected = want.split('\n')
    index2 = {i: k for k, i in enumerate(i for i, l in enumerate(expected) if l != '')}
    expected = [l for l in expected if l != '']
    if opt == 'color':
        got = [l.replace('**', '') if i in {index[m] for m in marks} else l for i, l in enumerate(got)]
    sx.check(len(got) == len(expected), 'page: number of lines')
    for a, b in zip(got, expected):
        two(a, b, 'page: line')
    sx.check({index[m] for m in marks} == {index2[m] for m in stars}, 'page: marked lines')
    cells = len([r for r in rows if r[0] == 'open' and r[1] == 'td'])
    tables = len([r for r in rows if r[0] == 'open' and r[1] == 'table'])
    sx.check(cells == (0 if opt == 'rows' else len(shown)), 'page: cells')
    sx.check(tables == (0 if opt == 'rows' else len({id(r.bundle) for r in shown})), 'page: tables')


def tree_text(root, plain):
    import sys
    old, out = sys.stdout, sx.out()
    sys.stdout = out
    try:
        TextModeTrees(color=False, mark='', **plain).process_tree(root)
    finally:
        sys.stdout = old
    return out.getvalue()
