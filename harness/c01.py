from sx import api as sx


def roundtrip(text):
    from udapi.core.document import Document
    doc = Document()
    doc.from_conllu_string(text)
    return doc.to_conllu_string()


def same(text, msg):
    sx.check(roundtrip(text) == text, msg)


def row(o, form='f', lemma='l', upos='X', xpos='_', feats='_', head='0', deprel='dep', deps='_', misc='_'):
    return '\t'.join([o, form, lemma, upos, xpos, feats, head, deprel, deps, misc]) + '\n'


def head_lines(sid='s1', text='x'):
    return '# sent_id = ' + sid + '\n# text = ' + text + '\n'


COLS = ['form', 'lemma', 'upos', 'xpos', 'feats', 'deprel', 'deps', 'misc']


@sx.harness(quick=[dict(size=3)], thorough=[dict(size=5)], reach=['word', 'token', 'empty', 'all'],
            bounds='one column of one line (word, multi-word token, empty node) holds any text of 1..size characters without tab and '
                   'line break, or all columns of a word hold any 1 character')
def fields(size):
    kind = sx.choice('kind', ['word', 'all', 'token', 'empty'])
    sx.reach(kind)
    a, b, tok, e = row('1'), row('2', head='1'), '', ''
    if kind == 'all':
        vals = {c: sx.str(c, 1, 1, 'text') for c in COLS}
        a = row('1', **vals)
    else:
        col = sx.choice('col', COLS if kind != 'token' else ['form', 'misc'])
        v = sx.str('v', 1, size, 'text')
        if kind == 'word':
            a = row('1', **{col: v})
        elif kind == 'token':
            # a word inside of a multi-word token says nothing about the space after it
            tok = row('1-2', **dict({'lemma': '_', 'upos': '_', 'head': '_', 'deprel': '_', 'form': 'f'}, **{col: v}))
        elif kind == 'empty':
            sx.assume(col != 'deprel')
            e = row('1.1', **dict(dict(head='_', deprel='_', deps='1:dep'), **{col: v}))
    same(head_lines() + tok + a + e + b + '\n', 'the text changed by loading and storing')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['token', 'empty', 'ten', 'plain'],
            bounds='n words with any heads that form a tree, at most one multi-word token over any range, empty nodes in any gap '
                   '(up to 2, or 11 in one gap), any MISC of 1..3 characters on a word of the token')
def structure(n):
    heads = [sx.choice('head%d' % k, [h for h in range(n + 1) if h != k]) for k in range(1, n + 1)]
    for k in range(1, n + 1):       # a tree: climbing ends in 0
        h = k
        for _ in range(n):
            h = heads[h - 1] if h else 0
        sx.assume(h == 0)
    lo = sx.choice('lo', range(0, n))
    hi = sx.choice('hi', range(lo + 1, n + 1)) if lo else 0
    gap = sx.choice('gap', range(-1, n + 1))
    m = sx.choice('empties', [1, 2, 11]) if gap >= 0 else 0
    sx.reach('token' if lo else 'empty' if m else 'plain')
    if m > 2:
        sx.reach('ten')
    lines = head_lines()
    for k in range(0, n + 1):
        if k and k == lo:
            lines += row('%d-%d' % (lo, hi), lemma='_', upos='_', head='_', deprel='_')
        if k:
            lines += row(str(k), head=str(heads[k - 1]), deprel='root' if heads[k - 1] == 0 else 'dep')
        if k == gap:
            for i in range(m):
                lines += row('%d.%d' % (k, i + 1), head='_', deprel='_', deps='1:dep|0:root')
    same(lines + '\n', 'the structure changed by loading and storing')


@sx.harness(quick=[dict(size=3)], thorough=[dict(size=5)], reach=['kept'],
            bounds='MISC of a word inside of a multi-word token: any text of 1..size characters that does not speak about spaces')
def token_words(size):
    v = sx.str('misc', 1, size, 'text')
    which = sx.choice('which', [1, 2])
    lines = head_lines() + row('1-2', lemma='_', upos='_', head='_', deprel='_')
    lines += row('1', misc=v if which == 1 else 'Z=1|A=2|b=3') + row('2', head='1', misc=v if which == 2 else 'Z=1|A=2|b=3')
    same(lines + '\n', 'the words of a multi-word token changed by loading and storing')
    sx.reach('kept')


KINDS = ['sent_id', 'text', 'newdoc', 'newdoc id', 'newpar', 'newpar id', 'free', 'near']
NEAR = ['sent_id', 'text', 'global.Entity', 'sent_idx = a', 'sent_id_orig = a', 'text_en = a', 'newparx', 'newdoc x',
        'textx', 'global.EntityX = 1', 'json', 'doc_json']


def comment(i, kind, size, near=NEAR):
    if kind == 'sent_id':
        s = sx.str('id%d' % i, 1, 2, 'nospace')
        sx.assume('/' not in s)
        return ' sent_id = ' + s
    if kind == 'text':
        s = sx.str('text%d' % i, 0, size, 'text')
        if len(s):
            sx.assume(sx.not_(sx.or_(s[0].isspace(), s[-1].isspace())))
        return ' text = ' + s
    if kind in ('newdoc', 'newpar'):
        return ' ' + kind
    if kind in ('newdoc id', 'newpar id'):
        s = sx.str('val%d' % i, 1, size if near is not NEAR else max(size, 5), 'text')
        sx.assume(sx.not_(s[0].isspace()))
        return ' ' + kind + ' = ' + s
    if kind == 'free':
        return ' ' + sx.str('free%d' % i, 0, size, 'text')
    if kind == 'near':
        return ' ' + sx.choice('near%d' % i, near)
    return ''


@sx.harness(quick=[dict(k=1, size=3), dict(k=2, size=1)], thorough=[dict(k=3, size=1), dict(k=2, size=3), dict(k=1, size=6)],
            reach=KINDS, bounds='sent_id, text and k further comments in any order, each with any content of up to size characters')
def comments(k, size):
    kinds = []
    pool = KINDS[2:]
    for i in range(k):
        kinds.append(sx.choice('kind%d' % i, [x for x in pool if x in ('free', 'near') or
                                              not any(x.split()[0] == y.split()[0] for y in kinds)]))
    at = sx.choice('id_at', range(len(kinds) + 1))
    kinds.insert(at, 'sent_id')
    kinds.insert(sx.choice('text_at', range(at + 1, len(kinds) + 1)), 'text')
    for x in kinds:
        sx.reach(x)
    lines = [comment(i, x, size, NEAR if k == 1 else NEAR[3:6]) for i, x in enumerate(kinds)]
    text = ''
    for x in lines:
        text = text + '#' + x + '\n'
    same(text + row('1') + '\n', 'comments changed by loading and storing')


JSON = ['1', '"a b"', '{"a": 1, "b": [true, null]}', '"\u00e9\u2028"']


@sx.harness(quick=[dict()], reach=['json', 'doc json', 'entity', 'columns', 'two'],
            bounds='json comments with any key of 1..2 characters and four values, document json, global.Entity with any value of '
                   '1..3 characters, global.columns; before, after and between the usual comments')
def special():
    key = sx.str('key', 1, 2, 'ident')
    val = sx.choice('val', JSON)
    ge = sx.str('ge', 1, 2, 'nospace')
    lines = ['# newdoc id = d', '# sent_id = s1', '# text = x', '# free']
    kind = sx.choice('kind', ['json', 'two', 'doc json', 'entity', 'entity2', 'columns'])
    if kind == 'json':
        lines.append('# json_' + key + ' = ' + val)
    elif kind == 'two':
        sx.assume(key < 'k')
        lines += ['# json_' + key + ' = ' + val, '# json_k = 2']
    elif kind == 'doc json':
        lines.insert(0, '# doc_json_' + key + ' = ' + val)
    elif kind == 'entity':
        lines.insert(sx.choice('at', range(1, 5)), '# global.Entity = ' + ge)
    elif kind == 'entity2':
        lines[0] = '# global.Entity = ' + ge
    else:
        lines.insert(0, '# global.columns = ' + ge)
    sx.reach('entity' if kind == 'entity2' else kind)
    text = ''
    for x in lines:
        text = text + x + '\n'
    same(text + row('1') + '\n', 'special comments changed by loading and storing')


@sx.harness(quick=[dict(n=2)], thorough=[dict(n=3)], reach=['one', 'more', 'again'],
            bounds='n sentences, each with up to one document-level JSON comment of any key of one character and one of four values')
def doc_json(n):
    """Document-level JSON comments of all sentences are stored before the first sentence."""
    text, found = '', []
    for i in range(n):
        text = text + head_lines('s%d' % i)
        if sx.bool('json%d' % i):
            key, val = sx.str('key%d' % i, 1, 1, 'ident'), JSON[sx.choice('val%d' % i, range(2 if i > 1 else 4))]
            text = text + '# doc_json_' + key + ' = ' + val + '\n'
            if any(k == key for k, _ in found):
                sx.reach('again')
            found = [(k, v) for k, v in found if k != key] + [(key, val)]
        text = text + row('1') + '\n'
    if found:
        sx.reach('one' if len(found) == 1 else 'more')
    found.sort(key=lambda x: x[0])
    want = ''
    for k, v in found:
        want = want + '# doc_json_' + k + ' = ' + v + '\n'
    for i in range(n):
        want = want + head_lines('s%d' % i) + row('1') + '\n'
    sx.check(roundtrip(text) == want, 'document-level JSON comments')
    same(want, 'document-level JSON comments at the beginning changed by loading and storing')


@sx.harness(quick=[dict(n=3)], thorough=[dict(n=4)], reach=['zones', 'empty tree', 'bundles'],
            bounds='n sentences whose ids are any two-character names, equal ids allowed in consecutive zones; empty trees')
def sentences(n):
    text = ''
    prev, zone = None, 0
    for i in range(n):
        how = sx.choice('how%d' % i, ['new', 'zone', 'empty'] if i else ['new', 'empty'])
        if how == 'zone' and prev:
            zone += 1
            sid = prev + '/' + 'abc'[zone]
            sx.reach('zones')
        else:
            prev = sx.str('id%d' % i, 1, 2 if i == 0 else 1, 'ident')
            zone = 0
            if i:
                sx.assume(sx.not_(sx.eq(prev, last)))
            sid = prev + sx.choice('z%d' % i, ['', '/a'])
            sx.reach('bundles')
        last = prev
        text = text + '# sent_id = ' + sid + '\n# text = x\n'
        if how == 'empty':
            sx.reach('empty tree')
            text = text + '1\t_\t_\t_\t_\t_\t0\t_\t_\tEmpty=Yes\n\n'
        else:
            text = text + row('1') + '\n'
    same(text, 'sentences changed by loading and storing')


def stable(text, msg):
    once = roundtrip(text)
    sx.check(roundtrip(once) == once, msg)
    return once


@sx.harness(quick=[dict()], reach=['empty', 'word'],
            bounds='a sentence of one word whose MISC is one of several similar to the mark of an empty sentence, with and without other columns')
def only_word():
    misc = sx.choice('misc', ['Empty=Yes', 'Empty=Yes|X=y', 'A=b|Empty=Yes', 'Empty=No', 'Empty', 'X=Empty', 'Empty=Yes2', 'NotEmpty=Yes'])
    form = sx.str('form', 1, 1, 'field') if sx.bool('named') else '_'
    sx.assume(misc != 'Empty=Yes' or form == '_')
    two = sx.bool('two')
    text = '# sent_id = s\n# text = y\n1\t' + form + '\t_\t_\t_\t_\t0\t_\t_\t' + misc + '\n' + (row('2') if two else '') + '\n'
    if misc == 'Empty=Yes' and not two:
        sx.reach('empty')
        from udapi.core.document import Document
        d = Document()
        d.from_conllu_string(text)
        sx.check(d[0].trees[0].descendants == [], 'the artificial word of an empty sentence stays')
    sx.reach('word')
    same(text, 'the only word of a sentence')


@sx.harness(quick=[dict(size=3)], thorough=[dict(size=4)], reach=['comment', 'no text', 'no id', 'columns', 'row', 'spaces', 'mixed ids', 'mwt'],
            bounds='texts that are not canonical: any comment line of up to size characters after one of the usual beginnings, missing '
                   'comments, missing columns, any value of one column, additional empty lines, space flags in multi-word tokens')
def idempotent(size):
    kind = sx.choice('kind', ['comment', 'no text', 'no id', 'columns', 'row', 'spaces', 'mixed ids', 'mwt'])
    sx.reach(kind)
    if kind == 'comment':
        start = sx.choice('start', ['', ' ', ' sent_id ', ' text =', ' newdoc ', ' newpar id', ' global.Entity =', '$TEX', ' text'])
        line = '#' + start + sx.str('line', 0, size if len(start) != 1 else size - 1, 'text')
        text = '# sent_id = s\n# text = y\n' + line + '\n' + row('1') + '\n'
        if start.startswith(' sent_id'):
            sx.assume('/' not in line)
    elif kind == 'no text':
        form = sx.str('form', 1, size, 'text')
        sx.assume(sx.not_(form[0].isspace()))
        text = '# sent_id = s\n' + row('1', form=form, misc=sx.choice('misc', ['_', 'SpaceAfter=No'])) + row('2') + '\n'
    elif kind == 'no id':
        text = '# text = ' + sx.str('text', 0, 2, 'text') + '\n' + row('1') + '\n' + row('1') + '\n'
    elif kind == 'columns':
        cols = sx.choice('cols', range(1, 10))
        text = '# sent_id = s\n' + '\t'.join(['1', 'f', 'l', 'X', '_', '_', '0', 'dep', '0:root'][:cols]) + '\n\n'
    elif kind == 'row':
        col = sx.choice('col', COLS)
        text = '# sent_id = s\n# text = y\n' + row('1', **{col: sx.str('v', 0, size, 'text')}) + '\n'
    elif kind == 'spaces':
        text = '# sent_id = s\n# text = y\n' + row('1') + '\n' * sx.choice('blank', [1, 2, 3]) + '# sent_id = s2\n' + row('1') + \
            '\n' * sx.choice('end', [0, 1, 2, 3])
    elif kind == 'mixed ids':
        text = ''
        for i in range(3):
            if sx.bool('has%d' % i):
                text = text + '# sent_id = ' + 'abc'[i] + '\n'
            text = text + row('1') + '\n'
    else:
        text = '# sent_id = s\n' + row('1-2', misc=sx.choice('m', ['_', 'SpaceAfter=No', 'B=1|A=2']))
        text = text + row('1', misc=sx.choice('m1', ['_', 'SpaceAfter=No', 'B=1|A=2'])) + row('2', misc=sx.choice('m2', ['_', 'SpaceAfter=No', 'Z=1|SpaceAfter=No']))
        text = text + row('3') + '\n'
    stable(text, 'storing is not stable (%s)' % kind)
