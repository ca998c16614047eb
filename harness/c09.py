from sx import api as sx

KINDS = {'feats': ('|', '=', '_'), 'misc': ('|', '=', '_'), 'other': (',', ':', '')}


class Model:
    """An ordinary mapping kept as a list of pairs, and the text when it was assigned as such."""
    def __init__(self, kind):
        self.sep, self.eq, self.empty = KINDS[kind]
        self.pairs = []
        self.text = self.empty

    def find(self, key):
        for i, (k, _) in enumerate(self.pairs):
            if k == key:
                return i
        return -1

    def set(self, key, value):
        i = self.find(key)
        if value is None or value == '':
            if i >= 0:
                del self.pairs[i]
                self.text = None
        elif i >= 0:
            self.pairs[i] = (key, value)
            self.text = None
        else:
            self.pairs.append((key, value))
            self.text = None

    def assign(self, pairs, text=None):
        self.pairs = list(pairs)
        self.text = text

    def written(self, pairs):
        return self.sep.join(k if v is True else k + self.eq + v for k, v in pairs) or self.empty


def get(d, model, key):
    i = model.find(key)
    return '' if i < 0 else model.pairs[i][1]


def agree(d, model, how, probe, msg):
    """The views of d describe model.pairs."""
    pairs = model.pairs
    if how == 'text first':
        check_text(d, model, msg)
    sx.check(len(d) == len(pairs) and bool(d) == bool(pairs), msg + ': number of keys')
    for k, v in pairs:
        sx.check(k in d, msg + ': key missing')
        got = d[k]
        sx.check(got is True if v is True else got == v, msg + ': wrong value')
    sx.check((probe in d) == (model.find(probe) >= 0), msg + ': extra key')
    if model.find(probe) < 0:
        sx.check(d[probe] == '', msg + ': a missing key does not read as an empty string')
    got = list(d.items())
    sx.check(len(got) == len(pairs), msg + ': items')
    for k, v in got:
        i = model.find(k)
        sx.check(i >= 0, msg + ': items')
        sx.check(v is True if pairs[i][1] is True else v == pairs[i][1], msg + ': items')
    if how != 'text first':
        check_text(d, model, msg)


def check_text(d, model, msg):
    s = str(d)
    if model.text is not None:
        sx.check(s == model.text, msg + ': text view')
        return
    # sorted by key regardless of case
    rest = list(model.pairs)
    parts = [] if s == model.empty else s.split(model.sep)
    sx.check(len(parts) == len(rest), msg + ': text view')
    prev = None
    for p in parts:
        k, e, v = p.partition(model.eq)
        i = model.find(k)
        sx.check(i >= 0, msg + ': key in the text view')
        want = model.pairs[i][1]
        sx.check(e == '' if want is True else e != '' and v == want, msg + ': value in the text view')
        if prev is not None:
            sx.check(prev != k, msg + ': key twice in the text view')
            sx.check(prev.lower() <= k.lower(), msg + ': text view not sorted')
        prev = k


def fresh(kind, value=None):
    from udapi.core.feats import Feats
    from udapi.core.dualdict import DualDict
    from udapi.core.coref import OtherDualDict
    return {'feats': Feats, 'misc': DualDict, 'other': OtherDualDict}[kind](value)


OPS = ['set', 'flag', 'empty', 'none', 'del', 'clear', 'pop', 'text', 'dict', 'other', 'self', 'unset', 'update', 'blank']


@sx.harness(quick=[dict(k=1, kind=k) for k in KINDS] + [dict(k=2, kind=k) for k in KINDS],
            thorough=[dict(k=2, kind=k, size=2) for k in KINDS] + [dict(k=3, kind=k) for k in KINDS],
            reach=OPS, bounds='histories of k operations on one mapping starting with any text of up to 2 entries; keys of 1..size '
                              'letters, values of 1..size characters without the separator')
def history(k, kind, size=1):
    m = Model(kind)
    values = '=' if kind == 'other' else 'value'
    chars = sx_chars(kind)
    n = 0

    def key():
        nonlocal n
        n += 1
        return sx.str('k%d' % n, 1, size, 'AaBbz' if k == 1 else 'Aaz')

    def value():
        return sx.str('v%d' % n, 1, size, chars)

    # the initial mapping comes as a text
    start = sx.choice('start', ['none', 'one', 'two', 'flag'] if k == 1 else ['one', 'two'])
    pairs = []
    if start != 'none':
        pairs.append((key(), True if start == 'flag' else value()))
    if start == 'two':
        pairs.append((key(), value()) if k == 1 else ('b', 'w'))
        sx.assume(pairs[0][0] != pairs[1][0])
    d = fresh(kind, m.written(pairs) if pairs else sx.choice('empty', [None, '', m.empty]))
    m.assign(pairs, m.written(pairs))
    for step in range(k):
        op = sx.choice('op%d' % step, OPS)
        sx.reach(op)
        if op == 'set':
            a, b = key(), value()
            d[a] = b
            m.set(a, b)
        elif op == 'flag':
            sx.assume(kind != 'other')
            a = key()
            d[a] = True
            m.set(a, True)
        elif op in ('empty', 'none'):
            a = key()
            d[a] = '' if op == 'empty' else None
            m.set(a, '')
        elif op == 'del':
            a = key()
            del d[a]
            m.set(a, '')
        elif op == 'clear':
            d.clear()
            m.assign([], m.empty)
        elif op == 'pop':
            a = key()
            want = get(d, m, a)
            got = d.pop(a)
            sx.check(got is want if want is True or got is True else got == want, 'popped value')
            m.set(a, '')
        elif op == 'text':
            a, b = key(), value()
            d.set_mapping(m.written([(a, b)]))
            m.assign([(a, b)], m.written([(a, b)]))
        elif op in ('unset', 'blank'):
            d.set_mapping(None if op == 'unset' else '')
            m.assign([], m.empty)
        elif op == 'dict':
            a, b = key(), value()
            src = {a: b}
            d.set_mapping(src)
            m.assign([(a, b)])
            src[a] = 'changed'
            src['new'] = 'x'
        elif op == 'other':
            a, b = key(), value()
            src = fresh(kind, m.written([(a, b)]))
            d.set_mapping(src)
            m.assign([(a, b)])
            src[a] = 'changed'
            src['new'] = 'x'
        elif op == 'update':
            a, b = key(), value()
            d.update({a: b})
            m.set(a, b)
        else:
            d.set_mapping(d)
        if m.text is not None and op in ('self', 'empty', 'none') and str(d) != m.text:
            m.text = None       # not an effective change: the text is kept or normalised
        if step < k - 1 and sx.bool('look%d' % step):
            str(d)
            len(d)
    probe = sx.choice('probe', ['A', 'z']) if k == 1 else 'z'
    agree(d, m, sx.choice('how', ['text first', 'items first']) if k == 1 else 'items first', probe, 'at the end')
    # the text reads back to the same mapping
    e = fresh(kind, str(d))
    sx.check(len(e) == len(m.pairs), 'reading back')
    for a, b in m.pairs:
        got = e[a]
        sx.check(got is True if b is True else got == b, 'reading back')
    # copies are independent
    c = d.copy()
    c['A'] = 'changed'
    c['new'] = 'x'
    sx.check('new' not in d, 'a copy is not independent')
    agree(d, m, 'text first', probe, 'after changing a copy')


def sx_chars(kind):
    return 'ab:=|%' if kind == 'other' else 'value'


@sx.harness(quick=[dict(kind=k, size=5, unreached=('flag',) if k == 'other' else ()) for k in KINDS], thorough=[dict(kind=k, size=7, unreached=('flag',) if k == 'other' else ()) for k in KINDS], reach=['len', 'iter', 'contains', 'repeated', 'flag'],
            bounds='any assigned text of size characters over two key letters and the separators, so with repeated keys, flags, empty '
                   'values and empty entries, and one question asked first')
def raw_text(kind, size, unreached=()):
    sep, eq, empty = KINDS[kind]
    s = sx.str('s', 1, size, 'aA' + sep + eq)
    parts = s.split(sep)
    if kind == 'other':
        sx.assume(all(eq in p for p in parts))
    pairs = {}
    for p in parts:
        k, e, v = p.partition(eq)
        k = sx.fix(k)
        if k in pairs:
            sx.reach('repeated')
        if not e:
            sx.reach('flag')
        pairs[k] = True if not e else v
    d = fresh(kind, s)
    first = sx.choice('first', ['len', 'bool', 'iter', 'contains', 'get', 'items'])
    sx.reach(first)
    if first == 'len':
        sx.check(len(d) == len(pairs), 'number of keys')
    elif first == 'bool':
        sx.check(bool(d), 'emptiness')
    elif first == 'iter':
        sx.check(sorted(list(d)) == sorted(pairs), 'keys')
    elif first == 'contains':
        sx.check(('a' in d) == ('a' in pairs), 'contains')
    elif first == 'get':
        got = d.get('a', '')
        sx.check(sx.eq(got, pairs.get('a', '')), 'value')
    sx.check(len(d) == len(pairs), 'number of keys afterwards')
    for k, v in d.items():
        sx.check(k in pairs and sx.eq(v, pairs[k]), 'items')
    sx.check(str(d) == s, 'reading changed the text')


@sx.harness(quick=[dict()], reach=['node', 'mwt', 'created'],
            bounds='the attributes feats, misc (of a word and of a multi-word token) assigned twice from '
                   'text, None, a dict or the mapping of another node; values of up to 3 characters')
def attributes():
    t = sx.tree('t', 2)
    what = sx.choice('what', ['feats', 'misc', 'mwt', 'created'])
    v = sx.str('v', 1, 3, 'value')
    w = t.nodes[1]
    if what == 'mwt':
        w = t.root.create_multiword_token([t.nodes[1], t.nodes[2]], form='x', misc=sx.choice('init', [None, '_', 'Q=1']))
        sx.check(str(w.misc) == sx.ite(False, '', 'Q=1' if w.misc['Q'] else '_'), 'misc of a created multi-word token')
        sx.reach('mwt')
    elif what == 'created':
        w = t.root.create_child(form='new', feats='F=' + v, misc={'M': v})
        sx.check(str(w.feats) == 'F=' + v and str(w.misc) == 'M=' + v, 'attributes given to create_child')
        sx.check(w.feats['F'] == v and w.misc['M'] == v, 'attributes given to create_child')
        sx.reach('created')
    name = 'feats' if what in ('feats', 'created') else 'misc'
    other = t.nodes[2]
    setattr(other, name, 'X=' + v + '|Y=2')
    for i in range(2):
        how = sx.choice('how%d' % i, ['text', 'dict', 'none', 'blank', 'underscore', 'other', 'same'])
        before = str(getattr(w, name))
        if how == 'text':
            setattr(w, name, 'K=' + v)
        elif how == 'dict':
            setattr(w, name, {'K': v})
        elif how == 'none':
            setattr(w, name, None)
        elif how == 'blank':
            setattr(w, name, '')
        elif how == 'underscore':
            setattr(w, name, '_')
        elif how == 'other':
            setattr(w, name, getattr(other, name))
        else:
            setattr(w, name, getattr(w, name))
        d = getattr(w, name)
        if how in ('text', 'dict'):
            sx.check(str(d) == 'K=' + v and d['K'] == v and len(d) == 1, 'assignment by ' + how)
        elif how == 'other':
            sx.check(str(d) == 'X=' + v + '|Y=2' and d['X'] == v and len(d) == 2, 'assignment by ' + how)
            d['X'] = 'changed'
            sx.check(str(getattr(other, name)) == 'X=' + v + '|Y=2', 'assigned mapping is not independent')
            d['X'] = v
        elif how == 'same':
            sx.check(str(d) == before, 'assignment of the same mapping')
        else:
            sx.check(str(d) == '_' and len(d) == 0 and d['K'] == '', 'assignment by ' + how)
    sx.reach('node')


@sx.harness(quick=[dict(kind=k) for k in KINDS], thorough=[dict(kind=k, size=3) for k in KINDS], reach=['prefix', 'same'],
            bounds='two keys of 1..size letters, digits and hyphens, any values of one character')
def order(kind, size=2):
    """The written text is sorted by the keys, whatever characters they consist of and whatever the values are."""
    m = Model(kind)
    d = fresh(kind)
    chars = sx_chars(kind)
    for n in (1, 2):
        key = sx.str('key%d' % n, n if size == 2 else 1, size, 'Aab1-')
        v = sx.str('value%d' % n, 1, 1, chars)
        d[key] = v
        m.set(key, v)
    if len(m.pairs) == 2:
        (a, _), (b, _) = m.pairs
        if b.startswith(a):
            sx.reach('prefix')
        if a.lower() == b.lower():
            sx.reach('same')
    check_text(d, m, 'two keys')
