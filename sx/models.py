"""What calls, operators and subscripts mean when symbolic values take part.

The instrumented code calls sx_c(f)(...) and sx_m(o, 'name')(...) instead of f(...) and o.name(...);
these return f and o.name themselves unless a model is registered here.
"""
import builtins
import collections
import copy
import io
import re
import string as _string
import sys
import types
from . import iset, regex
from .core import (CTX, SymBool, SymInt, and_, or_, not_, mkint, Unsupported, ival)
from .sstr import (SymStr, chars_of, mk, is_strlike, str_eq, str_contains, parse_int, char_conc, char_in)

PLAIN = (str, int, float, bool, type(None), bytes)


def symbolic(x):
    t = type(x)
    return t is SymStr or t is SymInt or t is SymBool


def deep_symbolic(x, depth=3):
    t = type(x)
    if t is SymStr or t is SymInt:
        return True
    if t in (tuple, list, set, frozenset) and depth:
        return any(deep_symbolic(y, depth - 1) for y in x)
    if t is dict and depth:
        return any(deep_symbolic(y, depth - 1) for kv in x.items() for y in kv)
    return False


# ---------------------------------------------------------------------- text of a value
def sx_str(x=''):
    t = type(x)
    if t is SymStr or t is str:
        return x
    if t in PLAIN or t is SymInt or t is SymBool:
        return str(x)
    if t in (list, tuple, dict, set, frozenset):
        return sx_repr(x)
    f = t.__str__
    if f is BaseException.__str__:
        if len(x.args) == 1:
            return sx_str(x.args[0])
        return sx_repr(x.args) if x.args else ''
    if f is object.__str__:
        return sx_repr(x)
    if isinstance(f, types.FunctionType):
        return f(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if t is SymStr:
        if and_(*[not_(char_in(c, _NONREPR())) for c in x.c]):
            return "'" + x + "'"
        return repr(x._conc())
    if t in PLAIN:
        return repr(x)
    if t in (list, tuple, set, frozenset) and deep_symbolic(x):
        parts = [sx_repr(y) for y in x]
        o, c = {list: '[]', tuple: '()', set: '{}', frozenset: ('frozenset({', '})')}[t]
        body = str_join(', ', parts)
        if t is tuple and len(parts) == 1:
            body = body + ','
        return o + body + c
    if t is dict and deep_symbolic(x):
        return '{' + str_join(', ', [sx_repr(k) + ': ' + sx_repr(v) for k, v in x.items()]) + '}'
    if t in (list, tuple, set, frozenset, dict):
        parts = [sx_repr(y) for y in x] if t is list else None
        if parts is not None:
            return '[' + str_join(', ', parts) + ']'
        return repr(x)
    f = t.__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    return repr(x)


_nonrepr = []


def _NONREPR():
    if not _nonrepr:
        _nonrepr.append(iset.union(iset.diff(iset.ALL, iset.named('printable')), iset.of_chars("'\\")))
    return _nonrepr[0]


def sx_format(x, spec=''):
    if type(x) is SymInt:
        return format(int(x), spec if type(spec) is str else spec._conc())
    if type(x) is SymStr:
        if not spec:
            return x
        m = re.fullmatch(r'(?:(.)?([<>^]))?(\d*)(?:\.(\d+))?s?', spec)
        if not m:
            return format(x._conc(), spec)
        s = x
        if m.group(4):
            s = s[:int(m.group(4))]
        if m.group(3):
            w, fill = int(m.group(3)), m.group(1) or ' '
            if is_strlike(s) and type(s) is str:
                return format(s, '%s%s%d' % (fill, m.group(2) or '<', w))
            s = {'<': s.ljust, '>': s.rjust, '^': s.center}[m.group(2) or '<'](w, fill)
        return s
    if not spec and type(x).__format__ is object.__format__:
        return sx_str(x)
    if type(x).__format__ is not object.__format__ and isinstance(type(x).__format__, types.FunctionType):
        return type(x).__format__(x, spec)
    return format(x, spec)


def sx_f(*parts):
    """An f-string: strings and (value, conversion, spec) triples."""
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = sx_repr(v)
            elif conv == 115:
                v = sx_str(v)
            elif conv == 97:
                v = ascii(sx_str(v)._conc() if type(v) is SymStr else v)
            out.append(sx_format(v, spec))
        else:
            out.append(p)
    return str_join('', out)


_PCT = re.compile(r'%(?:\(([^)]*)\))?([-#0 +]*)(\*|\d*)(?:\.(\*|\d+))?([a-zA-Z%])')


def sx_mod(l, r):
    if type(l) is SymStr:
        if bool(str_contains(l, '%')):
            l = l._conc()
        else:
            if type(r) is tuple and r:
                raise TypeError('not all arguments converted during string formatting')
            return l
    if type(l) is not str:
        return l % r
    out, last, args, used = [], 0, r if type(r) is tuple else (r,), 0
    for m in _PCT.finditer(l):
        out.append(l[last:m.start()])
        last = m.end()
        key, flags, width, prec, t = m.groups()
        if t == '%':
            out.append('%')
            continue
        if width == '*' or prec == '*':
            return l % tuple(int(a) if type(a) is SymInt else a for a in args)
        if key is not None:
            v = r[sx_key(r, key)]
            used = len(args)
        else:
            if used >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[used]
            used += 1
        if t in 'sr':
            s = sx_str(v) if t == 's' else sx_repr(v)
            if prec:
                s = s[:int(prec)]
            if width:
                s = (s.ljust if '-' in flags else s.rjust)(int(width))
            out.append(s)
        else:
            if type(v) is SymInt:
                v = int(v)
            elif type(v) is SymStr and t != 'c':
                raise TypeError('%%%s format: a real number is required, not str' % t)
            out.append(('%' + flags + width + ('.' + prec if prec else '') + t) % (v,))
    if used < len(args) and not isinstance(r, collections.abc.Mapping):
        raise TypeError('not all arguments converted during string formatting')
    out.append(l[last:])
    return str_join('', out)


def str_join(sep, it):
    parts = list(it)
    for p in parts:
        if not is_strlike(p):
            raise TypeError('sequence item: expected str instance, %s found' % type(p).__name__)
    if type(sep) is not SymStr and not any(type(p) is SymStr for p in parts):
        return str.join(sep, parts)
    out, s = [], chars_of(sep)
    for i, p in enumerate(parts):
        if i:
            out.extend(s)
        out.extend(chars_of(p))
    return mk(tuple(out))


def str_format(s, *args, **kwargs):
    if type(s) is SymStr:
        s = s._conc()
    out, auto = [], 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        v, _ = _string.Formatter().get_field(field, args, kwargs)
        if spec and '{' in spec:
            spec = str_format(spec, *args, **kwargs)
        if conv == 'r':
            v = sx_repr(v)
        elif conv == 's':
            v = sx_str(v)
        out.append(sx_format(v, spec or ''))
    return str_join('', out)


# ---------------------------------------------------------------------- keys of dicts and sets
def struct_eq(a, b):
    if is_strlike(a) and is_strlike(b):
        return str_eq(a, b)
    if type(a) is tuple and type(b) is tuple:
        return and_(*[struct_eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if symbolic(a) or symbolic(b):
        if is_strlike(a) or is_strlike(b) or a is None or b is None:
            return False
        return a == b
    return a == b


def _symkey(k):
    t = type(k)
    return t is SymStr or (t is tuple and any(_symkey(x) for x in k))


def sx_key(d, k):
    """The key of d equal to k if there is one (deciding symbolic equalities), else k."""
    if not isinstance(d, (dict, set, frozenset)):
        if type(k) is SymInt and isinstance(d, (list, tuple, str)):
            n = len(d)
            if k >= n:
                return n            # one path for all indices out of range
            if k < -n:
                return -n - 1
            return int(k)
        return k
    if _symkey(k):
        for e in list(d):
            if isinstance(e, (str, tuple)) or type(e) is SymStr:
                if e is k or struct_eq(e, k):
                    return e
        return k
    if CTX.symkeys and isinstance(k, (str, tuple)):
        if k in d if type(k) is str else False:
            return k
        for e in list(d):
            if _symkey(e) and struct_eq(e, k):
                return e
    return k


def sx_get(d, k):
    if type(k) is slice:
        return d[k]
    return d[sx_key(d, k)]


def sx_in(a, b):
    t = type(b)
    if t is str or t is SymStr:
        if type(a) is SymStr or t is SymStr:
            return str_contains(b, a)
        return a in b
    if t in (list, tuple):
        if type(a) is SymStr or (type(a) is str and any(type(x) is SymStr for x in b)):
            return or_(*[str_eq(a, x) for x in b if is_strlike(x)])
        if type(a) is tuple and (_symkey(a) or any(_symkey(x) for x in b)):
            return or_(*[struct_eq(a, x) for x in b])
        return a in b
    if isinstance(b, (dict, set, frozenset)):
        if _symkey(a):
            return or_(*[struct_eq(a, x) for x in b])
        return sx_key(b, a) in b
    if t in (type({}.keys()), type({}.values())):
        return sx_in(a, list(b))
    return a in b


def sx_mkdict(pairs):
    d = {}
    for k, v in pairs:
        d[sx_key(d, k)] = v
    return d


def sx_mkset(items):
    s = set()
    for x in items:
        s.add(sx_key(s, x))
    return s


def _dict(*args, **kwargs):
    if args and not isinstance(args[0], dict) and not hasattr(args[0], 'keys'):
        d = sx_mkdict(args[0])
    elif args and hasattr(args[0], 'keys') and not isinstance(args[0], dict):
        d = {}
        for k in args[0].keys():
            d[k] = args[0][k]
    else:
        d = dict(*args)
    for k, v in kwargs.items():
        d[sx_key(d, k)] = v
    return d


def d_get(d, k, default=None):
    return dict.get(d, sx_key(d, k), default)


def d_pop(d, k, *a):
    return dict.pop(d, sx_key(d, k), *a)


def d_setdefault(d, k, v=None):
    return dict.setdefault(d, sx_key(d, k), v)


def d_update(d, *args, **kw):
    if isinstance(d, collections.Counter):
        if args:
            o = args[0]
            if isinstance(o, collections.abc.Mapping):
                for k in o:
                    k2 = sx_key(d, k)
                    d[k2] = d[k2] + o[k]
            else:
                for k in o:
                    k2 = sx_key(d, k)
                    d[k2] = d[k2] + 1
        return
    for o in args:
        items = [(k, o[k]) for k in o.keys()] if hasattr(o, 'keys') else list(o)
        for k, v in items:
            d[sx_key(d, k)] = v
    for k, v in kw.items():
        d[sx_key(d, k)] = v


def _mk_counter(*args, **kw):
    c = collections.Counter()
    d_update(c, *args, **kw)
    return c


def s_add(s, x):
    set.add(s, sx_key(s, x))


def s_discard(s, x):
    set.discard(s, sx_key(s, x))


def s_remove(s, x):
    set.remove(s, sx_key(s, x))


def s_update(s, *its):
    for it in its:
        for x in it:
            set.add(s, sx_key(s, x))


def s_inter(s, *its):
    r = set(s)
    for it in its:
        it = list(it)
        r = {x for x in r if bool(sx_in(x, it))}
    return r


def s_union(s, *its):
    r = set(s)
    s_update(r, *its)
    return r


def s_diff(s, *its):
    r = set(s)
    for it in its:
        it = list(it)
        r = {x for x in r if not bool(sx_in(x, it))}
    return r


def s_subset(s, o):
    o = list(o)
    return all(bool(sx_in(x, o)) for x in s)


def sx_setop(op, l, r):
    if CTX.symkeys and isinstance(l, (set, frozenset)) and isinstance(r, (set, frozenset)):
        if op == '-':
            return s_diff(l, r)
        if op == '&':
            return s_inter(l, r)
        return s_union(l, r)
    if op == '-':
        return l - r
    if op == '&':
        return l & r
    return l | r


# ---------------------------------------------------------------------- builtins
_MAP = {SymStr: str, SymInt: int, SymBool: bool}


def sx_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return _MAP.get(t, t)
    return type(*a)


def sx_isinstance(o, cls):
    t = _MAP.get(type(o))
    if t is not None:
        return issubclass(t, cls) if not isinstance(cls, types.UnionType) else isinstance(t(), cls)
    return isinstance(o, cls)


def sx_int(x=0, *base, **kw):
    if type(x) is SymInt:
        return x
    if type(x) is SymStr:
        return parse_int(x, *(int(b) for b in base))
    if type(x) is SymBool:
        return int(bool(x))
    return int(x, *base, **kw)


def sx_float(x=0.0):
    if type(x) is SymStr:
        CTX.notes.add('concretized:float')
        return float(x._conc())
    return float(x)


def sx_ord(x):
    if type(x) is SymStr:
        if len(x.c) != 1:
            raise TypeError('ord() expected a character')
        return SymInt(x.c[0].e)
    return ord(x)


def sx_bool(x=False):
    return x if type(x) is SymBool else bool(x)


class SymOut:
    """A text stream that accepts symbolic strings."""

    def __init__(self, *a, **k):
        self.parts = []
        self.closed = False
        self._pos = None
        if a and a[0]:
            self.parts.append(a[0])

    def write(self, s):
        if not is_strlike(s):
            raise TypeError('string argument expected, got %r' % type(s).__name__)
        if self.closed:
            raise ValueError('I/O operation on closed file')
        self.parts.append(s)
        return len(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def isatty(self):
        return False

    def getvalue(self):
        return str_join('', self.parts)

    def _lines(self):
        if self._pos is None:
            c, out, start = chars_of(self.getvalue()), [], 0
            for i, ch in enumerate(c):
                if char_in(ch, ((10, 10),)):
                    out.append(mk(c[start:i + 1]))
                    start = i + 1
            if start < len(c):
                out.append(mk(c[start:]))
            self._q = collections.deque(out)
            self._pos = 0
        return self._q

    def readline(self, *a):
        q = self._lines()
        return q.popleft() if q else ''

    def __iter__(self):
        return self

    def __next__(self):
        q = self._lines()
        if not q:
            raise StopIteration
        return q.popleft()

    def read(self, *a):
        q = self._lines()
        r = str_join('', list(q))
        q.clear()
        return r

    def readlines(self):
        q = self._lines()
        r = list(q)
        q.clear()
        return r

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def sx_print(*args, sep=' ', end='\n', file=None, flush=False):
    if file is None:
        file = sys.stdout
    sep = ' ' if sep is None else sep
    end = '\n' if end is None else end
    text = str_join(sep, [sx_str(a) for a in args]) + end
    if type(text) is SymStr and not isinstance(file, SymOut) and type(file).__module__ in ('_io', 'io', 'sys'):
        raise Unsupported('symbolic output to a real stream')
    file.write(text)


def _wrapf(f):
    return sx_c(f) if f is not None else None


def sx_map(f, *its):
    return map(_wrapf(f), *its)


def sx_filter(f, it):
    return filter(_wrapf(f), it)


def sx_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_wrapf(key), reverse=reverse)


def sx_max(*a, **k):
    if 'key' in k:
        k['key'] = _wrapf(k['key'])
    return max(*a, **k)


def sx_min(*a, **k):
    if 'key' in k:
        k['key'] = _wrapf(k['key'])
    return min(*a, **k)


def sx_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _conc_args(f):
    def g(*a, **k):
        a = [x._conc() if type(x) is SymStr else int(x) if type(x) is SymInt else x for x in a]
        return f(*a, **k)
    return g


def sx_getattr(o, name, *d):
    return getattr(o, name._conc() if type(name) is SymStr else name, *d)


def sx_set(it=()):
    return sx_mkset(it)


def sx_frozenset(it=()):
    return frozenset(sx_mkset(it))


def sx_deepcopy(x, memo=None):
    return copy.deepcopy(x, memo)


def sx_hash(x):
    return hash(x)


def re_fn(name):
    real = getattr(re, name)
    model = getattr(regex, name)
    npre = 2 if name in ('sub', 'subn') else 1

    def f(pattern, *args, **kw):
        if type(pattern) is SymStr or any(type(x) is SymStr for x in args) or any(type(x) is SymStr for x in kw.values()):
            flags = kw.pop('flags', 0)
            args = list(args)
            maxargs = {'sub': 3, 'subn': 3, 'split': 2}.get(name, 1)
            if len(args) > maxargs:
                flags = args.pop()
            return model(regex.compiled(pattern, flags), *args, **kw)
        if npre == 2 and args and callable(args[0]):
            return real(pattern, sx_c(args[0]), *args[1:], **kw)
        return real(pattern, *args, **kw)
    return f


def pat_method(name):
    model = getattr(regex, name)

    def f(p, *args, **kw):
        if any(type(x) is SymStr for x in args) or any(type(x) is SymStr for x in kw.values()):
            return model(p, *args, **kw)
        return getattr(p, name)(*args, **kw)
    return f


MODELS = {}


def reg(real, model):
    MODELS[id(real)] = model
    _keep.append(real)


_keep = []
for _r, _m in [(str, sx_str), (repr, sx_repr), (format, sx_format), (dict, _dict), (set, sx_set),
               (frozenset, sx_frozenset), (type, sx_type), (isinstance, sx_isinstance), (int, sx_int),
               (float, sx_float), (ord, sx_ord), (bool, sx_bool), (print, sx_print), (map, sx_map),
               (filter, sx_filter), (sorted, sx_sorted), (max, sx_max), (min, sx_min), (sum, sx_sum),
               (getattr, sx_getattr), (io.StringIO, SymOut), (collections.Counter, _mk_counter)]:
    reg(_r, _m)
for _n in ('match', 'search', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer'):
    reg(getattr(re, _n), re_fn(_n))
import unicodedata
reg(unicodedata.category, _conc_args(unicodedata.category))
reg(unicodedata.normalize, _conc_args(unicodedata.normalize))
import json
reg(json.loads, _conc_args(json.loads))
import os.path
for _n in ('join', 'split', 'splitext', 'dirname', 'basename'):
    pass
try:
    import regex as _regex_mod
    for _n in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall'):
        def _mk_regex(n, real):
            f = re_fn(n)

            def g(pattern, *args, **kw):
                if any(type(x) is SymStr for x in args):
                    return f(pattern, *args, **kw)
                return real(pattern, *args, **kw)
            return g
        reg(getattr(_regex_mod, _n), _mk_regex(_n, getattr(_regex_mod, _n)))
except ImportError:
    _regex_mod = None


# ---------------------------------------------------------------------- methods
def _str_method(name):
    real = getattr(str, name)
    sym = getattr(SymStr, name)

    def f(s, *args, **kw):
        for a in args:
            if type(a) is SymStr or (type(a) is tuple and any(type(x) is SymStr for x in a)):
                return sym(SymStr(chars_of(s)), *args, **kw)
        if type(s) is SymStr:
            return sym(s, *args, **kw)
        return real(s, *[int(a) if type(a) is SymInt else a for a in args], **kw)
    return f


METH = {str: {}, dict: {}, set: {}, frozenset: {}, re.Pattern: {}}
for _n in dir(str):
    if _n.startswith('__') or not callable(getattr(str, _n)) or _n == 'maketrans':
        continue
    if _n in SymStr.__dict__ and _n not in ('join', 'format', 'encode'):
        _f = _str_method(_n)
        METH[str][_n] = _f
        reg(getattr(str, _n), _f)
METH[str]['join'] = str_join
METH[str]['format'] = str_format
METH[str]['__contains__'] = lambda s, x: sx_in(x, s)
METH[str]['__eq__'] = lambda s, x: s == x
reg(str.join, str_join)
METH[dict].update({'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault, 'update': d_update,
                   '__contains__': lambda d, k: sx_in(k, d),
                   '__getitem__': lambda d, k: d[sx_key(d, k)],
                   '__setitem__': lambda d, k, v: d.__class__.__setitem__(d, sx_key(d, k), v),
                   '__delitem__': lambda d, k: d.__class__.__delitem__(d, sx_key(d, k))})
METH[set].update({'add': s_add, 'discard': s_discard, 'remove': s_remove, 'update': s_update,
                  '__contains__': lambda d, k: sx_in(k, d)})
for _t in (set, frozenset):
    METH[_t].update({'intersection': s_inter, 'union': s_union, 'difference': s_diff, 'issubset': s_subset})
for _n in ('match', 'search', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer'):
    METH[re.Pattern][_n] = pat_method(_n)
if _regex_mod is not None:
    METH[type(_regex_mod.compile('a'))] = METH[re.Pattern]
_mro = {}


def sx_c(f):
    m = MODELS.get(id(f))
    return f if m is None else m


def _meths(t):
    r = _mro.get(t, 0)
    if r == 0:
        r = None
        for b in t.__mro__:
            if b in METH:
                r = METH[b]
                break
        if r is not None and t not in METH:
            # a subclass: only methods that it does not override
            base = r
            r = {n: f for n, f in base.items()
                 if getattr(t, n, None) is getattr(b, n, None) or (t is collections.Counter and n == 'update')}
        _mro[t] = r
    return r


class _Bound:
    __slots__ = ('f', 'o')

    def __init__(self, f, o):
        self.f, self.o = f, o

    def __call__(self, *a, **k):
        return self.f(self.o, *a, **k)


def sx_m(o, name):
    t = type(o)
    h = _meths(t)
    if h is not None:
        f = h.get(name)
        if f is not None:
            return _Bound(f, o)
        return getattr(o, name)
    if t is types.ModuleType:
        a = getattr(o, name)
        m = MODELS.get(id(a))
        return a if m is None else m
    if t is type and o in METH:
        a = getattr(o, name)
        m = MODELS.get(id(a))
        if m is not None:
            return m
        return METH[o].get(name, a)
    return getattr(o, name)


def det_hash(self):
    """Hash by first use in this path, so that set orders are the same on re-execution."""
    ent = CTX.hids.get(id(self))
    if ent is None:
        ent = CTX.hids[id(self)] = (self, len(CTX.hids) * 7 + 1)
    return ent[1]


INJECT = {'_sx_c': sx_c, '_sx_m': sx_m, '_sx_f': sx_f, '_sx_mod': sx_mod, '_sx_in': sx_in, '_sx_not': not_,
          '_sx_get': sx_get, '_sx_key': sx_key, '_sx_mkdict': sx_mkdict, '_sx_mkset': sx_mkset,
          '_sx_setop': sx_setop}
