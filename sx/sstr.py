"""Symbolic strings: concrete length, each character a code point or a z3 Int with a domain."""
import functools
import sys
import z3
from . import iset, fz
from .core import CTX, SymBool, SymInt, mkbool, mkint, and_, or_, not_, ival, Unsupported


class SymChar:
    __slots__ = ('e', 'key', 'dom0')

    def __init__(self, e, dom0):
        self.e = e
        self.key = e.get_id()
        self.dom0 = dom0
        CTX.keep.append(e)

    @property
    def dom(self):
        return CTX.dom.get(self.key, self.dom0)


def _ranges_expr(e, s):
    parts = []
    for lo, hi in s:
        if lo == hi:
            parts.append(fz.Eq(e, ival(lo)))
        elif lo == 0:
            parts.append(fz.Le(e, ival(hi)))
        else:
            parts.append(fz.And([fz.Ge(e, ival(lo)), fz.Le(e, ival(hi))]))
    return fz.Or(parts)


def char_in(ch, s):
    """Is the character in the interval set s? bool or SymBool."""
    if type(ch) is int:
        return iset.has(s, ch)
    dom = ch.dom
    yes = iset.inter(dom, s)
    if not yes:
        return False
    if yes == dom:
        return True
    no = iset.diff(dom, s)
    # decided relative to the domain: use the side with fewer ranges
    if len(yes) <= len(no):
        e = _ranges_expr(ch.e, yes)
    else:
        e = fz.Not(_ranges_expr(ch.e, no))
    return SymBool(e, (ch.key, yes, no))


def char_eq(a, b):
    if type(a) is int:
        if type(b) is int:
            return a == b
        return char_in(b, ((a, a),))
    if type(b) is int:
        return char_in(a, ((b, b),))
    if a.key == b.key:
        return True
    if not iset.inter(a.dom, b.dom):
        return False
    return SymBool(fz.Eq(a.e, b.e))


def char_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    if type(a) is int:
        return char_in(b, ((a + 1, iset.MAXC),))
    if type(b) is int:
        return char_in(a, ((0, b - 1),)) if b > 0 else False
    return SymBool(fz.Lt(a.e, b.e))


def char_conc(ch):
    return ch if type(ch) is int else CTX.concretize(ch.e)


def mk(chars):
    for c in chars:
        if type(c) is not int:
            return SymStr(tuple(chars))
    return ''.join(map(chr, chars))


@functools.lru_cache(maxsize=50000)
def _cps(s):
    return tuple(map(ord, s))


def chars_of(x):
    if type(x) is SymStr:
        return x.c
    if isinstance(x, str):
        return _cps(x)
    raise TypeError('expected str instance, %s found' % type(x).__name__)


def is_strlike(x):
    return type(x) is SymStr or isinstance(x, str)


def match_at(c, sub, i):
    """Does sub (tuple) occur in c (tuple) at i? (i + len(sub) <= len(c))"""
    return and_(*[char_eq(c[i + j], sub[j]) for j in range(len(sub))])


def str_eq(a, b):
    a, b = chars_of(a), chars_of(b)
    if len(a) != len(b):
        return False
    return match_at(a, b, 0)


def lex_lt(a, b, orequal=False):
    a, b = chars_of(a), chars_of(b)
    n = min(len(a), len(b))
    res = len(a) < len(b) or (orequal and len(a) == len(b))
    for i in range(n - 1, -1, -1):
        res = or_(char_lt(a[i], b[i]), and_(char_eq(a[i], b[i]), res))
    return res


def str_contains(s, sub):
    s, sub = chars_of(s), chars_of(sub)
    return or_(*[match_at(s, sub, i) for i in range(len(s) - len(sub) + 1)])


SPACE = lambda: iset.named('space')


def _clip(n, start, end):
    start = 0 if start is None else int(start)
    end = n if end is None else int(end)
    if start < 0:
        start = max(0, start + n)
    if end < 0:
        end = max(0, end + n)
    return start, min(end, n)


class SymStr:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    # -------------------------------------------------- basic protocol
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return True if self.c else False

    def __hash__(self):
        CTX.symkeys = True
        return 0x53594D

    def __eq__(self, o):
        return str_eq(self, o) if is_strlike(o) else NotImplemented

    def __ne__(self, o):
        return not_(str_eq(self, o)) if is_strlike(o) else NotImplemented

    def __lt__(self, o):
        return lex_lt(self, o) if is_strlike(o) else NotImplemented

    def __le__(self, o):
        return lex_lt(self, o, True) if is_strlike(o) else NotImplemented

    def __gt__(self, o):
        return lex_lt(o, self) if is_strlike(o) else NotImplemented

    def __ge__(self, o):
        return lex_lt(o, self, True) if is_strlike(o) else NotImplemented

    def __contains__(self, o):
        return bool(str_contains(self, o))

    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk(self.c + chars_of(o))

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk(chars_of(o) + self.c)

    def __mul__(self, n):
        return mk(self.c * int(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import models
        return models.sx_mod(self, args)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mk(self.c[slice(*[None if x is None else int(x) for x in (k.start, k.stop, k.step)])])
        return mk((self.c[int(k)],))

    def __iter__(self):
        for ch in self.c:
            yield mk((ch,))

    def __str__(self):
        CTX.notes.add('concretized')
        return self._conc()

    def __repr__(self):
        return 'S%r' % (''.join(chr(c) if type(c) is int else '\u25a1' for c in self.c),)

    def __format__(self, spec):
        CTX.notes.add('concretized')
        return format(self._conc(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic string')

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        CTX.notes.add('concretized:' + name)
        CTX.stats['concretized'] += 1
        return getattr(self._conc(), name)

    def _conc(self):
        CTX.stats['concretized'] += 1
        return ''.join(chr(char_conc(c)) for c in self.c)

    # -------------------------------------------------- searching
    def find(self, sub, start=None, end=None):
        sub = chars_of(sub)
        start, end = _clip(len(self.c), start, end)
        for i in range(start, end - len(sub) + 1):
            if match_at(self.c, sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = chars_of(sub)
        start, end = _clip(len(self.c), start, end)
        for i in range(end - len(sub), start - 1, -1):
            if match_at(self.c, sub, i):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = chars_of(sub)
        start, end = _clip(len(self.c), start, end)
        if not sub:
            return end - start + 1
        n, i = 0, start
        while i <= end - len(sub):
            if match_at(self.c, sub, i):
                n, i = n + 1, i + len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return or_(*[self.startswith(x, start, end) for x in p])
        start, end = _clip(len(self.c), start, end)
        p, c = chars_of(p), self.c[start:end]
        return match_at(c, p, 0) if len(p) <= len(c) else False

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return or_(*[self.endswith(x, start, end) for x in p])
        start, end = _clip(len(self.c), start, end)
        p, c = chars_of(p), self.c[start:end]
        return match_at(c, p, len(c) - len(p)) if len(p) <= len(c) else False

    # -------------------------------------------------- splitting
    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        c = self.c
        out = []
        if sep is None:
            sp, i, n = SPACE(), 0, len(c)
            while True:
                while i < n and char_in(c[i], sp):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and char_in(c[j - 1], sp):
                        j -= 1
                    out.append(mk(c[i:j]))
                    return out
                j = i
                while j < n and not char_in(c[j], sp):
                    j += 1
                out.append(mk(c[i:j]))
                i = j
        sep = chars_of(sep)
        if not sep:
            raise ValueError('empty separator')
        i = start = 0
        while i <= len(c) - len(sep) and (maxsplit < 0 or len(out) < maxsplit):
            if match_at(c, sep, i):
                out.append(mk(c[start:i]))
                i = start = i + len(sep)
            else:
                i += 1
        out.append(mk(c[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        c, out = self.c, []
        if sep is None:
            sp, i = SPACE(), len(c)
            while True:
                while i > 0 and char_in(c[i - 1], sp):
                    i -= 1
                if i <= 0:
                    break
                if len(out) >= maxsplit:
                    j = 0
                    while j < i and char_in(c[j], sp):
                        j += 1
                    out.append(mk(c[j:i]))
                    break
                j = i
                while j > 0 and not char_in(c[j - 1], sp):
                    j -= 1
                out.append(mk(c[j:i]))
                i = j
            return out[::-1]
        sep = chars_of(sep)
        end = len(c)
        i = end - len(sep)
        while i >= 0 and len(out) < maxsplit:
            if match_at(c, sep, i):
                out.append(mk(c[i + len(sep):end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(mk(c[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        ln, c, out, start, i = iset.named('line'), self.c, [], 0, 0
        while i < len(c):
            if char_in(c[i], ln):
                j = i + 1
                if j < len(c) and and_(char_eq(c[i], 13), char_eq(c[j], 10)):
                    j += 1
                out.append(mk(c[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < len(c):
            out.append(mk(c[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        n = len(sep)
        return (mk(self.c), '', '') if i < 0 else (mk(self.c[:i]), sep, mk(self.c[i + n:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        n = len(sep)
        return ('', '', mk(self.c)) if i < 0 else (mk(self.c[:i]), sep, mk(self.c[i + n:]))

    # -------------------------------------------------- stripping
    @staticmethod
    def _test(chars):
        if chars is None:
            sp = SPACE()
            return lambda ch: char_in(ch, sp)
        cs = chars_of(chars)
        if all(type(x) is int for x in cs):
            st = iset.of_chars(cs)
            return lambda ch: char_in(ch, st)
        return lambda ch: or_(*[char_eq(ch, x) for x in cs])

    def lstrip(self, chars=None):
        t, i = self._test(chars), 0
        while i < len(self.c) and t(self.c[i]):
            i += 1
        return mk(self.c[i:])

    def rstrip(self, chars=None):
        t, i = self._test(chars), len(self.c)
        while i > 0 and t(self.c[i - 1]):
            i -= 1
        return mk(self.c[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        return mk(self.c[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mk(self.c[:-len(p)]) if len(p) and self.endswith(p) else self

    # -------------------------------------------------- rewriting
    def replace(self, old, new, count=-1):
        old, new, c, out, i, n = chars_of(old), chars_of(new), self.c, [], 0, 0
        if not old:
            for ch in c:
                if count < 0 or n < count:
                    out.extend(new)
                    n += 1
                out.append(ch)
            if count < 0 or n < count:
                out.extend(new)
            return mk(tuple(out))
        while i < len(c):
            if i <= len(c) - len(old) and (count < 0 or n < count) and match_at(c, old, i):
                out.extend(new)
                i += len(old)
                n += 1
            else:
                out.append(c[i])
                i += 1
        return mk(tuple(out))

    def _casemap(self, method):
        out = []
        for ch in self.c:
            if type(ch) is int:
                out.extend(map(ord, getattr(chr(ch), method)()))
                continue
            ident, deltas, special = iset.casemap_groups(ch.dom, method)
            done = False
            for cp, res in special:
                if char_in(ch, ((cp, cp),)):
                    out.extend(map(ord, res))
                    done = True
                    break
            if done:
                continue
            if special:
                ident, deltas, special = iset.casemap_groups(ch.dom, method)
            if not deltas:
                out.append(ch)
                continue
            e, dom = ch.e, list(ident)
            for st, d in deltas:
                e = fz.If(_ranges_expr(ch.e, st), fz.Add(ch.e, ival(d)), e)
                dom.extend((lo + d, hi + d) for lo, hi in st)
            out.append(SymChar(e, iset.norm(dom)))
        return mk(tuple(out))

    def lower(self):
        return self._casemap('lower')

    def upper(self):
        return self._casemap('upper')

    def casefold(self):
        return self._casemap('casefold')

    def capitalize(self):
        if not self.c:
            return ''
        first = SymStr(self.c[:1])._casemap('title')
        return first + SymStr(self.c[1:])._casemap('lower') if len(self.c) > 1 else first

    def zfill(self, w):
        if len(self.c) >= w:
            return self
        return self._conc().zfill(w)

    def ljust(self, w, fill=' '):
        return mk(self.c + chars_of(fill) * max(0, int(w) - len(self.c)))

    def rjust(self, w, fill=' '):
        return mk(chars_of(fill) * max(0, int(w) - len(self.c)) + self.c)

    def center(self, w, fill=' '):
        pad = max(0, int(w) - len(self.c))
        left = pad // 2 + (pad & int(w) & 1)
        return mk(chars_of(fill) * left + self.c + chars_of(fill) * (pad - left))

    def join(self, it):
        from . import models
        return models.str_join(self, it)

    def format(self, *a, **k):
        from . import models
        return models.str_format(self, *a, **k)

    def translate(self, table):
        out = []
        for ch in self.c:
            if type(ch) is int:
                out.extend(map(ord, chr(ch).translate(table)))
                continue
            for cp in list(table):
                if char_in(ch, ((cp, cp),)):
                    r = table[cp]
                    if r is not None:
                        out.extend([r] if isinstance(r, int) else map(ord, r))
                    break
            else:
                out.append(ch)
        return mk(tuple(out))

    def encode(self, *a, **k):
        CTX.notes.add('concretized:encode')
        return self._conc().encode(*a, **k)

    # -------------------------------------------------- predicates
    def _all(self, name):
        st = iset.named(name)
        return and_(*[char_in(ch, st) for ch in self.c]) if self.c else False

    def isdigit(self):
        return self._all('digit')

    def isdecimal(self):
        return self._all('decimal')

    def isnumeric(self):
        return self._all('numeric')

    def isalpha(self):
        return self._all('alpha')

    def isalnum(self):
        return self._all('alnum')

    def isspace(self):
        return self._all('space')

    def isascii(self):
        return and_(*[char_in(ch, iset.named('ascii')) for ch in self.c])

    def isprintable(self):
        return and_(*[char_in(ch, iset.named('printable')) for ch in self.c])

    def isupper(self):
        bad = iset.union(iset.named('lower'), iset.named('title'))
        return and_(*([not_(char_in(ch, bad)) for ch in self.c]
                      + [or_(*[char_in(ch, iset.named('upper')) for ch in self.c])]))

    def islower(self):
        bad = iset.union(iset.named('upper'), iset.named('title'))
        return and_(*([not_(char_in(ch, bad)) for ch in self.c]
                      + [or_(*[char_in(ch, iset.named('lower')) for ch in self.c])]))


def parse_int(s, base=10):
    """int(symbolic string): forks on what each character is."""
    if base != 10:
        CTX.notes.add('concretized:int')
        return int(s._conc(), base)
    t = s.strip()
    c = list(chars_of(t))
    err = ValueError('invalid literal for int() with base 10: %r' % (s,))
    sign = 1
    if c and char_in(c[0], ((43, 43), (45, 45))):
        if char_eq(c[0], 45):
            sign = -1
        c = c[1:]
    if not c:
        raise err
    digits, prev_us = [], True
    for ch in c:
        if char_in(ch, ((48, 57),)):
            digits.append((ch if type(ch) is int else ch.e) - 48)
            prev_us = False
        elif char_in(ch, ((95, 95),)):
            if prev_us:
                raise err
            prev_us = True
        elif char_in(ch, iset.named('decimal')):
            digits.append(int(chr(char_conc(ch))))
            prev_us = False
        else:
            raise err
    if prev_us:
        raise err
    v = 0
    for d in digits:
        v = v * 10 + d
    v = v * sign if sign < 0 else v
    return v if isinstance(v, int) else mkint(v)
