"""Backtracking matcher for re patterns over symbolic strings (same priorities as the re module)."""
import functools
import re
from re import _parser, _constants as K
from . import iset
from .core import or_, and_, not_, Unsupported
from .sstr import chars_of, mk, char_in, char_eq, SymStr


@functools.lru_cache(maxsize=None)
def _cat(cat):
    table = {K.CATEGORY_DIGIT: ('decimal', False), K.CATEGORY_NOT_DIGIT: ('decimal', True),
             K.CATEGORY_SPACE: ('space', False), K.CATEGORY_NOT_SPACE: ('space', True),
             K.CATEGORY_WORD: ('word', False), K.CATEGORY_NOT_WORD: ('word', True)}
    name, neg = table[cat]
    s = iset.named(name)
    return iset.diff(iset.ALL, s) if neg else s


def _with_case(s, flags):
    if not flags & re.IGNORECASE:
        return s
    if iset.size(s) > 2000:
        return s
    extra = []
    for lo, hi in s:
        for c in range(lo, hi + 1):
            for f in (chr(c).lower(), chr(c).upper()):
                if len(f) == 1:
                    extra.append((ord(f), ord(f)))
    return iset.norm(list(s) + extra)


@functools.lru_cache(maxsize=None)
def _in_set(items, flags):
    neg, ranges = False, []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            ranges.append((av, av))
        elif op is K.RANGE:
            ranges.append(av)
        elif op is K.CATEGORY:
            ranges.extend(_cat(av))
        else:
            raise Unsupported('regex set %s' % op)
    s = _with_case(iset.norm(ranges), flags)
    return iset.diff(iset.ALL, s) if neg else s


class Match:
    def __init__(self, m, start, end):
        self._m, self.string, self.re = m, m.string, m.pat
        self._groups = dict(m.groups)
        self._groups[0] = (start, end)
        self.pos, self.endpos = 0, len(m.s)

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            sp = self._groups.get(self._idx(g))
            out.append(None if sp is None else mk(self._m.s[sp[0]:sp[1]]))
        return out[0] if len(out) == 1 else tuple(out)
    __getitem__ = group

    def groups(self, default=None):
        r = [self.group(i) for i in range(1, self.re.groups + 1)]
        return tuple(default if x is None else x for x in r)

    def groupdict(self, default=None):
        return {k: (default if self.group(k) is None else self.group(k)) for k in self.re.groupindex}

    def span(self, g=0):
        return self._groups.get(self._idx(g)) or (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        xs = [g for g in self._groups if g]
        return max(xs, key=lambda g: (self._groups[g][1], -g)) if xs else None

    def expand(self, template):
        return _expand(self, template)


class Matcher:
    def __init__(self, pat, string):
        self.pat, self.string = pat, string
        self.s = chars_of(string)
        self.tree = parse(pat.pattern, pat.flags)
        self.groups = {}

    def match_from(self, pos, full=False):
        """Try to match at pos; returns Match or None."""
        self.groups = {}
        end = []

        def k(p):
            if full and p != len(self.s):
                return False
            end.append(p)
            return True
        if self.seq(list(self.tree), 0, pos, k, self.pat.flags):
            return Match(self, pos, end[-1])
        return None

    def test(self, cond):
        return bool(cond)

    def word_at(self, i):
        return 0 <= i < len(self.s) and bool(char_in(self.s[i], iset.named('word')))

    def seq(self, items, i, pos, k, fl):
        if i == len(items):
            return k(pos)
        op, av = items[i]
        s = self.s

        def nxt(p):
            return self.seq(items, i + 1, p, k, fl)
        st = self.single(op, av, fl)
        if st is not None:
            return pos < len(s) and self.test(char_in(s[pos], st)) and nxt(pos + 1)
        if op is K.AT:
            return self.at(av, pos, fl) and nxt(pos)
        if op is K.BRANCH:
            for alt in av[1]:
                saved = dict(self.groups)
                if self.seq(list(alt), 0, pos, nxt, fl):
                    return True
                self.groups = saved
            return False
        if op is K.SUBPATTERN:
            g, add, rem, sub = av
            nfl = (fl | add) & ~rem

            def after(p):
                if g is None:
                    return nxt(p)
                old = self.groups.get(g)
                self.groups[g] = (pos, p)
                if nxt(p):
                    return True
                if old is None:
                    self.groups.pop(g, None)
                else:
                    self.groups[g] = old
                return False
            return self.seq(list(sub), 0, pos, after, nfl)
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            return self.repeat(sub, lo, hi, op is K.MAX_REPEAT, 0, pos, -1, nxt, fl)
        if op is K.GROUPREF:
            sp = self.groups.get(av)
            if sp is None:
                return False
            n = sp[1] - sp[0]
            if pos + n > len(s):
                return False
            return self.test(and_(*[char_eq(s[sp[0] + j], s[pos + j]) for j in range(n)])) and nxt(pos + n)
        if op in (K.ASSERT, K.ASSERT_NOT):
            direction, sub = av
            saved = dict(self.groups)
            if direction >= 0:
                ok = self.seq(list(sub), 0, pos, lambda p: True, fl)
            else:
                lo, hi = sub.getwidth()
                start = pos - lo
                ok = start >= 0 and self.seq(list(sub), 0, start, lambda p: p == pos, fl)
            if op is K.ASSERT_NOT:
                self.groups = saved
                return (not ok) and nxt(pos)
            return ok and nxt(pos)
        raise Unsupported('regex op %s' % op)

    @staticmethod
    def single(op, av, fl):
        if op is K.LITERAL:
            return _with_case(((av, av),), fl)
        if op is K.NOT_LITERAL:
            return iset.diff(iset.ALL, _with_case(((av, av),), fl))
        if op is K.ANY:
            return iset.ALL if fl & re.DOTALL else iset.diff(iset.ALL, ((10, 10),))
        if op is K.IN:
            return _in_set(tuple(av), fl & re.IGNORECASE)
        return None

    def at(self, av, pos, fl):
        s = self.s
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            if pos == 0:
                return True
            if av is K.AT_BEGINNING and fl & re.MULTILINE:
                return self.test(char_eq(s[pos - 1], 10))
            return False
        if av is K.AT_END_STRING:
            return pos == len(s)
        if av is K.AT_END:
            if pos == len(s):
                return True
            if fl & re.MULTILINE:
                return self.test(char_eq(s[pos], 10))
            return pos == len(s) - 1 and self.test(char_eq(s[pos], 10))
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            b = self.word_at(pos - 1) != self.word_at(pos)
            return b == (av is K.AT_BOUNDARY)
        raise Unsupported('regex at %s' % av)

    def repeat(self, sub, lo, hi, greedy, n, pos, last, nxt, fl):
        def more():
            if n >= hi or (pos == last and n >= lo):
                return False
            saved = dict(self.groups)
            if self.seq(sub, 0, pos, lambda p: self.repeat(sub, lo, hi, greedy, n + 1, p, pos, nxt, fl), fl):
                return True
            self.groups = saved
            return False
        if n < lo:
            return more()
        if greedy:
            return more() or nxt(pos)
        return nxt(pos) or more()


@functools.lru_cache(maxsize=None)
def parse(pattern, flags):
    return _parser.parse(pattern, flags & ~re.DEBUG)


@functools.lru_cache(maxsize=None)
def _property_ranges(prop):
    """The characters of a Unicode property of the regex module, as ranges for a bracket of the re module."""
    import regex
    one = regex.compile(prop)
    out, start = [], None
    for c in range(0x110001):
        inside = c < 0x110000 and one.match(chr(c)) is not None
        if inside and start is None:
            start = c
        elif not inside and start is not None:
            out.append('\\U%08x-\\U%08x' % (start, c - 1))
            start = None
    return ''.join(out)


@functools.lru_cache(maxsize=None)
def _translate(pattern):
    """Property classes of the regex module in the syntax of the re module."""
    out, i, bracket = '', 0, False
    while i < len(pattern):
        if pattern.startswith('\\p{', i):
            end = pattern.index('}', i) + 1
            r = _property_ranges(pattern[i:end])
            out += r if bracket else '[' + r + ']'
            i = end
            continue
        if pattern[i] == '\\':
            out += pattern[i:i + 2]
            i += 2
            continue
        bracket = pattern[i] == '[' or bracket and pattern[i] != ']'
        out += pattern[i]
        i += 1
    return out


def compiled(p, flags=0):
    if isinstance(p, re.Pattern):
        return p
    if isinstance(p, str):
        return re.compile(_translate(p) if '\\p{' in p else p, flags)
    if type(p) is SymStr:
        return re.compile(p._conc(), flags)
    pat = getattr(p, 'pattern', None)
    if isinstance(pat, str):       # a pattern of the third-party regex module
        try:
            return re.compile(pat)
        except re.error:
            pass
    raise Unsupported('pattern %r' % (p,))


def match(p, string, pos=0, endpos=None):
    return Matcher(compiled(p), string).match_from(pos)


def fullmatch(p, string):
    # like re: alternatives are tried in order, the first that reaches the end wins
    return Matcher(compiled(p), string).match_from(0, full=True)


def search(p, string, pos=0):
    m = Matcher(compiled(p), string)
    for i in range(pos, len(m.s) + 1):
        r = m.match_from(i)
        if r is not None:
            return r
    return None


def finditer(p, string):
    m = Matcher(compiled(p), string)
    pos, last_empty = 0, -1
    n = len(m.s)
    prev_end = -1
    while pos <= n:
        found = None
        for i in range(pos, n + 1):
            r = m.match_from(i)
            if r is not None and not (r.end() == r.start() == prev_end and False):
                found = r
                break
        if found is None:
            return
        if found.start() == found.end():
            yield found
            pos = found.end() + 1
            # re also looks for a non-empty match at the same place
            nm = NonEmpty(m.pat, string).match_from(found.end())
            if nm is not None:
                yield nm
                pos = nm.end()
                if nm.end() == nm.start():
                    pos += 1
        else:
            yield found
            pos = found.end()
    return


class NonEmpty(Matcher):
    def match_from(self, pos, full=False):
        self.groups = {}
        end = []

        def k(p):
            if p == pos:
                return False
            end.append(p)
            return True
        if self.seq(list(self.tree), 0, pos, k, self.pat.flags):
            return Match(self, pos, end[-1])
        return None


def findall(p, string):
    out = []
    for m in finditer(p, string):
        n = m.re.groups
        if n == 0:
            out.append(m.group())
        elif n == 1:
            out.append(m.group(1) if m.group(1) is not None else '')
        else:
            out.append(m.groups(''))
    return out


def split(p, string, maxsplit=0):
    out, last, n = [], 0, 0
    s = chars_of(string)
    for m in finditer(p, string):
        if maxsplit and n >= maxsplit:
            break
        out.append(mk(s[last:m.start()]))
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(mk(s[last:]))
    return out


def _expand(m, template):
    if isinstance(template, str):
        # list of literals and group references
        parsed = _parser.parse_template(template, m.re)
        res = ''
        if isinstance(parsed, tuple):     # Python 3.11 style: (groups, literals)
            groups, literals = parsed
            lit = list(literals)
            for i, g in groups:
                lit[i] = m.group(g) or ''
            parsed = lit
        for part in parsed:
            if isinstance(part, int):
                part = m.group(part) or ''
            res = res + part
        return res
    return template


def subn(p, repl, string, count=0):
    s = chars_of(string)
    out, last, n = '', 0, 0
    if type(repl) is SymStr:
        raise Unsupported('symbolic replacement')
    for m in finditer(p, string):
        if count and n >= count:
            break
        out = out + mk(s[last:m.start()])
        r = repl(m) if callable(repl) else _expand(m, repl)
        out = out + r
        last = m.end()
        n += 1
    return out + mk(s[last:]), n


def sub(p, repl, string, count=0):
    return subn(p, repl, string, count)[0]
