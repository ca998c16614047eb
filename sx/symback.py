"""The symbolic backend of sx.api."""
import z3
from . import iset, fz
from .core import (CTX, SymBool, SymInt, and_, or_, not_, ite, mkint, mkbool, bexpr, ival, Abort, Violation)
from .sstr import SymChar, SymStr, chars_of, mk, is_strlike, str_eq
from . import models

_printable_text = None


def dom(spec):
    """Named classes of characters, or a plain string of characters, or an interval set."""
    if isinstance(spec, tuple):
        return spec
    if spec in _DOMS:
        d = _DOMS[spec]
        return d() if callable(d) else d
    return iset.of_chars(spec)


def _any():
    return iset.NOSURR


def _line():       # anything inside one line of a file opened in text mode with universal newlines
    return iset.diff(iset.NOSURR, iset.of_chars('\n\r\x00'))


def _text():       # any character that may stand in a column of a CoNLL-U file
    return iset.diff(iset.NOSURR, iset.of_chars('\n\r\t\x00'))


def _nospace():
    return iset.diff(_text(), iset.named('space'))


def _field():      # FORM-like: no white space at all, no underscore alone is assumed by the harness
    return iset.diff(_nospace(), iset.of_chars('\ufeff'))


def _key():        # attribute names
    return iset.diff(_nospace(), iset.of_chars('|='))


def _value():
    return iset.diff(_nospace(), iset.of_chars('|'))


def _ident():
    return iset.norm([(48, 57), (65, 90), (97, 122), (95, 95)])


def _latin():
    return iset.diff(((32, 126),), ())


_DOMS = {'any': _any, 'line': _line, 'text': _text, 'nospace': _nospace, 'field': _field, 'key': _key,
         'value': _value, 'ident': _ident, 'ascii': _latin, 'digit': ((48, 57),), 'lower': ((97, 122),),
         'upper': ((65, 90),), 'alpha': ((65, 90), (97, 122)),
         'letter': lambda: iset.diff(iset.named('alpha'), ())}


class Sym:
    symbolic = True

    def __init__(self):
        self.labels = set()

    def _new(self, name):
        if name in CTX.inputs:
            raise RuntimeError('duplicate input name ' + name)

    def int(self, name, lo, hi):
        self._new(name)
        if lo == hi:
            CTX.inputs[name] = lo
            return lo
        v = z3.Int(name)
        CTX.inputs[name] = v
        CTX.keep.append(v)
        CTX.assume_fresh(fz.And([fz.Ge(v, ival(lo)), fz.Le(v, ival(hi))]))
        return SymInt(v)

    def bool(self, name):
        self._new(name)
        v = z3.Bool(name)
        CTX.inputs[name] = v
        CTX.keep.append(v)
        return SymBool(v)

    def str(self, name, minlen, maxlen, chars, first=None):
        n = minlen
        if maxlen > minlen:
            n = int(self.int(name + '#len', minlen, maxlen))
        self._new(name)
        d = dom(chars)
        d1 = dom(first) if first is not None else d
        cs = []
        for i in range(n):
            v = z3.Int('%s[%d]' % (name, i))
            di = d1 if i == 0 else d
            cs.append(SymChar(v, di))
            CTX.assume_fresh(_range(v, di))
        CTX.inputs[name] = tuple(cs)
        return mk(cs)

    def force(self, cond):
        if type(cond) is SymBool:
            CTX.force(cond.e)
            if cond.hint:
                key, yes, no = cond.hint
                CTX.dom[key] = iset.inter(CTX.dom[key], yes) if key in CTX.dom else yes
        elif not cond:
            raise Abort('assumption')

    def check(self, cond, msg):
        CTX.stats['checks'] += 1
        if type(cond) is SymBool:
            known = CTX.known.get(cond.e.get_id())
            if known is True:
                return
            if CTX.pos < len(CTX.prefix):
                # discharged on an earlier execution of this prefix
                CTX.known[cond.e.get_id()] = True
                CTX.keep.append(cond.e)
                return
            CTX.stats['checks_solver'] += 1
            r, m = CTX.check_sat(fz.Not(cond.e))
            if r == z3.sat:
                raise Violation(msg, values(m))
            if r == z3.unknown:
                CTX.notes.add('check unknown: ' + msg)
            CTX.known[cond.e.get_id()] = True
            CTX.keep.append(cond.e)
        elif not cond:
            raise Violation(msg, values(CTX.get_model()))

    def observe(self, value):
        CTX.observed.append(value)

    and_ = staticmethod(and_)
    or_ = staticmethod(or_)
    not_ = staticmethod(not_)
    ite = staticmethod(ite)

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return and_(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            res = []
            for k, v in a.items():
                if is_strlike(k):
                    res.append(or_(*[and_(self.eq(k, k2), self.eq(v, v2)) for k2, v2 in b.items()]))
                else:
                    res.append(k in b and self.eq(v, b[k]))
            return and_(*res)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            if len(a) != len(b):
                return False
            return and_(*[or_(*[self.eq(x, y) for y in b]) for x in a])
        if is_strlike(a) or is_strlike(b):
            return str_eq(a, b) if is_strlike(a) and is_strlike(b) else False
        return a == b

    def fix(self, x):
        return int(x) if type(x) is SymInt else bool(x) if type(x) is SymBool else x

    def tree_backend(self):
        from . import tree
        return tree.SymTree

    def out(self):
        return models.SymOut()

    def tag(self, name, cond):
        if cond:
            CTX.tags.append(name)
            return True
        return False


_rc = {}


def _range(v, d):
    from .sstr import _ranges_expr
    k = (v.get_id(), d)
    r = _rc.get(k)
    if r is None:
        r = _rc[k] = (v, _ranges_expr(v, d))
    return r[1]


def values(m):
    """Concrete inputs from a model."""
    out = {}
    for name, v in CTX.inputs.items():
        if isinstance(v, tuple):
            out[name] = ''.join(chr(_ev(m, c.e)) for c in v)
        elif isinstance(v, (int, str)):
            out[name] = v
        elif z3.is_bool(v):
            out[name] = z3.is_true(m.eval(v, model_completion=True))
        else:
            out[name] = _ev(m, v)
    return out


def _ev(m, e):
    return m.eval(e, model_completion=True).as_long()


def evaluate(m, x):
    """The value of an observed object under a model, in the form of api.jsonable."""
    t = type(x)
    if t is SymStr:
        return ''.join(chr(c if type(c) is int else _ev(m, c.e)) for c in x.c)
    if t is SymInt:
        return _ev(m, x.e)
    if t is SymBool:
        return z3.is_true(m.eval(x.e, model_completion=True))
    if isinstance(x, (str, int, float, type(None))):
        return x
    if isinstance(x, (list, tuple)):
        return [evaluate(m, y) for y in x]
    if isinstance(x, dict):
        return [[evaluate(m, k), evaluate(m, v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted((evaluate(m, y) for y in x), key=repr)
    return repr(t)
