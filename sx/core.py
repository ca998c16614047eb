"""Path exploration: symbolic booleans and integers, decisions, solver.

One path = one execution of the harness with the instrumented code.  Every time a symbolic
condition is converted to a Python bool the solver says which outcomes are possible under the path
condition; the explorer executes the harness again for every outcome that is possible, until all
paths are done.  Paths are re-executed from the start along a recorded prefix of decisions.
"""
import time
import math
import z3
from . import iset, fz


class Abort(BaseException):
    """The path is infeasible or was assumed away."""


class Unsupported(BaseException):
    """The path needs something the engine cannot express."""


class PathTimeout(BaseException):
    """The path ran for too long."""


class EngineError(BaseException):
    """The engine contradicts itself (re-execution diverged)."""


class Violation(BaseException):
    """A check failed on this path; the inputs are in args[1]."""


z3.set_param('smt.random_seed', 0)
_INT = z3.IntSort()
_vals = {}


def ival(n):
    r = _vals.get(n)
    if r is None:
        r = _vals[n] = z3.IntVal(n)
    return r


_eqc = {}


def eqv(e, n):
    """e == n, cached (z3 terms are shared, building them from Python is what costs)."""
    k = (e.get_id(), n)
    r = _eqc.get(k)
    if r is None:
        r = _eqc[k] = (e, fz.Eq(e, ival(n)))
    return r[1]


_cache = {}


def cached(key, make):
    r = _cache.get(key)
    if r is None:
        r = _cache[key] = make()
    return r


class Ctx:
    """State of the exploration; one instance per process."""

    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.stack = []
        self.stats = {'paths': 0, 'queries': 0, 'solver_s': 0.0, 'decisions': 0, 'forced': 0,
                      'aborted': 0, 'unknown': 0, 'unsupported': 0, 'checks': 0, 'checks_solver': 0,
                      'concretized': 0}
        self.active = False
        self.reset([])

    # ------------------------------------------------------------------ one path
    def reset(self, prefix):
        if len(_eqc) > 300000:
            _eqc.clear()
        self.sp = 0
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.known = {}
        self.conc = {}
        self.dom = {}
        self.model = None
        self.inputs = {}
        self.observed = []
        self.hids = {}
        self.symkeys = False
        self.labels = set()
        self.notes = set()
        self.tags = []
        self.keep = []
        self.deadline = None

    def assert_(self, c):
        if self.sp < len(self.stack):
            if self.stack[self.sp].get_id() == c.get_id():
                self.sp += 1
                return
            self._trim()
        self.solver.push()
        self.solver.add(c)
        self.stack.append(c)
        self.sp += 1

    def _trim(self):
        n = len(self.stack) - self.sp
        if n:
            self.solver.pop(n)
            del self.stack[self.sp:]

    def check_sat(self, *extra, model=True):
        self._trim()
        t = time.perf_counter()
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if model and r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.perf_counter() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
            self.notes.add('unknown')
        return r, m

    def get_model(self):
        if self.model is None:
            r, m = self.check_sat()
            if r == z3.unsat:
                raise Abort('infeasible prefix')
            if r == z3.unknown:
                raise Unsupported('solver unknown')
            self.model = m
        return self.model

    # ------------------------------------------------------------------ decisions
    def branch(self, e, hint=None):
        """Decide the z3 Bool e; fork if both outcomes are possible."""
        eid = e.get_id()
        v = self.known.get(eid)
        if v is not None:
            return v
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            if ent[0] != 'b':
                raise EngineError('diverged')
            self.pos += 1
            v, forced = ent[1], ent[2]
        else:
            if self.deadline is not None and time.time() > self.deadline:
                raise PathTimeout('path deadline')
            model = self.get_model()
            mv = z3.is_true(model.eval(e, model_completion=True))
            r, _ = self.check_sat(fz.Not(e) if mv else e, model=False)
            forced = r == z3.unsat
            v = mv
            if not forced:
                self.pending.append(self.trace + [('b', not mv, False)])
        self.trace.append(('b', v, forced))
        self.keep.append(e)
        self.known[eid] = v
        if forced:
            self.stats['forced'] += 1
        else:
            self.stats['decisions'] += 1
            self.assert_(e if v else fz.Not(e))
            # self.model stays valid: v agrees with it, or it is None during re-execution
        if hint is not None:
            key, yes, no = hint
            self.dom[key] = iset.inter(self.dom[key], yes if v else no) if key in self.dom else (yes if v else no)
        return v

    def force(self, e):
        """Add e to the path condition without exploring its negation."""
        eid = e.get_id()
        v = self.known.get(eid)
        if v is True:
            return
        if v is False:
            raise Abort('assumption false')
        self.keep.append(e)
        self.known[eid] = True
        self.assert_(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None
        if self.pos >= len(self.prefix):
            self.get_model()

    def assume_fresh(self, e):
        """Add a satisfiable constraint on variables that occur nowhere else."""
        self.keep.append(e)
        self.assert_(e)
        self.model = None

    def concretize(self, e):
        """Return a Python int for the z3 Int e, exploring all its possible values."""
        if z3.is_int_value(e):
            return e.as_long()
        eid = e.get_id()
        v = self.conc.get(eid)
        if v is not None:
            return v
        while True:
            if self.pos < len(self.prefix):
                ent = self.prefix[self.pos]
                if ent[0] != 'v':
                    raise EngineError('diverged (value)')
                self.pos += 1
                val = ent[1]
            else:
                val = self.get_model().eval(e, model_completion=True).as_long()
            self.trace.append(('v', val))
            if self.branch(eqv(e, val)):
                self.conc[eid] = val
                self.keep.append(e)
                return val


CTX = Ctx()


# ---------------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('e', 'hint')

    def __init__(self, e, hint=None):
        self.e = e
        self.hint = hint

    def __bool__(self):
        return CTX.branch(self.e, self.hint)

    def __and__(self, o):
        return and_(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)
    __ror__ = __or__

    def __invert__(self):
        return not_(self)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(fz.Eq(self.e, o.e))
        if isinstance(o, (bool, int)):
            return self if o else not_(self)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return str(bool(self))


def mkbool(e, hint=None):
    k = e.decl().kind()
    if k == z3.Z3_OP_TRUE:
        return True
    if k == z3.Z3_OP_FALSE:
        return False
    return SymBool(e, hint)


def bexpr(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def and_(*xs):
    parts = []
    for x in xs:
        if isinstance(x, SymBool):
            parts.append(x)
        elif not x:
            return False
    if not parts:
        return True
    if len(parts) == 1:
        return parts[0]
    return SymBool(fz.And([p.e for p in parts]))


def or_(*xs):
    parts = []
    for x in xs:
        if isinstance(x, SymBool):
            parts.append(x)
        elif x:
            return True
    if not parts:
        return False
    if len(parts) == 1:
        return parts[0]
    return SymBool(fz.Or([p.e for p in parts]))


def not_(x):
    if isinstance(x, SymBool):
        h = x.hint
        return SymBool(fz.Not(x.e), (h[0], h[2], h[1]) if h else None)
    return not x


# ---------------------------------------------------------------------- integers
def mkint(e):
    e = z3.simplify(e) if not z3.is_const(e) else e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _ie(o):
    if type(o) is SymInt:
        return o.e
    if isinstance(o, (int, bool)):
        return ival(int(o))
    if type(o) is SymBool:
        return z3.If(o.e, ival(1), ival(0))
    return None


class SymInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __index__(self):
        return CTX.concretize(self.e)
    __int__ = __index__

    def __float__(self):
        return float(CTX.concretize(self.e))

    def __hash__(self):
        return hash(CTX.concretize(self.e))

    def __bool__(self):
        return CTX.branch(self.e != ival(0))

    def __repr__(self):
        return str(CTX.concretize(self.e))

    __str__ = __repr__

    def __format__(self, spec):
        return format(CTX.concretize(self.e), spec)

    def __deepcopy__(self, memo):
        return self

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __add__(self, o):
        e = _ie(o)
        if e is None:
            return int(self) + o if isinstance(o, float) else NotImplemented
        return mkint(self.e + e)
    __radd__ = __add__

    def __sub__(self, o):
        e = _ie(o)
        if e is None:
            return int(self) - o if isinstance(o, float) else NotImplemented
        return mkint(self.e - e)

    def __rsub__(self, o):
        e = _ie(o)
        if e is None:
            return o - int(self) if isinstance(o, float) else NotImplemented
        return mkint(e - self.e)

    def __mul__(self, o):
        if type(o) is SymInt:
            return self * int(o)
        e = _ie(o)
        if e is None:
            return int(self) * o
        return mkint(self.e * e)

    def __rmul__(self, o):
        if isinstance(o, int):
            return self.__mul__(o)
        return o * int(self)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e / ival(o))
        return int(self) // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e % ival(o))
        return int(self) % o

    def __truediv__(self, o):
        return int(self) / (int(o) if type(o) is SymInt else o)

    def __rtruediv__(self, o):
        return o / int(self)

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        return o % int(self)

    def __pow__(self, o):
        return int(self) ** o

    def __round__(self, n=None):
        return self

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, op):
        if type(o) is int and z3.is_const(self.e):
            if op == '__eq__':
                return SymBool(eqv(self.e, o))
            if op == '__ne__':
                return SymBool(cached((self.e.get_id(), '!=', o), lambda: (self.e, z3.Not(eqv(self.e, o))))[1])
        e = _ie(o)
        if e is None:
            if isinstance(o, float) and math.isfinite(o):
                if o == int(o):
                    e = ival(int(o))
                elif op in ('__eq__', '__ne__'):
                    return op == '__ne__'
                else:               # x < 2.5 iff x < 3; x > 2.5 iff x > 2
                    e = ival(math.ceil(o) if op == '__lt__' else math.floor(o) if op == '__gt__'
                             else math.floor(o) if op == '__le__' else math.ceil(o))
            else:
                return NotImplemented
        return mkbool(z3.simplify(getattr(self.e, op)(e)))

    def __eq__(self, o):
        return self._cmp(o, '__eq__')

    def __ne__(self, o):
        return self._cmp(o, '__ne__')

    def __lt__(self, o):
        return self._cmp(o, '__lt__')

    def __le__(self, o):
        return self._cmp(o, '__le__')

    def __gt__(self, o):
        return self._cmp(o, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, '__ge__')


def ite(c, a, b):
    """Symbolic choice between ints."""
    if not isinstance(c, SymBool):
        return a if c else b
    return mkint(fz.If(c.e, _ie(a), _ie(b)))
