"""What harnesses use.  The same harness runs in two ways:

* under the explorer, where sx.int, sx.str, ... return symbolic values and sx.check asks the solver;
* in a replay, where they return the values of a counterexample (or of a passing sample) and the
  plain, unmodified code of /repo runs.
"""
import builtins

HARNESSES = {}


class Violated(BaseException):
    """A check failed in a replay."""


class Assumed(BaseException):
    """An assumption failed in a replay."""


def harness(quick=({},), thorough=None, reach=(), bounds=''):
    """Declare a harness: the parameter sets for both tiers, labels that must be reached, bounds."""
    def deco(f):
        f.quick = list(quick)
        f.thorough = list(thorough if thorough is not None else quick)
        f.reach = set(reach)
        f.bounds = bounds
        HARNESSES[(f.__module__, f.__name__)] = f
        return f
    return deco


class Plain:
    """Replay of given values."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.observed = []
        self.labels = set()
        self.tags = []

    def int(self, name, lo, hi):
        return self.values.get(name, lo)

    def bool(self, name):
        return builtins.bool(self.values.get(name, False))

    def str(self, name, minlen, maxlen, dom, dom1=None):
        return self.values.get(name, 'x' * minlen)

    def force(self, cond):
        if not cond:
            raise Assumed()

    def check(self, cond, msg):
        if not cond:
            raise Violated(msg)

    def observe(self, value):
        self.observed.append(jsonable(value))

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def fix(self, x):
        return x

    def tree_backend(self):
        from . import tree
        return tree.PlainTree

    def out(self):
        import io
        return io.StringIO()

    def tag(self, name, cond):
        if cond:
            self.tags.append(name)
            return True
        return False


B = Plain({})


def jsonable(v):
    if isinstance(v, (builtins.str, builtins.int, builtins.float, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return [[jsonable(k), jsonable(x)] for k, x in v.items()]
    if isinstance(v, (set, frozenset)):
        return sorted((jsonable(x) for x in v), key=repr)
    return repr(type(v))


def int(name, lo, hi):
    """An integer lo <= x <= hi."""
    return B.int(name, lo, hi)


def bool(name):
    return B.bool(name)


def choice(name, options):
    """One of the options; explored one by one, chosen by the solver."""
    options = list(options)
    return options[B.fix(B.int(name, 0, len(options) - 1))]


pick = choice


def str(name, minlen, maxlen=None, chars='text', first=None):
    """A string with minlen..maxlen characters out of the class `chars` (see DOMS)."""
    return B.str(name, minlen, minlen if maxlen is None else maxlen, chars, first)


def assume(cond):
    """Only paths where cond holds are of interest."""
    B.force(cond)


def check(cond, msg):
    """The property: cond must hold for all values."""
    B.check(cond, msg)


def fail(msg):
    B.check(False, msg)


def observe(value):
    """Compared between the symbolic path and the replay of sampled paths."""
    B.observe(value)


def reach(label):
    B.labels.add(label)


def and_(*xs):
    return B.and_(*xs)


def or_(*xs):
    return B.or_(*xs)


def not_(x):
    return B.not_(x)


def implies(a, b):
    return B.or_(B.not_(a), b)


def iff(a, b):
    return B.or_(B.and_(a, b), B.and_(B.not_(a), B.not_(b)))


def ite(c, a, b):
    return B.ite(c, a, b)


def eq(a, b):
    """Structural equality without deciding anything."""
    return B.eq(a, b)


def fix(x):
    """Explore all values of x one by one."""
    return B.fix(x)


def count(conds):
    n = 0
    for c in conds:
        n = n + B.ite(c, 1, 0)
    return n


def tree(name, n, **kw):
    return B.tree_backend()(name, n, **kw)


def out():
    """A text stream."""
    return B.out()


def finding(ident, cond):
    """Is this input inside the region of a recorded finding?"""
    return B.tag(ident, cond)


def is_symbolic():
    return B.symbolic


def raises(excs, f, *args, **kw):
    """Call f; return the exception if it is one of excs, else None."""
    try:
        f(*args, **kw)
    except excs as e:
        return e
    return None
