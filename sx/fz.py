"""Direct construction of z3 terms (the operators of z3.py spend most of their time on coercions)."""
import z3
from z3 import z3core as zc

_C = z3.main_ctx()
_R = _C.ref()


def Not(a):
    return z3.BoolRef(zc.Z3_mk_not(_R, a.ast), _C)


def And(xs):
    n = len(xs)
    if n == 1:
        return xs[0]
    return z3.BoolRef(zc.Z3_mk_and(_R, n, (z3.Ast * n)(*[x.ast for x in xs])), _C)


def Or(xs):
    n = len(xs)
    if n == 1:
        return xs[0]
    return z3.BoolRef(zc.Z3_mk_or(_R, n, (z3.Ast * n)(*[x.ast for x in xs])), _C)


def Eq(a, b):
    return z3.BoolRef(zc.Z3_mk_eq(_R, a.ast, b.ast), _C)


def Le(a, b):
    return z3.BoolRef(zc.Z3_mk_le(_R, a.ast, b.ast), _C)


def Lt(a, b):
    return z3.BoolRef(zc.Z3_mk_lt(_R, a.ast, b.ast), _C)


def Ge(a, b):
    return z3.BoolRef(zc.Z3_mk_ge(_R, a.ast, b.ast), _C)


def Implies(a, b):
    return z3.BoolRef(zc.Z3_mk_implies(_R, a.ast, b.ast), _C)


def If(c, a, b):
    return z3.ArithRef(zc.Z3_mk_ite(_R, c.ast, a.ast, b.ast), _C)


def Add(a, b):
    return z3.ArithRef(zc.Z3_mk_add(_R, 2, (z3.Ast * 2)(a.ast, b.ast)), _C)


def Sub(a, b):
    return z3.ArithRef(zc.Z3_mk_sub(_R, 2, (z3.Ast * 2)(a.ast, b.ast)), _C)
