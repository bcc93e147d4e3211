"""Contracts for src/utils/MathUtils.cpp: exact IEEE-754 double semantics (z3 floating-point theory), including NaN,
infinities and signed zeros; and the floating-point lemmas the other contracts rely on."""
import z3
from cppwp.spec import Spec
from cppwp.enc import *

TU = 'src/utils/MathUtils.cpp'
RNE = z3.RNE()
F64 = z3.Float64()
ZERO = z3.FPVal(0.0, F64)


def nan(*xs):
    return Or(*[z3.fpIsNaN(x) for x in xs])


def fin(*xs):
    return And(*[Not(Or(z3.fpIsNaN(x), z3.fpIsInf(x))) for x in xs])


class M(Spec):
    tus = (TU,)
    fmode = 'fp'
    timeout = 120000


def pred(nm, f, extra=(), n=3):
    class P(M):
        name = 'utils::math::' + nm

        def ensures(self, c):
            a = [c.av(i) for i in range(n)]
            yield 'exact definition', c.res == f(*a)
            for nn, g in extra:
                yield nn, g(c.res, *a)
    P.__name__ = nm
    return P()


add = lambda a, b: z3.fpAdd(RNE, a, b)
sub = lambda a, b: z3.fpSub(RNE, a, b)
LE, LT, GE, GT = z3.fpLEQ, z3.fpLT, z3.fpGEQ, z3.fpGT
f_larger = lambda a, b, t: GT(a, add(b, t))
f_smaller = lambda a, b, t: LT(a, sub(b, t))
f_eqlarger = lambda a, b, t: GE(a, sub(b, t))
f_eqsmaller = lambda a, b, t: LE(a, add(b, t))
f_equal = lambda a, b, t: LE(z3.fpAbs(sub(a, b)), t)


def fold2(better, nm, k):
    """minimum / maximum of k values"""
    class P(M):
        name = 'utils::math::' + nm
        sig = 'double (%s)' % ', '.join(['double'] * k)

        def ensures(self, c):
            a = [c.av(i) for i in range(k)]
            ok = Not(nan(*a))
            yield 'result is one of the arguments', Implies(ok, Or(*[c.res == x for x in a]))
            for i, x in enumerate(a):
                yield 'result is bounded by argument %d' % i, Implies(ok, better(c.res, x))
    return P()


class Round(M):
    name = 'utils::math::round'
    fmode = 'fp'

    def ensures(self, c):
        d, n = c.av(0), c.av(1)
        yield 'no decimals: nearest integer, halves away from zero', Implies(n == 0, c.res == z3.fpRoundToIntegral(z3.RNA(), d))


x, y, z, t = [z3.FP(k, F64) for k in 'xyzt']


class Lemmas(Spec):
    name = 'lemma: IEEE-754 facts used as axioms in the other contracts'
    lemma = True
    timeout = 120000

    def formulas(self):
        nonneg = And(fin(t), GE(t, ZERO))
        yield 'adding a non-negative number does not decrease', Implies(And(fin(x), nonneg), GE(add(x, t), x))
        yield 'adding a non-positive number does not increase', Implies(And(fin(x, t), LE(t, ZERO)), LE(add(x, t), x))
        yield 'addition to a non-negative number does not decrease', Implies(And(fin(x), nonneg), GE(add(t, x), x))
        yield 'addition to a non-positive number does not increase', Implies(And(fin(x, t), LE(t, ZERO)), LE(add(t, x), x))
        yield 'subtracting a non-negative number does not increase', Implies(And(fin(x), nonneg), LE(sub(x, t), x))
        yield 'subtracting a non-positive number does not decrease', Implies(And(fin(x, t), LE(t, ZERO)), GE(sub(x, t), x))
        yield 'sign of a difference (>=)', Implies(fin(x, y), GE(sub(x, y), ZERO) == GE(x, y))
        yield 'sign of a difference (<=)', Implies(fin(x, y), LE(sub(x, y), ZERO) == LE(x, y))
        yield 'quotient of non-negative numbers is non-negative', Implies(And(fin(x, y), GE(x, ZERO), GT(y, ZERO)), GE(z3.fpDiv(RNE, x, y), ZERO))
        yield 'quotient of a smaller by a larger number is at most 1', Implies(And(fin(x, y), GE(x, ZERO), GT(y, ZERO), LE(x, y)), LE(z3.fpDiv(RNE, x, y), z3.FPVal(1.0, F64)))
        # the tolerance comparisons as a family
        nn = Not(nan(x, y, t))
        yield 'equalOrSmaller is the negation of larger', Implies(Not(nan(x, y, t, add(y, t))), f_eqsmaller(x, y, t) == Not(f_larger(x, y, t)))
        yield 'equalOrLarger is the negation of smaller', Implies(Not(nan(x, y, t, sub(y, t))), f_eqlarger(x, y, t) == Not(f_smaller(x, y, t)))
        yield 'larger and smaller exclude each other for tolerance >= 0', Implies(nonneg, Not(And(f_larger(x, y, t), f_smaller(x, y, t))))


specs = [
    pred('equal', f_equal, [
        ('reflexive for finite values and tolerance >= 0', lambda r, a, b, t: Implies(And(z3.fpEQ(a, b), Not(z3.fpIsInf(a)), GE(t, ZERO)), r)),
        ('NaN is equal to nothing', lambda r, a, b, t: Implies(nan(a, b, t), Not(r)))]),
    pred('larger', f_larger, [('false on NaN', lambda r, a, b, t: Implies(nan(a, b, t), Not(r))), ('implies > for tolerance >= 0', lambda r, a, b, t: Implies(And(r, GE(t, ZERO)), GT(a, b)))]),
    pred('smaller', f_smaller, [('false on NaN', lambda r, a, b, t: Implies(nan(a, b, t), Not(r))), ('implies < for tolerance >= 0', lambda r, a, b, t: Implies(And(r, GE(t, ZERO)), LT(a, b)))]),
    pred('equalOrLarger', f_eqlarger, [('false on NaN', lambda r, a, b, t: Implies(nan(a, b, t), Not(r))), ('holds when >= for tolerance >= 0', lambda r, a, b, t: Implies(And(fin(a, b, t), GE(a, b), GE(t, ZERO)), r))]),
    pred('equalOrSmaller', f_eqsmaller, [('false on NaN', lambda r, a, b, t: Implies(nan(a, b, t), Not(r))), ('holds when <= for tolerance >= 0', lambda r, a, b, t: Implies(And(fin(a, b, t), LE(a, b), GE(t, ZERO)), r))]),
    pred('between', lambda a, lo, up, t: And(f_eqlarger(a, lo, t), f_eqsmaller(a, up, t)), n=4),
] + [fold2(LE, 'minimum', k) for k in (2, 3, 4)] + [fold2(GE, 'maximum', k) for k in (2, 3, 4)] + [Round(), Lemmas()]
