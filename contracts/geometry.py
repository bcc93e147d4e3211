"""Rotated coordinates of PdfPosition, and gaps, offsets and overlap ratios of elements (src/Types.cpp, src/utils/PdfElementsUtils.cpp)."""
from fractions import Fraction
from .common import *

U = 'utils::elements::'
F64 = z3.Float64()
TOL = 0.0001


def fside(c, i, s):
    return side(c, c.av(i), s, c.pre)


class Pos(Spec):
    tus = ('src/Types.cpp',)
    fmode = 'fp'

    def t(self, c, f):
        return c.this_fld('PdfPosition.' + f, c.pre)


def getter(nm, table):
    """table: rotation -> side; any other rotation behaves like 0"""
    class P(Pos):
        name = 'types::PdfPosition::' + nm

        def ensures(self, c):
            rot = self.t(c, 'rotation')
            for k in (1, 2, 3):
                yield 'rotation %d' % k, Implies(rot == k, c.res == self.t(c, table[k]))
            yield 'no rotation', Implies(Not(And(rot >= 1, rot <= 3)), c.res == self.t(c, table[0]))
    P.__name__ = nm
    return P()


def extent(nm, f):
    class P(Pos):
        name = 'types::PdfPosition::' + nm
        fmode = 'uf'

        def ensures(self, c):
            yield from f(self, c)
    return P()


def plain(a, b):
    def f(s, c):
        yield 'difference', c.res == c.E.fop('-', s.t(c, a), s.t(c, b))
    return f


def rotext(even, odd, isw):
    """the extent along the (cross) reading direction: independent of the direction it is read in"""
    def f(s, c):
        rot = s.t(c, 'rotation')
        swapped = Or(rot == 1, rot == 3)
        yield 'quarter turns', Implies(swapped, c.res == c.E.fop('-', s.t(c, odd[0]), s.t(c, odd[1])))
        yield 'no or half turn', Implies(Not(swapped), c.res == c.E.fop('-', s.t(c, even[0]), s.t(c, even[1])))
    return f


def two(c):
    for i in (0, 1):
        yield 'element %d' % (i + 1), And(c.av(i) != 0, pos(c, c.av(i), c.pre) != 0)


class EU(Spec):
    tus = ('src/utils/PdfElementsUtils.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp')
    fmode = 'fp'

    def requires(self, c):
        yield from two(c)


def gap(nm, near, far):
    class P(EU):
        name = U + nm

        def ensures(self, c):
            sub = lambda a, b: z3.fpSub(z3.RNE(), a, b)
            n1, n2, f1, f2 = fside(c, 0, near), fside(c, 1, near), fside(c, 0, far), fside(c, 1, far)
            first = z3.fpLT(n1, sub(n2, z3.FPVal(TOL, F64)))
            yield 'first element comes first', Implies(first, c.res == sub(n2, f1))
            yield 'second element comes first', Implies(Not(first), c.res == sub(n1, f2))
    P.__name__ = nm
    return P()


def offset(nm, s):
    class P(EU):
        name = U + nm

        def ensures(self, c):
            yield 'difference', c.res == z3.fpSub(z3.RNE(), fside(c, 0, s), fside(c, 1, s))
    return P()


def eqside(nm, s):
    class P(EU):
        name = U + nm

        def ensures(self, c):
            yield 'difference at most the tolerance', c.res == z3.fpLEQ(z3.fpAbs(z3.fpSub(z3.RNE(), fside(c, 0, s), fside(c, 1, s))), c.av(2))
    return P()


class EqFont(Spec):
    name = U + 'computeHasEqualFont'
    tus = EU.tus

    def requires(self, c):
        yield 'elements', And(c.av(0) != 0, c.av(1) != 0)

    def ensures(self, c):
        f = lambda i: c.fld('PdfTextElement.fontName', c.av(i), c.pre)
        yield 'same font name', c.res == (f(0) == f(1))


class EqFontSize(Spec):
    name = U + 'computeHasEqualFontSize'
    tus = EU.tus
    fmode = 'fp'

    def requires(self, c):
        yield 'elements', And(c.av(0) != 0, c.av(1) != 0)

    def ensures(self, c):
        f = lambda i: c.fld('PdfTextElement.fontSize', c.av(i), c.pre)
        yield 'difference at most the tolerance', c.res == z3.fpLEQ(z3.fpAbs(z3.fpSub(z3.RNE(), f(0), f(1))), c.av(2))


def rmin(a, b):
    return z3.If(a <= b, a, b)


def rmax(a, b):
    return z3.If(a >= b, a, b)


def ratios(c, s1, e1, s2, e2):
    E = c.E
    a1, b1, a2, b2 = rmin(s1, e1), rmax(s1, e1), rmin(s2, e2), rmax(s2, e2)
    l1, l2 = E.fop('-', b1, a1), E.fop('-', b2, a2)
    ov = rmax(z3.RealVal(0), E.fop('-', rmin(b1, b2), rmax(a1, a2)))
    zero = z3.RealVal(0)
    return z3.If(l1 > 0, E.fop('/', ov, l1), zero), z3.If(l2 > 0, E.fop('/', ov, l2), zero)


def pair_of(c):
    s = c.res.sort()
    return s.accessor(0, 0)(c.res), s.accessor(0, 1)(c.res)


class Overlap(Spec):
    name = U + 'computeOverlapRatios'
    tus = EU.tus

    def args4(self, c):
        return [c.av(i) for i in range(4)]

    def requires(self, c):
        yield 'finite', And(*[finite(x) for x in self.args4(c)])

    def ensures(self, c):
        a = self.args4(c)
        r1, r2 = pair_of(c)
        q1, q2 = ratios(c, *a)
        yield 'first ratio is overlap / length', r1 == q1
        yield 'second ratio is overlap / length', r2 == q2
        yield 'ratios lie between 0 and 1', And(r1 >= 0, r1 <= 1, r2 >= 0, r2 <= 1)


def overlap2(nm, s, e):
    class P(Overlap):
        name = U + nm
        requires_two = True

        def args4(self, c):
            return [fside(c, 0, s), fside(c, 0, e), fside(c, 1, s), fside(c, 1, e)]

        def requires(self, c):
            yield from two(c)
            yield 'finite', And(*[finite(x) for x in self.args4(c)])
    P.__name__ = nm
    return P()


def maxoverlap(nm, s, e):
    class P(Spec):
        name = U + nm
        tus = EU.tus

        def requires(self, c):
            yield from two(c)
            yield 'finite', And(*[finite(fside(c, i, x)) for i in (0, 1) for x in (s, e)])

        def ensures(self, c):
            q1, q2 = ratios(c, fside(c, 0, s), fside(c, 0, e), fside(c, 1, s), fside(c, 1, e))
            yield 'the larger of the two ratios', And(c.res >= q1, c.res >= q2, Or(c.res == q1, c.res == q2))
            yield 'ratio lies between 0 and 1', And(c.res >= 0, c.res <= 1)
    P.__name__ = nm
    return P()


specs = [
    getter('getRotLeftX', ['leftX', 'upperY', 'rightX', 'lowerY']),
    getter('getRotUpperY', ['upperY', 'rightX', 'lowerY', 'leftX']),
    getter('getRotRightX', ['rightX', 'lowerY', 'leftX', 'upperY']),
    getter('getRotLowerY', ['lowerY', 'leftX', 'upperY', 'rightX']),
    extent('getWidth', plain('rightX', 'leftX')), extent('getHeight', plain('lowerY', 'upperY')),
    extent('getRotWidth', rotext(('rightX', 'leftX'), ('lowerY', 'upperY'), True)),
    extent('getRotHeight', rotext(('lowerY', 'upperY'), ('rightX', 'leftX'), False)),
    gap('computeHorizontalGap', 'leftX', 'rightX'), gap('computeVerticalGap', 'upperY', 'lowerY'),
    offset('computeLeftXOffset', 'leftX'), offset('computeRightXOffset', 'rightX'),
    eqside('computeHasEqualLeftX', 'leftX'), eqside('computeHasEqualUpperY', 'upperY'), eqside('computeHasEqualRightX', 'rightX'), eqside('computeHasEqualLowerY', 'lowerY'),
    EqFont(), EqFontSize(), Overlap(), overlap2('computeXOverlapRatios', 'leftX', 'rightX'), overlap2('computeYOverlapRatios', 'upperY', 'lowerY'),
    maxoverlap('computeMaxXOverlapRatio', 'leftX', 'rightX'), maxoverlap('computeMaxYOverlapRatio', 'upperY', 'lowerY'),
]
