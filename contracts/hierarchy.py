"""Hierarchy of text lines (parents and siblings) and trim boxes (src/utils/TextLinesDetectionUtils.cpp)."""
from .nest import *
from . import counter, geometry
LN = 'PdfTextLine.'
NEXT, PREV, PARENT = LN + 'nextSiblingLine', LN + 'prevSiblingLine', LN + 'parentLine'
SEGS, SLINES = ('PdfPageSegment', 'PdfPage.segments'), ('PdfTextLine', 'PdfPageSegment.lines')
TUS = ('src/utils/TextLinesDetectionUtils.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp', 'src/utils/Counter.cpp', 'src/utils/PdfElementsUtils.cpp')
CFG = 'TextLinesDetectionUtils._config'


class Hierarchy(Spec):
    """Ghost: ORD(l) is the position of line l among the lines of the page, LISTED(l) any property of the lines of the page."""
    name = 'utils::TextLinesDetectionUtils::computeTextLineHierarchy'
    tus = TUS
    skip_frames = (NEXT, PREV, PARENT)

    def ORD(self, c, r):
        return c.E.fn('line_order', IntS, IntS)(r)

    def ON(self, c, r):
        return c.E.fn('line_listed', IntS, BoolS)(r)

    def segs(self, c):
        return c.fld('PdfPage.segments', c.av(0), c.pre)

    def nest(self, c):
        return Nest(c, 'lineno', IntS, [SEGS, SLINES], lambda a, e: a + 1)

    def cfg(self, c, f):
        for x in c.ex.prog.all_fields('TextLinesDetectionConfig'):
            if x['name'] == f:
                return c.fld(c.ex.fieldkey(x), c.this_fld(CFG, c.pre), c.pre)
        raise KeyError(f)

    def requires(self, c):
        v = self.segs(c)
        yield 'page', c.av(0) != 0
        yield 'config', c.this_fld(CFG, c.pre) != 0
        for k in (SEGS, SLINES):
            yield 'no null %s' % k[0], no_nulls(c, k[1])
        yield 'document', Implies(c.len(v) > 0, c.fld('PdfElement.doc', c.at(v, I(0)), c.pre) != 0)
        yield 'tolerance', And(self.cfg(c, 'coordsEqualTolerance') >= 0, self.cfg(c, 'coordsEqualTolerance') <= MAXF)
        m = c.ex.named(c.fmap(SLINES[1], c.pre), 'hm')
        pg = c.ex.named(c.arr(v), 'arr')
        p, i, r = z3.Ints('cp ci rp')
        w = z3.Select(m, z3.Select(pg, p))
        e = z3.Select(c.arr(w), i)
        N = self.nest(c)
        at = N.F('PdfTextLine', w, i, N.F('PdfPageSegment', v, p, I(0)))
        yield 'lines have boxes and are listed once', z3.ForAll([p, i], Implies(And(p >= 0, p < c.len(v), i >= 0, i < c.len(w)), And(pos(c, e, c.pre) != 0, self.ON(c, e), self.ORD(c, e) == at, *[finite(side(c, e, s, c.pre)) for s in BOX])), patterns=[e])
        for f in (NEXT, PREV, PARENT):
            m = c.ex.named(c.fmap(f, c.pre), 'hm')
            yield 'not computed yet (%s)' % f, z3.ForAll([r], z3.Select(m, r) == 0, patterns=[z3.Select(m, r)])

    def modifies(self, c):
        return [('field', f, lambda r: self.ON(c, r)) for f in (NEXT, PREV, PARENT)]

    def fabs(self, c, x):
        return z3.If(x < 0, c.E.fneg(x), x)

    def state(self, c, s, n):
        E = c.E
        r = z3.Int('rs')
        N, V, P = [c.fmap(f, s) for f in (NEXT, PREV, PARENT)]
        nx, pv, pa = [z3.Select(m, r) for m in (N, V, P)]
        X = lambda e, f: side(c, e, f, c.pre)
        doc = c.fld('PdfElement.doc', c.at(self.segs(c), I(0)), c.pre)
        thr = E.fop('*', self.cfg(c, 'textLineHierarchyLeftXOffsetThresholdFactor'), c.fld('PdfDocument.avgCharWidth', doc, c.pre))
        ct = self.cfg(c, 'coordsEqualTolerance')
        above = lambda a, b: X(a, 'lowerY') < E.fop('-', X(b, 'lowerY'), ct)
        ok = lambda e: And(self.ON(c, e), e != 0)
        yield 'siblings refer to each other', And(z3.ForAll([r], Implies(pv != 0, z3.Select(N, pv) == r), patterns=[pv]), z3.ForAll([r], Implies(nx != 0, z3.Select(V, nx) == r), patterns=[nx]))
        yield 'siblings are lines of the page', z3.ForAll([r], Implies(pv != 0, And(ok(r), ok(pv))), patterns=[pv])
        yield 'next siblings are lines of the page', z3.ForAll([r], Implies(nx != 0, And(ok(r), ok(nx))), patterns=[nx])
        yield 'previous siblings come first', z3.ForAll([r], Implies(pv != 0, self.ORD(c, pv) < self.ORD(c, r)), patterns=[pv])
        yield 'siblings have the same parent', z3.ForAll([r], Implies(pv != 0, z3.Select(P, pv) == pa), patterns=[pv])
        yield 'siblings start at the same x', z3.ForAll([r], Implies(pv != 0, self.fabs(c, E.fop('-', X(pv, 'leftX'), X(r, 'leftX'))) <= thr), patterns=[pv])
        yield 'previous siblings end above', z3.ForAll([r], Implies(pv != 0, above(pv, r)), patterns=[pv])
        yield 'parents are lines of the page', z3.ForAll([r], Implies(pa != 0, And(ok(r), ok(pa))), patterns=[pa])
        yield 'parents come first', z3.ForAll([r], Implies(pa != 0, self.ORD(c, pa) < self.ORD(c, r)), patterns=[pa])
        yield 'parents end above', z3.ForAll([r], Implies(pa != 0, above(pa, r)), patterns=[pa])
        yield 'the parent of a line without previous sibling starts further left', z3.ForAll([r], Implies(And(pa != 0, pv == 0), X(pa, 'leftX') < E.fop('-', X(r, 'leftX'), thr)), patterns=[pa])
        for nm, q in (('next', nx), ('previous', pv), ('parent', pa)):
            yield 'only lines seen so far are related (%s)' % nm, z3.ForAll([r], Implies(q != 0, self.ORD(c, r) < n), patterns=[q])

    def ensures(self, c):
        v = self.segs(c)
        c.ex.note_index(c.ex.named(c.arr(v), 'arr'), c.len(v))
        yield from self.state(c, c.post, self.nest(c).F('PdfPageSegment', v, c.len(v), I(0)))

    def invariants(self, lc):
        c = lc.c
        N = self.nest(c)
        st = N.state(lc, lambda s: I(0))
        stacks = lc.vars(lambda t: t.k == 'vec' and t.n == 'stack')
        d = 0
        if st is None:
            # the loop that pops the stack: the line in hand is the current one of the enclosing loop
            outer = [l.extra for l in lc.lp.outer if N.cls_of(l.extra)]
            if len(outer) != 2:
                return
            n0 = N.enter(SEGS[0], outer[0], lc.entry.env[outer[0]['idx'].key].t, I(0))
            t = N.F(SLINES[0], outer[1]['vec0'].t, lc.entry.env[outer[1]['idx'].key].t, n0)
            st = lambda s: t
        else:
            k = lc.extra['idx'].key
            yield 'index in range', lambda s: And(s.env[k].t >= 0, s.env[k].t <= c.len(lc.extra['vec0'].t))
            for i, (nm, _) in enumerate(self.state(c, lc.entry, I(0))):
                yield nm, lambda s, i=i: list(self.state(c, s, st(s)))[i][1]
            r = z3.Int('frw')
            for f in (NEXT, PREV, PARENT):
                yield 'frame of %s' % f, lambda s, f=f: z3.ForAll([r], Implies(Not(self.ON(c, r)), z3.Select(c.fmap(f, s), r) == z3.Select(c.fmap(f, c.pre), r)), patterns=[z3.Select(c.fmap(f, s), r)])
        for nm, g, key in lc.vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec' and t.a[0].n == 'PdfTextLine'):
            yield '%s is a line' % nm, lambda s, g=g: Implies(g(s) != 0, pos(c, g(s), c.pre) != 0)
        for nm, g, key in stacks:
            yield 'lines in %s' % nm, lambda s, g=g: c.all_idx(g(s), lambda i, e: And(e != 0, self.ON(c, e), pos(c, e, c.pre) != 0), name='qs')
            yield 'lines in %s were seen' % nm, lambda s, g=g: c.all_idx(g(s), lambda i, e: self.ORD(c, e) < st(s), name='qs')
            yield 'lines in %s have finite boxes' % nm, lambda s, g=g: c.all_idx(g(s), lambda i, e: And(*[finite(side(c, e, x, c.pre)) for x in BOX]), name='qs')
            yield 'lines in %s have no next sibling yet' % nm, lambda s, g=g: c.all_idx(g(s), lambda i, e: c.fld(NEXT, e, s) == 0, name='qs')
            i, j = z3.Ints('qi qj')

            def ordered(s, g=g):
                v = g(s)
                a = c.ex.named(c.arr(v), 'arr')
                x, y = z3.Select(a, i), z3.Select(a, j)
                return z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < c.len(v)), self.ORD(c, x) < self.ORD(c, y)), patterns=[z3.MultiPattern(x, y)])
            yield 'lines in %s are in order' % nm, ordered


class TrimBox(Spec):
    name = 'utils::TextLinesDetectionUtils::computeTrimBox'
    tus = TUS

    cfg = Hierarchy.cfg

    def lines(self, c):
        return c.fld(SLINES[1], c.av(0), c.pre)

    def requires(self, c):
        yield 'segment', And(c.av(0) != 0, pos(c, c.av(0), c.pre) != 0)
        yield 'config', c.this_fld(CFG, c.pre) != 0
        yield 'lines have boxes', elems_ok(c, self.lines(c), c.pre)
        yield 'precision', And(self.cfg(c, 'trimBoxCoordsPrec') >= 0, self.cfg(c, 'trimBoxCoordsPrec') <= 10)
        v = self.lines(c)
        yield 'number of lines', c.len(v) < (1 << 31)
        yield 'ghost', c.all_idx(v, lambda i, e: self.ROUNDED(c, self.rounded(c, self.rot_right(c, e))))

    def ROUNDED(self, c, x):
        """ghost: x is the right coordinate of a line of the segment, rounded to the configured precision"""
        return c.E.fn('is_rounded_right', z3.RealSort(), BoolS)(x)

    def rounded(self, c, x):
        E = c.E
        p = self.cfg(c, 'trimBoxCoordsPrec')
        n = z3.ToInt(p)
        R = z3.RealSort()
        rnd, pw = E.fn('libm_round', R, R), E.fn('libm_pow', R, R, R)(E.fval(10), z3.ToReal(n))
        return z3.If(n == 0, rnd(x), E.fop('/', rnd(E.fop('*', x, pw)), pw))

    def rot_right(self, c, e):
        m = [side(c, e, f, c.pre) for f in ('rightX', 'lowerY', 'leftX', 'upperY')]
        r = side(c, e, 'rotation', c.pre)
        return z3.If(r == 1, m[1], z3.If(r == 2, m[2], z3.If(r == 3, m[3], m[0])))

    def ensures(self, c):
        s = c.res.sort()
        get = lambda i: s.accessor(0, i)(c.res)
        for i, f in ((0, 'leftX'), (1, 'upperY'), (3, 'lowerY')):
            yield '%s of the segment' % f, get(i) == side(c, c.av(0), f, c.pre)
        yield 'the right side is that of the segment or a rounded right side of a line', Or(get(2) == side(c, c.av(0), 'rightX', c.pre), self.ROUNDED(c, get(2)))
        yield 'the right side of an empty segment is kept', Implies(c.len(self.lines(c)) == 0, get(2) == side(c, c.av(0), 'rightX', c.pre))

    def invariants(self, lc):
        c = lc.c
        tys = {}
        def isctr(t):
            if t.k == 'rec' and t.n.endswith('DoubleCounter'):
                tys['t'] = t
                return True
            return False
        ctrs = lc.mod_vars(isctr)
        for nm, g, key in ctrs:
            m = lambda s, g=g: c.E.rec_get(tys['t'], g(s), '@base')
            for inm, ig in lc.indices():
                yield '%s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.len(self.lines(c)))

                def bound(s, ig=ig, m=m):
                    d, v = c.ex.named(c.E.mdom(m(s))), c.ex.named(c.E.mval(m(s)))
                    k = z3.Const('kt', d.sort().domain())
                    return z3.ForAll([k], Implies(z3.Select(d, k), And(z3.Select(v, k) >= 0, z3.Select(v, k) <= ig(s), self.ROUNDED(c, k))), patterns=[z3.Select(d, k), z3.Select(v, k)])
                yield 'counts of %s' % nm, bound
                yield '%s empty at first' % nm, lambda s, ig=ig, m=m: Implies(ig(s) == 0, c.E.mcard(m(s)) == 0)


specs = counter.specs + [x for x in geometry.specs if getattr(x, 'fmode', 'uf') != 'fp'] + [Hierarchy(), TrimBox()]
