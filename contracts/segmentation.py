"""Page segmentation (src/PageSegmentation.cpp): which cuts are chosen, and that the segments partition the page."""
from .common import *
from . import xycut, pageseg, geometry
from .geometry import ratios
from .xycut import CUT, Choose, elem, valid
from .blockrules import T, NONE, NO
M, SEG = 'modules::PageSegmentation::', 'PageSegmentation.'
TUS = ('src/PageSegmentation.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp', 'src/utils/PdfElementsUtils.cpp')
LISTS = ['PdfPage.' + f for f in ('words', 'figures', 'graphics', 'shapes')]


class R(T):
    def __init__(self, c):
        super().__init__(c, c.this_fld(SEG + '_config', c.pre), c.this_fld(SEG + '_doc', c.pre))

    def cfg(self, f):
        for x in self.c.ex.prog.all_fields('PageSegmentationConfig'):
            if x['name'] == f:
                return self.c.fld(self.c.ex.fieldkey(x), self._cfg, self.c.pre)
        raise KeyError(f)

    def cut(self, k, f):
        return self.f(CUT + f, k)

    def times(self, k, f):
        return self.op('*', self.E.fval(k), self.d(f))

    # overlapped elements near the top or bottom of the cut
    def near(self, k, e):
        t = self.times(5.0, 'avgCharHeight')
        return Or(self.lt(self.op('-', self.x(e, 'upperY'), self.cut(k, 'y1')), t), self.lt(self.op('-', self.cut(k, 'y2'), self.x(e, 'lowerY')), t))

    def overlapping_def(self, k, es):
        c = self.c
        v = self.cut(k, 'overlappingElements')
        return And(c.len(v) > 0, Or(c.len(es) < self.cfg('overlappingMinNumElements'), Not(c.all_idx(v, lambda i, e: Not(self.near(k, e)), name='qo'))))

    # the next word in the order of the page is right of the cut, beside the word left of the cut
    def beside(self, k, e):
        l = self.cut(k, 'elementBefore')
        q1, q2 = ratios(self.c, self.x(l, 'upperY'), self.x(l, 'lowerY'), self.x(e, 'upperY'), self.x(e, 'lowerY'))
        rank = lambda w: self.f('PdfElement.rank', w)
        return And(self.c.is_kind(e, 'PdfWord'), rank(l) + 1 == rank(e), Not(self.lt(self.max(q1, q2), self.cfg('contiguousWordsYOverlapRatioThreshold'))))

    def contiguous_def(self, k, es):
        c = self.c
        return And(c.is_kind(self.cut(k, 'elementBefore'), 'PdfWord'), Not(c.all_idx(es, lambda i, e: Not(self.beside(k, e)), lo=self.cut(k, 'posInElements'), name='qr')))

    def opq(self, nm, k, es):
        return self.c.E.fn('cut_' + nm, IntS, es.sort(), BoolS)(k, es)

    def small(self, k):
        return And(self.lt(self.cut(k, 'gapWidth'), self.times(2.0, 'avgCharWidth')), self.lt(self.cut(k, 'gapHeight'), self.times(6.0, 'avgCharHeight')))

    def slim(self, p, k, es):
        c = self.c
        thr = self.slim_thr()
        first = z3.If(p != 0, self.cut(p, 'elementAfter'), c.at(es, I(0)))
        left = self.op('-', self.x(self.cut(k, 'elementBefore'), 'rightX'), self.x(first, 'leftX'))
        right = self.op('-', self.x(c.at(es, c.len(es) - 1), 'rightX'), self.x(self.cut(k, 'elementAfter'), 'leftX'))
        return And(c.len(es) > 0, Or(self.lt(left, thr), self.lt(right, thr)))

    def slim_thr(self):
        return self.times(10.0, 'avgCharWidth')

    def chosen(self, p, k, es):
        return And(Not(self.opq('overlapping', k, es)), Not(self.small(k)), Not(self.opq('contiguous', k, es)), Not(self.slim(p, k, es)))


def cut_ok(c, k):
    f = lambda n: c.fld(CUT + n, k, c.pre)
    return And(k != 0, elem(c, f('elementBefore'), c.pre), elem(c, f('elementAfter'), c.pre), valid(c, f('overlappingElements'), c.pre))


def obj_ok(c):
    yield 'config and document', And(c.this_fld(SEG + '_config', c.pre) != 0, c.this_fld(SEG + '_doc', c.pre) != 0)


class CutRule(Spec):
    tus = TUS

    def cut(self, c):
        return c.av(0)

    def requires(self, c):
        yield from obj_ok(c)
        yield 'cut', cut_ok(c, self.cut(c))


class Overlapping(CutRule):
    name = M + 'chooseXCut_overlappingElements'

    def ensures(self, c):
        r = R(c)
        k, es = c.av(0), c.av(1)
        if c.mode != 'call':
            c.ex.fact(r.opq('overlapping', k, es) == r.overlapping_def(k, es), c.pre)
        yield 'no cut through elements near its ends', c.res == z3.If(r.opq('overlapping', k, es), NO, NONE)

    def invariants(self, lc):
        c = lc.c
        r = R(c)
        for vn, vg in lc.seqs():
            for inm, ig in lc.indices():
                yield 'none near the ends before %s of %s' % (inm, vn), lambda s, vg=vg, ig=ig: c.all_idx(vg(s), lambda i, e: Not(r.near(c.av(0), e)), hi=ig(s), name='qo')


class Small(CutRule):
    name = M + 'chooseXCut_smallGapWidthHeight'

    def ensures(self, c):
        yield 'no cut at a gap that is small in both directions', c.res == z3.If(R(c).small(c.av(0)), NO, NONE)


class Contiguous(CutRule):
    name = M + 'chooseXCut_contiguousWords'

    def requires(self, c):
        yield from super().requires(c)
        yield 'elements', valid(c, c.av(1), c.pre)
        yield 'position of the cut', And(c.fld(CUT + 'posInElements', c.av(0), c.pre) >= 0, c.fld(CUT + 'posInElements', c.av(0), c.pre) <= c.len(c.av(1)))

    def ensures(self, c):
        r = R(c)
        k, es = c.av(0), c.av(1)
        if c.mode != 'call':
            c.ex.fact(r.opq('contiguous', k, es) == r.contiguous_def(k, es), c.pre)
        yield 'no cut between consecutive words', c.res == z3.If(r.opq('contiguous', k, es), NO, NONE)

    def invariants(self, lc):
        c = lc.c
        r = R(c)
        k = c.av(0)
        for vn, vg in lc.seqs():
            for inm, ig in lc.indices():
                yield 'none beside before %s of %s' % (inm, vn), lambda s, vg=vg, ig=ig: And(ig(s) >= r.cut(k, 'posInElements'), c.all_idx(vg(s), lambda i, e: Not(r.beside(k, e)), lo=r.cut(k, 'posInElements'), hi=ig(s), name='qr'))


class Slim(CutRule):
    name = M + 'chooseXCut_slimGroups'

    def cut(self, c):
        return c.av(1)

    def requires(self, c):
        yield from super().requires(c)
        yield 'previous cut', Implies(c.av(0) != 0, cut_ok(c, c.av(0)))
        yield 'elements', valid(c, c.av(2), c.pre)

    def ensures(self, c):
        yield 'no cut into slim groups', c.res == z3.If(R(c).slim(c.av(0), c.av(1), c.av(2)), NO, NONE)


class ChooseX(Choose):
    """exactly the cuts that no rule rejects are chosen; the rules know the cut chosen before"""
    name = M + 'chooseXCuts'
    tus = TUS
    trusted = False
    skip_frames = (CUT + 'isChosen',)

    def requires(self, c):
        yield from super().requires(c)
        yield from obj_ok(c)

    def modifies(self, c):
        return [super().modifies(c)[1]]

    def F(self, c, n):
        """the cut chosen last among the first n"""
        r = R(c)
        es = c.av(1)
        key = 'lastchosen'
        if key not in c.ex.folds:
            c.ex.folds[key] = Fold(key, z3.ArraySort(IntS, IntS), IntS, I(0), lambda a, e, maps: z3.If(r.chosen(a, e, es), e, a))
            c.ex.fold_maps[key] = []
        return c.fold(c.ex.folds[key], c.av(0), n)

    def flags(self, c, s, hi):
        r = R(c)
        m = c.fmap(CUT + 'isChosen', s)
        return c.all_idx(c.av(0), lambda i, e: z3.Select(m, e) == r.chosen(self.F(c, i), e, c.av(1)), hi=hi, name='qx')

    def ensures(self, c):
        if c.mode == 'call':
            return
        n = c.len(c.av(0))
        yield 'exactly the cuts that no rule rejects are chosen', Implies(c.len(c.av(1)) > 0, self.flags(c, c.post, n))
        yield 'nothing to do without elements', Implies(c.len(c.av(1)) == 0, c.all_idx(c.av(0), lambda i, e: c.fld(CUT + 'isChosen', e, c.post) == c.fld(CUT + 'isChosen', e, c.pre), name='qx'))

    def invariants(self, lc):
        c = lc.c
        r = z3.Int('frw')
        a, b = c.fmap(CUT + 'isChosen', c.pre), (lambda s: c.fmap(CUT + 'isChosen', s))
        ok = self.modifies(c)[0][2]
        yield 'only the cuts change', lambda s: z3.ForAll([r], Implies(Not(ok(r)), z3.Select(b(s), r) == z3.Select(a, r)), patterns=[z3.Select(b(s), r)])
        for inm, ig in lc.indices():
            yield '%s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.len(c.av(0)))
            yield 'cuts before %s are decided' % inm, lambda s, ig=ig: self.flags(c, s, ig(s))
            for pn, pg, pk in lc.mod_vars(lambda t: t.k == 'ptr'):
                yield '%s is the cut chosen last before %s' % (pn, inm), lambda s, ig=ig, pg=pg: pg(s) == self.F(c, ig(s))
                yield '%s is null or a cut' % pn, lambda s, pg=pg: Or(pg(s) == 0, cut_ok(c, pg(s)))


class ChooseY(ChooseX):
    """changes only isChosen of the cuts it is given; all positions it divides the elements at are valid"""
    name = M + 'chooseYCuts'
    heap_locals = ('Cut',)

    def requires(self, c):
        yield from super().requires(c)
        yield 'limits', limits(c)
        yield 'less than 2^31 elements', c.len(c.av(1)) < 2 ** 31

    def modifies(self, c):
        return Choose.modifies(self, c)

    def ensures(self, c):
        return ()

    def invariants(self, lc):
        c = lc.c
        E = c.E
        r, i, j = z3.Ints('frw ci cj')
        a, b = c.fmap(CUT + 'isChosen', c.pre), (lambda s: c.fmap(CUT + 'isChosen', s))
        given = self.modifies(c)[1][2]
        v0 = c.av(0)
        arr0 = c.ex.named(c.arr(v0), 'arr')
        n = c.len(c.av(1))
        P = lambda s, e: z3.Select(c.fmap(CUT + 'posInElements', s), e)
        yield 'only the cuts change', lambda s: z3.ForAll([r], Implies(And(Not(given(r)), r < c.pre.alloc), z3.Select(b(s), r) == z3.Select(a, r)), patterns=[z3.Select(b(s), r)])
        own = lambda s, e: And(e != 0, e < s.alloc, Or(e >= c.pre.alloc, given(e)))
        for inm, ig in lc.indices():
            yield '%s not negative' % inm, lambda s, ig=ig: ig(s) >= 0
            yield '%s in range' % inm, lambda s, ig=ig: ig(s) <= c.len(v0)
        for vn, vg, vk in lc.vars(lambda t: t.k == 'vec' and t.a[0].k == 'ptr' and t.a[0].a[0].n == 'Cut'):
            if vk[0] == 'arg':
                continue
            A = lambda s, vg=vg: c.ex.named(c.arr(vg(s)), 'arr')
            yield 'cuts in %s' % vn, lambda s, vg=vg: c.all_idx(vg(s), lambda k, e: And(own(s, e), P(s, e) >= 0, P(s, e) <= n), name='qc')
            yield 'positions in %s' % vn, lambda s, vg=vg, A=A: z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < c.len(vg(s))), P(s, z3.Select(A(s), i)) <= P(s, z3.Select(A(s), j))), patterns=[z3.MultiPattern(z3.Select(A(s), i), z3.Select(A(s), j))])
            for inm, ig in lc.indices():
                yield '%s in range of %s' % (inm, vn), lambda s, ig=ig, vg=vg: ig(s) <= c.len(vg(s))
                yield 'cuts of %s before those from %s' % (vn, inm), lambda s, ig=ig, vg=vg, A=A: z3.ForAll([i, j], Implies(And(i >= 0, i < c.len(vg(s)), j >= ig(s), j < c.len(v0)), P(s, z3.Select(A(s), i)) <= P(s, z3.Select(arr0, j))), patterns=[z3.MultiPattern(z3.Select(A(s), i), z3.Select(arr0, j))])
            for kn, kg, kk in lc.mod_vars(lambda t: t.k == 'int'):
                yield '%s in range of %s' % (kn, vn), lambda s, kg=kg, vg=vg: And(kg(s) >= 0, kg(s) <= c.len(vg(s)))
        for pn, pg, pk in lc.mod_vars(lambda t: t.k == 'ptr'):
            yield '%s is null or one of the cuts' % pn, lambda s, pg=pg: Or(pg(s) == 0, own(s, pg(s)))


def limits(c):
    m = R(c).cfg('xCutMaxNumOverlappingElements')
    return And(m >= 0, m < 2 ** 31 - 1)


def seg_count(c, s):
    """occurrences of the ghost element in the segments of a list"""
    c.count(z3.K(IntS, I(0)), I(0))
    cnt = c.ex.folds['count']
    E = c.E
    return c.heap_fold(s, 'segcount', ['PdfPageSegment.elements'], lambda a, e, m: a + cnt(E.varr(m[0]), E.vlen(m[0])), rsort=IntS, init=I(0))


def page_count(c, page):
    t = I(0)
    for l in LISTS:
        t = t + c.count(c.fld(l, page, c.pre))
    return t


def page_ok(c, page):
    for l in LISTS:
        yield 'elements (%s)' % l, valid(c, c.fld(l, page, c.pre), c.pre)


class ProcessPage(Spec):
    """every element of the page becomes part of exactly one segment; no segment is empty; boxes by createPageSegment"""
    name = M + 'processPage'
    tus = TUS

    def requires(self, c):
        yield 'page', c.av(0) != 0
        yield 'result list', Not(c.null(1))
        yield from obj_ok(c)
        u = c.this_fld(SEG + '_utils', c.pre)
        yield 'utils', And(u != 0, c.fld('PageSegmentationUtils._config', u, c.pre) != 0)
        yield 'limits', limits(c)
        yield from page_ok(c, c.av(0))

    def modifies(self, c):
        return [('fresh', ['Cut', 'PdfPageSegment', 'PdfPosition']), ('arg', 1), ('field', 'PdfPage.blockDetectionCuts', lambda r: r == c.av(0))]

    def ensures(self, c):
        g0, g = c.av(1), c.av(1, c.post)
        yield 'segments found before stay', xycut.keeps(c, g0, g)
        yield 'segments are new', c.all_idx(g, lambda i, e: And(c.fresh(e), c.len(c.fld('PdfPageSegment.elements', e, c.post)) > 0), lo=c.len(g0), name='qs')
        N = seg_count(c, c.post)
        yield 'the segments hold exactly the elements of the page', N(g) == N(g, c.len(g0)) + page_count(c, c.av(0))

    def invariants(self, lc):
        c = lc.c
        g0 = c.av(1)
        gs = lambda s: c.av(1, s)
        elems = [(nm, g) for nm, g, k in lc.mod_vars(lambda t: t.k == 'vec' and t.a[0].k == 'ptr' and t.a[0].a[0].n == 'PdfElement')]
        rng = lc.extra.get('vec0')
        for inm, ig in lc.indices():
            yield '%s not negative' % inm, lambda s, ig=ig: ig(s) >= 0
            for nm, g in elems:
                yield '%s holds valid elements' % nm, lambda s, g=g: valid(c, g(s), s)
                if rng is not None:
                    yield '%s holds the elements visited' % nm, lambda s, g=g, ig=ig: c.count(g(s)) == c.count(g(lc.entry)) + c.count(rng.t, ig(s))
        yield 'old segments stay', lambda s: xycut.keeps(c, g0, gs(s))
        yield 'segments so far are new', lambda s: c.all_idx(gs(s), lambda i, e: And(e >= c.pre.alloc, e < s.alloc, c.len(c.fld('PdfPageSegment.elements', e, s)) > 0), lo=c.len(g0), name='qs')
        if rng is not None and xycut.isgroups(rng.ty):
            for inm, ig in lc.indices():
                yield 'segments hold the groups before %s' % inm, lambda s, ig=ig: seg_count(c, s)(gs(s)) == seg_count(c, s)(gs(s), c.len(g0)) + c.count2(rng.t, ig(s))


class Process(Spec):
    """every page is segmented"""
    name = M + 'process'
    tus = TUS
    skip_frames = ('PdfPage.segments', 'PdfPage.blockDetectionCuts')

    def pages(self, c):
        return c.fld('PdfDocument.pages', c.this_fld(SEG + '_doc', c.pre), c.pre)

    def requires(self, c):
        yield from obj_ok(c)
        u = c.this_fld(SEG + '_utils', c.pre)
        yield 'utils', And(u != 0, c.fld('PageSegmentationUtils._config', u, c.pre) != 0)
        yield 'limits', limits(c)
        yield 'no null page', c.all_idx(self.pages(c), lambda i, p: And(p != 0, c.E.fn('page_index', IntS, IntS)(p) == i), name='qp')
        yield 'elements of the pages', c.all_idx(self.pages(c), lambda i, p: And(*[g for _, g in page_ok(c, p)]), name='qp')

    def modifies(self, c):
        v = self.pages(c)
        isp = lambda r: Not(c.all_idx(v, lambda i, p: p != r, name='qm'))
        return [('fresh', ['Cut', 'PdfPageSegment', 'PdfPosition']), ('field', 'PdfPage.segments', isp), ('field', 'PdfPage.blockDetectionCuts', isp)]

    def any(self, c):
        k = c.ghost('PAGE', IntS)    # an arbitrary index
        return k, c.at(self.pages(c), k)

    def done(self, c, s, p):
        g0, g = c.fld('PdfPage.segments', p, c.pre), c.fld('PdfPage.segments', p, s)
        N = seg_count(c, s)
        return And(xycut.keeps(c, g0, g), c.all_idx(g, lambda i, e: And(e >= c.pre.alloc, e < s.alloc, c.len(c.fld('PdfPageSegment.elements', e, s)) > 0), lo=c.len(g0), name='qs'), N(g) == N(g, c.len(g0)) + page_count(c, p))

    def ensures(self, c):
        k, p = self.any(c)
        yield 'the new segments of every page hold exactly its elements', Implies(And(k >= 0, k < c.len(self.pages(c))), self.done(c, c.post, p))

    def invariants(self, lc):
        c = lc.c
        r = z3.Int('frw')
        v = self.pages(c)
        k, pk = self.any(c)
        for inm, ig in lc.indices():
            yield '%s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.len(v))
            yield 'pages before %s are done' % inm, lambda s, ig=ig: Implies(And(k >= 0, k < ig(s)), self.done(c, s, pk))
            for f in ('PdfPage.segments', 'PdfPage.blockDetectionCuts'):
                yield 'pages from %s stay (%s)' % (inm, f), lambda s, ig=ig, f=f: c.all_idx(v, lambda i, p: c.fld(f, p, s) == c.fld(f, p, c.pre), lo=ig(s), name='qp')
        for f in ('PdfPage.segments', 'PdfPage.blockDetectionCuts'):
            ok = dict((m[1], m[2]) for m in self.modifies(c)[1:])[f]
            yield 'only pages change (%s)' % f, lambda s, f=f, ok=ok: z3.ForAll([r], Implies(And(Not(ok(r)), r < c.pre.alloc), z3.Select(c.fmap(f, s), r) == z3.Select(c.fmap(f, c.pre), r)), patterns=[z3.Select(c.fmap(f, s), r)])


specs = [Overlapping(), Small(), Contiguous(), Slim(), ChooseX(), ChooseY(), ProcessPage(), Process()] + xycut.specs + [pageseg.CreatePageSegment()] + [s for s in geometry.specs if s.fmode != 'fp']
