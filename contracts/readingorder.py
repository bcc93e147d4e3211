"""Reading order (src/ReadingOrderDetection.cpp): which cuts are chosen, and that the blocks of a page are only reordered."""
from .common import *
from . import xycut, geometry, segmentation
from .xycut import CUT, Choose, elem, valid
from .blockrules import T
M, RO, BL = 'modules::ReadingOrderDetection::', 'ReadingOrderDetection.', 'PdfTextBlock'
TUS = ('src/ReadingOrderDetection.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp')
SIDES = ('_pageElementsMinX', '_pageElementsMinY', '_pageElementsMaxX', '_pageElementsMaxY')


class R(T):
    def __init__(self, c):
        super().__init__(c, None, c.this_fld(RO + '_doc', c.pre))

    def cut(self, k, f):
        return self.f(CUT + f, k)

    def me(self, f):
        return self.c.this_fld(RO + f, self.c.pre)

    def block(self, e):
        return self.c.is_kind(e, BL)

    def mid(self, a):
        lo, hi = self.me('_pageElementsMin' + a), self.me('_pageElementsMax' + a)
        return self.op('+', lo, self.op('/', self.op('-', hi, lo), self.E.fval(2.0)))

    # a line or figure across the middle of the page
    def across(self, e, a, lo, hi, avg):
        l, h = self.x(e, lo), self.x(e, hi)
        return And(self.c.is_kind(e, 'PdfNonTextElement'), self.op('-', h, l) > self.op('*', self.E.fval(10), self.d(avg)), l < self.mid(a), h > self.mid(a))

    def turned(self, e):
        return And(self.block(e), Or(self.x(e, 'wMode') != 0, self.x(e, 'rotation') != 0))

    def primary_x(self, k):
        a, b = self.cut(k, 'elementBefore'), self.cut(k, 'elementAfter')
        return Or(*[Or(self.turned(e), self.across(e, 'Y', 'upperY', 'lowerY', 'avgCharHeight')) for e in (a, b)])

    def primary_y(self, k):
        a, b = self.cut(k, 'elementBefore'), self.cut(k, 'elementAfter')
        enum = self.c.ex.prog.enums['SemanticRole']
        has = lambda e, r: And(self.block(e), self.f(BL + '.role', e) == enum[r])
        return Or(*[has(a, r) != has(b, r) for r in ('TITLE', 'AUTHOR_INFO', 'MARGINAL')], *[self.across(e, 'X', 'leftX', 'rightX', 'avgCharWidth') for e in (a, b)])


class ChooseAll(Choose):
    """every candidate is chosen"""
    name = M + 'chooseXCuts'
    tus = TUS
    trusted = False
    skip_frames = (CUT + 'isChosen',)

    def requires(self, c):
        yield from super().requires(c)
        yield 'document', c.this_fld(RO + '_doc', c.pre) != 0

    def modifies(self, c):
        return [super().modifies(c)[1]]

    def rule(self, c, k):
        return z3.BoolVal(True)

    def flags(self, c, s, lo=None, hi=None, same=False):
        a, b = c.fmap(CUT + 'isChosen', c.pre), c.fmap(CUT + 'isChosen', s)
        old = lambda e: z3.Select(a, e)
        return c.all_idx(c.av(0), lambda i, e: z3.Select(b, e) == Or(old(e), self.rule(c, e)), hi=hi, name='qx')

    def ensures(self, c):
        if c.mode == 'call':
            return
        yield 'exactly the cuts the rule gives are chosen', Or(c.len(c.av(1)) == 0, self.flags(c, c.post))

    def invariants(self, lc):
        c = lc.c
        r = z3.Int('frw')
        a, b = c.fmap(CUT + 'isChosen', c.pre), (lambda s: c.fmap(CUT + 'isChosen', s))
        ok = self.modifies(c)[0][2]
        yield 'only the cuts change', lambda s: z3.ForAll([r], Implies(Not(ok(r)), z3.Select(b(s), r) == z3.Select(a, r)), patterns=[z3.Select(b(s), r)])
        yield 'cuts are chosen by the rule only', lambda s: z3.ForAll([r], Or(z3.Select(b(s), r) == z3.Select(a, r), And(z3.Select(b(s), r), self.rule(c, r))), patterns=[z3.Select(b(s), r)])
        for inm, ig in lc.indices():
            yield '%s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.len(c.av(0)))
            yield 'cuts before %s are decided' % inm, lambda s, ig=ig: self.flags(c, s, hi=ig(s))


class PrimaryX(ChooseAll):
    name = M + 'choosePrimaryXCuts'

    def rule(self, c, k):
        return R(c).primary_x(k)


class PrimaryY(ChooseAll):
    name = M + 'choosePrimaryYCuts'

    def rule(self, c, k):
        return R(c).primary_y(k)


class ChooseY(Choose):
    """changes only isChosen of the cuts it is given; all positions it divides the elements at are valid"""
    name = M + 'chooseYCuts'
    tus = TUS
    trusted = False
    skip_frames = (CUT + 'isChosen',)

    def requires(self, c):
        yield from super().requires(c)
        yield 'document', c.this_fld(RO + '_doc', c.pre) != 0

    def invariants(self, lc):
        c = lc.c
        r = z3.Int('frw')
        a, b = c.fmap(CUT + 'isChosen', c.pre), (lambda s: c.fmap(CUT + 'isChosen', s))
        given = self.modifies(c)[1][2]
        v0 = c.av(0)
        yield 'only the cuts change', lambda s: z3.ForAll([r], Implies(And(Not(given(r)), r < c.pre.alloc), z3.Select(b(s), r) == z3.Select(a, r)), patterns=[z3.Select(b(s), r)])
        ints = lc.vars(lambda t: t.k == 'int')
        loc = [(nm, g) for nm, g, k in ints if k[0] != 'arg']
        for nm, g in loc:
            yield '%s not negative' % nm, lambda s, g=g: g(s) >= 0
            yield '%s within the cuts' % nm, lambda s, g=g: g(s) <= c.len(v0)
        yield from self.order(lc)

    def order(self, lc):
        c = lc.c
        loc = [(nm, g, k) for nm, g, k in lc.vars(lambda t: t.k == 'int') if k[0] != 'arg']
        mod = [(nm, g) for nm, g, k in loc if lc.written(k)]
        fix = [(nm, g) for nm, g, k in loc if not lc.written(k)]
        n = c.len(c.av(0))
        for nm, g in fix:
            yield '%s is the index of a cut' % nm, lambda s, g=g: g(s) < n
            for mm, h in mod:
                yield '%s not before %s' % (mm, nm), lambda s, g=g, h=h: h(s) >= g(s)
                yield '%s at most one after %s' % (mm, nm), lambda s, g=g, h=h: h(s) <= g(s) + 1


class Detect(Spec):
    """the blocks of every page are reordered: none is lost, none appears twice"""
    name = M + 'detectReadingOrder'
    tus = TUS
    skip_frames = ('PdfPage.blocks', 'PdfPage.readingOrderCuts') + tuple(RO + s for s in SIDES)

    def pages(self, c):
        return c.fld('PdfDocument.pages', c.this_fld(RO + '_doc', c.pre), c.pre)

    def lists(self, c, p, s=None):
        return [c.fld('PdfPage.' + f, p, s or c.pre) for f in ('blocks', 'figures', 'shapes')]

    def requires(self, c):
        yield 'document', c.this_fld(RO + '_doc', c.pre) != 0
        v = self.pages(c)
        yield 'no null page', c.all_idx(v, lambda i, p: And(p != 0, c.E.fn('page_index', IntS, IntS)(p) == i), name='qp')
        yield 'elements of the pages', c.all_idx(v, lambda i, p: And(*[valid(c, l, c.pre) for l in self.lists(c, p)]), name='qp')
        yield 'blocks are text blocks, figures and shapes are not', c.all_idx(v, lambda i, p: And(*[c.all_idx(l, lambda j, e: c.is_kind(e, BL) if n == 0 else Not(c.is_kind(e, BL)), name='qt') for n, l in enumerate(self.lists(c, p))]), name='qp')

    def modifies(self, c):
        v = self.pages(c)
        isp = lambda r: Not(c.all_idx(v, lambda i, p: p != r, name='qm'))
        return [('fresh', ['Cut']), ('field', 'PdfPage.blocks', isp), ('field', 'PdfPage.readingOrderCuts', isp)] + [('field', RO + s, lambda r: r == c.this.t) for s in SIDES]

    def any(self, c):
        k = c.ghost('PAGE', IntS)
        return k, c.at(self.pages(c), k)

    def done(self, c, s, p):
        b0, b = c.fld('PdfPage.blocks', p, c.pre), c.fld('PdfPage.blocks', p, s)
        return And(Implies(self.kind(c), c.count(b) == c.count(b0)), c.all_idx(b, lambda i, e: c.is_kind(e, BL), name='qt'))

    def kind(self, c):
        return c.is_kind(c.E.ghost('X', IntS), BL)

    def ensures(self, c):
        k, p = self.any(c)
        yield 'the blocks of every page are a permutation of the blocks before', Implies(And(k >= 0, k < c.len(self.pages(c))), self.done(c, c.post, p))

    def invariants(self, lc):
        c = lc.c
        r = z3.Int('frw')
        v = self.pages(c)
        k, pk = self.any(c)
        rng = lc.extra.get('vec0')
        ismap = {f: isp for _, f, isp in self.modifies(c)[1:]}
        for f in self.skip_frames:
            yield 'only pages and this change (%s)' % f, lambda s, f=f: z3.ForAll([r], Implies(And(Not(ismap[f](r)), r < c.pre.alloc), z3.Select(c.fmap(f, s), r) == z3.Select(c.fmap(f, c.pre), r)), patterns=[z3.Select(c.fmap(f, s), r)])
        over_pages = rng is not None and rng.ty.k == 'vec' and rng.ty.a[0].k == 'ptr' and rng.ty.a[0].a[0].n == 'PdfPage'
        for inm, ig in lc.indices():
            if over_pages:
                yield '%s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.len(v))
                yield 'pages before %s are done' % inm, lambda s, ig=ig: Implies(And(k >= 0, k < ig(s)), self.done(c, s, pk))
                for f in ('PdfPage.blocks', 'PdfPage.readingOrderCuts'):
                    yield 'pages from %s stay (%s)' % (inm, f), lambda s, ig=ig, f=f: c.all_idx(v, lambda i, p: c.fld(f, p, s) == c.fld(f, p, c.pre), lo=ig(s), name='qp')
        if over_pages:
            return
        yield 'blocks stay', lambda s: c.fmap('PdfPage.blocks', s) == c.fmap('PdfPage.blocks', lc.entry)
        rp = z3.Int('frp')
        here = [g for nm, g, kk in lc.vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec' and t.a[0].n == 'PdfPage')]
        for g in here:
            yield 'cuts of other pages stay', lambda s, g=g: z3.ForAll([rp], Implies(rp != g(s), z3.Select(c.fmap('PdfPage.readingOrderCuts', s), rp) == z3.Select(c.fmap('PdfPage.readingOrderCuts', lc.entry), rp)), patterns=[z3.Select(c.fmap('PdfPage.readingOrderCuts', s), rp)])
        K = self.kind(c)
        el = [(nm, g) for nm, g, kk in lc.mod_vars(lambda t: t.k == 'vec' and t.a[0].k == 'ptr' and t.a[0].a[0].n == 'PdfElement')]
        bl = [(nm, g) for nm, g, kk in lc.mod_vars(lambda t: t.k == 'vec' and t.a[0].k == 'ptr' and t.a[0].a[0].n == BL) if kk[0] != 'arg']
        gr = [(nm, g) for nm, g, kk in lc.mod_vars(xycut.isgroups)]
        toblocks = rng is not None and rng.ty.k == 'vec' and rng.ty.a[0].k == 'ptr' and rng.ty.a[0].a[0].n == BL
        toptr = rng is not None and xycut.isptr(rng.ty)
        togroups = rng is not None and xycut.isgroups(rng.ty)
        for inm, ig in lc.indices():
            yield '%s not negative' % inm, lambda s, ig=ig: ig(s) >= 0
            for nm, g in el:
                yield '%s holds valid elements' % nm, lambda s, g=g: valid(c, g(s), s)
                if toblocks:
                    yield '%s holds the blocks visited' % nm, lambda s, g=g, ig=ig: c.count(g(s)) == c.count(g(lc.entry)) + c.count(rng.t, ig(s))
                else:
                    yield '%s holds the same blocks' % nm, lambda s, g=g: Implies(K, c.count(g(s)) == c.count(g(lc.entry)))
            for nm, g in bl:
                yield '%s holds text blocks' % nm, lambda s, g=g: c.all_idx(g(s), lambda i, e: c.is_kind(e, BL), name='qt')
                if togroups:
                    yield '%s holds the blocks of the groups before %s' % (nm, inm), lambda s, g=g, ig=ig: Implies(K, c.count(g(s)) == c.count(g(lc.entry)) + c.count2(rng.t, ig(s)))
                elif toptr:
                    yield '%s holds the blocks before %s' % (nm, inm), lambda s, g=g, ig=ig: Implies(K, c.count(g(s)) == c.count(g(lc.entry)) + c.count(rng.t, ig(s)))
            if togroups:
                for nm, g in gr:
                    yield '%s holds valid elements' % nm, lambda s, g=g: c.all_idx(g(s), lambda i, e: c.all_idx(e, lambda j, x: elem(c, x, c.pre), name='qve'), name='qgv')
                    if not bl:
                        yield '%s holds the groups before %s' % (nm, inm), lambda s, g=g, ig=ig: c.count2(g(s)) == c.count2(g(lc.entry)) + c.count2(rng.t, ig(s))
                    else:
                        yield 'groups of %s from %s stay' % (nm, inm), lambda s, g=g, ig=ig: And(c.len(g(s)) == c.len(rng.t), c.all_idx(g(s), lambda i, e: e == c.at(rng.t, i), lo=ig(s), name='qge'))


specs = [ChooseAll(), PrimaryX(), PrimaryY(), ChooseY(), Detect()] + xycut.specs + [s for s in geometry.specs if s.fmode != 'fp']
