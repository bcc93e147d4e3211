"""Parsing of pages (src/PdfParsing.cpp): every character, shape and graphic the interpreter reports becomes one element of the
page, or of the figure of its clip box."""
from .nest import *
from .pageseg import CreateRandomString
PP, CFG = 'PdfParsing.', 'PdfParsingConfig.'
FIG, PG = 'PdfFigure.', 'PdfPage.'
CLIPS = ('clipLeftX', 'clipUpperY', 'clipRightX', 'clipLowerY')
KINDS = {'characters': 'PdfCharacter', 'shapes': 'PdfShape', 'graphics': 'PdfGraphic'}
TUS = ('src/PdfParsing.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp')
R = z3.RealSort()


def rd(c, x, n):
    return c.E.fn('rounded', R, IntS, R)(x, n)


class Round(Spec):
    """rounding is a function of the number and the number of decimals"""
    name = 'utils::math::round'
    tus = ('src/utils/MathUtils.cpp',)

    def requires(self, c):
        if c.mode != 'call':
            E, x, n = c.E, z3.Real('rdx'), z3.Int('rdn')
            rnd, pw = E.fn('libm_round', R, R), E.fn('libm_pow', R, R, R)(E.fval(10), z3.ToReal(n))
            yield 'ghost', z3.ForAll([x, n], rd(c, x, n) == z3.If(n == 0, rnd(x), E.fop('/', rnd(E.fop('*', x, pw)), pw)), patterns=[rd(c, x, n)])

    def ensures(self, c):
        yield 'function of the number and the decimals', c.res == rd(c, c.av(0), c.av(1))


def monotone(c):
    x, y, n = z3.Real('rdx'), z3.Real('rdy'), z3.Int('rdn')
    return z3.ForAll([x, y, n], Implies(x <= y, rd(c, x, n) <= rd(c, y, n)), patterns=[z3.MultiPattern(rd(c, x, n), rd(c, y, n))])


class Handler(Spec):
    """common to the handlers: the page, the configuration, the clip box of the graphics state"""
    tus = TUS
    embedded = (PP + '_config',)
    kind = None

    def cfg(self, c, f):
        return c.fld(CFG + f, c.ex.emb(c.ex.fieldkey(c.field_decl(PP + '_config')), c.this.t), c.pre)

    def prec(self, c):
        return self.cfg(c, 'coordinatePrecision')

    def tol(self, c):
        return self.cfg(c, 'coordsEqualTolerance')

    def clip(self, c, i):
        return rd(c, c.E.fn('gfx_GfxState_getClipBBox_%d' % i, IntS, R)(c.av(0)), self.prec(c))

    def page(self, c):
        return c.this_fld(PP + '_page', c.pre)

    def figs(self, c, st=None):
        return c.fld(PG + 'figures', self.page(c), st or c.pre)

    def equal(self, c, a, b):
        E = c.E
        d = E.fop('-', a, b)
        return self.fabs(c, d) <= self.tol(c)

    def fabs(self, c, d):
        return z3.If(d < 0, c.E.fneg(d), d)

    def same_clip(self, c, cls, e, st):
        return And(*[self.equal(c, self.clip(c, i), c.fld(cls + f, e, st)) for i, f in enumerate(CLIPS)])

    def requires(self, c):
        yield 'graphics state', c.av(0) != 0
        yield 'page', self.page(c) != 0
        yield 'document', c.this_fld(PP + '_doc', c.pre) != 0
        yield 'tolerance', self.tol(c) >= 0
        yield 'precision', And(self.prec(c) >= 0, self.prec(c) <= 10)
        yield 'less than 2^31 - 1 elements', And(c.this_fld(PP + '_numElements', c.pre) >= 0, c.this_fld(PP + '_numElements', c.pre) < 2**31 - 1)
        v = self.figs(c)
        yield 'no null figure', c.all_idx(v, lambda i, e: And(e != 0, pos(c, e, c.pre) != 0), name='qf')
        yield 'no figure is listed twice', self.distinct(c, v)
        yield 'figures do not share positions', self.distinct(c, v, lambda e: pos(c, e, c.pre))
        yield 'rounding is monotone', monotone(c)

    def distinct(self, c, v, f=lambda e: e):
        i, j = z3.Int('qi'), z3.Int('qj')
        arr = c.ex.named(c.arr(v), 'arr')
        a, b = z3.Select(arr, i), z3.Select(arr, j)
        return z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < c.len(v)), f(a) != f(b)), patterns=[z3.MultiPattern(a, b)])

    def first(self, c, k):
        """figure k is the first one with the clip box"""
        v = self.figs(c)
        return And(k >= 0, k < c.len(v), self.same_clip(c, FIG, c.at(v, k), c.pre), c.all_idx(v, lambda i, e: Not(self.same_clip(c, FIG, e, c.pre)), hi=k, name='qn'))

    def none(self, c):
        return c.all_idx(self.figs(c), lambda i, e: Not(self.same_clip(c, FIG, e, c.pre)), name='qn')

    def on_page(self, c):
        return self.same_clip(c, PG, self.page(c), c.pre)

    def in_figs(self, c, r, f=lambda e: e):
        return Not(c.all_idx(self.figs(c), lambda i, e: f(e) != r, name='qm'))

    def modifies(self, c):
        k, me = self.kind, lambda r: r == self.page(c)
        infig = lambda r: And(Not(self.on_page(c)), self.in_figs(c, r))
        return [('fresh', [KINDS[k], 'PdfFigure', 'PdfPosition']), ('this', PP + '_numElements'), ('field', PG + k, me), ('field', PG + 'figures', me), ('field', FIG + k, infig)] + \
               [('field', 'PdfPosition.' + s, lambda r: And(Not(self.on_page(c)), self.in_figs(c, r, lambda e: pos(c, e, c.pre)))) for s in BOX]

    def new_of(self, c, lst):
        """lst grew by one new element"""
        return c.at(lst, c.len(lst) - 1)

    def appended(self, c, new, old):
        return And(c.len(new) == c.len(old) + 1, c.all_idx(old, lambda i, e: c.at(new, i) == e, name='qa'))

    def element(self, c, e):
        yield 'new element', And(e != 0, c.fresh(e), c.fresh(pos(c, e, c.post)))
        yield 'document', c.fld('PdfElement.doc', e, c.post) == c.this_fld(PP + '_doc', c.pre)
        yield 'page number', side(c, e, 'pageNum', c.post) == c.fld(PG + 'pageNum', self.page(c), c.pre)
        yield 'rank', c.fld('PdfElement.rank', e, c.post) == c.this_fld(PP + '_numElements', c.pre)

    def stored(self, c):
        """condition under which an element is stored"""
        return TRUE

    def ensures(self, c):
        P, k = self.page(c), self.kind
        plist = lambda st: c.fld(PG + k, P, st)
        f0, f1 = self.figs(c), self.figs(c, c.post)
        yes, onp = self.stored(c), self.on_page(c)
        num = lambda st: c.this_fld(PP + '_numElements', st)
        yield 'ranks increase', num(c.post) == num(c.pre) + z3.If(yes, I(1), I(0))
        same_figs = And(c.len(f1) == c.len(f0), c.all_idx(f0, lambda i, e: c.at(f1, i) == e, name='qs'))
        K = c.ghost('FIGURE', IntS)
        flist = lambda e, st: c.fld(FIG + k, e, st)
        F, G = c.at(f0, K), self.new_of(c, f1)
        inr = And(K >= 0, K < c.len(f0))
        untouched = And(flist(F, c.post) == flist(F, c.pre), *[side(c, F, s, c.post) == side(c, F, s, c.pre) for s in BOX])
        yield 'nothing changes if the element is ignored', Implies(Not(yes), And(plist(c.post) == plist(c.pre), f1 == f0, Implies(inr, untouched)))
        a = And(yes, onp)
        yield 'an element with the clip box of the page is appended to the page', Implies(a, And(self.appended(c, plist(c.post), plist(c.pre)), f1 == f0, Implies(inr, untouched)))
        for nm, g in self.element(c, self.new_of(c, plist(c.post))):
            yield 'on the page: ' + nm, Implies(a, g)
        b = And(yes, Not(onp), self.first(c, K))
        yield 'other clip box: the page keeps its elements', Implies(And(yes, Not(onp)), plist(c.post) == plist(c.pre))
        E1 = self.new_of(c, flist(F, c.post))
        yield 'an element with the clip box of a figure is appended to it', Implies(b, And(self.appended(c, flist(F, c.post), flist(F, c.pre)), f1 == f0))
        for nm, g in self.element(c, E1):
            yield 'in the figure: ' + nm, Implies(b, g)
        for s in BOX:
            o, x, n = side(c, F, s, c.pre), side(c, E1, s, c.post), side(c, F, s, c.post)
            yield 'the %s of the figure grows to contain the element' % s, Implies(b, n == (z3.If(x < o, x, o) if s in MIN_SIDES else z3.If(x > o, x, o)))
        yield 'other figures are not changed', Implies(And(yes, Not(onp), inr, Not(self.first(c, K))), untouched)
        n = And(yes, Not(onp), self.none(c))
        yield 'a clip box seen for the first time gives a new figure', Implies(n, And(self.appended(c, f1, f0), G != 0, c.fresh(G), c.fresh(pos(c, G, c.post))))
        E2 = self.new_of(c, flist(G, c.post))
        yield 'the new figure holds the element only', Implies(n, And(c.len(flist(G, c.post)) == 1, *[c.len(c.fld(FIG + o, G, c.post)) == 0 for o in KINDS if o != k]))
        for nm, g in self.element(c, E2):
            yield 'in the new figure: ' + nm, Implies(n, g)
        for s in BOX:
            yield 'the %s of the new figure is that of the element' % s, Implies(n, side(c, G, s, c.post) == side(c, E2, s, c.post))
        for i, f in enumerate(CLIPS):
            yield 'the %s of the new figure' % f, Implies(n, c.fld(FIG + f, G, c.post) == self.clip(c, i))
        yield 'page and document of the new figure', Implies(n, And(side(c, G, 'pageNum', c.post) == c.fld(PG + 'pageNum', P, c.pre), c.fld('PdfElement.doc', G, c.post) == c.this_fld(PP + '_doc', c.pre)))
        yield 'figures stay distinct', self.distinct(c, f1)
        yield 'figures have positions of their own', self.distinct(c, f1, lambda e: pos(c, e, c.post))

    def invariants(self, lc):
        c = lc.c
        if lc.extra.get('kind') == 'vec' and lc.extra['vec0'].ty.a[0].k == 'ptr' and lc.extra['vec0'].ty.a[0].a[0].n == 'PdfFigure':
            yield 'index in range', lambda s: And(s.env[lc.extra['idx'].key].t >= 0, s.env[lc.extra['idx'].key].t <= c.len(lc.extra['vec0'].t))
        for nm, g in lc.indices():
            yield 'no figure before %s has the clip box' % nm, lambda s, g=g: And(g(s) >= 0, g(s) <= c.len(self.figs(c)), c.all_idx(self.figs(c), lambda i, e: Not(self.same_clip(c, FIG, e, c.pre)), hi=g(s), name='qn'))


class Graphic(Handler):
    name = 'modules::PdfParsing::drawGraphic'
    kind = 'graphics'

    def raw(self, c):
        E, p = c.E, self.prec(c)
        m = lambda i: E.fn('mem_float', IntS, IntS, R)(E.fn('gfx_GfxState_getCTM', IntS, IntS)(c.av(0)), I(i))
        x, y = rd(c, m(4), p), rd(c, m(5), p)
        return [x, y, rd(c, E.fop('+', x, m(0)), p), rd(c, E.fop('+', y, m(3)), p)]

    def stored(self, c):
        E, t = c.E, self.tol(c)
        x = self.raw(c)
        return And(*[Not(x[i] <= E.fop('+', self.clip(c, i), t)) for i in (0, 1)] + [Not(x[i] >= E.fop('-', self.clip(c, i), t)) for i in (2, 3)])

    def element(self, c, e):
        yield from super().element(c, e)
        x = self.raw(c)
        lo = lambda i: z3.If(x[i] < x[i + 2], x[i], x[i + 2])
        hi = lambda i: z3.If(x[i] > x[i + 2], x[i], x[i + 2])
        clip = [self.clip(c, i) for i in range(4)]
        mx, mn = (lambda a, b: z3.If(a > b, a, b)), (lambda a, b: z3.If(a < b, a, b))
        for s, t in zip(BOX, (mx(lo(0), clip[0]), mx(lo(1), clip[1]), mn(hi(0), clip[2]), mn(hi(1), clip[3]))):
            yield '%s of the graphic, cut off at the clip box' % s, side(c, e, s, c.post) == t


class Stroke(Handler):
    name = 'modules::PdfParsing::stroke'
    kind = 'shapes'

    def fn(self, c, cls, m, *a):
        sorts = [x.sort() for x in a]
        ret = R if m in ('getX', 'getY') or m.startswith('transform') else IntS
        return c.E.fn('gfx_%s_%s' % (cls, m), *(sorts + [ret]))(*a)

    def path(self, c):
        return self.fn(c, 'GfxState', 'getPath', c.av(0))

    def sub(self, c, i):
        return self.fn(c, 'GfxPath', 'getSubpath', self.path(c), i)

    def nsub(self, c):
        return self.fn(c, 'GfxPath', 'getNumSubpaths', self.path(c))

    def npts(self, c, i):
        return self.fn(c, 'GfxSubpath', 'getNumPoints', self.sub(c, i))

    def point(self, c, i, j):
        """point j of subpath i on the page, rounded"""
        x, y = (self.fn(c, 'GfxSubpath', m, self.sub(c, i), j) for m in ('getX', 'getY'))
        return [rd(c, self.fn(c, 'GfxState', 'transform_%d' % k, c.av(0), x, y), self.prec(c)) for k in (0, 1)]

    def visible(self, c, i, j):
        E, t, p = c.E, self.tol(c), self.point(c, i, j)
        return And(*[Not(p[k] <= E.fop('+', self.clip(c, k), t)) for k in (0, 1)] + [Not(p[k] >= E.fop('-', self.clip(c, k + 2), t)) for k in (0, 1)])

    def every(self, c, f, inside=None):
        """f holds for every point (inside a part of the path)"""
        i, j = z3.Ints('pi pj')
        return z3.ForAll([i, j], Implies(And(i >= 0, i < self.nsub(c), j >= 0, j < self.npts(c, i), *([inside(i, j)] if inside else [])), f(i, j)), patterns=[self.fn(c, 'GfxSubpath', 'getX', self.sub(c, i), j)])

    def any_visible(self, c, inside=None):
        return Not(self.every(c, lambda i, j: Not(self.visible(c, i, j)), inside))

    def stored(self, c):
        return c.ghost('VISIBLE', BoolS)

    def requires(self, c):
        yield from super().requires(c)
        yield 'ghost: some point is visible', self.stored(c) == self.any_visible(c)
        yield 'path', And(self.path(c) > 0)
        i = z3.Int('pi')
        yield 'subpaths', z3.ForAll([i], self.sub(c, i) > 0, patterns=[self.sub(c, i)])
        yield 'the clip box is finite', And(*[finite(self.clip(c, k)) for k in range(4)])

    def within(self, c, s, cell, inside=None):
        """cell bounds the visible points"""
        k = BOX.index(s) % 2
        return self.every(c, lambda i, j: Implies(self.visible(c, i, j), cell(self.point(c, i, j)[k])), inside)

    def element(self, c, e):
        yield from super().element(c, e)
        p = self.prec(c)
        for k, s in enumerate(BOX):
            v, B = side(c, e, s, c.post), bound_ghost(c, s)
            lo = s in MIN_SIDES
            yield '%s bounds every visible point' % s, self.within(c, s, lambda x: v <= rd(c, x, p) if lo else v >= rd(c, x, p))
            yield '%s is tight' % s, Implies(And(finite(B), self.within(c, s, lambda x: B <= x if lo else B >= x)), rd(c, B, p) <= v if lo else rd(c, B, p) >= v)
            yield '%s within the clip box' % s, v >= rd(c, self.clip(c, k), p) if lo else v <= rd(c, self.clip(c, k), p)
        yield 'the box is not inverted', And(side(c, e, 'leftX', c.post) <= side(c, e, 'rightX', c.post), side(c, e, 'upperY', c.post) <= side(c, e, 'lowerY', c.post))

    def invariants(self, lc):
        c = lc.c
        if lc.extra.get('kind') == 'vec':
            yield from super().invariants(lc)
            return
        ints = lambda l: [(nm, g) for nm, g, k in l.mod_vars(lambda t: t.k == 'int')]
        outer = [l for l in lc.lp.outer]
        if len(outer) > 1:
            return
        if outer:
            ins = {}
            for key, v in outer[0].entry.env.items():
                if isinstance(key, tuple) and ('v', key) in outer[0].wset and getattr(v, 'ty', None) is not None and v.ty.k == 'int':
                    for nm, g in ints(lc):
                        ins['%s, %s' % (key[1], nm)] = (lambda s, key=key, g=g: lambda i, j: Or(i < s.env[key].t, And(i == s.env[key].t, j < g(s))))
                        yield '%s in range' % nm, lambda s, g=g: g(s) >= 0
        else:
            ins = {nm: (lambda s, g=g: lambda i, j: i < g(s)) for nm, g in ints(lc)}
            for nm, g in ints(lc):
                yield '%s in range' % nm, lambda s, g=g: And(g(s) >= 0, g(s) <= self.nsub(c))
        for inn, inside in ins.items():
            for nm, g, k in lc.mod_vars(lambda t: t.k == 'bool'):
                yield '%s: a point before %s is visible' % (nm, inn), lambda s, g=g, inside=inside: g(s) == self.any_visible(c, inside(s))
            for nm, g, k in lc.mod_vars(lambda t: t.k == 'float'):
                for q, s_ in enumerate(BOX):
                    lo, B = s_ in MIN_SIDES, bound_ghost(c, s_)
                    yield '%s bounds the %s of the visible points before %s' % (nm, s_, inn), lambda s, g=g, inside=inside, s_=s_, lo=lo: self.within(c, s_, lambda x: g(s) <= x if lo else g(s) >= x, inside(s))
                    yield '%s is tight for the %s of the visible points before %s' % (nm, s_, inn), lambda s, g=g, inside=inside, s_=s_, lo=lo, B=B: Implies(And(finite(B), self.within(c, s_, lambda x: B <= x if lo else B >= x, inside(s))), B <= g(s) if lo else B >= g(s))
                    yield '%s does not exceed the %s of the clip box' % (nm, s_), lambda s, g=g, q=q, lo=lo: g(s) >= self.clip(c, q) if lo else g(s) <= self.clip(c, q)


class StartPage(Handler):
    name = 'modules::PdfParsing::startPage'
    kind = 'characters'

    def requires(self, c):
        yield 'graphics state', c.av(1) != 0
        yield 'cross references', c.av(2) != 0
        yield 'document', c.this_fld(PP + '_doc', c.pre) != 0
        yield 'precision', And(self.prec(c) >= 0, self.prec(c) <= 10)

    def clip(self, c, i):
        return rd(c, c.E.fn('gfx_GfxState_getClipBBox_%d' % i, IntS, R)(c.av(1)), self.prec(c))

    def modifies(self, c):
        return [('fresh', ['PdfPage']), ('this', PP + '_page'), ('this', PP + '_p'), ('this', PP + '_xref'), ('field', 'PdfDocument.pages', lambda r: r == c.this_fld(PP + '_doc', c.pre))]

    def ensures(self, c):
        p, doc = c.this_fld(PP + '_page', c.post), c.this_fld(PP + '_doc', c.pre)
        yield 'new page', And(p != 0, c.fresh(p))
        pages = lambda st: c.fld('PdfDocument.pages', doc, st)
        yield 'the page is appended to the document', And(self.appended(c, pages(c.post), pages(c.pre)), self.new_of(c, pages(c.post)) == p)
        yield 'page number', c.fld(PG + 'pageNum', p, c.post) == c.av(0)
        for i, f in enumerate(CLIPS):
            yield '%s of the page' % f, c.fld(PG + f, p, c.post) == self.clip(c, i)
        for f in ('characters', 'figures', 'shapes', 'graphics', 'words', 'segments', 'textLines', 'blocks'):
            yield 'the page has no %s' % f, c.len(c.fld(PG + f, p, c.post)) == 0

    def invariants(self, lc):
        return ()


class Fill(Stroke):
    name = 'modules::PdfParsing::fill'


class Image(Graphic):
    pass


specs = [type('Image' + n, (Image,), {'name': 'modules::PdfParsing::draw' + n})() for n in ('ImageMask', 'Image', 'MaskedImage', 'SoftMaskedImage')] + [StartPage(), Fill(), Stroke(), CreateRandomString(), Round(), Graphic()]
