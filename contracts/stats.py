"""Statistics about glyphs, words and text lines: the counts as a fold over the document, the results as their maxima."""
from .nest import *
from . import counter, geometry, mathutils
from .words import ratios
BASE_TUS = ('src/utils/Counter.cpp', 'src/utils/MathUtils.cpp', 'src/utils/PdfElementsUtils.cpp', 'src/Types.cpp')
LIMIT = 1 << 31
DOC = 'PdfDocument.'
PAGEC, PAGEW = ('PdfCharacter', 'PdfPage.characters'), ('PdfWord', 'PdfPage.words')
SEGS, SEGL = ('PdfPageSegment', 'PdfPage.segments'), ('PdfTextLine', 'PdfPageSegment.lines')


def zeros(c, ks):
    return z3.K(ks, I(0))


def inc(a, k):
    return z3.Store(a, k, z3.Select(a, k) + 1)


def is_max(c, A, m):
    """m has a largest count, and it is positive"""
    k = z3.Const('km', A.sort().domain())
    A = c.ex.named(A, 'cnt')
    return And(z3.Select(A, m) > 0, z3.ForAll([k], z3.Select(A, k) <= z3.Select(A, m), patterns=[z3.Select(A, k)]))


def all_zero(c, A):
    k = z3.Const('kz', A.sort().domain())
    A = c.ex.named(A, 'cnt')
    return z3.ForAll([k], z3.Select(A, k) == 0, patterns=[z3.Select(A, k)])


def ctr_tys(c, lc, suffix):
    tys = {}

    def p(t):
        if t.k == 'rec' and t.n.endswith(suffix):
            tys['t'] = t
            return True
        return False
    v = lc.vars(p)
    return [(nm, lambda s, g=g: c.E.rec_get(tys['t'], g(s), '@base')) for nm, g, k in v]


def counts(c, m, A):
    """the counter m counts exactly A"""
    d, v = c.ex.named(c.E.mdom(m)), c.ex.named(c.E.mval(m))
    A = c.ex.named(A, 'cnt')
    k = z3.Const('kc', d.sort().domain())
    return z3.ForAll([k], z3.If(z3.Select(d, k), z3.Select(v, k), I(0)) == z3.Select(A, k), patterns=[z3.Select(d, k), z3.Select(v, k), z3.Select(A, k)])


class Stats(Spec):
    cls = None
    levels = ()
    fields = ()          # (name, sort) of the fold state; 'n' counts the visited elements
    changed = ()

    def St(self, c):
        return record(c, self.cls, [(n, s(c)) for n, s in self.fields])

    def get(self, c, s):
        St = self.St(c)
        is_mk = z3.is_app(s) and s.decl().eq(St.constructor(0))
        return {n: (s.arg(i) if is_mk else St.accessor(0, i)(s)) for i, (n, _) in enumerate(self.fields)}

    def mk(self, c, d):
        return self.St(c).constructor(0)(*[d[n] for n, _ in self.fields])

    def doc(self, c):
        return c.this_fld(self.cls + '._doc', c.pre)

    def cfg(self, c, f):
        o = c.this_fld(self.cls + '._config', c.pre)
        return c.fld(self.cls + 'Config.' + f, o, c.pre)

    def nest(self, c):
        return Nest(c, self.cls, self.St(c), self.levels, lambda a, e: self.leaf(c, a, e), pre=self.pre_(c))

    def pre_(self, c):
        return {}

    def start(self, c):
        d = {}
        for n, s in self.fields:
            so = s(c)
            d[n] = (zeros(c, so.domain()) if not z3.is_array(z3.Const('x', so.range())) else z3.K(so.domain(), zeros(c, so.range().domain()))) if isinstance(so, z3.ArraySortRef) else I(0) if so == IntS else z3.RealVal(0) if so == z3.RealSort() else c.E.sempty()
        return self.mk(c, d)

    def root(self, c):
        return c.fld(self.levels[0][1], self.doc(c), c.pre)

    def total(self, c):
        return self.get(c, self.nest(c).total(self.root(c), self.start(c)))

    def requires(self, c):
        yield 'document', self.doc(c) != 0
        yield 'config', c.this_fld(self.cls + '._config', c.pre) != 0
        for k in self.levels:
            yield 'no null %s' % k[0], no_nulls(c, k[1])
        r = z3.Int('rp')
        m = c.ex.named(c.fmap('PdfElement.pos', c.pre), 'hm')
        yield 'elements have positions', z3.ForAll([r], z3.Select(m, r) != 0, patterns=[z3.Select(m, r)])
        for s in BOX:
            m2 = c.ex.named(c.fmap('PdfPosition.' + s, c.pre), 'hm')
            yield 'coordinates are finite (%s)' % s, z3.ForAll([r], finite(z3.Select(m2, r)), patterns=[z3.Select(m2, r)])
        yield 'counters do not wrap', counter.nowrap(c)
        # the number of visited elements stays below 2^31 (a bound on the size of the document)
        N = self.nest(c)
        idx = [z3.Int('b%d' % i) for i in range(len(self.levels))]
        st, v, pats, guard = self.start(c), self.root(c), [], []
        for k, (cl, key) in enumerate(self.levels):
            F, i = N.decl(k), idx[k]
            e = z3.Select(c.ex.named(c.arr(v), 'arr') if k == 0 else c.arr(v), i)
            pats.append(e)
            guard.append(And(i >= 0, i < c.len(v)))
            st = F.f(c.ex.named(c.arr(v), 'arr') if k == 0 else c.arr(v), i, st)
            if k + 1 < len(self.levels):
                if cl in N.pre:
                    st = N.pre[cl](st, e)
                v = c.fld(self.levels[k + 1][1], e, c.pre)
        yield 'number of elements', z3.ForAll(idx, Implies(And(*guard), self.get(c, st)['n'] < LIMIT - 1), patterns=[z3.MultiPattern(*pats)])

    def modifies(self, c):
        d = self.doc(c)
        return [('field', DOC + f, lambda r: r == d) for f in self.changed]

    def post(self, c, f):
        return c.fld(DOC + f, self.doc(c), c.post)

    def old(self, c, f):
        return c.fld(DOC + f, self.doc(c), c.pre)

    def states(self, lc):
        """candidates for (label, index, list, state of the fold) at the head of this loop; the state is a function of the program state"""
        c = lc.c
        N = self.nest(c)
        loops = [l for l in lc.lp.outer if self.is_nest(N, l)] + [lc.lp]
        k = len(loops) - 1
        if k >= len(self.levels) or not self.is_nest(N, lc.lp):
            return []
        cand = [('', lambda s: self.start(c), lambda s: self.root(c))]
        for j, l in enumerate(loops):
            cl = self.levels[j][0]
            new = []
            for lab, st, vec in cand:
                for nm, ig in self.idxs(lc, l):
                    v = (lambda s, l=l: l.extra['vec0'].t) if N.cls_of(l.extra) else vec

                    def at(s, v=v, ig=ig, st=st, cl=cl):
                        n = ig(s)
                        return N.F(cl, v(s), z3.If(n > c.len(v(s)), c.len(v(s)), n), st(s))
                    if j == k:
                        new.append((lab + nm, ig, v, at))
                    else:
                        e = lambda s, v=v, ig=ig: c.at(v(s), ig(s))
                        enter = (lambda s, at=at, e=e, cl=cl: N.pre[cl](at(s), e(s)) if cl in N.pre else at(s))
                        new.append((lab + nm + ' ', enter, lambda s, e=e, j=j: c.fld(self.levels[j + 1][1], e(s), c.pre)))
            cand = new
        return cand

    def is_nest(self, N, l):
        return N.cls_of(l.extra) is not None or l.extra.get('idx') is None

    def idxs(self, lc, l):
        if l.extra.get('idx') is not None:
            key = l.extra['idx'].key
            return [('idx', lambda s: s.env[key].t)]
        from cppwp import sym as S
        return [(lc.vname(key), lambda s, key=key: s.env[key].t) for key, v in l.entry.env.items() if isinstance(v, S.V) and isinstance(key, tuple) and v.ty.k == 'int' and ('v', key) in l.wset]

    def invariants(self, lc):
        c = lc.c
        for lab, ig, v, st in self.states(lc):
            c.ex.note_index(c.ex.named(c.arr(v(lc.entry)), 'arr'), I(0))
            G = lambda s, st=st: self.get(c, st(s))
            yield '%s in range' % lab, lambda s, ig=ig, v=v: And(ig(s) >= 0, Or(ig(s) <= c.len(v(s)), ig(s) == 1))
            yield '%s counted' % lab, lambda s, G=G: And(G(s)['n'] >= 0, G(s)['n'] < LIMIT)
            yield '%s started' % lab, lambda s, ig=ig: ig(s) >= 1
            names = [n for n, _ in self.fields]
            if 'prev' in names:
                yield 'previous element (%s)' % lab, lambda s, G=G, ig=ig, v=v: Implies(And(ig(s) > 0, ig(s) <= c.len(v(s))), G(s)['prev'] == c.at(v(s), ig(s) - 1))
                yield 'no previous element (%s)' % lab, lambda s, G=G, ig=ig, v=v: Implies(ig(s) <= 0, G(s)['prev'] == 0)
            for n, so in self.fields:
                so = so(c)
                if isinstance(so, z3.ArraySortRef) and so.range() == IntS:
                    def bound(s, n=n, G=G):
                        A = c.ex.named(G(s)[n], 'cnt')
                        k = z3.Const('kb', A.sort().domain())
                        return z3.ForAll([k], And(z3.Select(A, k) >= 0, z3.Select(A, k) <= G(s)['n']), patterns=[z3.Select(A, k)])
                    yield 'counts of %s are bounded (%s)' % (n, lab), bound
                    if 'last_' + n in names:
                        yield 'something is counted in %s (%s)' % (n, lab), lambda s, n=n, G=G: Implies(G(s)['n'] > 0, z3.Select(G(s)[n], G(s)['last_' + n]) > 0)
                    for nm, m in ctr_tys(c, lc, 'DoubleCounter') + ctr_tys(c, lc, 'StringCounter'):
                        if c.E.mdom(m(lc.entry)).sort().domain() == so.domain():
                            yield '%s counts %s (%s)' % (nm, n, lab), lambda s, n=n, m=m, G=G: counts(c, m(s), G(s)[n])
                elif so == z3.RealSort() and not n.startswith('last_'):
                    for nm, g, k in lc.mod_vars(lambda t: t.k == 'float'):
                        yield '%s is %s (%s)' % (nm, n, lab), lambda s, g=g, n=n, G=G: g(s) == G(s)[n]
            for nm, g, k in lc.mod_vars(lambda t: t.k == 'int'):
                yield '%s is the number of elements (%s)' % (nm, lab), lambda s, g=g, G=G: g(s) == G(s)['n']
            yield from self.more(lc, lab, G)

    def more(self, lc, lab, G):
        return ()


RI = lambda c: z3.ArraySort(c.E.fsort(), IntS)
R = lambda c: c.E.fsort()
INT_ = lambda c: IntS


class Glyphs(Stats):
    cls = 'GlyphsStatisticsCalculation'
    name = 'modules::GlyphsStatisticsCalculation::process'
    tus = ('src/GlyphsStatisticsCalculation.cpp',) + BASE_TUS
    levels = [PAGES, PAGEC]
    fields = (('n', INT_), ('sizes', RI), ('names', lambda c: z3.ArraySort(c.E.StrS, IntS)), ('w', R), ('h', R), ('last_sizes', R), ('last_names', lambda c: c.E.StrS))
    changed = ('mostFreqFontSize', 'mostFreqFontName', 'avgCharWidth', 'avgCharHeight')

    def leaf(self, c, a, e):
        g, E = self.get(c, a), c.E
        fs, fn = c.fld('PdfTextElement.fontSize', e, c.pre), c.fld('PdfTextElement.fontName', e, c.pre)
        x = lambda s: side(c, e, s, c.pre)
        return self.mk(c, {'n': g['n'] + 1, 'sizes': inc(g['sizes'], fs), 'names': inc(g['names'], fn), 'w': E.fop('+', g['w'], E.fop('-', x('rightX'), x('leftX'))), 'h': E.fop('+', g['h'], E.fop('-', x('lowerY'), x('upperY'))), 'last_sizes': fs, 'last_names': fn})

    def ensures(self, c):
        t = self.total(c)
        some = t['n'] > 0
        for f in self.changed:
            yield '%s stays without glyphs' % f, Implies(Not(some), self.post(c, f) == self.old(c, f))
        yield 'most frequent font size', Implies(some, is_max(c, t['sizes'], self.post(c, 'mostFreqFontSize')))
        yield 'most frequent font name', Implies(some, is_max(c, t['names'], self.post(c, 'mostFreqFontName')))
        n = z3.ToReal(t['n'])
        yield 'average width', Implies(some, self.post(c, 'avgCharWidth') == c.E.fop('/', t['w'], n))
        yield 'average height', Implies(some, self.post(c, 'avgCharHeight') == c.E.fop('/', t['h'], n))


class Words(Stats):
    cls = 'WordsStatisticsCalculation'
    name = 'modules::WordsStatisticsCalculation::process'
    tus = ('src/WordsStatisticsCalculation.cpp',) + BASE_TUS
    levels = [PAGES, PAGEW]
    fields = (('n', INT_), ('prev', INT_), ('heights', RI), ('hgaps', RI), ('vgaps', RI))
    changed = ('mostFreqWordHeight', 'mostFreqWordDistance', 'mostFreqEstimatedLineDistance')

    def pre_(self, c):
        return {'PdfPage': lambda a, e: self.mk(c, {**self.get(c, a), 'prev': I(0)})}

    def leaf(self, c, a, e):
        g, E = self.get(c, a), c.E
        p = g['prev']
        T = E.fval(0.0001)
        fs = lambda x: c.fld('PdfTextElement.fontSize', x, c.pre)
        s = lambda x, f: side(c, x, f, c.pre)
        m = self.old(c, 'mostFreqFontSize')
        tol = self.cfg(c, 'fsEqualTolerance')
        q1, q2 = ratios(c, s(p, 'upperY'), s(p, 'lowerY'), s(e, 'upperY'), s(e, 'lowerY'))
        y = z3.If(q1 >= q2, q1, q2)
        big = Not(fs(e) < E.fop('-', m, tol))
        d = E.fop('-', fs(p), m)
        comparable = And(big, p != 0, s(p, 'rotation') == s(e, 'rotation'), s(p, 'wMode') == s(e, 'wMode'), z3.If(d >= 0, d, E.fneg(d)) <= tol)
        gap = lambda near, far: z3.If(s(p, near) < E.fop('-', s(e, near), T), E.fop('-', s(e, near), s(p, far)), E.fop('-', s(p, near), s(e, far)))
        hg = And(comparable, y >= E.fop('-', self.cfg(c, 'minYOverlapRatioSameLine'), T))
        vg = And(comparable, y <= E.fop('+', self.cfg(c, 'maxYOverlapRatioDifferentLine'), T))
        return self.mk(c, {'n': g['n'] + 1, 'prev': e, 'heights': z3.If(big, inc(g['heights'], E.fop('-', s(e, 'lowerY'), s(e, 'upperY'))), g['heights']),
                           'hgaps': z3.If(hg, inc(g['hgaps'], gap('leftX', 'rightX')), g['hgaps']), 'vgaps': z3.If(vg, inc(g['vgaps'], gap('upperY', 'lowerY')), g['vgaps'])})

    def ensures(self, c):
        t = self.total(c)
        for f, k in zip(self.changed, ('heights', 'hgaps', 'vgaps')):
            yield '%s stays if nothing is counted' % f, Implies(all_zero(c, t[k]), self.post(c, f) == self.old(c, f))
            yield '%s is the most frequent value' % f, Implies(Not(all_zero(c, t[k])), is_max(c, t[k], self.post(c, f)))


class Lines(Stats):
    cls = 'TextLinesStatisticsCalculation'
    name = 'modules::TextLinesStatisticsCalculation::process'
    tus = ('src/TextLinesStatisticsCalculation.cpp',) + BASE_TUS
    levels = [PAGES, SEGS, SEGL]
    fields = (('n', INT_), ('prev', INT_), ('dists', RI), ('per', RI))
    changed = ('mostFreqLineDistance', 'mostFreqLineDistancePerFontSize')
    skip_frames = (DOC + 'mostFreqLineDistancePerFontSize',)

    def F0(self, c):
        """an arbitrary font size (the statements about line distances per font size hold for every value of this constant)"""
        return c.ghost('FS0', c.E.fsort())

    def at0(self, c, s):
        m = c.fld(DOC + 'mostFreqLineDistancePerFontSize', self.doc(c), s)
        return z3.Select(c.E.mdom(m), self.F0(c)), z3.Select(c.E.mval(m), self.F0(c))

    def same0(self, c, s):
        (d, v), (d0, v0) = self.at0(c, s), self.at0(c, c.pre)
        return And(d == d0, Implies(d0, v == v0))

    def is0(self, c, s, A):
        d, v = self.at0(c, s)
        return And(Implies(all_zero(c, A), self.same0(c, s)), Implies(Not(all_zero(c, A)), And(d, is_max(c, A, v))))

    def invariants(self, lc):
        yield from super().invariants(lc)
        c = lc.c
        r = z3.Int('frm')
        K = DOC + 'mostFreqLineDistancePerFontSize'
        yield 'other documents stay', lambda s: z3.ForAll([r], Implies(r != self.doc(c), z3.Select(c.fmap(K, s), r) == z3.Select(c.fmap(K, c.pre), r)), patterns=[z3.Select(c.fmap(K, s), r)])
        A = self.total(c)['per']
        F0 = self.F0(c)
        for m, ordv in lc.orders():
            if m.ty.a[1].k != 'rec':
                continue
            idx = [o[2] for o in c.ex.orders if o[1].eq(ordv)]
            if not idx:
                continue
            for nm, ig in list(lc.indices()) + lc.iters():
                done = lambda s, ig=ig: And(z3.Select(c.E.mdom(m.t), F0), idx[0](F0) < ig(s))
                yield '%s in range of the font sizes' % nm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.E.mcard(m.t))
                yield 'font size not seen yet (%s)' % nm, lambda s, done=done: Implies(Not(done(s)), self.same0(c, s))
                yield 'font size seen (%s)' % nm, lambda s, done=done: Implies(done(s), self.is0(c, s, A))

    def more(self, lc, lab, G):
        c = lc.c
        tys = {}

        def p(t):
            if t.k == 'map' and t.a[1].k == 'rec' and t.a[1].n.endswith('DoubleCounter'):
                tys['t'] = t.a[1]
                return True
            return False
        F0 = self.F0(c)
        for nm, g, k in lc.vars(p):
            def rel(s, g=g):
                m = g(s)
                cm = c.E.rec_get(tys['t'], z3.Select(c.E.mval(m), F0), '@base')
                d, v, A = c.ex.named(c.E.mdom(cm)), c.ex.named(c.E.mval(cm)), c.ex.named(G(s)['per'], 'cnt')
                k = z3.Const('kc', d.sort().domain())
                return z3.ForAll([k], z3.If(And(z3.Select(c.E.mdom(m), F0), z3.Select(d, k)), z3.Select(v, k), I(0)) == z3.Select(A, k), patterns=[z3.Select(d, k), z3.Select(v, k), z3.Select(A, k)])
            yield '%s counts the distances of one font size (%s)' % (nm, lab), rel

    def pre_(self, c):
        return {'PdfPageSegment': lambda a, e: self.mk(c, {**self.get(c, a), 'prev': I(0)})}

    def requires(self, c):
        yield from super().requires(c)
        yield 'precision', And(self.cfg(c, 'lineDistancePrecision') >= 0, self.cfg(c, 'lineDistancePrecision') <= 10)
        r = z3.Int('rp')
        for f in ('baseBBoxUpperY', 'baseBBoxLowerY'):
            m = c.ex.named(c.fmap('PdfTextLine.' + f, c.pre), 'hm')
            yield 'coordinates are finite (%s)' % f, z3.ForAll([r], finite(z3.Select(m, r)), patterns=[z3.Select(m, r)])

    def leaf(self, c, a, e):
        g, E = self.get(c, a), c.E
        p = g['prev']
        s = lambda x, f: side(c, x, f, c.pre)
        fs = lambda x: c.fld('PdfTextElement.fontSize', x, c.pre)
        same = And(p != 0, s(p, 'rotation') == s(e, 'rotation'), s(p, 'wMode') == s(e, 'wMode'))
        d = E.fop('-', c.fld('PdfTextLine.baseBBoxUpperY', e, c.pre), c.fld('PdfTextLine.baseBBoxLowerY', p, c.pre))
        n = self.cfg(c, 'lineDistancePrecision')
        Rr = z3.RealSort()
        rnd, pw = E.fn('libm_round', Rr, Rr), E.fn('libm_pow', Rr, Rr, Rr)(E.fval(10), z3.ToReal(n))
        q = z3.If(n == 0, rnd(d), E.fop('/', rnd(E.fop('*', d, pw)), pw))
        dist = z3.If(q > 0, q, z3.RealVal(0))
        df = E.fop('-', fs(p), fs(e))
        eq = And(same, z3.If(df >= 0, df, E.fneg(df)) <= self.cfg(c, 'fsEqualTolerance'))
        return self.mk(c, {'n': g['n'] + 1, 'prev': e, 'dists': z3.If(same, inc(g['dists'], dist), g['dists']),
                           'per': z3.If(And(eq, fs(e) == self.F0(c)), inc(g['per'], dist), g['per'])})

    def ensures(self, c):
        t = self.total(c)
        yield 'line distance stays if nothing is counted', Implies(all_zero(c, t['dists']), self.post(c, 'mostFreqLineDistance') == self.old(c, 'mostFreqLineDistance'))
        yield 'line distance is the most frequent value', Implies(Not(all_zero(c, t['dists'])), is_max(c, t['dists'], self.post(c, 'mostFreqLineDistance')))
        yield 'line distance per font size (for every font size)', self.is0(c, c.post, t['per'])


specs = counter.specs + [x for x in geometry.specs if getattr(x, 'fmode', 'uf') != 'fp'] + [Glyphs(), Words(), Lines()]
