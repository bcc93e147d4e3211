"""Detection of words (src/WordsDetection.cpp): which characters form a word, and stacked math symbols."""
from .nest import *
from . import words_utils
from .geometry import ratios, rmax, rmin
WDET, CH, WD = 'WordsDetection.', 'PdfCharacter.', 'PdfWord.'
ACTIVE = WDET + '_activeWord'
TOLR = z3.RealVal('0.0001')


def active(c, this=None):
    return c.ex.emb(ACTIVE, c.this.t)


def rules(c, E, a, ch, st, cfg):
    """does a rule (other than an empty active word) separate character ch from the active word a (dict of values)?"""
    tol = E.fval(0.0001)
    l, u, r, d = [side(c, ch, s, st) for s in BOX]
    q1, q2 = ratios(c, u, d, a['upperY'], a['lowerY'])
    below = z3.If(q1 >= q2, q1, q2) < E.fop('-', c.fld('WordsDetectionConfig.minYOverlapRatio', cfg, st), tol)
    thr = E.fop('+', E.fop('*', E.fval(0.15), a['fontSize']), tol)
    gap = lambda l1, r1, l2, r2: z3.If(l1 < E.fop('-', l2, tol), E.fop('-', l2, r1), E.fop('-', l1, r2))
    return Or(a['rotation'] != side(c, ch, 'rotation', st), a['wMode'] != side(c, ch, 'wMode', st), below,
              gap(l, r, a['leftX'], a['rightX']) > thr, gap(a['leftX'], a['rightX'], l, r) > thr)


class W(Spec):
    embedded = (ACTIVE,)
    tus = ('src/WordsDetection.cpp', 'src/utils/WordsDetectionUtils.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp', 'src/utils/PdfElementsUtils.cpp', 'src/utils/Counter.cpp')

    def cfg(self, c):
        return c.this_fld(WDET + '_config', c.pre)

    def av(self, c, s):
        """the active word in state s"""
        w = active(c)
        a = {k: side(c, w, k, s) for k in BOX + ('rotation', 'wMode')}
        a['fontSize'] = c.fld('PdfTextElement.fontSize', w, s)
        a['chars'] = c.fld(WD + 'characters', w, s)
        return a

    def framed(self, c, s):
        r = z3.Int('frw')
        for m in self.modifies(c):
            if m[0] == 'field':
                h, h0 = c.fmap(m[1], s), c.fmap(m[1], c.pre)
                if not h.eq(h0):
                    yield 'frame of %s' % m[1], z3.ForAll([r], Implies(And(r < c.pre.alloc, Not(m[2](r))), z3.Select(h, r) == z3.Select(h0, r)), patterns=[z3.Select(h, r)])


class StartsWord(W):
    name = 'modules::WordsDetection::startsWord'

    def requires(self, c):
        yield 'config', self.cfg(c) != 0
        yield 'character', And(c.av(0) != 0, pos(c, c.av(0), c.pre) != 0)
        n = side(c, c.av(0), 'pageNum', c.pre)
        yield 'page number', And(n >= 0, n <= 1000000000)
        yield 'active word', pos(c, active(c), c.pre) != 0
        yield 'characters of the active word', c.all_idx(self.av(c, c.pre)['chars'], lambda i, e: e != 0)

    def ensures(self, c):
        a = self.av(c, c.pre)
        yield 'exactly the rules', c.res == Or(c.len(a['chars']) == 0, rules(c, c.E, a, c.av(0), c.pre, self.cfg(c)))


class DetectWords(W):
    """The words of a page as a fold over its characters.  Ghost: IX(e) is the position of character e among the characters
    of the page that are no merged marks, ON(e) any property of the characters of the page."""
    name = 'modules::WordsDetection::detectWords'
    skip_frames = (CH + 'word', WD + 'characters', 'PdfElement.rank', 'PdfPage.words') + tuple('PdfPosition.' + s for s in BOX + ('rotation', 'wMode')) + ('PdfTextElement.fontSize',)
    F = ['n', 'k', 'a'] + list(BOX) + ['fontSize', 'rotation', 'wMode', 'wo']

    def St(self, c):
        R = c.E.fsort()
        return record(c, 'Seg', [(f, {'n': IntS, 'k': IntS, 'a': IntS, 'rotation': IntS, 'wMode': IntS, 'wo': z3.ArraySort(IntS, IntS)}.get(f, R)) for f in self.F])

    def get(self, c, s):
        St = self.St(c)
        return {f: (s.arg(i) if z3.is_app(s) and s.decl().eq(St.constructor(0)) else St.accessor(0, i)(s)) for i, f in enumerate(self.F)}

    def mk(self, c, d):
        return self.St(c).constructor(0)(*[d[f] for f in self.F])

    def merged(self, c, e):
        return c.fld(CH + 'isDiacriticMarkOfBaseChar', e, c.pre) != 0

    def reset(self, c):
        return {**{s: MAXF if s in MIN_SIDES else -MAXF for s in BOX}, 'fontSize': z3.RealVal(0), 'rotation': I(0), 'wMode': I(0)}

    def step(self, c, s, e):
        g = self.get(c, s)
        cut = And(g['a'] > 0, rules(c, c.E, g, e, c.pre, self.cfg(c)))
        r = self.reset(c)
        o = {f: z3.If(cut, r[f], g[f]) if f in r else g[f] for f in self.F}
        n = {'n': g['n'] + 1, 'k': z3.If(cut, g['k'] + 1, g['k']), 'a': z3.If(cut, I(1), g['a'] + 1)}
        n['wo'] = z3.Store(g['wo'], e, n['k'])
        for f in BOX:
            x = side(c, e, f, c.pre)
            n[f] = rmin(o[f], x) if f in MIN_SIDES else rmax(o[f], x)
        n['fontSize'] = rmax(o['fontSize'], c.fld('PdfTextElement.fontSize', e, c.pre))
        n['rotation'], n['wMode'] = side(c, e, 'rotation', c.pre), side(c, e, 'wMode', c.pre)
        return z3.If(self.merged(c, e), s, self.mk(c, n))

    def start(self, c):
        return self.mk(c, {'n': I(0), 'k': I(0), 'a': I(0), 'wo': z3.K(IntS, I(0)), **self.reset(c)})

    def fold(self, c, n):
        key = 'segment'
        if key not in c.ex.folds:
            c.ex.folds[key] = Fold(key, z3.ArraySort(IntS, IntS), self.St(c), self.start(c), lambda acc, e, maps: self.step(c, acc, e))
            c.ex.fold_maps[key] = []
        return self.get(c, c.fold(c.ex.folds[key], self.chars(c), n))

    def chars(self, c):
        return c.fld('PdfPage.characters', c.av(0), c.pre)

    def IX(self, c, e):
        return c.E.fn('index_of', IntS, IntS)(e)

    def ON(self, c, e):
        return c.E.fn('on_page', IntS, BoolS)(e)

    def utils(self, c):
        return c.this_fld(WDET + '_utils', c.pre)

    def requires(self, c):
        v = self.chars(c)
        yield 'config', self.cfg(c) != 0
        yield 'utils', And(self.utils(c) != 0, c.fld('WordsDetectionUtils._config', self.utils(c), c.pre) != 0)
        yield 'page', c.av(0) != 0
        w = active(c)
        yield 'active word', pos(c, w, c.pre) != 0
        yield 'characters have boxes', elems_ok(c, v, c.pre)
        yield 'the box of the active word is its own', c.all_idx(v, lambda i, e: pos(c, e, c.pre) != pos(c, w, c.pre), name='qo')
        yield 'font sizes are finite and page numbers small', c.all_idx(v, lambda i, e: And(finite(c.fld('PdfTextElement.fontSize', e, c.pre)), side(c, e, 'pageNum', c.pre) >= 0, side(c, e, 'pageNum', c.pre) <= 1000000000), name='qf')
        yield 'every character has its own position among the characters that are no merged marks', c.all_idx(v, lambda i, e: Implies(Not(self.merged(c, e)), self.IX(c, e) == self.fold(c, i)['n']), name='qx')
        yield 'characters of the page', c.all_idx(v, lambda i, e: self.ON(c, e), name='qx2')
        ws = self.words(c, c.pre)
        yield 'the ranks are numbers of type int', c.len(ws) + c.len(v) < 2 ** 31
        yield 'the active word is no word of the page', c.all_idx(ws, lambda i, e: And(e != w, e != 0), name='qw')

    def words(self, c, s):
        return c.fld('PdfPage.words', c.av(0), s)

    def modifies(self, c):
        w = active(c)
        p = pos(c, w, c.pre)
        out = [('fresh', ['PdfWord', 'PdfPosition']), ('field', CH + 'word', lambda r: self.ON(c, r)), ('field', WD + 'characters', lambda r: r == w), ('field', 'PdfTextElement.fontSize', lambda r: r == w), ('field', 'PdfPage.words', lambda r: r == c.av(0))]
        return out + [('field', 'PdfPosition.' + s, lambda r: r == p) for s in BOX + ('rotation', 'wMode', 'pageNum')]

    def state(self, c, s, g, act):
        """relation between the words of the page in state s and the fold state g; act: is the active word still to be added"""
        ws, w0 = self.words(c, s), self.words(c, c.pre)
        n0, w = c.len(w0), active(c)
        A = c.fld(WD + 'characters', w, s)
        k = g['k'] if act else g['k'] + z3.If(g['a'] > 0, I(1), I(0))
        lo = g['n'] - g['a'] if act else g['n']
        C = lambda q: c.fld(WD + 'characters', q, s)
        first = lambda q: self.IX(c, c.at(C(q), I(0)))
        yield 'number of words', c.len(ws) == n0 + k
        yield 'earlier words stay', c.all_idx(w0, lambda i, e: c.at(ws, i) == e, name='qs')
        yield 'new words are not empty', c.all_idx(ws, lambda i, e: c.len(C(e)) > 0, lo=n0, name='qn')
        yield 'new words are ranked by position', c.all_idx(ws, lambda i, e: c.fld('PdfElement.rank', e, s) == i, lo=n0, name='qn')
        yield 'new words are new', c.all_idx(ws, lambda i, e: And(e >= c.pre.alloc, e < s.alloc), lo=n0, name='qn')
        i, j = z3.Ints('qi qj')
        arr = c.ex.named(c.arr(ws), 'arr')
        e = z3.Select(arr, i)
        ch = z3.Select(c.arr(C(e)), j)
        def chars(f):
            return z3.ForAll([i, j], Implies(And(i >= n0, i < c.len(ws), j >= 0, j < c.len(C(e))), f(i, e, j, ch)), patterns=[ch])
        yield 'words hold characters of the page that are no merged marks', chars(lambda i, e, j, ch: And(self.ON(c, ch), Not(self.merged(c, ch))))
        yield 'words hold consecutive characters', chars(lambda i, e, j, ch: self.IX(c, ch) == first(e) + j)
        yield 'characters refer to their word', chars(lambda i, e, j, ch: c.fld(CH + 'word', ch, s) == e)
        yield 'words begin exactly where a rule applies', chars(lambda i, e, j, ch: z3.Select(g['wo'], ch) == i - n0)
        yield 'first word begins with the first character', Implies(k > 0, first(c.at(ws, n0)) == 0)
        yield 'every word continues where the previous word ends', c.all_idx(ws, lambda i, e: first(e) == first(c.at(ws, i - 1)) + c.len(C(c.at(ws, i - 1))), lo=n0 + 1, name='qp')
        yield 'words end before the characters not seen yet', c.all_idx(ws, lambda i, e: first(e) + c.len(C(e)) <= lo, lo=n0, name='qe')
        yield 'the last word ends with the last character', lo == z3.If(k > 0, first(c.at(ws, n0 + k - 1)) + c.len(C(c.at(ws, n0 + k - 1))), I(0))
        if act:
            a = self.av(c, s)
            yield 'length of the active word', And(c.len(A) == g['a'], g['a'] >= 0, g['k'] >= 0, g['n'] >= g['a'])
            yield 'characters of the active word', c.all_idx(A, lambda i, e: And(e != 0, self.ON(c, e), Not(self.merged(c, e))), name='qa')
            yield 'boxes of the characters of the active word', c.all_idx(A, lambda i, e: And(pos(c, e, s) != 0, pos(c, e, s) != pos(c, w, s), *[finite(side(c, e, x, s)) for x in BOX]), name='qa')
            yield 'positions of the active word', c.all_idx(A, lambda i, e: self.IX(c, e) == g['n'] - g['a'] + i, name='qa')
            yield 'word number of the active word', c.all_idx(A, lambda i, e: z3.Select(g['wo'], e) == g['k'], name='qa')
            for f in BOX + ('rotation', 'wMode', 'fontSize'):
                yield '%s of the active word' % f, a[f] == g[f]
            for f in BOX:
                yield 'finite %s' % f, finite(g[f])

    def framed(self, c, s):
        yield from super().framed(c, s)
        r = z3.Int('frw')
        h, h0 = c.fmap('PdfElement.rank', s), c.fmap('PdfElement.rank', c.pre)
        if not h.eq(h0):
            yield 'frame of rank', z3.ForAll([r], Implies(r < c.pre.alloc, z3.Select(h, r) == z3.Select(h0, r)), patterns=[z3.Select(h, r)])

    def ensures(self, c):
        g = self.fold(c, c.len(self.chars(c)))
        c.ex.note_index(c.ex.named(c.arr(self.chars(c)), 'arr'), c.len(self.chars(c)))
        yield from self.state(c, c.post, g, False)

    def invariants(self, lc):
        c = lc.c
        if lc.extra.get('kind') != 'vec':
            return
        key = lc.extra['idx'].key
        v = lc.extra['vec0'].t
        yield 'index in range', lambda s: And(s.env[key].t >= 0, s.env[key].t <= c.len(v))
        yield 'no more words than characters', lambda s: (lambda g: And(g['a'] >= 0, g['k'] >= 0, g['k'] + g['a'] <= s.env[key].t))(self.fold(c, s.env[key].t))
        rel = lambda s: list(self.state(c, s, self.fold(c, s.env[key].t), True))
        for i, (nm, _) in enumerate(rel(lc.entry)):
            yield nm, lambda s, i=i: rel(s)[i][1]
        for nm in [m[1] for m in self.modifies(c) if m[0] == 'field'] + ['PdfElement.rank']:
            def fr(s, nm=nm):
                for n2, f in self.framed(c, s):
                    if n2 in ('frame of ' + nm, 'frame of ' + nm.split('.')[1]):
                        return f
                return TRUE
            yield 'frame of ' + nm, fr



class Merge(W):
    """Stacked math symbols.  Ghost: WX(e) is the position of word e on the page."""
    name = 'modules::WordsDetection::mergeStackedMathSymbols'
    PART, OF = WD + 'isPartOfStackedMathSymbol', WD + 'isBaseOfStackedMathSymbol'

    skip_frames = (PART, OF)

    def ws(self, c):
        return c.fld('PdfPage.words', c.av(0), c.pre)

    def WX(self, c, e):
        return c.E.fn('word_index_of', IntS, IntS)(e)

    def on(self, c, e):
        return c.E.fn('word_on_page', IntS, BoolS)(e)

    def requires(self, c):
        yield 'config', self.cfg(c) != 0
        yield 'page', c.av(0) != 0
        v = self.ws(c)
        yield 'words have boxes', elems_ok(c, v, c.pre)
        yield 'words are listed once', c.all_idx(v, lambda i, e: self.WX(c, e) == i, name='qx')
        yield 'words of the page', c.all_idx(v, lambda i, e: self.on(c, e), name='qx')
        yield 'page numbers are small', c.all_idx(v, lambda i, e: And(side(c, e, 'pageNum', c.pre) >= 0, side(c, e, 'pageNum', c.pre) <= 1000000000), name='qf')
        yield 'no null characters', no_nulls(c, WD + 'characters')
        r = z3.Int('rp')
        m = c.ex.named(c.fmap(self.PART, c.pre), 'hm')
        yield 'nothing is merged yet (part)', z3.ForAll([r], z3.Select(m, r) == 0, patterns=[z3.Select(m, r)])
        m = c.ex.named(c.fmap(self.OF, c.pre), 'hm')
        yield 'nothing is merged yet (base)', z3.ForAll([r], c.len(z3.Select(m, r)) == 0, patterns=[z3.Select(m, r)])

    def modifies(self, c):
        return [('field', self.PART, lambda r: self.on(c, r)), ('field', self.OF, lambda r: self.on(c, r))]

    def fits(self, c, b, x):
        """word x overlaps the base b horizontally and is smaller"""
        E = c.E
        f = lambda e, s: side(c, e, s, c.pre)
        q1, q2 = ratios(c, f(b, 'leftX'), f(b, 'rightX'), f(x, 'leftX'), f(x, 'rightX'))
        fs = lambda e: c.fld('PdfTextElement.fontSize', e, c.pre)
        cf = lambda n: c.fld(n, self.cfg(c), c.pre)
        return And(Not(z3.If(q1 >= q2, q1, q2) < E.fop('-', cf('WordsDetectionConfig.minStackedMathSymbolXOverlapRatio'), E.fval(0.0001))), fs(x) < E.fop('-', fs(b), cf('ModuleConfig.fsEqualTolerance') if 'ModuleConfig.fsEqualTolerance' in c.ex.heap_ty else cf(self.tolkey(c))))

    def tolkey(self, c):
        for f in c.ex.prog.all_fields('WordsDetectionConfig'):
            if f['name'] == 'fsEqualTolerance':
                return c.ex.fieldkey(f)

    def state(self, c, s):
        r, j, k, t = z3.Ints('rs js ks ts')
        P, B = c.fmap(self.PART, s), c.ex.named(c.fmap(self.OF, s), 'hm')
        m, b = z3.Select(P, r), z3.Select(B, r)
        x = z3.Select(c.arr(b), j)
        y = z3.Select(c.arr(b), k)
        J = And(j >= 0, j < c.len(b))
        ws = c.ex.named(c.arr(self.ws(c)), 'arr')
        yield 'no word is both part and base', z3.ForAll([r], Implies(m != 0, c.len(b) == 0), patterns=[m])
        yield 'no word is both base and part', z3.ForAll([r], Or(m == 0, c.len(b) == 0), patterns=[b])
        yield 'parts refer to their base', z3.ForAll([r, j], Implies(J, And(z3.Select(P, x) == r, x != 0, r != 0)), patterns=[x])
        yield 'parts are words of the page', z3.ForAll([r, j], Implies(J, And(self.on(c, x), self.on(c, r), x != r)), patterns=[x])
        yield 'parts overlap their base and are smaller', z3.ForAll([r, j], Implies(J, self.fits(c, r, x)), patterns=[x])
        yield 'no word is listed twice', z3.ForAll([r, j, k], Implies(And(J, k >= 0, k < j), x != y), patterns=[z3.MultiPattern(x, y)])
        Bm = z3.Select(B, m)
        X = lambda e: self.WX(c, e)
        last = z3.Select(c.arr(Bm), c.len(Bm) - 1)
        lists = lambda p: And(p >= 0, p < c.len(Bm), z3.Select(c.arr(Bm), p) == r)
        yield 'bases list their previous words', z3.ForAll([r], Implies(And(m != 0, X(r) < X(m)), lists(X(m) - 1 - X(r))), patterns=[m])
        yield 'bases list their next words', z3.ForAll([r], Implies(And(m != 0, X(r) >= X(m)), And(X(r) > X(m), X(last) >= X(r), lists(c.len(Bm) - 1 - X(last) + X(r)))), patterns=[m])
        w = z3.Select(ws, t)
        yield 'words between a base and its part belong to the symbol', z3.ForAll([r, t], Implies(And(m != 0, t >= 0, t < c.len(self.ws(c)), Or(And(self.WX(c, m) < t, t < self.WX(c, r)), And(self.WX(c, r) < t, t < self.WX(c, m)))), z3.Select(P, w) == m), patterns=[z3.MultiPattern(m, w)])

    def ensures(self, c):
        yield from self.state(c, c.post)

    def invariants(self, lc):
        c = lc.c
        for i, (nm, _) in enumerate(self.state(c, lc.entry)):
            yield nm, lambda s, i=i: list(self.state(c, s))[i][1]
        for i in (0, 1):
            yield 'frame %d' % i, lambda s, i=i: (lambda f: f[i][1] if i < len(f) else TRUE)(list(self.framed(c, s)))
        v = self.ws(c)
        ints = lc.vars(lambda t: t.k == 'int' and t.n == 'u64')
        words = lc.vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec' and t.a[0].n == 'PdfWord')
        P = lambda s, r: z3.Select(c.fmap(self.PART, s), r)
        for wn, wg, _ in words:
            yield '%s belongs to no other symbol' % wn, lambda s, wg=wg: P(s, wg(s)) == 0
        t, r = z3.Ints('tt rr')
        B = lambda s, r: z3.Select(c.fmap(self.OF, s), r)
        for nm, g in lc.indices():
            yield '%s >= 0' % nm, lambda s, g=g: g(s) >= 0
            yield '%s in range' % nm, lambda s, g=g: g(s) <= c.len(v)
            for n2, g2 in [(nm, g)] + [x[:2] for x in ints]:
                for d in (0, 1):
                    yield 'bases are before %s+%d' % (n2, d), lambda s, g=g2, d=d: z3.ForAll([r], Implies(c.len(B(s, r)) > 0, self.WX(c, r) < g(s) + d), patterns=[B(s, r)])
            for wn, wg, _ in words:
                yield 'last part of %s is before %s' % (wn, nm), lambda s, wg=wg, g=g: Implies(g(s) > self.WX(c, wg(s)) + 1, And(c.len(B(s, wg(s))) > 0, c.at(B(s, wg(s)), c.len(B(s, wg(s))) - 1) == c.at(v, g(s) - 1)))
                yield 'parts of %s are before %s' % (wn, nm), lambda s, wg=wg, g=g: c.all_idx(B(s, wg(s)), lambda q, e: self.WX(c, e) < g(s), name='qb')
                yield 'parts of %s are before it' % wn, lambda s, wg=wg: c.all_idx(B(s, wg(s)), lambda q, e: self.WX(c, e) < self.WX(c, wg(s)), name='qb')
                yield '%s is at position %s' % (wn, nm), lambda s, wg=wg, g=g: self.WX(c, wg(s)) == g(s)
            for n2, g2, k2 in ints:
                if n2 == nm:
                    continue
                for wn, wg, _ in words:
                    yield 'number of parts of %s (%s, %s)' % (wn, nm, n2), lambda s, wg=wg, g=g, g2=g2: c.len(B(s, wg(s))) == g2(s) - g(s)
                    yield '%s is at position %s' % (wn, n2), lambda s, wg=wg, g2=g2: self.WX(c, wg(s)) == g2(s)
                for lo, hi, ln, hn, d in ((g, g2, nm, n2, 0), (g2, g, n2, nm, 1)):
                    yield '%s+%d <= %s' % (ln, d, hn), lambda s, lo=lo, hi=hi, d=d: lo(s) + d <= hi(s)
                    for wn, wg, _ in words:
                        yield 'words %s+%d..%s are parts of %s' % (ln, d, hn, wn), lambda s, lo=lo, hi=hi, d=d, wg=wg: z3.ForAll([t], Implies(And(lo(s) + d <= t, t < hi(s)), P(s, c.at(v, t)) == wg(s)), patterns=[z3.Select(c.ex.named(c.arr(v), 'arr'), t)])


specs = words_utils.specs + [StartsWord(), DetectWords(), Merge()]
