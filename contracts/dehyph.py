"""Dehyphenation (src/WordsDehyphenation.cpp): which words are merged, and the merged texts, as a fold over the lines."""
from .nest import *
LN, WD = 'PdfTextLine.', 'PdfWord.'
TEXT = 'PdfTextElement.text'
FIRST, SECOND = WD + 'isFirstPartOfHyphenatedWord', WD + 'isSecondPartOfHyphenatedWord'
LEVELS = [PAGES, BLOCKS, LINES]
SetS = z3.ArraySort(IntS, BoolS)


class Process(Spec):
    name = 'modules::WordsDehyphenation::process'
    tus = ('src/WordsDehyphenation.cpp', 'src/Types.cpp')
    smode = 'chars'

    def St(self, c):
        # prev: last line with words; first, second: words merged so far; cur: second parts of the latest merged word; have, mt: is
        # there one, its text; xc: the ghost word X is a first part of it; xt: text of the merged word X is a first part of
        return record(c, 'Hyph', [('prev', IntS), ('first', SetS), ('second', SetS), ('cur', SetS), ('have', BoolS), ('mt', c.E.StrS), ('xc', BoolS), ('xt', c.E.StrS)])

    def g(self, c, s, f):
        St = self.St(c)
        i = [St.accessor(0, k).name() for k in range(8)].index(f)
        return s.arg(i) if z3.is_app(s) and s.decl().eq(St.constructor(0)) else St.accessor(0, i)(s)

    def X(self, c):
        return c.ghost('X', IntS)

    def drop_last(self, c, t):
        n = c.E.slen(t)
        return c.E.ssub(t, I(0), z3.If(n == 0, I(0), n - 1))

    def leaf(self, c, a, line):
        E = c.E
        g = lambda f: self.g(c, a, f)
        words = lambda l: c.fld(LN + 'words', l, c.pre)
        txt = lambda w: c.fld(TEXT, w, c.pre)
        v, pv = words(line), words(g('prev'))
        p, q = c.at(pv, c.len(pv) - 1), c.at(v, I(0))
        tp = txt(p)
        hyph = And(g('prev') != 0, E.slen(tp) > 1, E.sat(tp, E.slen(tp) - 1) == ord('-'))
        chain = And(g('have'), z3.Select(g('cur'), p))
        mt = E.scat(self.drop_last(c, z3.If(chain, g('mt'), tp)), txt(q))
        xc = z3.If(p == self.X(c), TRUE, And(chain, g('xc')))
        yes = self.St(c).constructor(0)(line, z3.Store(g('first'), p, TRUE), z3.Store(g('second'), q, TRUE), z3.Store(z3.If(chain, g('cur'), z3.K(IntS, FALSE)), q, TRUE), TRUE, mt, xc, z3.If(xc, mt, g('xt')))
        no = self.St(c).constructor(0)(line, *[g(f) for f in ('first', 'second', 'cur', 'have', 'mt', 'xc', 'xt')])
        return z3.If(c.len(v) == 0, a, z3.If(hyph, yes, no))

    def nest(self, c):
        return Nest(c, 'hyph', self.St(c), LEVELS, lambda a, e: self.leaf(c, a, e))

    def start(self, c):
        none = z3.K(IntS, FALSE)
        return self.St(c).constructor(0)(I(0), none, none, none, FALSE, c.E.sempty(), FALSE, c.E.sempty())

    def doc(self, c):
        return c.this_fld('WordsDehyphenation._doc', c.pre)

    def requires(self, c):
        yield 'document', self.doc(c) != 0
        for k in LEVELS + [WORDS]:
            yield 'no null %s' % k[0], no_nulls(c, k[1])
        for f in (FIRST, SECOND):
            r = z3.Int('rq')
            m = c.ex.named(c.fmap(f, c.pre), 'hm')
            yield 'no word is merged yet (%s)' % f.split('.')[1], z3.ForAll([r], z3.Select(m, r) == 0, patterns=[z3.Select(m, r)])

    def modifies(self, c):
        return [('fresh', ['PdfWord', 'PdfPosition']), ('field', FIRST, lambda r: TRUE), ('field', SECOND, lambda r: TRUE)]

    def marks(self, c, st, s, cell=None):
        """relation between the program state s and the state st of the fold"""
        g = lambda f: self.g(c, st, f)
        X = self.X(c)
        r = z3.Int('rm')
        old = And(r > 0, r < c.pre.alloc)
        for f, w in ((FIRST, 'first'), (SECOND, 'second')):
            m = c.fmap(f, s)
            yield 'exactly the %s parts of hyphenated words are marked' % w, z3.ForAll([r], Implies(old, (z3.Select(m, r) != 0) == z3.Select(g(w), r)), patterns=[z3.Select(m, r), z3.Select(g(w), r)])
            yield 'a merged word (%s) is new' % w, z3.ForAll([r], Implies(And(r > 0, r < c.pre.alloc, z3.Select(m, r) != 0), And(z3.Select(m, r) >= c.pre.alloc, z3.Select(m, r) < s.alloc)), patterns=[z3.Select(m, r)])
        m = c.fld(FIRST, X, s)
        yield 'text of the merged word', Implies(And(X > 0, X < c.pre.alloc, m != 0), c.fld(TEXT, m, s) == g('xt'))
        if cell:
            yield 'previous line', cell[0] == g('prev')
            w = cell[1]
            yield 'a merged word exists', (w != 0) == g('have')
            yield 'latest merged word is new', Implies(w != 0, And(w >= c.pre.alloc, w < s.alloc))
            yield 'text of the latest merged word', Implies(w != 0, c.fld(TEXT, w, s) == g('mt'))
            ms = c.fmap(SECOND, s)
            yield 'second parts of the latest merged word', z3.ForAll([r], Implies(And(old, w != 0), (z3.Select(ms, r) == w) == z3.Select(g('cur'), r)), patterns=[z3.Select(ms, r), z3.Select(g('cur'), r)])
            yield 'X is a first part of the latest merged word', Implies(And(X > 0, X < c.pre.alloc, w != 0), (c.fld(FIRST, X, s) == w) == g('xc'))
            l = cell[0]
            yield 'the previous line has words', Implies(l != 0, c.len(c.fld(LN + 'words', l, c.pre)) > 0)

    def ensures(self, c):
        N = self.nest(c)
        st = N.total(c.fld('PdfDocument.pages', self.doc(c), c.pre), self.start(c))
        yield from self.marks(c, st, c.post)

    def invariants(self, lc):
        c = lc.c
        N = self.nest(c)
        st = N.state(lc, lambda s: self.start(c))
        if st is None:
            return
        lines = [(nm, g) for nm, g, k in lc.mod_vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec' and t.a[0].n == 'PdfTextLine')]
        words = [(nm, g) for nm, g, k in lc.mod_vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec' and t.a[0].n == 'PdfWord')]
        yield 'index in range', lambda s: And(s.env[lc.extra['idx'].key].t >= 0, s.env[lc.extra['idx'].key].t <= c.len(lc.extra['vec0'].t))
        for ln, lg in lines:
            for wn, wg in words:
                pair = lambda s, lg=lg, wg=wg: list(self.marks(c, st(s), s, (lg(s), wg(s))))
                for i, (nm, _) in enumerate(pair(lc.entry)):
                    yield '%s (%s, %s)' % (nm, ln, wn), lambda s, i=i, pair=pair: pair(s)[i][1]


specs = [Process()]
