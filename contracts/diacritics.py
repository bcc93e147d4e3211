"""Merging of diacritic marks (src/DiacriticalMarksMerging.cpp): which characters can be marks and bases, links between them, boxes of the bases."""
from .nest import *
from . import geometry
CH = 'PdfCharacter.'
MARK, BASE, CHARS_OF = CH + 'isDiacriticMarkOfBaseChar', CH + 'isBaseCharOfDiacriticMark', 'PdfPage.characters'


class Process(Spec):
    name = 'modules::DiacriticalMarksMerging::process'
    skip_frames = (MARK, BASE, CH + 'textWithDiacriticMark') + tuple('PdfPosition.' + s for s in BOX)
    tus = ('src/DiacriticalMarksMerging.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp', 'src/utils/PdfElementsUtils.cpp')

    def doc(self, c):
        return c.this_fld('DiacriticalMarksMerging._doc', c.pre)

    def PG(self, c, r):
        return c.E.fn('page_of', IntS, IntS)(r)

    def IX(self, c, r):
        return c.E.fn('index_of', IntS, IntS)(r)

    def OW(self, c, r):
        return c.E.fn('owner_of', IntS, IntS)(r)

    def is_mark(self, c, r):
        """exactly one code point, which is (after the combining map) a spacing modifier letter or a combining mark"""
        u = c.fld(CH + 'unicodes', r, c.pre)
        m = c.fld('DiacriticalMarksMergingConfig.combiningMap', c.this_fld('DiacriticalMarksMerging._config', c.pre), c.pre)
        x = c.at(u, I(0))
        y = z3.If(z3.Select(c.E.mdom(m), x), z3.Select(c.E.mval(m), x), x)
        return And(c.len(u) == 1, y >= 0x2b0, y <= 0x36f)

    def all_chars(self, c, f):
        """f(page index, page, character index, character) for all characters of all pages"""
        v = c.fld('PdfDocument.pages', self.doc(c), c.pre)
        chars = c.ex.named(c.fmap(CHARS_OF, c.pre), 'hm')
        pg = c.ex.named(c.arr(v), 'arr')
        p, i = z3.Ints('cp ci')
        page = z3.Select(pg, p)
        w = z3.Select(chars, page)
        e = z3.Select(c.arr(w), i)
        return z3.ForAll([p, i], Implies(And(p >= 0, p < c.len(v), i >= 0, i < c.len(w)), f(p, page, i, e)), patterns=[e])

    def requires(self, c):
        yield 'document', self.doc(c) != 0
        yield 'config', c.this_fld('DiacriticalMarksMerging._config', c.pre) != 0
        for k in (PAGES, ('PdfCharacter', CHARS_OF)):
            yield 'no null %s' % k[0], no_nulls(c, k[1])
        yield 'characters are listed once', self.all_chars(c, lambda p, page, i, e: And(self.PG(c, e) == p, self.IX(c, e) == i))
        r = z3.Int('rp')
        m = c.ex.named(c.fmap('PdfElement.pos', c.pre), 'hm')
        yield 'elements have positions of their own', z3.ForAll([r], And(z3.Select(m, r) != 0, self.OW(c, z3.Select(m, r)) == r), patterns=[z3.Select(m, r)])
        for s in BOX:
            m = c.ex.named(c.fmap('PdfPosition.' + s, c.pre), 'hm')
            yield 'finite %s' % s, z3.ForAll([r], finite(z3.Select(m, r)), patterns=[z3.Select(m, r)])
        for f in (MARK, BASE):
            m = c.ex.named(c.fmap(f, c.pre), 'hm')
            yield 'nothing is merged yet (%s)' % f, z3.ForAll([r], z3.Select(m, r) == 0, patterns=[z3.Select(m, r)])

    def modifies(self, c):
        T = lambda r: TRUE
        return [('field', MARK, T), ('field', BASE, T), ('field', CH + 'textWithDiacriticMark', T)] + [('field', 'PdfPosition.' + s, T) for s in BOX]

    def state(self, c, s):
        """what holds at every moment"""
        r = z3.Int('rs')
        mk, bs = c.fmap(MARK, s), c.fmap(BASE, s)
        R = And(r > 0, r < c.pre.alloc)
        m, b = z3.Select(mk, r), z3.Select(bs, r)
        pm, pb = [m], [b]
        yield 'no character is both mark and base', z3.ForAll([r], Or(m == 0, b == 0), patterns=[pm[0], pb[0]] if False else [m])
        yield 'no character is both base and mark', z3.ForAll([r], Or(m == 0, b == 0), patterns=[b])
        yield 'only marks are merged', z3.ForAll([r], Implies(m != 0, self.is_mark(c, r)), patterns=[m])
        yield 'base of a mark is known to be a base', z3.ForAll([r], Implies(m != 0, And(m != r, z3.Select(bs, m) != 0)), patterns=[m])
        yield 'a base refers to one of its marks', z3.ForAll([r], Implies(And(r != 0, b != 0), z3.Select(mk, b) == r), patterns=[b])
        yield 'bases are on the page of their mark', z3.ForAll([r], Implies(m != 0, self.PG(c, m) == self.PG(c, r)), patterns=[m])
        yield 'base is the next character or an earlier one', z3.ForAll([r], Implies(m != 0, self.IX(c, m) <= self.IX(c, r) + 1), patterns=[m])
        pos_ = c.fmap('PdfElement.pos', c.pre)
        for q in BOX:
            old, new = c.fmap('PdfPosition.' + q, c.pre), c.fmap('PdfPosition.' + q, s)
            le = (lambda a, b: a <= b) if q in MIN_SIDES else (lambda a, b: a >= b)
            P = lambda x: z3.Select(pos_, x)
            yield 'finite %s of every box' % q, z3.ForAll([r], finite(z3.Select(new, r)), patterns=[z3.Select(new, r)])
            yield 'boxes only grow (%s)' % q, z3.ForAll([r], le(z3.Select(new, r), z3.Select(old, r)), patterns=[z3.Select(new, r)])
            yield 'boxes of bases enclose their marks (%s)' % q, z3.ForAll([r], Implies(m != 0, le(z3.Select(new, P(m)), z3.Select(new, P(r)))), patterns=[m])
            yield 'boxes of other characters stay (%s)' % q, z3.ForAll([r], Or(z3.Select(new, r) == z3.Select(old, r), z3.Select(bs, self.OW(c, r)) != 0), patterns=[z3.Select(new, r)])
        tx = CH + 'textWithDiacriticMark'
        t0, t1 = c.fmap(tx, c.pre), c.fmap(tx, s)
        yield 'text of other characters stays', z3.ForAll([r], Or(z3.Select(t0, r) == z3.Select(t1, r), b != 0), patterns=[z3.Select(t1, r)])

    def ensures(self, c):
        yield from self.state(c, c.post)

    def invariants(self, lc):
        c = lc.c
        for i, (nm, _) in enumerate(self.state(c, lc.entry)):
            yield nm, lambda s, i=i: list(self.state(c, s))[i][1]
        # characters behind the current one are not merged yet
        page = lambda x: x.get('kind') == 'vec' and x['vec0'].ty.k == 'vec' and repr(x['vec0'].ty.a[0]) == repr(Ty('ptr', [Ty('rec', n='PdfPage')]))
        pgs = [x for x in [l.extra for l in lc.lp.outer] + [lc.extra] if page(x)]
        r = z3.Int('rs')
        if lc.extra.get('kind') == 'vec' and lc.extra in pgs:
            k = lc.extra['idx'].key
            yield 'pages in range', lambda s: And(s.env[k].t >= 0, s.env[k].t <= c.len(lc.extra['vec0'].t))
            yield 'marks so far are on earlier pages', lambda s: z3.ForAll([r], Implies(z3.Select(c.fmap(MARK, s), r) != 0, self.PG(c, r) < s.env[k].t), patterns=[z3.Select(c.fmap(MARK, s), r)])
        elif pgs:
            vecs = lc.mod_vars(lambda t: t.k == 'vec' and t.a[0].k == 'int')
            for nm, g, _ in vecs:
                for vn, vg in lc.seqs(lambda t: t.k == 'int'):
                    for inm, ig in lc.indices():
                        yield 'something was added to %s at the end of %s' % (nm, vn), lambda s, g=g, vg=vg, ig=ig: Or(ig(s) < c.len(vg(s)), c.len(vg(s)) == 0, c.len(g(s)) > 0)
                for inm, ig in lc.indices():
                    yield '%s has at least %s elements' % (nm, inm), lambda s, g=g, ig=ig: c.len(g(s)) >= ig(s)
            k = pgs[-1]['idx'].key
            for nm, g, _ in lc.vars(lambda t: t.k == 'int' and t.n == 'u64'):
                for d in (0, 1):
                    yield 'marks so far are before %s+%d' % (nm, d), lambda s, g=g, d=d: z3.ForAll([r], Implies(z3.Select(c.fmap(MARK, s), r) != 0, Or(self.PG(c, r) < s.env[k].t, And(self.PG(c, r) == s.env[k].t, self.IX(c, r) < g(s) + d))), patterns=[z3.Select(c.fmap(MARK, s), r)])
            for nm, g in lc.indices():
                yield '%s >= 0' % nm, lambda s, g=g: g(s) >= 0
                for n2, g2, k2 in lc.vars(lambda t: t.k == 'int' and t.n == 'u64'):
                    yield '%s <= %s' % (nm, n2), lambda s, g=g, g2=g2: g(s) <= g2(s)


specs = [Process()] + geometry.specs
