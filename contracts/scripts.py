"""Sub- and superscripts (src/SubSuperScriptsDetection.cpp): the flags and base boxes as a fold over all characters."""
from .nest import *
LN, CH = 'PdfTextLine.', 'PdfCharacter.'
LEVELS = [PAGES, ('PdfPageSegment', 'PdfPage.segments'), ('PdfTextLine', 'PdfPageSegment.lines'), WORDS, CHARS]
BB = ('baseBBoxLeftX', 'baseBBoxUpperY', 'baseBBoxRightX', 'baseBBoxLowerY')
MAPS = [CH + 'isSuperscript', CH + 'isSubscript'] + [LN + b for b in BB]


class Process(Spec):
    name = 'modules::SubSuperScriptsDetection::process'
    tus = ('src/SubSuperScriptsDetection.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp')
    skip_frames = MAPS

    def St(self, c):
        return record(c, 'Scripts', [('line', IntS)] + [('m%d' % i, c.fmap(m, c.pre).sort()) for i, m in enumerate(MAPS)])

    def get(self, c, s):
        St = self.St(c)
        return [s.arg(i) if z3.is_app(s) and s.decl().eq(St.constructor(0)) else St.accessor(0, i)(s) for i in range(len(MAPS) + 1)]

    def mk(self, c, a):
        return self.St(c).constructor(0)(*a)

    def cfg(self, c, f):
        return c.fld(f, c.this_fld('SubSuperScriptsDetection._config', c.pre), c.pre)

    def leaf(self, c, a, ch):
        E = c.E
        line, sup, sub, *box = self.get(c, a)
        size, base = c.fld('PdfTextElement.fontSize', ch, c.pre), c.fld(CH + 'base', ch, c.pre)
        lbase = c.fld(LN + 'base', line, c.pre)
        doc = c.this_fld('SubSuperScriptsDetection._doc', c.pre)
        ft, bt = self.cfg(c, 'SubSuperScriptsDetectionConfig.fsEqualTolerance'), self.cfg(c, 'SubSuperScriptsDetectionConfig.baseEqualTolerance')
        small = size < E.fop('-', c.fld('PdfDocument.mostFreqFontSize', doc, c.pre), ft)
        issup = And(small, base < E.fop('-', lbase, bt))
        issub = And(small, Not(issup), base > E.fop('+', lbase, bt))
        new = []
        for m, s in zip(box, BOX):
            x, o = side(c, ch, s, c.pre), z3.Select(m, line)
            new.append(z3.Store(m, line, z3.If(x < o, x, o) if s in MIN_SIDES else z3.If(x > o, x, o)))
        return z3.If(issup, self.mk(c, [line, z3.Store(sup, ch, TRUE), sub] + box), z3.If(issub, self.mk(c, [line, sup, z3.Store(sub, ch, TRUE)] + box), self.mk(c, [line, sup, sub] + new)))

    def nest(self, c):
        return Nest(c, 'scripts', self.St(c), LEVELS, lambda a, e: self.leaf(c, a, e), pre={'PdfTextLine': lambda a, e: self.mk(c, [e] + self.get(c, a)[1:])})

    def start(self, c):
        return self.mk(c, [I(0)] + [c.fmap(m, c.pre) for m in MAPS])

    def doc(self, c):
        return c.this_fld('SubSuperScriptsDetection._doc', c.pre)

    def requires(self, c):
        yield 'document', self.doc(c) != 0
        yield 'config', c.this_fld('SubSuperScriptsDetection._config', c.pre) != 0
        for k in LEVELS:
            yield 'no null %s' % k[0], no_nulls(c, k[1])
        r = z3.Int('rp')
        m = c.ex.named(c.fmap('PdfElement.pos', c.pre), 'hm')
        yield 'elements have positions', z3.ForAll([r], z3.Select(m, r) != 0, patterns=[z3.Select(m, r)])

    def modifies(self, c):
        return [('field', m, lambda r: TRUE) for m in MAPS]

    def ensures(self, c):
        N = self.nest(c)
        st = self.get(c, N.total(c.fld('PdfDocument.pages', self.doc(c), c.pre), self.start(c)))
        for m, t in zip(MAPS, st[1:]):
            yield '%s of every element' % m.split('.')[1], c.fmap(m, c.post) == t

    def invariants(self, lc):
        c = lc.c
        N = self.nest(c)
        st = N.state(lc, lambda s: self.start(c))
        if st is None:
            return
        yield 'index in range', lambda s: And(s.env[lc.extra['idx'].key].t >= 0, s.env[lc.extra['idx'].key].t <= c.len(lc.extra['vec0'].t))
        for i, m in enumerate(MAPS):
            yield '%s so far' % m.split('.')[1], lambda s, i=i, m=m: c.fmap(m, s) == self.get(c, st(s))[i + 1]
        cls = N.cls_of(lc.extra)
        if N.k(cls) > 2:
            for nm, g, k in lc.vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec' and t.a[0].n == 'PdfTextLine'):
                yield 'current line is %s' % nm, lambda s, g=g: self.get(c, st(s))[0] == g(s)


specs = [Process()]
