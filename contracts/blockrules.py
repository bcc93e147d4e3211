"""Rules deciding where text blocks begin (src/TextBlocksDetection.cpp, src/utils/TextBlocksDetectionUtils.cpp)."""
from .nest import *
from . import geometry
from cppwp.spec import Suffix
from .geometry import ratios
LN, TE, BD, BU = 'PdfTextLine.', 'PdfTextElement.', 'TextBlocksDetection.', 'TextBlocksDetectionUtils.'
M, U = 'modules::TextBlocksDetection::', 'utils::TextBlocksDetectionUtils::'
TUS = ('src/TextBlocksDetection.cpp', 'src/utils/TextBlocksDetectionUtils.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp', 'src/utils/PdfElementsUtils.cpp')
NONE, NO, YES = I(-1), I(0), I(1)
BIG = 1000000000


class T:
    """terms over the state before the call"""
    def __init__(self, c, cfg, doc=None):
        self.c, self.E, self._cfg, self.doc = c, c.E, cfg, doc
        self.tol = c.E.fval(0.0001)

    def cfg(self, f):
        for x in self.c.ex.prog.all_fields('TextBlocksDetectionConfig'):
            if x['name'] == f:
                return self.c.fld(self.c.ex.fieldkey(x), self._cfg, self.c.pre)
        raise KeyError(f)

    def d(self, f):
        return self.c.fld('PdfDocument.' + f, self.doc, self.c.pre)

    def f(self, key, e):
        return self.c.fld(key, e, self.c.pre)

    def x(self, e, s):
        return side(self.c, e, s, self.c.pre)

    def op(self, o, a, b):
        return self.E.fop(o, a, b)

    def abs(self, x):
        return z3.If(x < 0, self.E.fneg(x), x)

    def eq(self, a, b, t=None):
        return self.abs(self.op('-', a, b)) <= (self.tol if t is None else t)

    def gt(self, a, b, t=None):
        return a > self.op('+', b, self.tol if t is None else t)

    def lt(self, a, b, t=None):
        return a < self.op('-', b, self.tol if t is None else t)

    def ge(self, a, b, t=None):
        return a >= self.op('-', b, self.tol if t is None else t)

    def le(self, a, b, t=None):
        return a <= self.op('+', b, self.tol if t is None else t)

    def between(self, x, lo, hi):
        return And(self.ge(x, lo), self.le(x, hi))

    def max(self, a, b):
        return z3.If(a >= b, a, b)

    def round(self, x):
        E = self.E
        n = self.cfg('lineDistancePrecision')
        R = z3.RealSort()
        rnd, pw = E.fn('libm_round', R, R), E.fn('libm_pow', R, R, R)(E.fval(10), z3.ToReal(n))
        return z3.If(n == 0, rnd(x), E.fop('/', rnd(E.fop('*', x, pw)), pw))

    def vgap(self, a, b):
        ua, ub, la, lb = self.x(a, 'upperY'), self.x(b, 'upperY'), self.x(a, 'lowerY'), self.x(b, 'lowerY')
        return z3.If(self.lt(ua, ub), self.op('-', ub, la), self.op('-', ua, lb))

    def prev(self, l):
        return self.f(LN + 'prevLine', l)

    # ---- the rules
    def existsPrevLine(self, l):
        return z3.If(self.prev(l) == 0, YES, NONE)

    def sameFigure(self, l):
        c = self.c
        p = self.prev(l)
        page = c.at(self.d('pages'), z3.ToInt(self.x(l, 'pageNum')) - 1) if self.x(l, 'pageNum').sort() == z3.RealSort() else c.at(self.d('pages'), self.x(l, 'pageNum') - 1)
        v = self.f('PdfPage.figures', page)
        u = self.f(BD + '_utils', c.this.t)
        F = figure_fold(c)
        a, b = F(p, v, None, u), F(l, v, None, u)
        return z3.If(And(a != 0, a == b), NO, NONE)

    def rotation(self, l):
        return z3.If(self.x(self.prev(l), 'rotation') != self.x(l, 'rotation'), YES, NONE)

    def wMode(self, l):
        return z3.If(self.x(self.prev(l), 'wMode') != self.x(l, 'wMode'), YES, NONE)

    def fontSize(self, l):
        p, t = self.prev(l), self.cfg('fsEqualTolerance')
        q = lambda k: self.eq(self.f(k, p), self.f(k, l), t)
        return z3.If(Or(q(TE + 'fontSize'), q(LN + 'maxFontSize')), NONE, YES)

    def lineDistance(self, l):
        E = self.E
        m = self.d('mostFreqLineDistancePerFontSize')
        fs = self.f(TE + 'fontSize', l)
        zero = E.fval(0)
        d1 = z3.If(z3.Select(E.mdom(m), fs), self.max(zero, z3.Select(E.mval(m), fs)), zero)
        exp = self.max(d1, self.d('mostFreqLineDistance'))
        act = self.round(self.vgap(self.prev(l), l))
        return z3.If(self.le(act, zero), NO, z3.If(self.gt(act, exp, self.max(E.fval(1), self.op('*', E.fval(0.1), exp))), YES, NONE))

    def increasedLineDistance(self, l):
        p = self.prev(l)
        pp = self.prev(p)
        far = self.gt(self.round(self.vgap(p, l)), self.round(self.vgap(pp, p)), self.op('*', self.E.fval(0.5), self.d('mostFreqWordHeight')))
        return z3.If(And(pp != 0, far), YES, NONE)

    # ---- helpers whose value is not specified (functions of the line and the fields that change during the detection)
    def opaque(self, nm, l, labels):
        c = self.c
        h = [c.fmap(LN + 'prevLine', c.pre)]
        a = [l, *h] + ([labels] if labels is not None else [])
        return c.E.fn('opaque_' + nm + ('_l' if labels is not None else ''), *[z.sort() for z in a], BoolS)(*a)

    def labels(self):
        return self.c.this_fld(BD + '_potentFnLabels', self.c.pre)

    def label(self, which, l, labels):
        a = [l] + ([labels] if labels is not None else [])
        return self.c.E.fn('label_' + which + ('_l' if labels is not None else ''), *[z.sort() for z in a], BoolS)(*a)

    def first(self, l, lab):
        """is l the first line of an item or footnote"""
        c = self.c
        item, note = self.label('item', l, None), self.label('note', l, lab)
        p = self.prev(l)
        same = lambda a, b: And(self.f(TE + 'fontName', a) == self.f(TE + 'fontName', b), self.eq(self.f(TE + 'fontSize', a), self.f(TE + 'fontSize', b), self.cfg('fsEqualTolerance')))
        acw = self.f('PdfDocument.avgCharWidth', self.f('PdfElement.doc', l))
        goes_on = And(p != 0, Not(self.label('item', p, None)), same(p, l), self.le(self.vgap(p, l), self.E.fval(0)), Not(self.sentence_end(p)), self.eq(self.x(p, 'leftX'), self.x(l, 'leftX'), acw))
        words = lambda e: self.f(LN + 'words', e)
        w0 = lambda e: c.at(words(e), I(0))
        sib = lambda s: And(s != 0, c.len(words(s)) > 0, self.label('item', s, None), same(w0(s), w0(l)))
        return And(c.len(words(l)) > 0, Or(item, note), Not(goes_on), Or(sib(self.f(LN + 'prevSiblingLine', l)), sib(self.f(LN + 'nextSiblingLine', l)), note))

    def centered2(self, a, b):
        q1, q2 = ratios(self.c, self.x(a, 'leftX'), self.x(a, 'rightX'), self.x(b, 'leftX'), self.x(b, 'rightX'))
        doc = self.f('PdfElement.doc', a)
        tol = z3.If(doc != 0, self.op('*', self.E.fval(2), self.f('PdfDocument.avgCharWidth', doc)), self.E.fval(0))
        off = lambda s: self.abs(self.op('-', self.x(a, s), self.x(b, s)))
        return And(Not(self.lt(self.max(q1, q2), self.cfg('centeringXOverlapRatioThreshold'))), self.eq(off('leftX'), off('rightX'), tol))

    def isFirst(self, l, labels=True):
        return self.opaque('first', l, self.labels() if labels else None)

    def isCont(self, l):
        return self.opaque('cont', l, self.labels())

    def emph(self, e):
        return self.c.E.fn('opaque_emph', IntS, BoolS)(e)

    def capacity(self, p, l):
        c = self.c
        ws = self.f(LN + 'words', l)
        w = c.at(ws, I(0))
        thr = self.op('*', self.cfg('prevTextLineCapacityThresholdFactor'), self.f('PdfDocument.avgCharWidth', self.f('PdfElement.doc', l)))
        return And(p != 0, c.len(ws) > 0, self.gt(self.f(LN + 'rightMargin', p), self.op('-', self.x(w, 'rightX'), self.x(w, 'leftX')), thr))

    def off(self, l):
        return self.op('-', self.x(self.prev(l), 'leftX'), self.x(l, 'leftX'))

    def inside(self, l):
        a = self.d('avgCharWidth')
        return self.between(self.off(l), self.op('*', self.E.fval(-1), a), self.op('*', self.E.fval(6), a))

    def sentence_end(self, l):
        return self.c.E.fn('opaque_sentence_end', self.E.StrS, BoolS)(self.f(TE + 'text', l))

    def upper(self, l):
        return self.c.E.fn('opaque_starts_upper', self.E.StrS, BoolS)(self.f(TE + 'text', l))

    def centered(self, b, l):
        return z3.If(Not(self.f('PdfTextBlock.isLinesCentered', b)), NONE, z3.If(self.isFirst(l, False), YES, NO))

    def item(self, b, l):
        p = self.prev(l)
        pf, cf, pc, cc = self.isFirst(p), self.isFirst(l), self.isCont(p), self.isCont(l)
        cap = self.capacity(p, l)
        cont = z3.If(self.f('PdfTextBlock.isLinesCentered', b), NO, z3.If(cap, YES, z3.If(pf, NO, z3.If(pc, z3.If(self.inside(l), NO, YES), NO))))
        after = z3.If(cap, YES, z3.If(And(Not(self.sentence_end(p)), Not(self.upper(l))), NO, NONE))
        return z3.If(cf, YES, z3.If(cc, cont, z3.If(Or(pf, pc), after, NONE)))

    def emphasized(self, l):
        p = self.prev(l)
        same = And(self.f(TE + 'fontName', p) == self.f(TE + 'fontName', l), self.eq(self.f(TE + 'fontSize', p), self.f(TE + 'fontSize', l), self.cfg('fsEqualTolerance')))
        return z3.If(And(self.emph(p), self.emph(l), same), NO, NONE)

    def hangingIndent(self, b, l):
        p = self.prev(l)
        h, a = self.f('PdfTextBlock.hangingIndent', b), self.d('avgCharWidth')
        pm, cm = self.f(LN + 'leftMargin', p), self.f(LN + 'leftMargin', l)
        more = self.gt(pm, h, a)
        offs = z3.If(self.inside(l), NO, YES)
        return z3.If(self.le(h, self.E.fval(0)), NONE, z3.If(self.lt(cm, h, a), YES, z3.If(self.eq(cm, h, a), z3.If(more, offs, z3.If(self.capacity(p, l), YES, NO)), z3.If(self.gt(cm, h, a), z3.If(more, offs, YES), NO))))

    def indent(self, l):
        p = self.prev(l)
        a = self.d('avgCharWidth')
        lo, hi = self.op('*', self.E.fval(1), a), self.op('*', self.E.fval(6), a)
        pm, cm = self.f(LN + 'leftMargin', p), self.f(LN + 'leftMargin', l)
        same = z3.If(self.eq(self.abs(self.off(l)), self.E.fval(0), a), NO, YES)
        return z3.If(Or(self.gt(cm, hi), self.gt(pm, hi)), same, z3.If(self.between(cm, lo, hi), YES, z3.If(self.capacity(p, l), YES, NONE)))


def chain(vals):
    r = z3.BoolVal(False)
    for v in reversed(vals):
        r = z3.If(v == YES, z3.BoolVal(True), z3.If(v == NO, z3.BoolVal(False), r))
    return r


def figure_fold(c):
    """the first of the figures from index i on that overlaps an element by the required ratios (0 if there is none)"""
    key = 'figure'
    names = ['PdfElement.pos'] + ['PdfPosition.' + s for s in BOX]
    maps = [c.ex.named(c.fmap(k, c.pre), 'hm') for k in names]
    ufs = []
    for f in ('figureXOverlapThreshold', 'figureYOverlapThreshold'):
        for x in c.ex.prog.all_fields('TextBlocksDetectionConfig'):
            if x['name'] == f:
                ufs.append(c.ex.fieldkey(x))
    E = c.E
    R = z3.RealSort()
    if key not in c.ex.folds:
        def step(acc, e, ms):
            _, el, tx, ty, p, *xs = ms
            g = lambda o, i: z3.Select(xs[i], z3.Select(p, o))
            qx, _ = ratios(c, g(el, 0), g(el, 2), g(e, 0), g(e, 2))
            qy, _ = ratios(c, g(el, 1), g(el, 3), g(e, 1), g(e, 3))
            tol = E.fval(0.0001)
            return z3.If(And(qx >= E.fop('-', tx, tol), qy >= E.fop('-', ty, tol)), e, acc)
        c.ex.folds[key] = Suffix(key, z3.ArraySort(IntS, IntS), IntS, I(0), step, msorts=[IntS, IntS, R, R] + [m.sort() for m in maps])
        c.ex.fold_maps[key] = []

    def F(el, v, i, utils):
        cfg = c.fld(BU + '_config', utils, c.pre)
        t = [c.fld(k, cfg, c.pre) for k in ufs]
        return c.fold(c.ex.folds[key], v, I(0) if i is None else i, (c.len(v), el, *t, *maps))
    return F


class OverlapsFigure(Spec):
    name = U + 'computeOverlapsFigure'
    tus = TUS

    def requires(self, c):
        e = c.av(0)
        yield 'config', c.this_fld(BU + '_config', c.pre) != 0
        yield 'element', And(e != 0, pos(c, e, c.pre) != 0, *[finite(side(c, e, s, c.pre)) for s in BOX])
        yield 'figures', elems_ok(c, c.av(1), c.pre)

    def ensures(self, c):
        v = c.av(1)
        c.ex.note_index(c.ex.named(c.arr(v), 'arr'), c.len(v))
        yield 'the first figure that overlaps the element', c.res == figure_fold(c)(c.av(0), v, None, c.this.t)

    def invariants(self, lc):
        c = lc.c
        v = c.av(1)
        F = figure_fold(c)
        for nm, g in lc.indices():
            yield '%s in range' % nm, lambda s, g=g: And(g(s) >= 0, g(s) <= c.len(v))
            yield 'no figure before %s' % nm, lambda s, g=g: F(c.av(0), v, None, c.this.t) == F(c.av(0), v, g(s), c.this.t)


class Labels(Spec):
    """is the line prefixed by a label: values are functions of the line (and the labels)"""
    trusted = True
    tus = TUS

    def ensures(self, c):
        yield 'function of the line', c.res == T(c, c.this_fld(BU + '_config', c.pre)).label(self.which, c.av(0), arg_labels(c) if self.which == 'note' else None)


class ItemLabel(Labels):
    name = U + 'computeIsPrefixedByItemLabel'
    which = 'item'


class NoteLabel(Labels):
    name = U + 'computeIsPrefixedByFootnoteLabel'
    which = 'note'


def arg_labels(c):
    """the labels passed as second argument, None if no labels are passed"""
    n = z3.simplify(c.null(1))
    return None if z3.is_true(n) else c.av(1)


class UtilRule(Spec):
    tus = TUS

    def t(self, c):
        return T(c, c.this_fld(BU + '_config', c.pre))

    def around(self, c, l):
        """the lines the functions look at have boxes, documents and words"""
        t = self.t(c)
        ls = [('line', l), ('previous line', t.prev(l)), ('previous sibling', t.f(LN + 'prevSiblingLine', l)), ('next sibling', t.f(LN + 'nextSiblingLine', l))]
        for nm, e in ls:
            yield nm, Implies(e != 0, And(pos(c, e, c.pre) != 0, t.f('PdfElement.doc', e) != 0, c.all_idx(t.f(LN + 'words', e), lambda i, w: w != 0)))


class First(UtilRule):
    name = U + 'computeIsFirstLineOfItem'

    def requires(self, c):
        yield 'config', c.this_fld(BU + '_config', c.pre) != 0
        yield 'a line', c.av(0) != 0
        yield from lines_ok(c)

    def ensures(self, c):
        t = self.t(c)
        l, lab = c.av(0), arg_labels(c)
        c.ex.fact(t.opaque('first', l, lab) == t.first(l, lab), c.pre)
        yield 'labelled, no continuation of the previous line, and a footnote or next to a labelled sibling', c.res == t.opaque('first', l, lab)


class Cont(UtilRule):
    """the recursion is well-founded: parents come first (C08)"""
    name = U + 'computeIsContinuationOfItem'

    def requires(self, c):
        yield 'config', c.this_fld(BU + '_config', c.pre) != 0
        yield 'a line', c.av(0) != 0
        yield from lines_ok(c)

    def ensures(self, c):
        t = self.t(c)
        l, lab = c.av(0), arg_labels(c)
        q = t.f(LN + 'parentLine', l)
        c.ex.fact(t.opaque('cont', l, lab) == And(q != 0, Or(t.opaque('first', q, lab), t.opaque('cont', q, lab))), c.pre)
        yield 'an ancestor is the first line of an item', c.res == t.opaque('cont', l, lab)


def lines_ok(c, l=None):
    """every line of the document has a box, a document and words"""
    r = z3.Int('rl')
    isline = c.E.fn('is_line', IntS, BoolS)
    P, D, W = [c.ex.named(c.fmap(k, c.pre), 'hm') for k in ('PdfElement.pos', 'PdfElement.doc', LN + 'words')]
    yield 'the line is a line of the document', isline(c.av(0) if l is None else l)
    yield 'lines have boxes', z3.ForAll([r], Implies(isline(r), z3.Select(P, r) != 0), patterns=[z3.Select(P, r)])
    yield 'lines have a document', z3.ForAll([r], Implies(isline(r), z3.Select(D, r) != 0), patterns=[z3.Select(D, r)])
    for f in ('prevLine', 'prevSiblingLine', 'nextSiblingLine', 'parentLine'):
        m = c.ex.named(c.fmap(LN + f, c.pre), 'hm')
        e = z3.Select(m, r)
        yield '%s is a line' % f, z3.ForAll([r], Implies(And(isline(r), e != 0), isline(e)), patterns=[e])
    yield 'no null words', no_nulls(c, LN + 'words')


class Centered(UtilRule):
    name = U + 'computeIsCentered'

    def requires(self, c):
        yield 'config', c.this_fld(BU + '_config', c.pre) != 0
        for i in (0, 1):
            e = c.av(i)
            yield 'line %d' % (i + 1), And(e != 0, pos(c, e, c.pre) != 0, *[finite(side(c, e, s, c.pre)) for s in BOX])

    def ensures(self, c):
        yield 'one overlaps the other and both sides have the same offset', c.res == self.t(c).centered2(c.av(0), c.av(1))


class Emph(Spec):
    trusted = True
    name = U + 'computeIsEmphasized'
    tus = TUS

    def ensures(self, c):
        yield 'function of the element', c.res == c.E.fn('opaque_emph', IntS, BoolS)(c.av(0))


def text_predicate(nm, fn):
    class P(Spec):
        trusted = True
        name = 'utils::text::' + nm
        tus = TUS

        def ensures(self, c):
            yield 'function of the text', c.res == c.E.fn(fn, c.E.StrS, BoolS)(c.av(0))
    P.__name__ = nm
    return P()


class Capacity(Spec):
    name = U + 'computeHasPrevLineCapacity'
    tus = TUS

    def requires(self, c):
        l = c.av(1)
        yield 'config', c.this_fld(BU + '_config', c.pre) != 0
        yield 'line', And(l != 0, c.fld('PdfElement.doc', l, c.pre) != 0)
        yield 'words have boxes', c.all_idx(c.fld(LN + 'words', l, c.pre), lambda i, e: And(e != 0, pos(c, e, c.pre) != 0))

    def ensures(self, c):
        yield 'right margin exceeds the width of the first word', c.res == T(c, c.this_fld(BU + '_config', c.pre)).capacity(c.av(0), c.av(1))


class Rule(Spec):
    tus = TUS
    needs_prev = True
    block = False
    item = False

    def t(self, c):
        return T(c, c.this_fld(BD + '_config', c.pre), c.this_fld(BD + '_doc', c.pre))

    def line(self, c):
        return c.av(1 if self.block else 0)

    def requires(self, c):
        t = self.t(c)
        l = self.line(c)
        p = t.prev(l)
        pp = t.prev(p)
        u = c.this_fld(BD + '_utils', c.pre)
        yield 'config', And(t._cfg != 0, t.doc != 0, u != 0, c.fld(BU + '_config', u, c.pre) == t._cfg)
        if self.block:
            yield 'block', c.av(0) != 0
        yield 'line', l != 0
        if self.block:
            yield from lines_ok(c, l)
        if self.needs_prev:
            yield 'line has a previous line', p != 0
        yield 'precision', And(t.cfg('lineDistancePrecision') >= 0, t.cfg('lineDistancePrecision') <= 10)
        for nm, e in (('line', l), ('previous line', p), ('line before', pp)):
            yield 'box of the %s' % nm, Implies(e != 0, And(pos(c, e, c.pre) != 0, *[finite(t.x(e, s)) for s in BOX]))
            yield 'words of the %s' % nm, Implies(e != 0, And(t.f('PdfElement.doc', e) != 0, c.all_idx(t.f(LN + 'words', e), lambda i, w: And(w != 0, pos(c, w, c.pre) != 0))))
        pg = t.x(l, 'pageNum')
        pages = t.d('pages')
        yield 'page', And(pg >= 1, pg <= c.len(pages), c.len(pages) <= BIG, c.all_idx(pages, lambda i, e: And(e != 0, elems_ok(c, t.f('PdfPage.figures', e), c.pre, name='qf')), name='qp'))
        if pg.sort() == z3.RealSort():
            yield 'page numbers are integers', pg == z3.ToReal(z3.ToInt(pg))

    def args(self, c):
        return [c.av(0), c.av(1)] if self.block else [c.av(0)]


def rule(nm, prev=True, blk=False):
    class P(Rule):
        name = M + 'startsBlock_' + nm
        needs_prev, block = prev, blk

        def ensures(self, c):
            yield 'exactly as stated', c.res == getattr(self.t(c), nm)(*self.args(c))
    P.__name__ = nm
    return P()


PRE = ['existsPrevLine', 'sameFigure', 'rotation', 'wMode', 'fontSize', 'lineDistance', 'increasedLineDistance']
FIN = ['existsPrevLine', 'centered', 'item', 'emphasized', 'hangingIndent', 'indent']
BLK = ('centered', 'item', 'hangingIndent')


class Preliminary(Rule):
    name = M + 'startsPreliminaryBlock'
    needs_prev = False

    def ensures(self, c):
        t = self.t(c)
        l = c.av(0)
        yield 'the first rule that decides', c.res == chain([getattr(t, n)(l) for n in PRE])


class Starts(Rule):
    name = M + 'startsBlock'
    needs_prev, block = False, True

    def ensures(self, c):
        t = self.t(c)
        b, l = c.av(0), c.av(1)
        yield 'the first rule that decides', c.res == chain([getattr(t, n)(*([b, l] if n in BLK else [l])) for n in FIN])


specs = [OverlapsFigure(), ItemLabel(), NoteLabel(), First(), Cont(), Centered(), Emph(), text_predicate('endsWithSentenceDelimiter', 'opaque_sentence_end'), text_predicate('startsWithUpper', 'opaque_starts_upper'), Capacity(),
         rule('existsPrevLine', False)] + [rule(n) for n in PRE[1:]] + [rule(n, True, n in BLK) for n in FIN[1:]] + [Preliminary(), Starts()]
