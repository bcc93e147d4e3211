"""Text lines: createTextLine, mergeTextLines, computeTextLineProperties (src/TextLinesDetection.cpp)."""
from .common import *
from . import counter
from .pageseg import CreateRandomString
from .words_utils import string_cells, field_set_invariants
LN, WD = 'PdfTextLine.', 'PdfWord.'
TEXT = 'PdfTextElement.text'
TUS = ('src/TextLinesDetection.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp', 'src/utils/Counter.cpp')


def spaced_fold(c, st):
    """t0 + ' ' + t1 + ' ' + ... + t(n-1) + ' ' """
    return c.heap_fold(st, 'spaced', [TEXT], lambda acc, e, m: c.E._cat(acc, c.E._cat(m[0], c.E.slit(' '))))


def joined(c, v, st):
    """the texts of the elements separated by single spaces"""
    n = c.len(v)
    return c.E._cat(spaced_fold(c, st)(v, n - 1), c.fld(TEXT, c.at(v, n - 1), st))


def member(c, v, r):
    return Not(c.all_idx(v, lambda i, e: e != r, name='qm'))


def boxes_ordered(c, v, st, name='qb'):
    return c.all_idx(v, lambda i, e: And(side(c, e, 'leftX', st) <= side(c, e, 'rightX', st), side(c, e, 'upperY', st) <= side(c, e, 'lowerY', st)), name=name)


def chars_ok(c, v, st):
    return c.all_idx(v, lambda i, e: c.all_idx(c.fld(WD + 'characters', e, st), lambda j, ch: ch != 0, name='qcc'), name='qwc')


class ComputeProps(Spec):
    name = 'modules::TextLinesDetection::computeTextLineProperties'
    tus = TUS

    def words(self, c, st):
        return c.fld(LN + 'words', c.av(0), st)

    def requires(self, c):
        l = c.av(0)
        v = self.words(c, c.pre)
        yield 'line', And(l != 0, pos(c, l, c.pre) != 0)
        yield 'words are valid', elems_ok(c, v, c.pre)
        yield 'boxes of the words are ordered', boxes_ordered(c, v, c.pre)
        yield 'characters of the words are non-null', chars_ok(c, v, c.pre)
        yield 'the position of the line is its own', c.all_idx(v, lambda i, e: And(e != l, pos(c, e, c.pre) != pos(c, l, c.pre)), name='qp')
        yield 'finite box', And(*[finite(side(c, l, s, c.pre)) for s in BOX])

    def modifies(self, c):
        l = c.av(0)
        v = self.words(c, c.pre)
        me = lambda r: r == l
        mp = lambda r: r == pos(c, l, c.pre)
        return [('field', LN + 'words', me), ('field', TEXT, me), ('field', 'PdfTextElement.fontName', me), ('field', 'PdfTextElement.fontSize', me), ('field', LN + 'maxFontSize', me), ('field', LN + 'base', me),
                ('field', WD + 'line', lambda r: member(c, v, r))] + [('field', 'PdfPosition.' + f, mp) for f in BOX + ('rotation', 'wMode', 'pageNum')]

    def ensures(self, c):
        l = c.av(0)
        v0, v = self.words(c, c.pre), self.words(c, c.post)
        ne = c.len(v0) > 0
        yield 'same number of words', c.len(v) == c.len(v0)
        yield 'words are permuted, none lost or duplicated', c.count(v) == c.count(v0)
        yield 'every word is still there', c.all_idx(v0, lambda i, e: member(c, v, e), name='qk')
        yield 'words stay valid', elems_ok(c, v, c.post)
        yield 'the line is none of its words', c.all_idx(v, lambda i, e: And(e != l, pos(c, e, c.post) != pos(c, l, c.post)), name='qp')
        yield 'words refer to the line', Implies(ne, c.all_idx(v, lambda i, e: c.fld(WD + 'line', e, c.post) == l, name='qw'))
        for s in BOX:
            new, old = side(c, l, s, c.post), side(c, l, s, c.pre)
            yield 'box contains every %s' % s, Implies(ne, contains(c, v, s, new, c.len(v), c.post))
            B = bound_ghost(c, s)
            if s in MIN_SIDES:
                yield 'box tight in %s' % s, Implies(And(ne, B <= old), tight(c, v, s, new, c.len(v), c.post))
                yield 'box does not shrink in %s' % s, new <= old
            else:
                yield 'box tight in %s' % s, Implies(And(ne, B >= old), tight(c, v, s, new, c.len(v), c.post))
                yield 'box does not shrink in %s' % s, new >= old
            yield 'finite %s' % s, finite(new)
        yield 'text is the words joined by spaces', Implies(ne, c.fld(TEXT, l, c.post) == joined(c, v, c.pre))
        first = c.at(v0, I(0))
        for f in ('pageNum', 'rotation', 'wMode'):
            yield '%s of the first word' % f, Implies(ne, side(c, l, f, c.post) == side(c, first, f, c.pre))

    def seqs(self, lc):
        c = lc.c
        if lc.extra.get('kind') == 'vec':
            return lc.seqs(lambda t: t.k == 'ptr' and t.a[0].n == 'PdfWord')
        return [('line->words', lambda s: self.words(c, s))]

    def invariants(self, lc):
        c = lc.c
        seqs = self.seqs(lc)
        l = c.av(0)
        if not seqs:
            return
        for vn, vg in seqs:
            for inm, ig in lc.indices():
                yield 'index %s in range of %s' % (inm, vn), lambda s, vg=vg, ig=ig: And(ig(s) >= 0, ig(s) <= c.len(vg(s)))
                for s_ in BOX:
                    cell = lambda st, s_=s_: side(c, l, s_, st)
                    old = side(c, l, s_, c.pre)
                    B = bound_ghost(c, s_)
                    yield 'box bounds %s of %s[0..%s)' % (s_, vn, inm), lambda st, vg=vg, ig=ig, s_=s_, cell=cell: contains(c, vg(st), s_, cell(st), ig(st), c.pre)
                    yield 'box tight for %s of %s[0..%s)' % (s_, vn, inm), lambda st, vg=vg, ig=ig, s_=s_, cell=cell, old=old, B=B: Implies(B <= old if s_ in MIN_SIDES else B >= old, tight(c, vg(st), s_, cell(st), ig(st), c.pre))
                    yield 'box grows in %s' % s_, lambda st, s_=s_, cell=cell, old=old: cell(st) <= old if s_ in MIN_SIDES else cell(st) >= old
                    yield 'finite %s' % s_, lambda st, cell=cell: finite(cell(st))
                F = spaced_fold(c, c.pre)
                for cn, cg in string_cells(lc):
                    def tx(s, vg=vg, ig=ig, cg=cg):
                        v = vg(s); n = c.len(v)
                        return cg(s) == z3.If(And(ig(s) == n, n > 0), c.E._cat(F(v, n - 1), c.fld(TEXT, c.at(v, n - 1), c.pre)), F(v, ig(s)))
                    yield '%s = spaced texts of %s[0..%s)' % (cn, vn, inm), tx
                yield 'visited words refer to the line', lambda s, vg=vg, ig=ig: c.all_idx(vg(s), lambda i, e: c.fld(WD + 'line', e, s) == l, hi=ig(s), name='qs')
        v = self.words(c, c.pre)

        def framed(s):
            r = z3.Int('frw')
            h, h0 = c.fmap(WD + 'line', s), c.fmap(WD + 'line', c.pre)
            return z3.ForAll([r], Implies(And(r < c.pre.alloc, Not(member(c, v, r))), z3.Select(h, r) == z3.Select(h0, r)), patterns=[z3.Select(h, r)])
        yield 'only words of the line are re-targeted', framed
        for f in BOX:
            def fr(s, f=f):
                r = z3.Int('frp')
                h, h0 = c.fmap('PdfPosition.' + f, s), c.fmap('PdfPosition.' + f, c.pre)
                return z3.ForAll([r], Implies(r != pos(c, l, c.pre), z3.Select(h, r) == z3.Select(h0, r)), patterns=[z3.Select(h, r)])
            yield 'only the %s of the line changes' % f, fr


def line_exact(c, l, st):
    """the line's box is the exact box of its words, its text their texts, and its words refer to it"""
    v = c.fld(LN + 'words', l, st)
    for s in BOX:
        yield 'box contains every %s' % s, contains(c, v, s, side(c, l, s, st), c.len(v), st)
        yield 'box tight in %s' % s, tight(c, v, s, side(c, l, s, st), c.len(v), st)
    yield 'text is the words joined by spaces', Implies(c.len(v) > 0, c.fld(TEXT, l, st) == joined(c, v, st))
    yield 'words refer to the line', c.all_idx(v, lambda i, e: c.fld(WD + 'line', e, st) == l, name='qw')


class CreateTextLine(Spec):
    name = 'modules::TextLinesDetection::createTextLine'
    tus = TUS

    def requires(self, c):
        v = c.av(0)
        yield 'at least one word', c.len(v) > 0
        yield 'words are valid', elems_ok(c, v, c.pre)
        yield 'boxes of the words are ordered', boxes_ordered(c, v, c.pre)
        yield 'characters of the words are non-null', chars_ok(c, v, c.pre)
        yield 'segment', c.av(1) != 0
        yield 'result list', Not(c.null(2))
        yield 'config', c.this_fld('TextLinesDetection._config', c.pre) != 0

    def modifies(self, c):
        v = c.av(0)
        return [('fresh', ['PdfTextLine', 'PdfPosition']), ('field', WD + 'line', lambda r: member(c, v, r)), ('arg', 2)]

    def ensures(self, c):
        l, v0 = c.res, c.av(0)
        v = c.fld(LN + 'words', l, c.post)
        yield 'new object', And(l != 0, c.fresh(l), c.fresh(pos(c, l, c.post)))
        yield 'same number of words', c.len(v) == c.len(v0)
        yield 'words are permuted, none lost or duplicated', c.count(v) == c.count(v0)
        yield from line_exact(c, l, c.post)
        yield 'segment', c.fld(LN + 'segment', l, c.post) == c.av(1)
        yield 'appended to the list', And(c.len(c.av(2, c.post)) == c.len(c.av(2)) + 1, c.at(c.av(2, c.post), c.len(c.av(2))) == l)
        yield 'other lines stay in place', c.all_idx(c.av(2), lambda i, e: c.at(c.av(2, c.post), i) == e, name='ql')


class MergeTextLines(Spec):
    name = 'modules::TextLinesDetection::mergeTextLines'
    tus = TUS

    def requires(self, c):
        l1, l2 = c.av(0), c.av(1)
        yield 'lines', And(l1 != 0, l2 != 0, l1 != l2, pos(c, l1, c.pre) != 0, pos(c, l2, c.pre) != 0)
        for l, k in ((l1, 1), (l2, 2)):
            v = c.fld(LN + 'words', l, c.pre)
            yield 'words of line %d are valid' % k, elems_ok(c, v, c.pre, name='qe%d' % k)
            yield 'boxes of the words of line %d are ordered' % k, boxes_ordered(c, v, c.pre)
            yield 'characters of line %d are non-null' % k, chars_ok(c, v, c.pre)
            yield 'the position of the target line is its own (%d)' % k, c.all_idx(v, lambda i, e: And(e != l2, pos(c, e, c.pre) != pos(c, l2, c.pre)), name='qp')
        v2 = c.fld(LN + 'words', l2, c.pre)
        yield 'line 2 has words', c.len(v2) > 0
        yield 'finite box', And(*[finite(side(c, l2, s, c.pre)) for s in BOX])
        for s in BOX:
            yield 'box of line 2 contains every %s' % s, contains(c, v2, s, side(c, l2, s, c.pre), c.len(v2), c.pre)
            yield 'box of line 2 tight in %s' % s, tight(c, v2, s, side(c, l2, s, c.pre), c.len(v2), c.pre)

    def modifies(self, c):
        l1, l2 = c.av(0), c.av(1)
        me = lambda r: r == l2
        mp = lambda r: r == pos(c, l2, c.pre)
        v1, v2 = c.fld(LN + 'words', l1, c.pre), c.fld(LN + 'words', l2, c.pre)
        return [('field', LN + 'words', me), ('field', TEXT, me), ('field', 'PdfTextElement.fontName', me), ('field', 'PdfTextElement.fontSize', me), ('field', LN + 'maxFontSize', me), ('field', LN + 'base', me),
                ('field', WD + 'line', lambda r: Or(member(c, v1, r), member(c, v2, r)))] + [('field', 'PdfPosition.' + f, mp) for f in BOX + ('rotation', 'wMode', 'pageNum')]

    def ensures(self, c):
        l1, l2 = c.av(0), c.av(1)
        v1, v2 = c.fld(LN + 'words', l1, c.pre), c.fld(LN + 'words', l2, c.pre)
        v = c.fld(LN + 'words', l2, c.post)
        yield 'number of words', c.len(v) == c.len(v1) + c.len(v2)
        yield 'the words of both lines, none lost or duplicated', c.count(v) == c.count(v1) + c.count(v2)
        yield from line_exact(c, l2, c.post)


specs = counter.specs + [CreateRandomString(), ComputeProps(), CreateTextLine(), MergeTextLines()]
