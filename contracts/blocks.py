"""Text blocks: createTextBlock and its const helpers (src/utils/TextBlocksDetectionUtils.cpp)."""
from .common import *
from . import counter
from .pageseg import CreateRandomString
from .words_utils import string_cells
from .lines import spaced_fold, joined, member, boxes_ordered
LN, BL, EL = 'PdfTextLine.', 'PdfTextBlock.', 'PdfElement.'
TEXT = 'PdfTextElement.text'
U = 'utils::TextBlocksDetectionUtils::'
TUS = ('src/utils/TextBlocksDetectionUtils.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp', 'src/utils/Counter.cpp', 'src/utils/PdfElementsUtils.cpp')
MARGINS = (LN + 'leftMargin', LN + 'rightMargin')


def line_text(c, st):
    """text of a line as printed in a block: its words separated by single spaces"""
    F = spaced_fold(c, st)

    def g(e):
        v = c.fld(LN + 'words', e, st)
        n = c.len(v)
        return z3.If(n > 0, c.E._cat(F(v, n - 1), c.fld(TEXT, c.at(v, n - 1), st)), c.E.sempty())
    return g


def block_fold(c, st):
    """l0 + ' ' + l1 + ' ' + ... + l(n-1) + ' ' over the texts of the lines"""
    key = 'blocktext'
    if key not in c.ex.folds:
        spaced_fold(c, st)(z3.K(IntS, I(0)), I(0))
        inner = c.ex.folds['spaced']
        ws, ts = c.fmap(LN + 'words', st), c.fmap(TEXT, st)
        E = c.E

        def step(acc, e, maps):
            w, t = maps
            v = z3.Select(w, e); n = E.vlen(v)
            jt = z3.If(n > 0, E._cat(inner(E.varr(v), n - 1, (t,)), z3.Select(t, E.vat(v, n - 1))), E.sempty())
            return E._cat(E._cat(acc, jt), E.slit(' '))
        c.ex.folds[key] = Fold(key, z3.ArraySort(IntS, IntS), E.StrS, E.sempty(), step, msorts=[ws.sort(), ts.sort()])
        c.ex.fold_maps[key] = []
    maps = (c.ex.named(c.fmap(LN + 'words', st), 'hm'), c.ex.named(c.fmap(TEXT, st), 'hm'))
    return lambda v, n=None: c.fold(c.ex.folds[key], v, n, maps)


class Pure(Spec):
    """const helper: changes nothing (frame assumed from its const signature and const arguments)"""
    trusted = True
    tus = TUS


class IsEmphasized(Pure):
    name = U + 'computeIsEmphasized'


class IsTextLinesCentered(Pure):
    name = U + 'computeIsTextLinesCentered'


class HangingIndent(Pure):
    name = U + 'computeHangingIndent'


class TextLineMargins(Spec):
    name = U + 'computeTextLineMargins'
    tus = TUS

    def lines(self, c):
        return c.fld(BL + 'lines', c.av(0), c.pre)

    def requires(self, c):
        b = c.av(0)
        yield 'block', And(b != 0, pos(c, b, c.pre) != 0)
        yield 'lines', c.all_idx(self.lines(c), lambda i, e: And(e != 0, pos(c, e, c.pre) != 0))
        sg = c.fld(BL + 'segment', b, c.pre)
        yield 'segment', And(sg != 0, pos(c, sg, c.pre) != 0)
        yield 'document', c.fld(EL + 'doc', b, c.pre) != 0

    def modifies(self, c):
        v = self.lines(c)
        return [('field', f, lambda r: member(c, v, r)) for f in MARGINS]

    def invariants(self, lc):
        c = lc.c
        v = self.lines(c)
        for f in MARGINS:
            def fr(s, f=f):
                r = z3.Int('frm')
                h, h0 = c.fmap(f, s), c.fmap(f, c.pre)
                return z3.ForAll([r], Implies(Not(member(c, v, r)), z3.Select(h, r) == z3.Select(h0, r)), patterns=[z3.Select(h, r)])
            yield 'only lines of the block change their %s' % f, fr


class CreateTextBlock(Spec):
    name = U + 'createTextBlock'
    tus = TUS

    def requires(self, c):
        v, bs = c.av(0), c.av(1)
        yield 'at least one line', c.len(v) > 0
        yield 'lines are valid', elems_ok(c, v, c.pre)
        yield 'boxes of the lines are ordered', boxes_ordered(c, v, c.pre)
        i, j = z3.Int('di'), z3.Int('dj')
        arr = c.ex.named(c.arr(v), 'arr')
        yield 'lines are distinct', z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < c.len(v)), z3.Select(arr, i) != z3.Select(arr, j)), patterns=[z3.MultiPattern(z3.Select(arr, i), z3.Select(arr, j))])
        yield 'words are non-null', c.all_idx(v, lambda i, e: c.all_idx(c.fld(LN + 'words', e, c.pre), lambda j, w: w != 0, name='qcc'), name='qwc')
        first = c.at(v, I(0))
        sg = c.fld(LN + 'segment', first, c.pre)
        yield 'segment', And(sg != 0, pos(c, sg, c.pre) != 0)
        yield 'document', c.fld(EL + 'doc', first, c.pre) != 0
        yield 'result list', Not(c.null(1))
        yield 'blocks are non-null', c.all_idx(bs, lambda i, e: e != 0, name='qbn')
        yield 'config', c.this_fld('TextBlocksDetectionUtils._config', c.pre) != 0

    def modifies(self, c):
        v, bs = c.av(0), c.av(1)
        me = lambda r: member(c, v, r)
        return [('fresh', ['PdfTextBlock', 'PdfPosition']), ('arg', 1), ('field', BL + 'nextBlock', lambda r: And(c.len(bs) > 0, r == c.at(bs, c.len(bs) - 1)))] + \
            [('field', f, me) for f in MARGINS + (LN + 'prevLine', LN + 'nextLine', LN + 'block')]

    def ensures(self, c):
        v, bs0, bs = c.av(0), c.av(1), c.av(1, c.post)
        n = c.len(bs0)
        b = c.at(bs, n)
        yield 'appended to the list', c.len(bs) == n + 1
        yield 'other blocks stay in place', c.all_idx(bs0, lambda i, e: c.at(bs, i) == e, name='ql')
        yield 'new object', And(b != 0, c.fresh(b), c.fresh(pos(c, b, c.post)))
        yield 'lines kept in order', c.fld(BL + 'lines', b, c.post) == v
        for s in BOX:
            yield 'box contains every %s' % s, contains(c, v, s, side(c, b, s, c.post), c.len(v), c.pre)
            yield 'box tight in %s' % s, tight(c, v, s, side(c, b, s, c.post), c.len(v), c.pre)
        m = c.len(v)
        yield 'text is the words joined by spaces', c.fld(TEXT, b, c.post) == c.E._cat(block_fold(c, c.pre)(v, m - 1), line_text(c, c.pre)(c.at(v, m - 1)))
        yield 'lines refer to the block', c.all_idx(v, lambda i, e: c.fld(LN + 'block', e, c.post) == b, name='qw')
        for f, ok, nb in (('prevLine', lambda i: i > 0, lambda i: i - 1), ('nextLine', lambda i: i < m - 1, lambda i: i + 1)):
            yield 'lines are chained (%s)' % f, c.all_idx(v, lambda i, e: c.fld(LN + f, e, c.post) == z3.If(ok(i), c.at(v, nb(i)), I(0)), name='qn')
        last = c.at(bs0, n - 1)
        yield 'first block has no predecessor', Implies(n == 0, c.fld(BL + 'prevBlock', b, c.post) == 0)
        yield 'chained with the block before', Implies(n > 0, And(c.fld(BL + 'prevBlock', b, c.post) == last, c.fld(BL + 'nextBlock', last, c.post) == b))
        yield 'no successor', c.fld(BL + 'nextBlock', b, c.post) == 0
        first = c.at(v, I(0))
        for f in ('pageNum', 'rotation', 'wMode'):
            yield '%s of the first line' % f, side(c, b, f, c.post) == side(c, first, f, c.pre)
        yield 'document of the first line', c.fld(EL + 'doc', b, c.post) == c.fld(EL + 'doc', first, c.pre)
        yield 'segment of the first line', c.fld(BL + 'segment', b, c.post) == c.fld(LN + 'segment', first, c.pre)
        yield 'rank is the index', Implies(n < 2 ** 31, c.fld(EL + 'rank', b, c.post) == n)

    def invariants(self, lc):
        c = lc.c
        v = c.av(0)
        m = c.len(v)
        yield from box_invariants(lc, c.pre, seqs=[('lines', lambda s: v)])
        F, J, S_ = block_fold(c, c.pre), line_text(c, c.pre), spaced_fold(c, c.pre)
        cells = string_cells(lc)
        blocks = lc.vars(lambda t: t.k == 'ptr' and t.a[0].n == 'PdfTextBlock')
        for inm, ig in lc.indices():
            yield 'index %s in range of the lines' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= m)
            for cn, cg in cells:
                yield '%s = lines[0..%s)' % (cn, inm), lambda s, ig=ig, cg=cg: cg(s) == z3.If(ig(s) == m, c.E._cat(F(v, m - 1), J(c.at(v, m - 1))), F(v, ig(s)))
            for f, ok, nb in (('prevLine', lambda i: i > 0, lambda i: i - 1), ('nextLine', lambda i: i < m - 1, lambda i: i + 1)):
                if ('h', LN + f) in lc.lp.wset:
                    yield '%s of visited lines' % f, lambda s, ig=ig, f=f, ok=ok, nb=nb: c.all_idx(v, lambda i, e: c.fld(LN + f, e, s) == z3.If(ok(i), c.at(v, nb(i)), I(0)), hi=ig(s), name='qn')
            if ('h', LN + 'block') in lc.lp.wset:
                for bn, bg, bk in blocks:
                    yield 'visited lines refer to %s' % bn, lambda s, ig=ig, bg=bg: c.all_idx(v, lambda i, e: c.fld(LN + 'block', e, s) == bg(s), hi=ig(s), name='qs')
            # inner loop over the words of line o
            outers = [(nm, g) for nm, g, k in lc.vars(lambda t: t.k == 'int') if not lc.written(k)] + [x for x in lc.all_indices() if x[0].startswith('outer')]
            for onm, og in outers:
                ws = lambda s, og=og: c.fld(LN + 'words', c.at(v, og(s)), c.pre)
                yield 'index %s in range of the words of line %s' % (inm, onm), lambda s, ig=ig, ws=ws: And(ig(s) >= 0, ig(s) <= c.len(ws(s)))
                yield 'outer index %s in range' % onm, lambda s, og=og: And(og(s) >= 0, og(s) < m)
                for cn, cg in cells:
                    def tx(s, ig=ig, og=og, ws=ws, cg=cg):
                        w = ws(s); n = c.len(w)
                        inner = z3.If(And(ig(s) == n, n > 0), c.E._cat(S_(w, n - 1), c.fld(TEXT, c.at(w, n - 1), c.pre)), S_(w, ig(s)))
                        return cg(s) == c.E._cat(F(v, og(s)), inner)
                    yield '%s = lines[0..%s) + words[0..%s)' % (cn, onm, inm), tx
        for f in (LN + 'prevLine', LN + 'nextLine', LN + 'block'):
            if ('h', f) in lc.lp.wset:
                def fr(s, f=f):
                    r = z3.Int('frl')
                    h, h0 = c.fmap(f, s), c.fmap(f, c.pre)
                    return z3.ForAll([r], Implies(And(r < c.pre.alloc, Not(member(c, v, r))), z3.Select(h, r) == z3.Select(h0, r)), patterns=[z3.Select(h, r)])
                yield 'only lines of the block change their %s' % f, fr


specs = counter.specs + [CreateRandomString(), IsEmphasized(), IsTextLinesCentered(), HangingIndent(), TextLineMargins(), CreateTextBlock()]
