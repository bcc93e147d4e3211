"""XY-cut (src/utils/XYCut.cpp): the groups are non-empty and together hold exactly the elements given."""
from .common import *
from .pageseg import CreateRandomString
TUS = ('src/utils/XYCut.cpp@FixedCapacityPriorityQueue', 'src/utils/XYCut.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp', 'src/utils/PdfElementsUtils.cpp')
CUT = 'Cut.'
POS = CUT + 'posInElements'
isptr = lambda t: t.k == 'vec' and t.a[0].k == 'ptr'
isgroups = lambda t: t.k == 'vec' and t.a[0].k == 'vec'


def elem(c, e, st):
    """a non-null element with a finite box and a rank on a page whose number is an int"""
    pn = side(c, e, 'pageNum', st)
    return And(e != 0, pos(c, e, st) != 0, pn >= -2 ** 31, pn <= 2 ** 31 - 1, c.fld('PdfElement.rank', e, st) < 2 ** 31 - 1, *[finite(side(c, e, s, st)) for s in BOX])


def valid(c, v, st, **kw):
    return c.all_idx(v, lambda i, e: elem(c, e, st), name='qv', **kw)


def keeps(c, old, new):
    """new starts with the elements of old"""
    i = z3.Int('qo')
    a, b = c.ex.named(c.arr(old), 'arr'), c.ex.named(c.arr(new), 'arr')
    return And(c.len(new) >= c.len(old), z3.ForAll([i], Implies(And(i >= 0, i < c.len(old)), z3.Select(b, i) == z3.Select(a, i)), patterns=[z3.Select(a, i), z3.Select(b, i)]))


def nonempty(c, vv, name='qg'):
    return c.all_idx(vv, lambda i, g: c.len(g) > 0, name=name)


def groups_valid(c, vv, st):
    """every group is non-empty and holds valid elements"""
    return c.all_idx(vv, lambda i, g: And(c.len(g) > 0, c.all_idx(g, lambda j, e: elem(c, e, st), name='qve')), name='qgv')


def positions(c, v, n, st, lo=None, name='qp'):
    """the cuts of v are non-null and lie strictly between two elements, in increasing order"""
    i, j = z3.Int(name + 'i'), z3.Int(name + 'j')
    arr = c.ex.named(c.arr(v), 'arr')
    P = c.fmap(POS, st)
    p = lambda e: z3.Select(P, e)
    a = c.all_idx(v, lambda k, e: And(e != 0, p(e) >= 1, p(e) < n), name=name)
    b = z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < c.len(v)), p(z3.Select(arr, i)) < p(z3.Select(arr, j))), patterns=[z3.MultiPattern(z3.Select(arr, i), z3.Select(arr, j))])
    return And(a, b)


class Choose(Spec):
    """what a cut choosing strategy may do"""
    name = 'ChooseCutsFunc'
    trusted = True

    def requires(self, c):
        v, es = c.av(0), c.av(1)
        yield 'elements are valid', valid(c, es, c.pre)
        yield 'cut positions', positions(c, v, c.len(es), c.pre)
        yield 'cuts know the elements around them', c.all_idx(v, lambda i, e: And(elem(c, c.fld(CUT + 'elementBefore', e, c.pre), c.pre), elem(c, c.fld(CUT + 'elementAfter', e, c.pre), c.pre)), name='qb')
        yield 'cuts know the elements they overlap', c.all_idx(v, lambda i, e: valid(c, c.fld(CUT + 'overlappingElements', e, c.pre), c.pre), name='qb')

    def modifies(self, c):
        v = c.av(0)
        return [('fresh', ['Cut']), ('field', CUT + 'isChosen', lambda r: Not(c.all_idx(v, lambda i, e: e != r, name='qm')))]


class Axis(Spec):
    """xCut / yCut; parameter positions: elements, then the choosing function, ..., groups, cuts"""
    tus = TUS
    gapfield = None
    C, G, K = 3, 5, 6

    def requires(self, c):
        yield 'elements are valid', valid(c, c.av(0), c.pre)
        yield from self.extra_requires(c)

    def extra_requires(self, c):
        return ()

    def modifies(self, c):
        return [('fresh', ['Cut']), ('arg', self.G), ('arg', self.K)]

    def gap_ok(self, c, e, st):
        """the recorded gap is the gap between the elements around the cut, and at least the required one (up to the tolerance)"""
        E = c.E
        near, far = self.sides
        tol = E.fval(0.0001)
        g, p, q = (c.fld(CUT + f, e, st) for f in (self.gapfield, 'elementBefore', 'elementAfter'))
        n1, n2, f1, f2 = side(c, p, near, st), side(c, q, near, st), side(c, p, far, st), side(c, q, far, st)
        return And(elem(c, p, st), elem(c, q, st), valid(c, c.fld(CUT + "overlappingElements", e, st), st), g >= E.fop('-', c.av(1), tol), g == z3.If(n1 < E.fop('-', n2, tol), E.fop('-', n2, f1), E.fop('-', n1, f2)))

    def ensures(self, c):
        v, n = c.av(0), c.len(c.av(0))
        g0, k0 = c.av(self.G), c.av(self.K)
        yield 'nothing to do for no elements', Implies(n == 0, Not(c.res))
        if g0.sort() != IntS:       # otherwise: a null pointer is passed
            g = c.av(self.G, c.post)
            G = Not(c.null(self.G))
            yield 'no groups of no elements', Implies(And(n == 0, G), g == g0)
            yield 'groups found before stay', Implies(G, keeps(c, g0, g))
            yield 'no group is empty', Implies(G, c.all_idx(g, lambda i, e: c.len(e) > 0, lo=c.len(g0), name='qg'))
            yield 'the groups hold valid elements', Implies(G, c.all_idx(g, lambda i, e: c.all_idx(e, lambda j, x: elem(c, x, c.pre), name='qve'), lo=c.len(g0), name='qgv'))
            yield 'the groups hold exactly the elements', Implies(G, c.count2(g) == c.count2(g0) + c.count(v))
            yield 'a cut was made iff there are two groups or more', Implies(And(G, n > 0), c.res == (c.len(g) - c.len(g0) >= 2))
            yield 'there is a group', Implies(And(G, n > 0), c.len(g) > c.len(g0))
        if k0.sort() != IntS:
            k = c.av(self.K, c.post)
            K = Not(c.null(self.K))
            yield 'no cuts of no elements', Implies(And(n == 0, K), k == k0)
            yield 'cuts found before stay', Implies(K, keeps(c, k0, k))
            yield 'cuts are new', Implies(K, c.all_idx(k, lambda i, e: c.fresh(e), lo=c.len(k0), name='qk'))
            yield 'cuts lie between two elements', Implies(K, c.all_idx(k, lambda i, e: And(c.fld(POS, e, c.post) >= 1, c.fld(POS, e, c.post) < n), lo=c.len(k0), name='qk'))
            yield 'cuts record a sufficient gap', Implies(K, c.all_idx(k, lambda i, e: self.gap_ok(c, e, c.post), lo=c.len(k0), name='qk'))

    def invariants(self, lc):
        c = lc.c
        v0 = c.av(0)
        st0 = c.pre
        ptrs = [(nm, g) for nm, g, k in lc.vars(lambda t: isptr(t) and not (t.a[0].a[0].k == 'rec' and t.a[0].a[0].n == 'Cut')) if not lc.written(k)]
        iscut = lambda t: isptr(t) and t.a[0].a[0].k == 'rec' and t.a[0].a[0].n == 'Cut'
        cand = [x for x in lc.vars(iscut) if x[2][0] != 'arg']
        if lc.extra.get('kind') == 'vec' and isptr(lc.extra['vec0'].ty) and lc.extra['vec0'].ty.a[0].a[0].n == 'Cut':
            cand = cand + [('range', lambda s: lc.extra['vec0'].t, None)]
        sz = lambda t: t.k == 'int'
        for nm, g, k in lc.mod_vars(lambda t: isptr(t) and not iscut(t)):
            yield '%s holds valid elements' % nm, lambda s, g=g: valid(c, g(s), s)
        for nm, g, k in lc.mod_vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec'):
            yield '%s is an element' % nm, lambda s, g=g: elem(c, g(s), s)
        # the queue of xCut
        for nm, g, k in lc.vars(lambda t: t.k == 'rec' and 'Queue' in t.n):
            ty = lc.entry.env[k].ty
            base = lambda s, g=g, ty=ty: c.E.rec_get(ty, g(s), '@base')
            yield '%s is not empty' % nm, lambda s, base=base: c.len(base(s)) >= 1
            yield '%s holds valid elements' % nm, lambda s, base=base: valid(c, base(s), s)
        for cn, cg, ck in cand:
            n = c.len(v0)
            yield 'positions in %s' % cn, lambda s, cg=cg: positions(c, cg(s), n, s)
            yield 'elements around %s' % cn, lambda s, cg=cg: c.all_idx(cg(s), lambda i, e: self.gap_ok(c, e, s), name='qb')
            yield 'freshness of %s' % cn, lambda s, cg=cg: c.all_idx(cg(s), lambda i, e: And(e >= c.pre.alloc, e < s.alloc), name='qf')
            if ck is not None and lc.written(ck):
                for inm, ig in lc.indices() + [(nm, g) for nm, g, k in lc.vars(sz) if not lc.written(k) and k[0] != 'arg']:
                    yield 'positions in %s below %s' % (cn, inm), lambda s, cg=cg, ig=ig: c.all_idx(cg(s), lambda i, e: c.fld(POS, e, s) < ig(s), name='qb')
            for inm, ig in lc.indices():
                yield '%s in range of %s' % (inm, cn), lambda s, ig=ig, cg=cg: And(ig(s) >= 0, ig(s) <= c.len(cg(s)))
                for pn, pg, pk in lc.mod_vars(sz):
                    yield '%s before the cuts of %s from %s' % (pn, cn, inm), lambda s, pg=pg, cg=cg, ig=ig: c.all_idx(cg(s), lambda i, e: pg(s) < c.fld(POS, e, s), lo=ig(s), name='qb')
        for inm, ig in lc.indices():
            yield '%s at least one' % inm, lambda s, ig=ig: ig(s) >= 1
            yield '%s within the elements' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.len(v0))
        for pn, pg, pk in lc.mod_vars(sz):
            yield '%s is a position' % pn, lambda s, pg=pg: And(pg(s) >= 0, pg(s) < c.len(v0))
        # results
        if not isinstance(c.args[self.G], type(None)) and hasattr(c.args[self.G], 'lv'):
            G = Not(c.null(self.G))
            g0 = c.av(self.G)
            gs = lambda s: c.av(self.G, s)
            yield 'groups grow', lambda s: c.len(gs(s)) >= c.len(g0)
            yield 'old groups stay', lambda s: keeps(c, g0, gs(s))
            yield 'no new group is empty', lambda s: c.all_idx(gs(s), lambda i, e: c.len(e) > 0, lo=c.len(g0), name='qg')
            yield 'new groups are valid', lambda s: c.all_idx(gs(s), lambda i, e: c.all_idx(e, lambda j, x: elem(c, x, c.pre), name='qve'), lo=c.len(g0), name='qgv')
            for pn, pg, pk in lc.mod_vars(sz):
                for vn, vg in ptrs:
                    yield 'groups hold the elements of %s before %s' % (vn, pn), lambda s, pg=pg, vg=vg: Implies(G, c.count2(gs(s)) == c.count2(g0) + c.count(vg(s), pg(s)))
            for bn, bg, bk in lc.mod_vars(lambda t: t.k == 'bool'):
                yield '%s iff a group was added' % bn, lambda s, bg=bg: Implies(G, bg(s) == (c.len(gs(s)) > c.len(g0)))
        if hasattr(c.args[self.K], 'lv'):
            k0 = c.av(self.K)
            ks = lambda s: c.av(self.K, s)
            yield 'cuts grow', lambda s: c.len(ks(s)) >= c.len(k0)
            yield 'old cuts stay', lambda s: keeps(c, k0, ks(s))
            yield 'new cuts are new', lambda s: c.all_idx(ks(s), lambda i, e: And(self.gap_ok(c, e, s), e >= c.pre.alloc, e < s.alloc, c.fld(POS, e, s) >= 1, c.fld(POS, e, s) < c.len(v0)), lo=c.len(k0), name='qk')


class XCut(Axis):
    name = 'utils::xCut'
    gapfield = 'gapWidth'
    sides = ('leftX', 'rightX')
    func_params = {3: Choose()}

    def extra_requires(self, c):
        yield 'overlap limit', And(c.av(2) >= 0, c.av(2) < 2 ** 31 - 1)


class YCut(Axis):
    name = 'utils::yCut'
    gapfield = 'gapHeight'
    sides = ('upperY', 'lowerY')
    C, G, K = 2, 4, 5
    func_params = {2: Choose()}


class XYCut(Spec):
    name = 'utils::xyCut'
    tus = TUS
    func_params = {4: Choose(), 5: Choose()}

    def requires(self, c):
        yield 'elements are valid', valid(c, c.av(0), c.pre)
        yield 'overlap limit', And(c.av(3) >= 0, c.av(3) < 2 ** 31 - 1)
        yield 'result list', Not(c.null(7))

    def modifies(self, c):
        return [('fresh', ['Cut']), ('arg', 7), ('arg', 8)]

    def ensures(self, c):
        v = c.av(0)
        g0, g = c.av(7), c.av(7, c.post)
        yield 'groups found before stay', keeps(c, g0, g)
        yield 'no group is empty', c.all_idx(g, lambda i, e: c.len(e) > 0, lo=c.len(g0), name='qg')
        yield 'the groups hold valid elements', c.all_idx(g, lambda i, e: c.all_idx(e, lambda j, x: elem(c, x, c.pre), name='qve'), lo=c.len(g0), name='qgv')
        yield 'the groups hold exactly the elements', c.count2(g) == c.count2(g0) + c.count(v)
        yield 'nothing to do for no elements', Implies(c.len(v) == 0, g == g0)

    def invariants(self, lc):
        c = lc.c
        g0 = c.av(7)
        gs = lambda s: c.av(7, s)
        yield 'groups grow', lambda s: c.len(gs(s)) >= c.len(g0)
        yield 'old groups stay', lambda s: keeps(c, g0, gs(s))
        yield 'no new group is empty', lambda s: c.all_idx(gs(s), lambda i, e: c.len(e) > 0, lo=c.len(g0), name='qg')
        yield 'new groups are valid', lambda s: c.all_idx(gs(s), lambda i, e: c.all_idx(e, lambda j, x: elem(c, x, c.pre), name='qve'), lo=c.len(g0), name='qgv')
        gv = [(nm, g) for nm, g, k in lc.vars(isgroups)]
        if lc.extra.get('kind') == 'vec' and isgroups(lc.extra['vec0'].ty):
            gv = [('range', lambda s: lc.extra['vec0'].t)] + gv
        for vn, vg in gv:
            for inm, ig in lc.indices():
                yield '%s in range of %s' % (inm, vn), lambda s, ig=ig, vg=vg: And(ig(s) >= 0, ig(s) <= c.len(vg(s)))
                yield 'groups of %s[0..%s) are done' % (vn, inm), lambda s, ig=ig, vg=vg: c.count2(gs(s)) == c.count2(gs(lc.entry)) + c.count2(vg(s), ig(s))


specs = [CreateRandomString(), XCut(), YCut(), XYCut()]
