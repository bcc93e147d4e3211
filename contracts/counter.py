"""Counters: contracts over the key set, with the sum as a fold over the iteration order."""
from .common import *

D, SC = 'utils::counter::DoubleCounter::', 'utils::counter::StringCounter::'
from fractions import Fraction
TOLR_exact = z3.RealVal(str(Fraction(0.0001)))


class C(Spec):
    tus = ('src/utils/Counter.cpp', 'src/utils/MathUtils.cpp')
    this_rec = True

    def m(self, c):
        return c.this_base(c.pre)

    def dom(self, c):
        return c.E.mdom(self.m(c))

    def val(self, c):
        return c.E.mval(self.m(c))

    def keys(self, c, f, name='k'):
        d, v = c.ex.named(self.dom(c)), c.ex.named(self.val(c))
        k = z3.Const(name, d.sort().domain())
        return z3.ForAll([k], Implies(z3.Select(d, k), f(k, z3.Select(v, k))), patterns=[z3.Select(v, k), z3.Select(d, k)])

    def ghost_key(self, c):
        return c.ghost('K_' + str(self.dom(c).sort().domain()), self.dom(c).sort().domain())

    def positive_somewhere(self, c):
        """some key has a positive count (witness: an arbitrary but fixed ghost key is not enough, so: not all are zero)"""
        return Not(self.keys(c, lambda k, n: n == 0))

    def invariants(self, lc):
        c = lc.c
        E = c.E
        m = self.m(c)
        # order array of this loop
        for m_, ordv in lc.orders():
            if not m_.t.sort().eq(m.sort()):
                continue
            val = c.ex.named(E.mval(m))
            ks = ordv.sort().range()
            q = z3.Int('qo')

            def upto(i, f, ordv=ordv, q=q):
                k = z3.Select(ordv, q)
                return z3.ForAll([q], Implies(And(q >= 0, q < i), f(k, z3.Select(val, k))), patterns=[k])
            its = list(lc.indices()) + lc.iters()
            for inm, ig in its:
                yield 'position %s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= E.mcard(m))
                for nm, g, key in lc.mod_vars(lambda t: t.k == 'int'):
                    yield '%s bounds counts so far' % nm, lambda s, g=g, ig=ig, upto=upto: upto(ig(s), lambda k, n: n <= g(s))
                    for n2, g2, k2 in lc.mod_vars(lambda t: c.E.sort(t).eq(ks)):
                        yield '%s is the count of %s' % (nm, n2), lambda s, g=g, g2=g2: Or(g(s) == 0, And(z3.Select(E.mdom(m), g2(s)), z3.Select(val, g2(s)) == g(s)))
                    yield '%s zero while all counts are zero' % nm, lambda s, g=g, ig=ig: Implies(self.keys(c, lambda k, n: n == 0), g(s) == 0)
                    F = self.sumfold(c)
                    G = self.exactfold(c)
                    yield '%s is the exact sum modulo 2^32' % nm, lambda s, g=g, ig=ig, ordv=ordv, G=G: g(s) == G(ordv, ig(s), c.E) % (1 << 32)
                    yield 'exact sum bounds counts so far', lambda s, ig=ig, ordv=ordv, G=G, upto=upto: And(G(ordv, ig(s), c.E) >= 0, upto(ig(s), lambda k, n: And(n >= 0, n <= G(ordv, ig(s), c.E))))
                    yield '%s sums counts so far' % nm, lambda s, g=g, ig=ig, ordv=ordv, F=F: g(s) == F(ordv, ig(s), c.E)
                if ks == z3.RealSort():
                    for n2, g2, k2 in lc.mod_vars(lambda t: t.k == 'float'):
                        yield '%s bounds keys so far' % n2, lambda s, g2=g2, ig=ig, upto=upto: upto(ig(s), lambda k, n: Implies(n > 0, k <= g2(s)))
                        yield '%s bounds keys so far up to the tolerance' % n2, lambda s, g2=g2, ig=ig, upto=upto: upto(ig(s), lambda k, n: Implies(n > 0, k <= E.fop('+', g2(s), TOLR_exact)))
                        for nb, gb, kb in lc.mod_vars(lambda t: t.k == 'bool'):
                            yield '%s found when %s' % (n2, nb), lambda s, g2=g2, gb=gb: Implies(gb(s), And(z3.Select(E.mdom(m), g2(s)), z3.Select(val, g2(s)) > 0))
                            yield '%s bounds keys so far up to the tolerance once %s' % (n2, nb), lambda s, g2=g2, ig=ig, gb=gb, upto=upto: Implies(gb(s), upto(ig(s), lambda k, n: Implies(n > 0, k <= E.fop('+', g2(s), TOLR_exact))))
                            yield 'none found unless %s' % nb, lambda s, gb=gb, ig=ig, upto=upto: Implies(Not(gb(s)), upto(ig(s), lambda k, n: n == 0))

    def sumfold(self, c):
        val = c.ex.named(c.E.mval(self.m(c)))
        nm = 'sumcounts_%d' % val.get_id()
        if nm not in c.ex.folds:
            c.ex.folds[nm] = Fold(nm, z3.ArraySort(IntS, val.sort().domain()), IntS, I(0), lambda acc, e, maps: (acc + z3.Select(val, e)) % (1 << 32))
            c.ex.fold_maps[nm] = []
        return lambda arr, n, E: c.fold(c.ex.folds[nm], arr, n)


    def exactfold(self, c):
        val = c.ex.named(c.E.mval(self.m(c)))
        nm = 'exactsum_%d' % val.get_id()
        if nm not in c.ex.folds:
            c.ex.folds[nm] = Fold(nm, z3.ArraySort(IntS, val.sort().domain()), IntS, I(0), lambda acc, e, maps: acc + z3.Select(val, e))
            c.ex.fold_maps[nm] = []
        return lambda arr, n, E: c.fold(c.ex.folds[nm], arr, n)


def nowrap(c):
    """ghost: the counts of every counter sum up to less than 2^32 (assumption on the size of the document)"""
    return c.ghost('counters_do_not_wrap', BoolS)


class MostFreqAndCount(C):
    def throws(self, c):
        return self.keys(c, lambda k, n: n == 0)

    def ensures(self, c):
        # normal return
        r = c.result
        k, n = c.E.rec_get(r.ty, r.t, 'f0'), c.E.rec_get(r.ty, r.t, 'f1')
        yield 'the reported count is that of the reported key', And(z3.Select(self.dom(c), k), z3.Select(self.val(c), k) == n)
        yield 'the count is positive', n > 0
        yield 'no key has a larger count', self.keys(c, lambda q, m: m <= n)


class MostFreq(C):
    which = 'f0'

    def throws(self, c):
        return self.keys(c, lambda k, n: n == 0)

    def ensures(self, c):
        k = c.res
        yield 'the result is a key', z3.Select(self.dom(c), k)
        yield 'with a positive count', z3.Select(self.val(c), k) > 0
        yield 'no key is more frequent', self.keys(c, lambda q, m: m <= z3.Select(self.val(c), k))


class MostFreqCount(C):
    def throws(self, c):
        return self.keys(c, lambda k, n: n == 0)

    def ensures(self, c):
        yield 'positive', c.res > 0
        yield 'bounds every count', self.keys(c, lambda q, m: m <= c.res)
        yield 'is the count of some key', Not(self.keys(c, lambda q, m: m != c.res))


class SumCounts(C):
    def ensures(self, c):
        order = c.ex.lib.map_order(c.ex, c.pre, c.base_val(c.pre))
        F = self.sumfold(c)
        yield 'sum of all counts (modulo 2^32)', c.res == F(order, c.E.mcard(self.m(c)), c.E)
        yield 'zero when all counts are zero', Implies(self.keys(c, lambda k, n: n == 0), c.res == 0)
        yield 'zero only when all counts are zero', Implies(And(nowrap(c), c.res == 0), self.keys(c, lambda k, n: n == 0))

    def requires(self, c):
        order = c.ex.lib.map_order(c.ex, c.pre, c.base_val(c.pre))
        c.ex.fact(Implies(nowrap(c), self.exactfold(c)(order, c.E.mcard(self.m(c)), c.E) < (1 << 32)), c.pre)
        return ()


class Max(C):
    name = D + 'max'

    def throws(self, c):
        return self.keys(c, lambda k, n: n == 0)

    def ensures(self, c):
        m = c.res
        yield 'the maximum is a counted key', And(z3.Select(self.dom(c), m), z3.Select(self.val(c), m) > 0)
        tol = c.E.fop('+', m, TOLR_exact)
        yield 'no counted key exceeds it by more than the tolerance', self.keys(c, lambda k, n: Implies(n > 0, k <= tol))


def both(nm, cls):
    out = []
    for pre in (D, SC):
        t = type(nm, (cls,), {'name': pre + nm})
        out.append(t())
    return out


specs = both('mostFreqAndCount', MostFreqAndCount) + both('mostFreq', MostFreq) + both('mostFreqCount', MostFreqCount) + both('sumCounts', SumCounts) + [Max()]
