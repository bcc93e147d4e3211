"""String helpers (src/utils/TextUtils.cpp)."""
from .common import *

T = 'utils::text::'


class TU(Spec):
    tus = ('src/utils/TextUtils.cpp',)
    smode = 'chars'

    def requires(self, c):
        yield 'length fits the 32-bit loop counters', c.E.slen(c.av(0)) < 2 ** 32 - 1


def json_escape(E, ch):
    """the text a byte contributes to a JSON string"""
    hexf = E.fn('fmt_hex_setfill_setw', IntS, IntS, IntS, E.StrS)
    t = E.sunit(ch)
    t = z3.If(And(ch >= 0, ch <= 31), E._cat(E.slit('\\u'), hexf(I(48), I(4), ch)), t)
    for a, b in (('"', '\\"'), ('\\', '\\\\'), ('\b', '\\b'), ('\f', '\\f'), ('\n', '\\n'), ('\r', '\\r'), ('\t', '\\t')):
        t = z3.If(ch == ord(a), E.slit(b), t)
    return t


def json_fold(E):
    return E.str_fold('json', E.StrS, E.sempty(), lambda acc, ch, s, i: E._cat(acc, json_escape(E, ch)))


class EscapeJson(TU):
    name = T + 'escapeJson'
    smode = 'abs'

    def ensures(self, c):
        yield 'concatenation of the escaped characters', c.res == json_fold(c.E)(c.av(0), c.E.slen(c.av(0)))

    def invariants(self, lc):
        c = lc.c
        F = json_fold(c.E)
        for inm, ig in lc.indices():
            yield '%s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.E.slen(c.av(0)))
            for nm, g, k in lc.mod_vars(lambda t: t.k in ('str', 'stream')):
                yield '%s holds the escaped prefix [0..%s)' % (nm, inm), lambda s, ig=ig, g=g: g(s) == F(c.av(0), ig(s))


class StartsWithUpper(TU):
    name = T + 'startsWithUpper'

    def ensures(self, c):
        s = c.av(0)
        ch = c.E.sat(s, I(0))
        yield 'first character is A-Z', c.res == And(c.E.slen(s) > 0, ch >= 65, ch <= 90)


class EndsWithSentenceDelimiter(TU):
    name = T + 'endsWithSentenceDelimiter'

    def ensures(self, c):
        s = c.av(0)
        yield 'last character is one of the delimiters', c.res == And(c.E.slen(s) > 0, c.E.sin(c.av(1), c.E.sat(s, c.E.slen(s) - 1)))


class Shorten(TU):
    name = T + 'shorten'

    def ensures(self, c):
        E, s, n = c.E, c.av(0), c.av(1)
        yield 'short strings are unchanged', Implies(E.slen(s) <= n, c.res == s)
        yield 'long strings are cut after exactly len characters', Implies(E.slen(s) > n, c.res == E._cat(E.ssub(s, I(0), n), E.slit('...')))


class Strip(TU):
    name = T + 'strip'

    def ws(self, ch):
        return Or(ch == 32, And(ch >= 9, ch <= 13))

    def ensures(self, c):
        E, s, r = c.E, c.av(0), c.res
        n = E.slen(r)
        yield 'no leading whitespace', Implies(n > 0, Not(self.ws(E.sat(r, I(0)))))
        yield 'no trailing whitespace', Implies(n > 0, Not(self.ws(E.sat(r, n - 1))))
        # the removed prefix/suffix consist of whitespace: every non-whitespace position lies inside the kept part
        i, j = z3.Ints('ps pj')
        lo = E.fresh('lo', IntS)
        yield 'never longer', n <= E.slen(s)
        x = c.ghost('ch', IntS)
        yield 'whitespace-only strings become empty', Implies(z3.ForAll([i], Implies(And(i >= 0, i < E.slen(s)), self.ws(E.sat(s, i))), patterns=[E.sat(s, i)]), n == 0)
        g, h = c.ghost('g', IntS), c.ghost('h', IntS)
        # g is the first, h the last non-whitespace position
        first = And(g >= 0, g < E.slen(s), Not(self.ws(E.sat(s, g))), z3.ForAll([i], Implies(And(i >= 0, i < g), self.ws(E.sat(s, i))), patterns=[E.sat(s, i)]))
        last = And(h >= 0, h < E.slen(s), Not(self.ws(E.sat(s, h))), z3.ForAll([i], Implies(And(i > h, i < E.slen(s)), self.ws(E.sat(s, i))), patterns=[E.sat(s, i)]))
        yield 'exactly the part from the first to the last non-whitespace character', Implies(And(first, last), c.res == E.ssub(s, g, h - g + 1))

    def invariants(self, lc):
        c = lc.c
        E, s0 = c.E, c.av(0)
        i = z3.Int('pi')
        n = E.slen(s0)
        for inm, ig in list(lc.iters()) + list(lc.indices()):
            yield 'forward %s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= n)
            yield 'whitespace before %s' % inm, lambda s, ig=ig: z3.ForAll([i], Implies(And(i >= 0, i < ig(s)), self.ws(E.sat(s0, i))), patterns=[E.sat(s0, i)])
            yield 'whitespace from %s on' % inm, lambda s, ig=ig: z3.ForAll([i], Implies(And(i >= ig(s), i < n), self.ws(E.sat(s0, i))), patterns=[E.sat(s0, i)])
            for inm2, ig2 in list(lc.all_iters()):
                if inm2 != inm:
                    yield '%s and %s do not cross' % (inm, inm2), lambda s, ig=ig, ig2=ig2: ig(s) <= ig2(s)
                    yield '%s and %s do not cross (2)' % (inm, inm2), lambda s, ig=ig, ig2=ig2: ig(s) >= ig2(s)


class CreateRandomStringFull(TU):
    name = T + 'createRandomString'

    def requires(self, c):
        E = c.E
        yield 'non-empty alphabet', And(E.slen(c.av(2)) > 0, E.slen(c.av(2)) < 2 ** 31)
        yield 'lengths', And(E.slen(c.av(1)) < 2 ** 31, c.av(0) < 2 ** 31)

    def ensures(self, c):
        E, r, p = c.E, c.res, c.av(1)
        i = z3.Int('ri')
        yield 'length', E.slen(r) == E.slen(p) + c.av(0)
        yield 'starts with the prefix', z3.ForAll([i], Implies(And(i >= 0, i < E.slen(p)), E.sat(r, i) == E.sat(p, i)), patterns=[E.sat(r, i)])
        yield 'all other characters are from the alphabet', z3.ForAll([i], Implies(And(i >= E.slen(p), i < E.slen(r)), E.sin(c.av(2), E.sat(r, i))), patterns=[E.sat(r, i)])

    def invariants(self, lc):
        c = lc.c
        E, p, al = c.E, c.av(1), c.av(2)
        i = z3.Int('ri')
        for inm, ig in lc.indices():
            yield '%s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.av(0))
            for nm, g, k in lc.mod_vars(lambda t: t.k == 'str'):
                yield '%s length' % nm, lambda s, g=g, ig=ig: E.slen(g(s)) == E.slen(p) + ig(s)
                yield '%s prefix' % nm, lambda s, g=g: z3.ForAll([i], Implies(And(i >= 0, i < E.slen(p)), E.sat(g(s), i) == E.sat(p, i)), patterns=[E.sat(g(s), i)])
                yield '%s alphabet' % nm, lambda s, g=g: z3.ForAll([i], Implies(And(i >= E.slen(p), i < E.slen(g(s))), E.sin(al, E.sat(g(s), i))), patterns=[E.sat(g(s), i)])


class Join(Spec):
    name = T + 'join'
    tus = TU.tus

    def F(self, c):
        """the strings, each followed by the separator"""
        E = c.E
        sep = c.av(1)
        from cppwp.spec import Fold
        f = Fold('join', z3.ArraySort(IntS, E.StrS), E.StrS, E.sempty(), lambda acc, e, maps: E._cat(acc, E._cat(e, sep)))

        def F(v, n):
            c.ex.note_index(c.ex.named(c.arr(v), 'arr'), n)
            return c.fold(f, v, n)
        return F

    def ensures(self, c):
        E, v = c.E, c.av(0)
        n = c.len(v)
        yield 'nothing of nothing', Implies(n == 0, c.res == E.sempty())
        yield 'strings with the separator between them', Implies(n > 0, c.res == E._cat(self.F(c)(v, n - 1), c.at(v, n - 1)))

    def invariants(self, lc):
        c = lc.c
        E, v = c.E, c.av(0)
        F = self.F(c)
        for inm, ig in lc.indices():
            yield '%s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.len(v))
            for nm, g, k in lc.mod_vars(lambda t: t.k == 'str'):
                yield '%s = joined prefix' % nm, lambda s, g=g, ig=ig: g(s) == z3.If(ig(s) == 0, E.sempty(), E._cat(F(v, ig(s) - 1), c.at(v, ig(s) - 1)))
                yield '%s = terminated prefix' % nm, lambda s, g=g, ig=ig: g(s) == F(v, ig(s))


specs = [EscapeJson(), StartsWithUpper(), EndsWithSentenceDelimiter(), Shorten(), Strip(), CreateRandomStringFull(), Join()]
