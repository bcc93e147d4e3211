from .common import *
from . import counter
from .pageseg import CreateRandomString

CH, WD = 'PdfCharacter.', 'PdfWord.'


def text_fold(c, st):
    """concatenation of the texts the characters contribute to their word"""
    def step(acc, e, m):
        base, dia, wtxt, txt = m
        return c.E._cat(acc, z3.If(truthy(base), wtxt, z3.If(truthy(dia), c.E.sempty(), txt)))
    return c.heap_fold(st, 'chartext', [CH + 'isBaseCharOfDiacriticMark', CH + 'isDiacriticMarkOfBaseChar', CH + 'textWithDiacriticMark', 'PdfTextElement.text'], step)


def string_cells(lc):
    """string-valued cells a loop may append to"""
    out = [(nm, g) for nm, g, k in lc.mod_vars(lambda t: t.k in ('str', 'stream'))]
    ex = lc.ex
    for w in lc.lp.wset:
        if w[0] == 'h' and ex.heap_ty[w[1]].k == 'str':
            fk = w[1]
            cls, fn = fk.rsplit('.', 1)
            for nm, g, k in lc.vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec'):
                t = lc.entry.env[k].ty.a[0].n
                if not lc.written(k) and (t == cls or cls in ex.prog.base_chain(t)):
                    out.append(('%s->%s' % (nm, fn), lambda s, g=g, fk=fk: z3.Select(s.heap[fk], g(s))))
    return out


def field_set_invariants(lc, key, target_cls, st0, seqs=None):
    """candidates: field `key` of every visited element points at a given local object, unvisited ones are unchanged"""
    c, ex = lc.c, lc.ex
    for vn, vg in (seqs or lc.seqs()):
        for inm, ig in lc.indices():
            for nm, g, k in lc.vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec' and t.a[0].n == target_cls):
                if lc.written(k):
                    continue
                yield 'visited elements of %s[0..%s) have %s = %s' % (vn, inm, key, nm), lambda s, vg=vg, ig=ig, g=g: c.all_idx(vg(s), lambda i, e: c.fld(key, e, s) == g(s), hi=ig(s), name='qs')
    if ('h', key) in lc.lp.wset:
        pass


class CreateWord(Spec):
    name = 'utils::WordsDetectionUtils::createWord'
    tus = ('src/utils/WordsDetectionUtils.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp', 'src/utils/Counter.cpp')

    def requires(self, c):
        yield 'characters are valid', elems_ok(c, c.av(0), c.pre)
        yield 'at least one character', c.len(c.av(0)) > 0
        yield 'config', c.this_fld('WordsDetectionUtils._config', c.pre) != 0

    def member(self, c, r):
        """r occurs in the character list"""
        return Not(c.all_idx(c.av(0), lambda i, e: e != r, name='qm'))

    def modifies(self, c):
        v = c.av(0)
        i = z3.Int('qmod')
        return [('fresh', ['PdfWord', 'PdfPosition']), ('field', CH + 'word', lambda r: self.member(c, r))]

    def ensures(self, c):
        r, v = c.res, c.av(0)
        yield 'new object', And(r != 0, c.fresh(r), c.fresh(pos(c, r, c.post)))
        yield 'characters kept in order', c.fld(WD + 'characters', r, c.post) == v
        yield 'every character refers to its word', c.all_idx(v, lambda i, e: c.fld(CH + 'word', e, c.post) == r, name='qw')
        for s in BOX:
            yield 'box contains every %s' % s, contains(c, v, s, side(c, r, s, c.post), c.len(v), c.pre)
            yield 'box tight in %s' % s, tight(c, v, s, side(c, r, s, c.post), c.len(v), c.pre)
        yield 'text is the concatenation of the character texts', c.fld('PdfTextElement.text', r, c.post) == text_fold(c, c.pre)(v)
        first = c.at(v, I(0))
        for f in ('pageNum', 'rotation', 'wMode'):
            yield '%s of the first character' % f, side(c, r, f, c.post) == side(c, first, f, c.pre)
        yield 'document of the first character', c.fld('PdfElement.doc', r, c.post) == c.fld('PdfElement.doc', first, c.pre)

    def invariants(self, lc):
        c = lc.c
        yield from box_invariants(lc, c.pre)
        F = text_fold(c, c.pre)
        for vn, vg in lc.seqs():
            for inm, ig in lc.indices():
                for cn, cg in string_cells(lc):
                    yield '%s = texts of %s[0..%s)' % (cn, vn, inm), lambda s, vg=vg, ig=ig, cg=cg: cg(s) == F(vg(s), ig(s))
        yield from field_set_invariants(lc, CH + 'word', 'PdfWord', c.pre)
        v = c.av(0)
        yield 'only characters of the word are re-targeted', lambda s: self.framed(c, s, v)

    def framed(self, c, s, v):
        r = z3.Int('frw')
        h, h0 = c.fmap(CH + 'word', s), c.fmap(CH + 'word', c.pre)
        return z3.ForAll([r], Implies(And(r < c.pre.alloc, Not(self.member(c, r))), z3.Select(h, r) == z3.Select(h0, r)), patterns=[z3.Select(h, r)])


specs = counter.specs + [CreateRandomString(), CreateWord()]
