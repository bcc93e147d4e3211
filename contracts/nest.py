"""A fold over nested lists of the document (pages, blocks, lines, words, ...) carrying an arbitrary state."""
from .common import *
PAGES, BLOCKS, LINES, WORDS, CHARS = ('PdfPage', 'PdfDocument.pages'), ('PdfTextBlock', 'PdfPage.blocks'), ('PdfTextLine', 'PdfTextBlock.lines'), ('PdfWord', 'PdfTextLine.words'), ('PdfCharacter', 'PdfWord.characters')


def record(c, name, fields):
    """state of a fold: a datatype with the given (name, sort) fields"""
    key = '_st_' + name
    if not hasattr(c.ex, key):
        d = z3.Datatype(name)
        d.declare('mk_' + name, *fields)
        setattr(c.ex, key, d.create())
    return getattr(c.ex, key)


def no_nulls(c, key, name=''):
    """no list of this kind contains a null pointer"""
    m = c.ex.named(c.fmap(key, c.pre), 'hm')
    r, i = z3.Ints('nr ni')
    e = z3.Select(c.arr(z3.Select(m, r)), i)
    return z3.ForAll([r, i], Implies(And(i >= 0, i < c.len(z3.Select(m, r))), e != 0), patterns=[e])


class Nest:
    """levels: [(class, list field of the enclosing object)] from the outside in; leaf(state, element) -> state; wrap[class](before, element, inner result)"""

    def __init__(self, c, key, sort, levels, leaf, pre=None, post=None):
        self.c, self.key, self.sort, self.levels, self.leaf, self.pre, self.post = c, key, sort, levels, leaf, pre or {}, post or {}

    def k(self, cls):
        return [x[0] for x in self.levels].index(cls)

    def decl(self, k):
        c, cls = self.c, self.levels[k][0]
        key = '%s_%s' % (self.key, cls)
        if key not in c.ex.folds:
            def step(a, e, maps, k=k, cls=cls):
                if k == len(self.levels) - 1:
                    return self.leaf(a, e)
                if cls in self.pre:
                    a = self.pre[cls](a, e)
                v = c.fld(self.levels[k + 1][1], e, c.pre)
                r = self.decl(k + 1).f(c.arr(v), c.len(v), a)
                return self.post[cls](r, e) if cls in self.post else r
            c.ex.folds[key] = Fold(key, z3.ArraySort(IntS, IntS), self.sort, lambda maps: maps[0], step, msorts=[self.sort])
            c.ex.fold_maps[key] = []
        return c.ex.folds[key]

    def F(self, cls, v, n, init):
        return self.c.fold(self.decl(self.k(cls)), v, n, (init,))

    def total(self, v, init):
        c = self.c
        r = self.F(self.levels[0][0], v, c.len(v), init)
        c.ex.note_index(c.ex.named(c.arr(v), 'arr'), c.len(v))
        return r

    def cls_of(self, extra):
        if extra.get('kind') != 'vec':
            return None
        t = extra['vec0'].ty.a[0]
        if t.k != 'ptr' or t.a[0].k != 'rec' or t.a[0].n not in [x[0] for x in self.levels]:
            return None
        return t.a[0].n

    def state(self, lc, start):
        """state of the fold at the head of this loop, as a function of the program state; None if this is no loop of the nest"""
        c = self.c
        if self.cls_of(lc.extra) is None:
            return None
        chain = [l.extra for l in lc.lp.outer if self.cls_of(l.extra)] + [lc.extra]
        if [self.k(self.cls_of(x)) for x in chain] != list(range(len(chain))):
            return None
        cur = start
        for x in chain[:-1]:
            cls, key = self.cls_of(x), x['idx'].key
            cur = (lambda s, prev=cur, x=x, cls=cls, key=key: self.enter(cls, x, s.env[key].t, prev(s)))
        x = chain[-1]
        cls, key = self.cls_of(x), x['idx'].key
        v = x['vec0'].t
        c.ex.note_index(c.ex.named(c.arr(v), 'arr'), I(0))
        return lambda s: self.F(cls, v, s.env[key].t, cur(s))

    def enter(self, cls, x, i, init):
        c = self.c
        a = self.F(cls, x['vec0'].t, i, init)
        return self.pre[cls](a, c.at(x['vec0'].t, i)) if cls in self.pre else a
