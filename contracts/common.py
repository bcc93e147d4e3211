"""Shared vocabulary of the contracts."""
import z3
from cppwp.spec import Spec, Fold
from cppwp.enc import *
from cppwp.cast import Ty, VOID

MAXF = z3.RealVal(str(int(Enc.DBL_MAX)))
BOX = ('leftX', 'upperY', 'rightX', 'lowerY')
MIN_SIDES, MAX_SIDES = ('leftX', 'upperY'), ('rightX', 'lowerY')


def pos(c, e, st):
    return c.fld('PdfElement.pos', e, st)


def side(c, e, s, st):
    """coordinate s of element e"""
    return c.fld('PdfPosition.' + s, pos(c, e, st), st)


def finite(x):
    return And(x >= -MAXF, x <= MAXF)


def elems_ok(c, v, st, finite_boxes=True, name='q'):
    """every element of vector v is non-null with a position; coordinates are finite doubles"""
    def f(i, e):
        g = [e != 0, pos(c, e, st) != 0]
        if finite_boxes:
            g += [finite(side(c, e, s, st)) for s in BOX]
        return And(*g)
    return c.all_idx(v, f, name=name)


def bound_ghost(c, s):
    return c.ghost('B_' + s, z3.RealSort())


def contains(c, v, s, val, n, st):
    """val bounds coordinate s of the first n elements of v"""
    f = (lambda i, e: val <= side(c, e, s, st)) if s in MIN_SIDES else (lambda i, e: val >= side(c, e, s, st))
    return c.all_idx(v, f, hi=n, name='qc')


def tight(c, v, s, val, n, st):
    """val is the tightest bound: no looser than any bound B (B is universally quantified: an arbitrary constant)"""
    B = bound_ghost(c, s)
    if s in MIN_SIDES:
        return Implies(And(c.len(v) > 0, finite(B), c.all_idx(v, lambda i, e: B <= side(c, e, s, st), hi=n, name='qt')), B <= val)
    return Implies(And(c.len(v) > 0, finite(B), c.all_idx(v, lambda i, e: B >= side(c, e, s, st), hi=n, name='qt')), B >= val)


def float_cells(lc):
    """double-valued cells a loop may accumulate into: locals, and double fields reached from pointers in scope"""
    out = [(nm, g) for nm, g, k in lc.mod_vars(lambda t: t.k == 'float')]
    ex, c = lc.ex, lc.c
    wf = [w[1] for w in lc.lp.wset if w[0] == 'h' and ex.heap_ty[w[1]].k == 'float']
    if wf:
        ptrs = [(nm, g, k, ex.prog.classes.get(lc.entry.env[k].ty.a[0].n)) for nm, g, k in lc.vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec')]
        for fk in wf:
            cls, fn = fk.rsplit('.', 1)
            for nm, g, k, cl in ptrs:
                if cl is None or lc.written(k):
                    continue
                t = lc.entry.env[k].ty.a[0].n
                if t == cls or cls in ex.prog.base_chain(t):
                    out.append(('%s->%s' % (nm, fn), lambda s, g=g, fk=fk: z3.Select(s.heap[fk], g(s))))
                elif cls == 'PdfPosition' and any(x['name'] == 'pos' for x in ex.prog.all_fields(t)):
                    out.append(('%s->pos->%s' % (nm, fn), lambda s, g=g, fk=fk: z3.Select(s.heap[fk], pos(c, g(s), s))))
    return out


def box_invariants(lc, st0, only=None, kinds=('c', 't'), seqs=None):
    """candidate invariants: a cell bounds / tightly bounds a coordinate over the prefix already visited"""
    c = lc.c
    for vn, vg in (seqs or lc.seqs()):
        for inm, ig in lc.indices():
            for cn, cg in float_cells(lc):
                for s in BOX:
                    if '->' in cn and cn.lower().endswith(('leftx', 'uppery', 'rightx', 'lowery')) and not cn.lower().endswith(s.lower()):
                        continue
                    if 'c' in kinds:
                        yield ('%s bounds %s of %s[0..%s)' % (cn, s, vn, inm), lambda st, vg=vg, ig=ig, cg=cg, s=s: contains(c, vg(st), s, cg(st), ig(st), st0))
                    if 't' in kinds:
                        yield ('%s tight for %s of %s[0..%s)' % (cn, s, vn, inm), lambda st, vg=vg, ig=ig, cg=cg, s=s: tight(c, vg(st), s, cg(st), ig(st), st0))


def truthy(t):
    """the C++ condition `if (t)` for a flag or pointer"""
    return t if z3.is_bool(t) else t != 0
