"""Verification-condition generator: forward symbolic execution of clang's AST with state merging,
loop invariants (inferred from per-function pools by Houdini), and modular calls through contracts."""
import z3, os
from .cast import (Program, TypeParser, Ty, BOOL, DOUBLE, FLOAT, INT, STR, WSTR, VOID, children, line_of, shorten_type, FUNC)
from .enc import *


class Unsupported(Exception):
    """The construct is outside the verifier's dialect: the function is then reported as out of reach."""


# ------------------------------------------------------------------ values
class V:
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return 'V(%r,%s)' % (self.ty, str(self.t)[:80])


class PtrV:       # pointer to a storage location (not to a heap object)
    __slots__ = ('lv', 'null', 'ty')

    def __init__(self, lv, null, ty):
        self.lv, self.null, self.ty = lv, null, ty


class IterV:
    __slots__ = ('lv', 'idx', 'rev', 'ty', 'key')

    def __init__(self, lv, idx, ty=None, rev=False, key=None):
        self.lv, self.idx, self.rev, self.ty, self.key = lv, idx, rev, ty, key


class FuncV:      # function object: kind in 'spec','lambda','bind','fn'
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Dropped:    # the dropped logging stream
    pass


DROPPED = Dropped()


# ------------------------------------------------------------------ lvalues
class LVar:
    __slots__ = ('key', 'ty')

    def __init__(self, key, ty):
        self.key, self.ty = key, ty


class LHeap:
    __slots__ = ('fk', 'ref', 'ty')

    def __init__(self, fk, ref, ty):
        self.fk, self.ref, self.ty = fk, ref, ty


class LObj:
    __slots__ = ('ref', 'ty')

    def __init__(self, ref, ty):
        self.ref, self.ty = ref, ty


class LField:
    __slots__ = ('base', 'fname', 'ty')

    def __init__(self, base, fname, ty):
        self.base, self.fname, self.ty = base, fname, ty


class LIndex:
    __slots__ = ('base', 'idx', 'ty')

    def __init__(self, base, idx, ty):
        self.base, self.idx, self.ty = base, idx, ty


class LMapVal:
    __slots__ = ('base', 'key', 'ty')

    def __init__(self, base, key, ty):
        self.base, self.key, self.ty = base, key, ty


class LMapEnt:      # the pair an iterator of a map points at
    __slots__ = ('base', 'key', 'ty')

    def __init__(self, base, key, ty):
        self.base, self.key, self.ty = base, key, ty


class LTemp:
    __slots__ = ('v', 'ty')

    def __init__(self, v, ty):
        self.v, self.ty = v, ty


LVS = (LVar, LHeap, LObj, LField, LIndex, LMapVal, LMapEnt, LTemp)


def lv_root(lv):
    while isinstance(lv, (LField, LIndex, LMapVal, LMapEnt)):
        lv = lv.base
    return lv


def lv_same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, LVar):
        return a.key == b.key
    if isinstance(a, LHeap):
        return a.fk == b.fk and a.ref.eq(b.ref)
    if isinstance(a, LObj):
        return a.ref.eq(b.ref)
    if isinstance(a, LField):
        return a.fname == b.fname and lv_same(a.base, b.base)
    if isinstance(a, LIndex):
        return a.idx.eq(b.idx) and lv_same(a.base, b.base)
    if isinstance(a, (LMapVal, LMapEnt)):
        return a.key.eq(b.key) and lv_same(a.base, b.base)
    return a is b


class State:
    __slots__ = ('env', 'heap', 'alloc', 'pc')

    def __init__(self):
        self.env, self.heap, self.alloc, self.pc = {}, {}, None, TRUE

    def copy(self):
        s = State()
        s.env = dict(self.env); s.heap = dict(self.heap); s.alloc = self.alloc; s.pc = self.pc
        return s

    def become(self, o):
        self.env, self.heap, self.alloc, self.pc = o.env, o.heap, o.alloc, o.pc

    @property
    def dead(self):
        return z3.is_false(self.pc)


class Obl:
    __slots__ = ('name', 'kind', 'line', 'func', 'pc', 'goal', 'nfacts', 'cand', 'extra')

    def __init__(self, **kw):
        self.cand = None
        self.extra = []
        for k, v in kw.items():
            setattr(self, k, v)


class Frame:
    def __init__(self, fid, func, this):
        self.fid, self.func, self.this = fid, func, this
        self.names = {}     # decl id -> env key
        self.statics = {}
        self.captures = None


class Loop:
    """What an invariant pool sees of a loop."""
    pass


class Exec:
    MAXDEPTH = 24

    def __init__(self, prog, tp, specs, fmode='real', smode='seq', check_overflow=True, check_null=True, lib=None):
        self.prog, self.tp, self.specs = prog, tp, specs
        self.E = Enc(prog, tp, fmode, smode)
        self.facts = []
        self.fact_names = []
        self.obls = []
        self.dry = 0
        self.writes = []          # stack of write recorders
        self.frames = []
        self.nframe = 0
        self.check_overflow, self.check_null = check_overflow, check_null
        self.used_models = set()  # assumed library/external contracts
        self.used_specs = set()
        self.inlined = set()
        self.dropped_logging = 0
        self.loops = {}           # loop id -> info
        self.cands_off = set()    # invariant candidates dropped by Houdini
        self.root_spec = None
        self._emb_seen = set()
        self.loop_counter = 0
        self.heap_ty = {}         # field key -> Ty
        self.entry = None
        self.extra_decls = {}
        from . import lib as _lib
        self.lib = _lib
        self.pool = None
        self.throws = []
        self.curloops = []
        self.wcache = {}; self.whint = {}
        self.entry_heap = {}
        self.late_facts = []
        self.lazy_globals = {}
        self.ordcache = {}
        self.orders = []
        self.perms = []
        self.alloc0 = z3.Int('alloc@0')
        self.namecache = {}
        self.index_terms = []
        self._index_seen = set()
        self.theory_facts = []
        self.folds = {}
        self.fold_maps = {}
        self.trace_line = None

    # ------------------------------------------------------------ facts / obligations
    def fact(self, f, st=None, name=''):
        if self.dry:
            return
        if st is not None:
            f = Implies(st.pc, f)
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.fact_names.append(name)

    def oblige(self, st, goal, name, kind='assert', line=None, cand=None):
        if self.dry:
            return
        if z3.is_true(goal) and cand is None:
            pass
        self.obls.append(Obl(name=name, kind=kind, line=line or self.trace_line, func=self.frames[-1].func.name if self.frames and self.frames[-1].func else '?',
                             pc=st.pc, goal=goal, nfacts=len(self.facts), cand=cand))

    def require_nonnull(self, st, t, what):
        if self.check_null and not (z3.is_int_value(t) and t.as_long() != 0):
            self.oblige(st, t != 0, 'no null dereference: ' + what, 'safety')
            self.fact(t != 0, st, 'nonnull after check')

    # ------------------------------------------------------------ heap
    def fieldkey(self, f):
        return f['_class'] + '.' + f['name']

    def heap_map(self, st, fk, ty):
        if fk not in st.heap:
            self.heap_ty[fk] = ty
            base = 'H_' + fk
            h = z3.Const(base + '@0', z3.ArraySort(IntS, self.E.sort(ty)))
            first = fk not in self.entry_heap
            st.heap[fk] = self.entry_heap.setdefault(fk, h)
            if first:
                self.late_facts += self.heap_wf(h, ty, self.alloc0)
                if self.entry is not None:
                    self.entry.heap[fk] = h
        return st.heap[fk]

    def heap_wf(self, h, ty, alloc):
        r = z3.Int('wr')
        t = z3.Select(h, r)
        out = []
        for f in self.E.wf(ty, t, alloc, 1):
            # objects that do not exist yet are never read, so quantify over all refs
            if z3.is_quantifier(f):
                n = f.num_vars()
                vs = [z3.Const(f.var_name(i) + '_', f.var_sort(i)) for i in range(n)]
                body = z3.substitute_vars(f.body(), *reversed(vs))
                pats = [z3.substitute_vars(f.pattern(i).arg(0), *reversed(vs)) for i in range(f.num_patterns())]
                out.append(z3.ForAll([r] + vs, body, patterns=pats))
            else:
                out.append(z3.ForAll([r], f, patterns=[t]))
        return out

    def note_write(self, key):
        for w in self.writes:
            w.add(key)

    # ------------------------------------------------------------ sequence theories (prefix folds)
    def note_index(self, arr, i):
        k = (arr.get_id(), i.get_id())
        if k not in self._index_seen:
            self._index_seen.add(k)
            self.index_terms.append((arr, i))

    def theory_push(self, v, n, x, arr):
        self.theory_facts.append(('push', self.E.varr(v.t), n, x, arr, None))
        self.note_index(arr, n)

    def theory_slice(self, v, lo, n, t):
        self.theory_facts.append(('slice', self.E.varr(v.t), lo, n, self.E.varr(t), None))

    def theory_concat(self, a, b, t):
        E = self.E
        self.theory_facts.append(('concat', (E.varr(a.t), E.vlen(a.t)), (E.varr(b.t), E.vlen(b.t)), None, E.varr(t), None))

    def theory_perm(self, v, t, lo, hi):
        self.theory_facts.append(('perm', self.E.varr(v.t), lo, hi, self.E.varr(t), self.E.vlen(v.t)))

    def theory_insert(self, v, p, x, t):
        self.theory_facts.append(('insert', self.E.varr(v.t), p, x, self.E.varr(t), self.E.vlen(v.t)))

    def theory_erase(self, v, p, t):
        self.theory_facts.append(('erase', self.E.varr(v.t), p, None, self.E.varr(t), self.E.vlen(v.t)))

    def theory_instances(self):
        """definitional facts of all folds in use, for every array/index/operation met (all universally valid)"""
        out = []
        for name, F in list(self.folds.items()):
            for maps in list(self.fold_maps[name]):
                for arr, i in self.index_terms:
                    if arr.sort() == F.asort:
                        out += F.unroll(arr, i, maps)
                seen = set()
                for t in self.theory_facts:
                    arrs = [t[4]] if t[0] != 'concat' else [t[4], t[1][0], t[2][0]]
                    if any(a.sort() != F.asort for a in arrs):
                        continue
                    out += F.op(t, maps)
            # the fold reads its maps only at the elements of the array: equal there, equal results
            ms = self.fold_maps[name] if F.prefix else []
            arrs = {}
            for arr, i in self.index_terms:
                if arr.sort() == F.asort:
                    arrs[arr.get_id()] = arr
            for x in range(len(ms)):
                for y in range(x + 1, len(ms)):
                    if not all(z3.is_array(a) or a.eq(b) for a, b in zip(ms[x], ms[y])):
                        continue
                    for arr in arrs.values():
                        n = z3.Int('fn')
                        sk = z3.Function('differ_%s_%d_%d_%d' % (name, x, y, arr.get_id()), IntS, IntS)
                        w = z3.Select(arr, sk(n))
                        dis = Or(*[z3.Select(a, w) != z3.Select(b, w) for a, b in zip(ms[x], ms[y]) if not a.eq(b)])
                        fx, fy = F.f(arr, n, *ms[x]), F.f(arr, n, *ms[y])
                        body = Or(fx == fy, And(sk(n) >= 0, sk(n) < n, dis))
                        if patok(arr):
                            out.append(z3.ForAll([n], body, patterns=[fx, fy]))
        return out

    def lvkey(self, lv):
        if isinstance(lv, LVar):
            return lv.key
        if isinstance(lv, LTemp):
            return id(lv)
        raise Unsupported('stream location')

    FMTKEYS = ('base', 'setw', 'setfill', 'setprecision', 'fixed', 'boolalpha')

    def fmtstate(self, st, key):
        out = {}
        for k in self.FMTKEYS:
            v = st.env.get(('fmt', key, k))
            if v is not None and not (isinstance(v, str) and v == 'default'):
                out[k] = v
        return out

    def fmt_same(self, a, b, k):
        if b is None:
            return True
        x, y = a.env.get(k, 'default'), b.env.get(k, 'default')
        return x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) or (isinstance(x, str) and isinstance(y, str) and x == y)

    def set_fmtstate(self, st, key, fs):
        for k in self.FMTKEYS:
            kk = ('fmt', key, k)
            new = fs.get(k, 'default')
            if kk in st.env or not (isinstance(new, str) and new == 'default'):
                st.env[kk] = new
                self.note_write(('f', kk))

    def char_fact(self, st, v, i):
        lo, hi = (-128, 127) if v.ty.n == 'char' else (-(1 << 31), (1 << 31) - 1)
        t = self.E.sat(v.t, i)
        self.fact(z3.And(t >= lo, t <= hi), st, 'character range')

    def card_fact(self, st, v):
        E = self.E
        ks = E.sort(v.ty.a[0])
        x = z3.Const('cx', ks)
        w = E.fn('mapwit_%s' % v.t.sort(), v.t.sort(), ks)
        d = self.named(E.mdom(v.t), 'dom')
        self.fact(E.mcard(v.t) >= 0)
        self.fact(z3.Implies(E.mcard(v.t) == 0, z3.ForAll([x], Not(z3.Select(d, x)), patterns=[z3.Select(d, x)])))
        self.fact(z3.Implies(E.mcard(v.t) > 0, z3.Select(d, w(v.t))))

    def named(self, t, base='n'):
        """a constant equal to t (so that terms can occur in quantifier patterns)"""
        if self.dry or patok(t):
            return t
        k = t.get_id()
        hit = self.namecache.get(k)
        if hit is not None:
            return hit[1]
        n = self.E.fresh(base, t.sort())
        self.facts.append(n == t)
        self.fact_names.append('definition')
        self.namecache[k] = (t, n)
        return n

    def named_val(self, v):
        if self.dry or not isinstance(v, V) or v.t is None:
            return v
        E = self.E
        if v.ty.k in ('vec', 'arr'):
            a, n = E.varr(v.t), E.vlen(v.t)
            a2 = self.named(a, 'arr')
            n2 = n if patok(n) else self.named(n, 'len')
            if a2.eq(a) and n2.eq(n):
                return v
            r = V(v.ty, E.vmk(v.t.sort(), n2, a2))
            return copy_attrs(v, r)
        if v.ty.k in ('map', 'set'):
            d, m, c = E.mdom(v.t), E.mval(v.t), E.mcard(v.t)
            return copy_attrs(v, V(v.ty, E.mmk(v.t.sort(), self.named(d, 'dom'), self.named(m, 'val'), self.named(c, 'card'))))
        if v.ty.k in ('float', 'int', 'ptr', 'str') and not patok(v.t):
            return copy_attrs(v, V(v.ty, self.named(v.t, 'v')))
        return v

    # ------------------------------------------------------------ lvalue access
    def read(self, st, lv):
        if isinstance(lv, LTemp):
            return lv.v
        if isinstance(lv, LVar):
            if lv.key not in st.env:
                if lv.key in self.lazy_globals:
                    st.env[lv.key] = self.lazy_globals[lv.key]
                    return st.env[lv.key]
                raise Unsupported('read of uninitialised/unknown variable %s' % (lv.key,))
            v = st.env[lv.key]
            if isinstance(v, Conflict):
                raise Unsupported('value merged from incompatible branches: %s' % (lv.key,))
            return v
        if isinstance(lv, LHeap):
            h = self.heap_map(st, lv.fk, lv.ty)
            return V(lv.ty, z3.Select(h, lv.ref))
        if isinstance(lv, LObj):
            return lv      # an object is handled by reference
        if isinstance(lv, LField):
            b = self.read(st, lv.base)
            if isinstance(b, LObj):
                raise Unsupported('field of object by LField')
            if lv.fname in st_special(b):
                return st_special(b)[lv.fname]
            return V(lv.ty, self.E.rec_get(b.ty, b.t, lv.fname))
        if isinstance(lv, LIndex):
            b = self.read(st, lv.base)
            if b.ty.k in ('str',):
                return V(lv.ty, self.E.sat(b.t, lv.idx))
            if not self.dry:
                self.note_index(self.E.varr(b.t), lv.idx)
            return V(lv.ty, self.E.vat(b.t, lv.idx))
        if isinstance(lv, LMapVal):
            b = self.read(st, lv.base)
            return V(lv.ty, z3.Select(self.E.mval(b.t), lv.key))
        if isinstance(lv, LMapEnt):
            b = self.read(st, lv.base)
            return V(lv.ty, self.E.sort(lv.ty).constructor(0)(lv.key, z3.Select(self.E.mval(b.t), lv.key)))
        raise Unsupported('read %r' % lv)

    def write(self, st, lv, v):
        if isinstance(lv, LVar):
            self.note_write(('v', lv.key))
            st.env[lv.key] = self.named_val(v)
            return
        if isinstance(lv, LHeap):
            h = self.heap_map(st, lv.fk, lv.ty)
            self.note_write(('h', lv.fk))
            v = self.coerce(st, v, lv.ty)
            st.heap[lv.fk] = self.named(z3.Store(h, lv.ref, v.t), 'H_' + lv.fk)
            return
        if isinstance(lv, LObj):
            if isinstance(v, LObj):
                v2 = v
                for f in self.prog.all_fields(lv.ty.n):
                    ft = self.tp.of(f)
                    fk = self.fieldkey(f)
                    val = z3.Select(self.heap_map(st, fk, ft), v2.ref)
                    self.write(st, LHeap(fk, lv.ref, ft), V(ft, val))
                return
            if isinstance(v, V) and v.ty.k == 'rec':
                for f in self.prog.all_fields(v.ty.n):
                    ft = self.tp.of(f)
                    fk = self.fieldkey(f)
                    self.write(st, LHeap(fk, lv.ref, ft), V(ft, self.E.rec_get(v.ty, v.t, fk)))
                return
            raise Unsupported('object assignment')
        if isinstance(lv, LField):
            b = self.read(st, lv.base)
            v = self.coerce(st, v, lv.ty)
            self.write(st, lv.base, V(b.ty, self.E.rec_set(b.ty, b.t, lv.fname, v.t)))
            return
        if isinstance(lv, LIndex):
            b = self.read(st, lv.base)
            v = self.coerce(st, v, lv.ty)
            E = self.E
            if b.ty.k == 'str':
                if E.smode != 'seq':
                    raise Unsupported('string element write in abstract string mode')
                n = E.slen(b.t)
                new = z3.Concat(z3.SubSeq(b.t, I(0), lv.idx), z3.Unit(v.t), z3.SubSeq(b.t, lv.idx + 1, n - lv.idx - 1))
                self.write(st, lv.base, V(b.ty, new))
                return
            self.write(st, lv.base, V(b.ty, E.vmk(b.t.sort(), E.vlen(b.t), z3.Store(E.varr(b.t), lv.idx, v.t))))
            self.lib.on_elem_write(self, st, b, lv.idx, v)
            return
        if isinstance(lv, LMapVal):
            b = self.read(st, lv.base)
            v = self.coerce(st, v, lv.ty)
            E = self.E
            self.write(st, lv.base, V(b.ty, E.mmk(b.t.sort(), E.mdom(b.t), z3.Store(E.mval(b.t), lv.key, v.t), E.mcard(b.t))))
            return
        if isinstance(lv, LMapEnt):
            self.write(st, LMapVal(lv.base, lv.key, lv.ty.a[1]), V(lv.ty.a[1], self.E.rec_get(lv.ty, v.t, 'f1')))
            return
        if isinstance(lv, LTemp):
            lv.v = v
            return
        raise Unsupported('write %r' % lv)

    def val(self, st, x):
        """lvalue or value -> value"""
        if isinstance(x, LVS):
            return self.read(st, x)
        return x

    def coerce(self, st, v, ty):
        if isinstance(v, LObj):
            if ty.k == 'rec':
                # copy of a heap object into a record value
                vals = []
                for f in self.prog.all_fields(ty.n):
                    ft = self.tp.of(f)
                    vals.append(z3.Select(self.heap_map(st, self.fieldkey(f), ft), v.ref))
                if self.E.rec_special(ty.n):
                    raise Unsupported('copy of object with library base')
                return V(ty, self.E.sort(ty).constructor(0)(*(vals or [I(0)])))
            return v
        if isinstance(v, (PtrV, IterV, FuncV, Dropped)):
            if ty.k in ('func', 'opq', 'iter'):
                return v if not isinstance(v, V) else v
            raise Unsupported('special value stored into %r' % ty)
        want = self.E.sort(ty)
        if v.t.sort() == want:
            return V(ty, v.t)
        if want == z3.RealSort() and v.t.sort() == IntS:
            return V(ty, self.E.i2f(v.t))
        if z3.is_fp_sort(want) and v.t.sort() == IntS:
            return V(ty, self.E.i2f(v.t))
        if want == IntS and v.t.sort() == BoolS:
            return V(ty, z3.If(v.t, I(1), I(0)))
        if want == BoolS and v.t.sort() == IntS:
            return V(ty, v.t != 0)
        raise Unsupported('cannot coerce %r to %r' % (v.ty, ty))

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b, pc):
        """state that is a where c holds and b otherwise"""
        if a.dead:
            r = b.copy(); r.pc = b.pc if pc is None else And(b.pc); return r
        if b.dead:
            r = a.copy(); return r
        r = State()
        r.pc = pc if pc is not None else Or(a.pc, b.pc)
        for k in set(a.env) | set(b.env):
            if isinstance(k, tuple) and k[0] == 'fmt':
                x, y = a.env.get(k, 'default'), b.env.get(k, 'default')
                same = x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) or (isinstance(x, str) and isinstance(y, str) and x == y)
                r.env[k] = x if same else 'unknown'
                continue
            if k in a.env and k in b.env:
                x, y = a.env[k], b.env[k]
                if x is y:
                    r.env[k] = x
                else:
                    r.env[k] = self.merge_val(c, x, y)
            elif k in a.env:
                r.env[k] = a.env[k] if not (isinstance(k, tuple) and k[0] == 'ret') else a.env[k]
            else:
                r.env[k] = b.env[k]
        for k in set(a.heap) | set(b.heap):
            x = a.heap.get(k)
            y = b.heap.get(k)
            if x is None:
                x = self.entry_heap[k]
            if y is None:
                y = self.entry_heap[k]
            r.heap[k] = x if x.eq(y) else self.named(z3.If(c, x, y), 'H_' + k)
        r.alloc = a.alloc if a.alloc.eq(b.alloc) else self.named(z3.If(c, a.alloc, b.alloc), 'alloc')
        return r

    def merge_val(self, c, x, y):
        if isinstance(x, V) and isinstance(y, V):
            if x.t.eq(y.t):
                return x
            if x.t.sort() != y.t.sort():
                return Conflict()
            if x.ty.k == 'rec' and (hasattr(x, 'sp') or hasattr(y, 'sp')):
                return Conflict()
            return self.merged(V(x.ty, z3.If(c, x.t, y.t)))
        if isinstance(x, LObj) and isinstance(y, LObj):
            return LObj(self.named(Ite(c, x.ref, y.ref)), x.ty)
        if isinstance(x, PtrV) and isinstance(y, PtrV):
            if x.lv is not None and y.lv is not None and lv_same(x.lv, y.lv):
                return PtrV(x.lv, Ite(c, x.null, y.null), x.ty)
            if x.lv is None:
                return PtrV(y.lv, Ite(c, TRUE, y.null), y.ty)
            if y.lv is None:
                return PtrV(x.lv, Ite(c, x.null, TRUE), x.ty)
            return Conflict()
        if isinstance(x, IterV) and isinstance(y, IterV) and lv_same(x.lv, y.lv) and x.rev == y.rev:
            if x.key is not None or y.key is not None:
                if x.key is None or y.key is None:
                    k = x.key if x.key is not None else y.key
                    return IterV(x.lv, self.named(Ite(c, x.idx, y.idx)), x.ty, x.rev, k)
                return IterV(x.lv, self.named(Ite(c, x.idx, y.idx)), x.ty, x.rev, Ite(c, x.key, y.key))
            return IterV(x.lv, self.named(Ite(c, x.idx, y.idx)), x.ty, x.rev)
        if isinstance(x, PtrV) and isinstance(y, V) or isinstance(x, V) and isinstance(y, PtrV):
            if isinstance(x, V) and z3.is_int_value(x.t) and x.t.as_long() == 0:
                return PtrV(y.lv, Ite(c, TRUE, y.null), y.ty)
            if isinstance(y, V) and z3.is_int_value(y.t) and y.t.as_long() == 0:
                return PtrV(x.lv, Ite(c, x.null, TRUE), x.ty)
        if x is y:
            return x
        return Conflict()

    def merged(self, v):
        if v.ty.k == 'bool':
            return v
        if v.t.sort() == BoolS:
            return v
        return V(v.ty, self.named(v.t, 'm'))

    def merge_exits(self, exs):
        """merge a list of states reached by disjoint paths"""
        exs = [e for e in exs if not e.dead]
        if not exs:
            return None
        r = exs[0]
        for e in exs[1:]:
            r = self.merge(r.pc, r, e, None)
        return r

    def name_cond(self, st, c):
        """give a branch condition a boolean name (keeps path conditions small)"""
        s = z3.simplify(c)
        if z3.is_true(s):
            return TRUE
        if z3.is_false(s):
            return FALSE
        if z3.is_const(s):
            return s
        if self.dry:
            return s
        b = self.E.fresh('c', BoolS)
        self.facts.append(b == c)
        self.fact_names.append('branch')
        return b

    # ------------------------------------------------------------ statements
    # exec returns dict kind -> list of states: 'n','b','c','r' (return), 't' (throw)
    def exec(self, n, st):
        k = n.get('kind')
        if k is None:
            return {'n': [st]}
        ln = line_of(n)
        if ln:
            self.trace_line = ln
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, st)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k in ('ExprWithCleanups',):
            self.ev(n, st)
            return self.norm(st)
        raise Unsupported('statement %s' % k)

    def norm(self, st):
        return {'n': [] if st.dead else [st]}

    @staticmethod
    def addx(d, e):
        for k, v in e.items():
            d.setdefault(k, []).extend(v)

    def s_CompoundStmt(self, n, st):
        out = {}
        cur = st
        for c in children(n):
            if cur is None or cur.dead:
                break
            r = self.exec(c, cur)
            ns = r.pop('n', [])
            self.addx(out, r)
            cur = self.merge_exits(ns) if len(ns) != 1 else ns[0]
        if cur is not None and not cur.dead:
            out.setdefault('n', []).append(cur)
        return out

    def s_NullStmt(self, n, st):
        return self.norm(st)

    def s_AttributedStmt(self, n, st):
        return self.exec(children(n)[-1], st)

    def s_DeclStmt(self, n, st):
        for c in children(n):
            k = c.get('kind')
            if k == 'VarDecl':
                self.decl_var(c, st)
            elif k == 'DecompositionDecl':
                self.decl_decomp(c, st)
            elif k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'EmptyDecl', 'CXXRecordDecl'):
                pass
            else:
                raise Unsupported('declaration %s' % k)
        return self.norm(st)

    def newkey(self, n):
        fr = self.frames[-1]
        key = (fr.fid, n.get('name', '?'), n['id'])
        return key

    def decl_var(self, n, st):
        fr = self.frames[-1]
        ty = self.tp.of(n)
        key = self.newkey(n)
        if n.get('storageClass') == 'static' and not ('const' in n['type']['qualType']):
            raise Unsupported('mutable static local')
        inits = [c for c in children(n) if not c.get('kind', '').endswith('Attr')]
        if ty.k == 'rec' and ty.n in getattr(self.root_spec, 'heap_locals', ()):
            # local objects whose address is stored: like new, the frame of the contract must allow fresh objects of the class
            x = inits[0] if inits else None
            while x is not None and x.get('kind') == 'ExprWithCleanups':
                x = children(x)[0]
            if x is None or x.get('kind') == 'CXXConstructExpr':
                p = self.new_object(st, Ty('ptr', [ty]), x)
                fr.names[n['id']] = LObj(p.t, ty)
                return
            raise Unsupported('initialisation of a local %s' % ty.n)
        fr.names[n['id']] = LVar(key, ty)
        if ty.k in ('ref', 'rref'):
            x = self.ev(inits[0], st)
            if isinstance(x, LVS) and not isinstance(x, LTemp):
                fr.names[n['id']] = x
            elif isinstance(x, LTemp) or ty.k == 'rref' or True:
                v = self.val(st, x)
                k2 = LVar(key, ty.a[0])
                st.env[key] = v
                self.note_write(('v', key))
                fr.names[n['id']] = k2
            return
        if inits:
            x = self.ev(inits[0], st)
            v = self.val(st, x)
            if isinstance(v, LObj) and ty.k == 'rec':
                v = self.coerce(st, v, ty)
            if isinstance(v, V):
                v = self.fit(st, v, ty)
        else:
            v = V(ty, self.havoc_term(st, n.get('name', 'u'), ty))   # uninitialised: arbitrary value
        self.note_write(('v', key))
        st.env[key] = v

    def decl_decomp(self, n, st):
        fr = self.frames[-1]
        inits = children(n)
        src = None
        binds = []
        for c in inits:
            if c.get('kind') == 'BindingDecl':
                binds.append(c)
            elif src is None:
                src = c
        x = self.ev(src, st)
        ty = self.tp.of(n)
        if isinstance(x, LVS) and ty.k in ('ref', 'rref'):
            base = x
        else:
            v = self.val(st, x)
            key = self.newkey(n)
            self.note_write(('v', key))
            st.env[key] = v
            base = LVar(key, v.ty)
        bty = self.val(st, base).ty
        for i, b in enumerate(binds):
            if bty.k != 'tup':
                raise Unsupported('structured binding of %r' % bty)
            fr.names[b['id']] = LField(base, 'f%d' % i, bty.a[i])

    def fit(self, st, v, ty):
        if isinstance(v, V) and ty.k in ('int', 'bool', 'float', 'enum', 'ptr', 'str', 'vec', 'arr', 'map', 'set', 'tup', 'rec') and v.t.sort() != self.E.sort(ty):
            return self.coerce(st, v, ty)
        if isinstance(v, V) and ty.k == v.ty.k:
            return V(ty, v.t) if ty.k != 'arr' else v
        return v

    def havoc_term(self, st, name, ty, facts=True):
        t = self.E.fresh(name, self.E.sort(ty))
        if facts:
            for f in self.E.wf(ty, t, st.alloc):
                self.fact(f, None, 'type range')
        return t

    def s_ReturnStmt(self, n, st):
        cs = children(n)
        fr = self.frames[-1]
        if cs:
            x = self.ev(cs[0], st)
            if not self.ret_is_ref(fr):
                x = self.val(st, x)
                if isinstance(x, LObj):
                    rt = self.ret_type(fr)
                    x = self.coerce(st, x, rt)
                elif isinstance(x, V):
                    rt = self.ret_type(fr)
                    if rt is not None:
                        x = self.fit(st, x, rt)
            st.env[('ret', fr.fid)] = x
            self.note_write(('v', ('ret', fr.fid)))
        return {'r': [] if st.dead else [st]}

    def ret_type(self, fr):
        if fr.func is None:
            return None
        sig = fr.func.sig
        t = ret_of_sig(sig)
        if t == 'auto' or t is None:
            return None
        ty = self.tp.parse(t)
        return ty.a[0] if ty.k in ('ref', 'rref') else ty

    def ret_is_ref(self, fr):
        if fr.func is None:
            return False
        t = ret_of_sig(fr.func.sig)
        return bool(t) and t.strip().endswith('&')

    def s_BreakStmt(self, n, st):
        return {'b': [st]}

    def s_ContinueStmt(self, n, st):
        return {'c': [st]}

    def s_IfStmt(self, n, st):
        cs = [c for c in n.get('inner', [])]
        i = 0
        if n.get('hasInit'):
            self.exec(cs[i], st); i += 1
        if n.get('hasVar'):
            self.exec(cs[i], st); i += 1
        cond = cs[i]; then = cs[i + 1]
        els = cs[i + 2] if n.get('hasElse') else None
        c = self.truth(self.ev(cond, st), st)
        return self.branch(st, c, lambda s: self.exec(then, s), (lambda s: self.exec(els, s)) if els else None)

    def branch(self, st, c, fthen, fels):
        c = self.name_cond(st, c)
        if z3.is_true(c):
            return fthen(st)
        if z3.is_false(c):
            return fels(st) if fels else self.norm(st)
        a, b = st.copy(), st.copy()
        base = st.pc
        a.pc = And(base, c)
        b.pc = And(base, Not(c))
        ra = fthen(a)
        rb = fels(b) if fels else {'n': [b]}
        na = ra.pop('n', []); nb = rb.pop('n', [])
        out = {}
        self.addx(out, ra); self.addx(out, rb)
        sa = self.merge_exits(na); sb = self.merge_exits(nb)
        if sa is not None and sb is not None:
            apc = sa.pc.eq(And(base, c)); bpc = sb.pc.eq(And(base, Not(c)))
            m = self.merge(c, sa, sb, base if (apc and bpc) else None)
            out.setdefault('n', []).append(m)
        elif sa is not None:
            out.setdefault('n', []).append(sa)
        elif sb is not None:
            out.setdefault('n', []).append(sb)
        return out

    def s_SwitchStmt(self, n, st):
        cs = [c for c in children(n) if c.get('kind')]
        i = 0
        if n.get('hasInit'):
            self.exec(cs[0], st); i = 1
        if n.get('hasVar'):
            self.exec(cs[i], st); i += 1
        x = self.val(st, self.ev(cs[i], st))
        body = cs[i + 1]
        # flatten into list of (labels, stmt)
        items = []

        def flat(c):
            labels = []
            while c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    ch = children(c)
                    v = self.val(st, self.ev(ch[0], st))
                    labels.append(self.coerce(st, v, x.ty).t if v.t.sort() != x.t.sort() else v.t)
                    c = ch[-1]
                else:
                    labels.append('default')
                    c = children(c)[-1]
            return labels, c
        for c in children(body):
            items.append(flat(c))
        allc = [l for ls, _ in items for l in ls if not isinstance(l, str)]
        out = {}
        cur = None
        for ls, stmt in items:
            if ls:
                conds = []
                for l in ls:
                    if isinstance(l, str):
                        conds.append(And(*[x.t != q for q in allc]))
                    else:
                        conds.append(x.t == l)
                ent = st.copy()
                c = self.name_cond(st, Or(*conds))
                ent.pc = And(st.pc, c)
                cur = self.merge_exits([s for s in (cur, ent) if s is not None])
            if cur is None or cur.dead:
                continue
            r = self.exec(stmt, cur)
            ns = r.pop('n', [])
            self.addx(out, r)
            cur = self.merge_exits(ns)
        ends = out.pop('b', [])
        if cur is not None:
            ends.append(cur)
        if not any(isinstance(l, str) for ls, _ in items for l in ls):
            ent = st.copy()
            ent.pc = And(st.pc, *[x.t != q for q in allc])
            ends.append(ent)
        m = self.merge_exits(ends)
        if m is not None:
            out['n'] = [m]
        return out

    def s_CXXTryStmt(self, n, st):
        raise Unsupported('try')

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, n, st):
        cs = n.get('inner', [])
        init, cv, cond, inc, body = cs[0], cs[1], cs[2], cs[3], cs[4]
        if init.get('kind'):
            self.exec(init, st)
        return self.loop(n, st, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body, lazy=self.index_loop(init, cond, inc, body))

    def index_loop(self, init, cond, inc, body):
        """for (T i = 0; i < V.size(); i++) that does not write i elsewhere: gives (id of i, expression V), like a range-for over V"""
        def strip(x):
            while x and x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and len(children(x)) == 1:
                x = children(x)[0]
            return x or {}

        def var(x):
            x = strip(x)
            return x.get('referencedDecl', {}).get('id') if x.get('kind') == 'DeclRefExpr' else None
        if init.get('kind') != 'DeclStmt' or cond.get('kind') != 'BinaryOperator' or cond.get('opcode') not in ('<', '!=') or not inc.get('kind'):
            return None
        d = [x for x in children(init) if x.get('kind') == 'VarDecl' and children(x) and strip(children(x)[0]).get('kind') == 'IntegerLiteral' and strip(children(x)[0]).get('value') == '0']
        a, b = children(cond)
        i = var(a)
        if i is None or i not in [x['id'] for x in d]:
            return None
        call = strip(b)
        if call.get('kind') != 'CXXMemberCallExpr' or len(children(call)) != 1:
            return None
        me = children(call)[0]
        if me.get('kind') != 'MemberExpr' or me.get('name') not in ('size', 'length'):
            return None
        x = strip(inc)
        if not (x.get('kind') == 'UnaryOperator' and x.get('opcode') == '++' and var(children(x)[0]) == i
                or x.get('kind') == 'CompoundAssignOperator' and x.get('opcode') == '+=' and var(children(x)[0]) == i and strip(children(x)[1]).get('value') == '1'):
            return None

        def writes(x):
            if x.get('kind') in ('UnaryOperator', 'BinaryOperator', 'CompoundAssignOperator') and (x.get('opcode') in ('++', '--', '&') and len(children(x)) == 1 or x.get('opcode', '').endswith('=') and x.get('opcode') not in ('==', '!=', '<=', '>=')):
                if var(children(x)[0]) == i:
                    return True
            return any(writes(y) for y in x.get('inner', []) if isinstance(y, dict))
        if writes(body):
            return None
        return i, children(me)[0], me.get('isArrow')

    def index_extra(self, lazy, entry, wset, lid):
        """description of an index loop whose sequence the loop does not change, in the form of a range-for; None otherwise"""
        i, vx, arrow = lazy
        ilv = self.frames[-1].names.get(i)
        if not isinstance(ilv, LVar) or arrow:
            return None
        saved = (self.loop_counter, len(self.facts))
        self.dry += 1
        try:
            def seq(s):
                x = self.ev(vx, s)
                v = self.read(s, x) if isinstance(x, LVS) else self.val(s, x)
                return x, v
            x, v = seq(entry.copy())
            y, w = seq(self.havoc_writes(entry.copy(), wset, lid, facts=False))
        except Unsupported:
            return None
        finally:
            self.dry -= 1
        if not isinstance(x, LVS) or not isinstance(v, V) or not isinstance(w, V) or v.ty.k != 'vec' or v.ty.a[0].k != 'ptr' or not v.t.eq(w.t):
            return None
        return dict(rng=x, idx=ilv, vec0=v, n0=self.E.vlen(v.t), kind='vec')

    def s_WhileStmt(self, n, st):
        cs = [c for c in children(n) if c.get('kind')]
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        return self.loop(n, st, cs[0], None, cs[1])

    def s_DoStmt(self, n, st):
        cs = children(n)
        return self.loop(n, st, cs[1], None, cs[0], dowhile=True)

    def s_CXXForRangeStmt(self, n, st):
        cs = [c for c in n.get('inner', []) if c.get('kind')]
        # [init] DeclStmt(range) DeclStmt(begin) DeclStmt(end) cond inc DeclStmt(loopvar) body
        body = cs[-1]; var = children(cs[-2])[0]
        decls = [c for c in cs[:-2] if c.get('kind') == 'DeclStmt']
        rng = children(decls[0])[0]
        if len(decls) > 3:
            self.exec(decls[0], st); rng = children(decls[1])[0]
        x = self.ev(children(rng)[0], st)
        fr = self.frames[-1]
        if not isinstance(x, LVS) or isinstance(x, LTemp):
            v = self.val(st, x)
            key = (fr.fid, '__range', n['id'] if 'id' in n else id(n))
            st.env[key] = v
            self.note_write(('v', key))
            x = LVar(key, v.ty)
        v = self.read(st, x)
        if isinstance(v, LObj) or (isinstance(v, V) and v.ty.k == 'rec'):
            x = self.lib.base_container(self, st, x)
            v = self.read(st, x)
        ikey = (fr.fid, '#idx', n.get('id'))
        ity = INT(False, 64)
        st.env[ikey] = V(ity, I(0))
        ilv = LVar(ikey, ity)
        E = self.E
        if v.ty.k in ('map', 'set'):
            ks = E.sort(v.ty.a[0])
            ordk = self.lib.map_order(self, st, v)
            n0 = E.mcard(v.t)

            def condf(s):
                return s.env[ikey].t < n0

            def pre(s):
                i = s.env[ikey].t
                key = z3.Select(ordk, i)
                if not self.dry:
                    self.note_index(ordk, i)
                self.fact(z3.Select(E.mdom(v.t), key), None, 'key in map')
                if v.ty.k == 'set':
                    self.bind_loopvar(s, var, V(v.ty.a[0], key), None)
                else:
                    cur = self.read(s, x)
                    ent = V(Ty('tup', v.ty.a), E.sort(Ty('tup', v.ty.a)).constructor(0)(key, z3.Select(E.mval(cur.t), key)))
                    self.bind_loopvar(s, var, ent, None)

            def chk(s):
                cur = self.read(s, x)
                self.oblige(s, And(E.mcard(cur.t) == n0, E.mdom(cur.t) == E.mdom(v.t)), 'map not changed while iterated', 'safety')
            extra = dict(rng=x, ord=ordk, idx=ilv, vec0=v, n0=n0, kind='map')
        elif v.ty.k in ('vec', 'arr', 'str'):
            n0 = E.slen(v.t) if v.ty.k == 'str' else E.vlen(v.t)
            self.fact(n0 >= 0, None, 'length')
            ety = v.ty.a[0] if v.ty.k != 'str' else elem_of_str(v.ty)

            def condf(s):
                return s.env[ikey].t < n0

            def pre(s):
                if v.ty.k != 'str' and not self.dry:
                    self.note_index(E.varr(v.t), s.env[ikey].t)
                self.bind_loopvar(s, var, None, LIndex(x, s.env[ikey].t, ety))

            def chk(s):
                cur = self.read(s, x)
                cl = E.slen(cur.t) if v.ty.k == 'str' else E.vlen(cur.t)
                if not cl.eq(n0):
                    self.oblige(s, cl == n0, 'container not resized while iterated', 'safety')
            extra = dict(rng=x, idx=ilv, vec0=v, n0=n0, kind='vec')
        else:
            raise Unsupported('range-for over %r' % v.ty)

        def incf(s):
            chk(s)
            s.env[ikey] = V(ity, s.env[ikey].t + 1)
            self.note_write(('v', ikey))
        return self.loop(n, st, condf, incf, body, pre=pre, extra=extra,
                         auto=[('range index in bounds', lambda s: And(s.env[ikey].t >= 0, s.env[ikey].t <= n0))])

    def bind_loopvar(self, st, var, value, lv):
        fr = self.frames[-1]
        if var.get('kind') == 'DecompositionDecl':
            binds = [c for c in children(var) if c.get('kind') == 'BindingDecl']
            if value is None:
                value = self.read(st, lv)
            for i, b in enumerate(binds):
                key = (fr.fid, b.get('name'), b['id'])
                st.env[key] = V(value.ty.a[i], self.E.rec_get(value.ty, value.t, 'f%d' % i))
                fr.names[b['id']] = LVar(key, value.ty.a[i])
            return
        ty = self.tp.of(var)
        key = (fr.fid, var.get('name'), var['id'])
        if lv is not None and ty.k in ('ref', 'rref'):
            fr.names[var['id']] = lv
            return
        if value is None:
            value = self.read(st, lv)
        if ty.k in ('ref', 'rref'):
            ty = ty.a[0]
        if ty.k == 'opq':
            ty = value.ty
        st.env[key] = V(value.ty, value.t) if value.t.sort() == self.E.sort(ty) else self.coerce(st, value, ty)
        fr.names[var['id']] = LVar(key, ty)

    def loop(self, n, st, cond, inc, body, pre=None, dowhile=False, extra=None, auto=(), lazy=None):
        fr = self.frames[-1]
        path = '/'.join(str(f.callsite) if hasattr(f, 'callsite') else '' for f in self.frames)
        lid = '%s:%s' % (path, n.get('id'))
        entry = st.copy()
        depth = len(self.curloops)

        def cond_t(s):
            if cond is None:
                return TRUE
            if callable(cond):
                return cond(s)
            return self.truth(self.ev(cond, s), s)

        def one_iter(s, dry):
            """condition + body + increment from state s; returns (after-iteration states, exit states, others)"""
            exits, others = [], {}
            cur = s
            if not dowhile:
                c = self.name_cond(cur, cond_t(cur))
                ex = cur.copy(); ex.pc = And(cur.pc, Not(c))
                cur.pc = And(cur.pc, c)
                if not ex.dead:
                    exits.append(ex)
            if not cur.dead:
                if pre:
                    pre(cur)
                r = self.exec(body, cur)
                ends = r.pop('n', []) + r.pop('c', [])
                brk = r.pop('b', [])
                self.addx(others, r)
                cur = self.merge_exits(ends)
            else:
                cur, brk = None, []
            if cur is not None and not cur.dead:
                if dowhile:
                    c = self.name_cond(cur, cond_t(cur))
                    ex = cur.copy(); ex.pc = And(cur.pc, Not(c))
                    cur.pc = And(cur.pc, c)
                    if not ex.dead:
                        exits.append(ex)
                if inc is not None and not cur.dead:
                    if callable(inc):
                        inc(cur)
                    else:
                        self.ev(inc, cur)
            return cur, exits, brk, others

        # --- which locations may the loop write?  (symbolic dry runs to a fixpoint)
        wset = self.wcache.get(lid)
        last = None
        if wset is None:
            # inside a dry run: start from what an earlier dry run of this loop found (only ever an over-approximation)
            wset = {w for w in self.whint.get(lid, ()) if w[0] in ('h', 'a', 'f') or w[1] in entry.env} if self.dry else set()
            self.dry += 1
            saved_names = dict(fr.names)
            saved_lc = self.loop_counter
            live = {f.fid for f in self.frames}
            try:
                while True:
                    s = self.havoc_writes(entry.copy(), wset, lid, facts=False)
                    s.pc = TRUE
                    rec = set()
                    self.writes.append(rec)
                    self.curloops.append(None)
                    try:
                        last = one_iter(s, True)
                        end = last[0]
                    finally:
                        self.writes.pop()
                        self.curloops.pop()
                    # formatting state that every iteration restores stays known
                    rec = {w for w in rec if w[0] != 'f' or not self.fmt_same(entry, end, w[1])}
                    new = {w for w in rec if w[0] in ('h', 'a', 'f') or w[1] in entry.env or (isinstance(w[1], tuple) and w[1] and w[1][0] == 'ret' and w[1][1] in live)}
                    if new <= wset:
                        break
                    wset |= new
            finally:
                self.dry -= 1
                fr.names = saved_names
                self.loop_counter = saved_lc
            self.whint[lid] = self.whint.get(lid, set()) | wset
            if not self.dry:
                self.wcache[lid] = wset
        for w in wset:
            self.note_write(w)

        if lazy is not None and extra is None:
            extra = self.index_extra(lazy, entry, wset, lid)
            if extra is not None:
                k, n0 = extra['idx'].key, extra['n0']
                auto = list(auto) + [('index in bounds', lambda s: And(s.env[k].t >= 0, s.env[k].t <= n0))]
        lp = Loop()
        lp.n = n; lp.entry = entry; lp.extra = extra or {}; lp.wset = wset; lp.lid = lid; lp.frame = fr; lp.depth = depth
        lp.ex = self
        lp.outer = [l for l in self.curloops if l is not None]
        self.loop_counter += 1
        lp.line = line_of(n)
        if self.dry:
            if last is None:
                s = self.havoc_writes(entry.copy(), wset, lid, facts=False)
                self.curloops.append(lp)
                try:
                    last = one_iter(s, True)
                finally:
                    self.curloops.pop()
            cur, exits, brk, others = last
            out = dict(others)
            m = self.merge_exits(exits + brk)
            if m is not None:
                out.setdefault('n', []).append(m)
            return out

        invs = self.collect_invs(lp, auto)
        # 1. invariants hold on entry
        for nm, f, isauto in invs:
            g = f(entry)
            if g is None:
                continue
            self.oblige(entry, g, 'loop at line %s: "%s" holds on entry' % (lp.line, nm), 'inv-entry', line=lp.line, cand=(lid, nm))
        # 2. arbitrary iteration
        nalloc = None
        s = self.havoc_writes(entry.copy(), wset, lid, facts=True)
        for nm, f, isauto in invs:
            g = f(s)
            if g is not None:
                self.fact(g, s, 'invariant ' + nm)
        self.curloops.append(lp)
        lp.head = s.copy()
        try:
            cur, exits, brk, others = one_iter(s, False)
        finally:
            self.curloops.pop()
        # 3. preserved
        if cur is not None and not cur.dead:
            for nm, f, isauto in invs:
                g = f(cur)
                if g is None:
                    continue
                self.oblige(cur, g, 'loop at line %s: "%s" is preserved' % (lp.line, nm), 'inv-step', line=lp.line, cand=(lid, nm))
        out = dict(others)
        for e in exits + brk:
            pass
        m = self.merge_exits(exits + brk)
        if m is not None:
            out.setdefault('n', []).append(m)
        return out

    def havoc_writes(self, s, wset, lid, facts):
        old_alloc = s.alloc
        if any(w[0] == 'a' for w in wset):
            s.alloc = self.E.fresh('alloc', IntS)
            if facts:
                self.fact(s.alloc >= old_alloc, None, 'alloc grows')
        for w in sorted(wset, key=str):
            if w[0] == 'v':
                key = w[1]
                if key in s.env:
                    v = s.env[key]
                    if isinstance(v, V):
                        nm = key[1] if isinstance(key, tuple) and len(key) > 1 else str(key)
                        s.env[key] = V(v.ty, self.havoc_term(s, 'L_%s' % nm, v.ty, facts))
                    elif isinstance(v, IterV):
                        i = self.E.fresh('L_it', IntS)
                        s.env[key] = IterV(v.lv, i, v.ty, v.rev, v.key)
                    elif isinstance(v, LObj):
                        s.env[key] = LObj(self.havoc_term(s, 'L_o', Ty('ptr', [v.ty]), facts), v.ty)
                    else:
                        raise Unsupported('loop modifies special value %s' % (key,))
            elif w[0] == 'f':
                s.env[w[1]] = 'unknown'
            elif w[0] == 'h':
                ty = self.heap_ty[w[1]]
                self.heap_map(s, w[1], ty)
                h = self.E.fresh('H_' + w[1], z3.ArraySort(IntS, self.E.sort(ty)))
                s.heap[w[1]] = h
                if facts:
                    for f in self.heap_wf(h, ty, s.alloc):
                        self.fact(f, None, 'heap wf')
        return s

    def collect_invs(self, lp, auto):
        out = []
        for nm, f in auto:
            out.append((nm, f, True))
        # automatic frame candidates
        ent = lp.entry
        for w in sorted(lp.wset, key=str):
            if w[0] == 'h' and w[1] not in getattr(self.root_spec, 'skip_frames', ()):
                fk = w[1]

                def frame(s, fk=fk):
                    h0 = self.heap_map(ent, fk, self.heap_ty[fk]); h = self.heap_map(s, fk, self.heap_ty[fk])
                    if h.eq(h0):
                        return TRUE
                    r = z3.Int('fr')
                    return z3.ForAll([r], z3.Implies(r < ent.alloc, z3.Select(h, r) == z3.Select(h0, r)), patterns=[z3.Select(h, r)])

                def frame0(s, fk=fk):
                    h0 = self.entry_heap[fk] if fk in self.entry_heap else self.heap_map(ent, fk, self.heap_ty[fk])
                    h = self.heap_map(s, fk, self.heap_ty[fk])
                    if h.eq(h0):
                        return TRUE
                    r = z3.Int('fr')
                    return z3.ForAll([r], z3.Implies(r < self.alloc0, z3.Select(h, r) == z3.Select(h0, r)), patterns=[z3.Select(h, r)])
                out.append(('frame %s' % fk, frame, False))
                out.append(('frame0 %s' % fk, frame0, False))
            if w[0] == 'a':
                out.append(('alloc monotone', lambda s: s.alloc >= ent.alloc, True))
            if w[0] == 'v' and w[1] in ent.env and isinstance(ent.env[w[1]], V) and ent.env[w[1]].ty.k == 'int' and not (isinstance(w[1], tuple) and len(w[1]) > 1 and w[1][1] == '#idx'):
                key = w[1]
                out.append(('counter %s not below its start' % key[1], lambda s, key=key: s.env[key].t >= ent.env[key].t, False))
                out.append(('counter %s not above its start' % key[1], lambda s, key=key: s.env[key].t <= ent.env[key].t, False))
        if self.root_spec is not None:
            ctx = self.root_ctx
            from .spec import LoopCtx
            lc = LoopCtx(ctx, lp)
            for nm, f in self.root_spec.invariants(lc):
                out.append((nm, f, False))
        res = []
        seen = {}
        for nm, f, a in out:
            seen[nm] = seen.get(nm, 0) + 1
            if seen[nm] > 1:
                nm = '%s #%d' % (nm, seen[nm])
            if (lp.lid, nm) in self.cands_off:
                continue
            try:
                probe = f(ent)
            except KeyError:
                continue
            res.append((nm, f, a))
        return res

    # ------------------------------------------------------------ expressions
    def truth(self, x, st):
        v = self.val(st, x)
        if isinstance(v, PtrV):
            return Not(v.null)
        if isinstance(v, LObj):
            return v.ref != 0
        if isinstance(v, V):
            if v.t.sort() == BoolS:
                return v.t
            if v.t.sort() == IntS:
                return v.t != 0
            if z3.is_fp(v.t):
                return z3.Not(z3.fpIsZero(v.t))
            if v.t.sort() == z3.RealSort():
                return v.t != 0
        raise Unsupported('truth of %r' % (v,))

    def ev(self, n, st):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if not m:
            raise Unsupported('expression %s' % k)
        return m(n, st)

    def e_passthrough(self, n, st):
        return self.ev(children(n)[0], st)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = e_passthrough
    e_FullExpr = e_passthrough

    def e_ConstantExpr(self, n, st):
        return self.ev(children(n)[0], st)

    def e_MaterializeTemporaryExpr(self, n, st):
        x = self.ev(children(n)[0], st)
        if isinstance(x, LVS) or x is DROPPED:
            return x
        ty = x.ty if isinstance(x, V) else self.tp.of(n)
        return LTemp(x, ty)

    def e_CXXRewrittenBinaryOperator(self, n, st):
        return self.ev(children(n)[0], st)

    def e_IntegerLiteral(self, n, st):
        return V(self.tp.of(n), I(int(n['value'])))

    def e_CharacterLiteral(self, n, st):
        return V(self.tp.of(n), I(int(n['value'])))

    def e_CXXBoolLiteralExpr(self, n, st):
        return V(BOOL, z3.BoolVal(bool(n['value'])))

    def e_FloatingLiteral(self, n, st):
        return V(DOUBLE, self.E.fval(float(n['value'])))

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return V(Ty('ptr', [VOID]), I(0))

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, n, st):
        ty = self.tp.of(n)
        return V(ty, self.E.default(ty))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_StringLiteral(self, n, st):
        s = parse_cstr(n['value'])
        ty = self.tp.of(n)
        wide = ty.k == 'arr' and ty.a[0].k == 'int' and ty.a[0].n in ('s32', 'u32')
        return V(WSTR if wide else STR, self.E.slit(s))

    def e_PredefinedExpr(self, n, st):
        return V(STR, self.E.fresh('pf', self.E.StrS))

    def e_SourceLocExpr(self, n, st):
        return V(INT(), self.E.fresh('loc', IntS))

    def e_CXXThisExpr(self, n, st):
        for fr in reversed(self.frames):
            if fr.this is not None:
                return fr.this
        raise Unsupported('this')

    def e_CXXDefaultArgExpr(self, n, st):
        cs = children(n)
        if cs:
            return self.ev(cs[0], st)
        raise Unsupported('default argument')

    def e_CXXDefaultInitExpr(self, n, st):
        raise Unsupported('default init expr')

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if 'argType' in n:
            raise Unsupported('sizeof')
        ty = self.tp.of(children(n)[0]) if n.get('name') == 'sizeof' else None
        size = {'int': lambda t: int(t.n[1:]) // 8, 'float': lambda t: 8, 'bool': lambda t: 1, 'ptr': lambda t: 8}
        if ty is not None and ty.k == 'arr' and ty.a[0].k in size and str(ty.n).isdigit():
            return V(INT(False, 64), I(int(ty.n) * size[ty.a[0].k](ty.a[0])))
        if ty is not None and ty.k == 'int':
            return V(INT(False, 64), I(size['int'](ty)))
        raise Unsupported('sizeof')

    def e_InitListExpr(self, n, st):
        ty = self.tp.of(n)
        elems = [self.val(st, self.ev(c, st)) for c in children(n)]
        return self.build_list(st, ty, elems)

    def build_list(self, st, ty, elems):
        E = self.E
        if ty.k in ('vec', 'arr'):
            s = E.sort(ty)
            arr = z3.K(IntS, E.default(ty.a[0]))
            for i, e in enumerate(elems):
                arr = z3.Store(arr, I(i), self.coerce(st, e, ty.a[0]).t)
            nlen = int(ty.n) if ty.k == 'arr' else len(elems)
            return V(ty, E.vmk(s, I(nlen), arr))
        if ty.k == 'tup':
            return V(ty, E.sort(ty).constructor(0)(*[self.coerce(st, e, a).t for e, a in zip(elems, ty.a)]))
        if ty.k == 'map' and not elems:
            return V(ty, E.default(ty))
        if ty.k == 'set':
            v = V(ty, E.default(ty))
            for e in elems:
                v = V(ty, self.lib.set_insert(self, v, self.coerce(st, e, ty.a[0]).t))
            return v
        if ty.k == 'map':
            t = E.default(ty)
            for e in elems:
                t = self.lib.map_put(self, V(ty, t), E.rec_get(e.ty, e.t, 'f0'), E.rec_get(e.ty, e.t, 'f1'))
            return V(ty, t)
        if ty.k == 'rec':
            fs = self.prog.all_fields(ty.n)
            vals = [self.coerce(st, e, self.tp.of(f)).t for e, f in zip(elems, fs)]
            vals += [E.default(self.tp.of(f)) for f in fs[len(vals):]]
            return V(ty, E.sort(ty).constructor(0)(*vals))
        if len(elems) == 1:
            return elems[0]
        raise Unsupported('init list of %r' % ty)

    def e_CXXStdInitializerListExpr(self, n, st):
        x = self.val(st, self.ev(children(n)[0], st))
        return x

    def e_DeclRefExpr(self, n, st):
        rd = n.get('referencedDecl', {})
        k = rd.get('kind')
        i = rd.get('id')
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl'):
            for fr in reversed(self.frames):
                if i in fr.names:
                    return fr.names[i]
                if fr.captures is None and fr is not self.frames[-1] and not getattr(fr, 'lexical', False):
                    pass
            return self.global_var(rd, st, n)
        if k == 'EnumConstantDecl':
            ty = self.tp.of(n)
            d = self.prog.ids.get((self.tu(), i))
            if d is not None and '_value' in d:
                return V(ty, I(d['_value']))
            if ty.k == 'enum':
                vs = self.prog.enums.get(ty.n, {})
                if rd['name'] in vs:
                    return V(ty, I(vs[rd['name']]))
            for en, vs in self.prog.enums.items():
                if rd['name'] in vs:
                    return V(ty, I(vs[rd['name']]))
            c = self.E.fn('enumconst_' + rd['name'], IntS)
            return V(ty, c())
        if k in FUNC:
            return FuncV('fn', ref=rd, node=n)
        raise Unsupported('reference to %s' % k)

    def tu(self):
        for fr in reversed(self.frames):
            if fr.func is not None:
                return fr.func.tu
        return None

    def global_var(self, rd, st, n):
        name = rd.get('name')
        d = self.prog.ids.get((self.tu(), rd.get('id')))
        node = None
        if d is not None and d.get('kind') == 'VarDecl':
            q = d.get('_qn', name)
            node = d
            if q in self.prog.globals:
                node = self.prog.globals[q][0]
        else:
            cands = [q for q in self.prog.globals if q.split('::')[-1] == name]
            if len(cands) == 1:
                node = self.prog.globals[cands[0]][0]
        if name in ('cout', 'cerr', 'clog'):
            key = ('g', name)
            if key not in st.env:
                st.env[key] = V(Ty('stream'), self.E.fresh(name, self.E.StrS))
            return LVar(key, Ty('stream'))
        if name == 'npos':
            return V(INT(False, 64), I((1 << 64) - 1))
        if name == 'globalParams':
            self.lib.use(self, 'globalParams is initialised')
            ty = Ty('ptr', [Ty('rec', n='GlobalParams')]) if False else self.tp.parse('GlobalParams *')
            key = ('g', name)
            if key not in self.lazy_globals:
                t = self.E.fresh(name, IntS)
                self.fact(t > 0)
                self.lazy_globals[key] = V(ty, t)
            return LVar(key, ty)
        if node is None:
            raise Unsupported('global %s' % name)
        ty = self.tp.of(node)
        key = ('g', node.get('_qn', name))
        qt = node['type']['qualType']
        isconst = 'const' in qt or node.get('constexpr')
        if key in st.env:
            return LVar(key, ty)
        ch = children(node)
        if isconst and ch:
            if key in self.lazy_globals:
                return LVar(key, ty)
            # evaluate the initialiser in a throwaway frame
            fr = Frame(-1, self.frames[-1].func if self.frames else None, None)

            class F:
                pass
            f = F(); f.tu = node['_tu']; f.name = 'init of ' + name; f.sig = 'void ()'
            fr.func = f
            self.frames.append(fr)
            try:
                v = self.val(st, self.ev(ch[0], st))
                if isinstance(v, V):
                    if ty.k == 'ptr' and v.ty.k == 'str':
                        ty = v.ty
                    elif ty.k == 'arr' and v.ty.k == 'str':
                        ty = v.ty
                    v = self.coerce(st, v, ty)
            finally:
                self.frames.pop()
            self.lazy_globals[key] = v
            return LVar(key, ty)
        v = V(ty, self.havoc_term(st, 'g_' + name, ty))
        self.lazy_globals[key] = v
        return LVar(key, ty)

    # casts ---------------------------------------------------------
    def e_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        sub = children(n)[0]
        if ck in ('LValueToRValue',):
            x = self.ev(sub, st)
            return self.val(st, x)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion',
                  'BuiltinFnToFnPtr', 'AtomicToNonAtomic', 'Dependent'):
            return self.ev(sub, st)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'LValueBitCast'):
            x = self.ev(sub, st)
            if isinstance(x, V) and x.ty.k == 'ptr':
                return V(self.tp.of(n), x.t)
            return x
        x = self.ev(sub, st)
        v = self.val(st, x)
        ty = self.tp.of(n)
        return self.cast(st, v, ty, ck, n)

    def cast(self, st, v, ty, ck, n=None):
        E = self.E
        if ck in ('ToVoid',):
            return V(VOID, I(0))
        if ck == 'NullToPointer':
            return V(ty, I(0))
        if ck == 'PointerToBoolean':
            if isinstance(v, PtrV):
                return V(BOOL, Not(v.null))
            if isinstance(v, LObj):
                return V(BOOL, v.ref != 0)
            return V(BOOL, v.t != 0)
        if ck == 'IntegralToBoolean':
            return V(BOOL, v.t if v.t.sort() == BoolS else v.t != 0)
        if ck == 'FloatingToBoolean':
            return V(BOOL, self.truth(v, st))
        if ck == 'IntegralCast':
            t = v.t
            if t.sort() == BoolS:
                return V(ty, z3.If(t, I(1), I(0)))
            if ty.k == 'bool':
                return V(ty, t != 0)
            return V(ty, self.wrap(t, ty, v.ty))
        if ck == 'IntegralToFloating':
            t = v.t
            if t.sort() == BoolS:
                t = z3.If(t, I(1), I(0))
            return V(ty, E.i2f(t))
        if ck == 'FloatingCast':
            return V(ty, v.t)
        if ck == 'FloatingToIntegral':
            if E.fmode == 'fp':
                r = z3.fpToReal(z3.fpRoundToIntegral(z3.RTZ(), v.t))
                t = z3.ToInt(r)
            else:
                t = z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))
            rng = E.wf(ty, t, None)
            if self.check_overflow:
                self.oblige(st, And(*rng), 'floating value representable in %r' % ty, 'safety')
            return V(ty, t)
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            raise Unsupported('cast %s' % ck)
        if ck == 'Dynamic':
            raise Unsupported('dynamic')
        raise Unsupported('cast kind %s' % ck)

    def wrap(self, t, ty, fromty=None):
        """conversion of an integer to integer type ty (modular)"""
        if ty.k != 'int':
            return t
        b = int(ty.n[1:])
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty.n[0] == 's' else (0, (1 << b) - 1)
        if fromty is not None and fromty.k == 'bool':
            return t
        if fromty is not None and fromty.k == 'int':
            fb = int(fromty.n[1:])
            flo, fhi = (-(1 << (fb - 1)), (1 << (fb - 1)) - 1) if fromty.n[0] == 's' else (0, (1 << fb) - 1)
            if flo >= lo and fhi <= hi:
                return t
            if z3.is_int_value(t) and lo <= t.as_long() <= hi:
                return t
            if flo >= -(1 << b) and fhi <= (1 << b) + hi:
                m = 1 << b
                return z3.If(t > hi, t - m, z3.If(t < lo, t + m, t))
        if z3.is_int_value(t):
            x = t.as_long()
            m = 1 << b
            x = x % m
            if x > hi:
                x -= m
            return I(x)
        m = 1 << b
        r = t % m
        return z3.If(z3.And(t >= lo, t <= hi), t, z3.If(r > hi, r - m, r))

    def arith(self, st, op, a, b, ty, line=None):
        """integer arithmetic with C++ semantics"""
        E = self.E
        if op == '+':
            t = a + b
        elif op == '-':
            t = a - b
        elif op == '*':
            t = a * b
        elif op in ('/', '%'):
            self.oblige(st, b != 0, 'no division by zero', 'safety')
            self.fact(b != 0, st)
            if ty.n and ty.n[0] == 'u':
                t = a / b if op == '/' else a % b
            else:
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
                t = q if op == '/' else a - b * q
        elif op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(st, op, a, b, ty)
        else:
            raise Unsupported('int op ' + op)
        b_ = int(ty.n[1:])
        if z3.is_int_value(z3.simplify(t)):
            t = z3.simplify(t)
        if ty.n[0] == 'u':
            if op in ('/', '%'):
                return t
            m = 1 << b_
            if op == '+':
                return t if z3.is_int_value(t) and t.as_long() < m else z3.If(t >= m, t - m, t)
            if op == '-':
                return t if z3.is_int_value(t) and t.as_long() >= 0 else z3.If(t < 0, t + m, t)
            return t % m
        lo, hi = -(1 << (b_ - 1)), (1 << (b_ - 1)) - 1
        if z3.is_int_value(t) and lo <= t.as_long() <= hi:
            return t
        if self.check_overflow:
            self.oblige(st, z3.And(t >= lo, t <= hi), 'no signed overflow in %s' % op, 'safety')
        self.fact(z3.And(t >= lo, t <= hi), st)
        return t

    def bitop(self, st, op, a, b, ty):
        if op == '<<' and z3.is_int_value(b):
            return self.wrap(a * (1 << b.as_long()), ty)
        if op == '>>' and z3.is_int_value(b):
            return a / (1 << b.as_long())
        if op == '&' and z3.is_int_value(b):
            m = b.as_long()
            if m >= 0 and (m & (m + 1)) == 0:
                return a % (m + 1)
        f = self.E.fn('bit_' + {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}[op], IntS, IntS, IntS)
        t = f(a, b)
        for w in self.E.wf(ty, t, None):
            self.fact(w)
        return t

    def e_CStyleCastExpr(self, n, st):
        ck = n.get('castKind')
        if ck == 'ToVoid':
            self.ev(children(n)[0], st)
            return V(VOID, I(0))
        return self.e_CXXStaticCastExpr(n, st)

    def e_CXXStaticCastExpr(self, n, st):
        ck = n.get('castKind')
        x = self.ev(children(n)[0], st)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
            return x
        if ck in ('BaseToDerived', 'DerivedToBase', 'UncheckedDerivedToBase', 'BitCast'):
            if isinstance(x, V) and x.ty.k == 'ptr':
                return V(self.tp.of(n), x.t)
            return x
        if ck == 'LValueToRValue':
            return self.val(st, x)
        return self.cast(st, self.val(st, x), self.tp.of(n), ck, n)

    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr

    def e_CXXConstCastExpr(self, n, st):
        return self.ev(children(n)[0], st)

    def e_CXXReinterpretCastExpr(self, n, st):
        x = self.val(st, self.ev(children(n)[0], st))
        if isinstance(x, V) and x.ty.k == 'ptr' and self.tp.of(n).k == 'ptr':
            return V(self.tp.of(n), x.t)
        raise Unsupported('reinterpret_cast')

    def e_CXXDynamicCastExpr(self, n, st):
        v = self.val(st, self.ev(children(n)[0], st))
        ty = self.tp.of(n)
        target = ty.a[0].n
        return V(ty, z3.If(And(v.t != 0, self.is_kind(v.t, target)), v.t, I(0)))

    def is_kind(self, ref, cname):
        """dynamic type test: dyn(ref) is one of the subclasses of cname"""
        dyn = self.E.fn('dyntype', IntS, IntS)
        subs = [c for c in self.prog.classes if cname in self.prog.base_chain(c)]
        ids = sorted(self.class_id(c) for c in subs)
        return Or(*[dyn(ref) == i for i in ids])

    def class_id(self, c):
        return sorted(self.prog.classes).index(c) + 1

    # operators -----------------------------------------------------
    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = children(n)[0]
        if op == '&':
            x = self.ev(sub, st)
            if isinstance(x, LObj):
                return V(Ty('ptr', [x.ty]), x.ref)
            if isinstance(x, LVS):
                return PtrV(x, FALSE, self.tp.of(n))
            if isinstance(x, FuncV):
                return x
            raise Unsupported('address of temporary')
        if op == '*':
            x = self.val(st, self.ev(sub, st))
            return self.deref(st, x, self.tp.of(n))
        if op == '!':
            return V(BOOL, Not(self.truth(self.ev(sub, st), st)))
        if op in ('++', '--'):
            lv = self.ev(sub, st)
            v = self.read(st, lv)
            if isinstance(v, IterV):
                nv = IterV(v.lv, v.idx + (1 if op == '++' else -1), v.ty, v.rev)
            elif v.ty.k == 'float':
                nv = V(v.ty, self.E.fop(op[0], v.t, self.E.fval(1.0)))
            elif v.ty.k == 'int':
                nv = V(v.ty, self.arith(st, op[0], v.t, I(1), v.ty))
            else:
                raise Unsupported('++ on %r' % v.ty)
            self.write(st, lv, nv)
            return v if n.get('isPostfix') else lv
        v = self.val(st, self.ev(sub, st))
        if op == '-':
            if v.ty.k == 'float':
                if z3.is_rational_value(v.t):
                    return V(v.ty, z3.simplify(-v.t))
                return V(v.ty, self.E.fneg(v.t))
            return V(v.ty, self.arith(st, '-', I(0), v.t, v.ty))
        if op == '+':
            return v
        if op == '~':
            return V(v.ty, self.wrap(-v.t - 1, v.ty))
        raise Unsupported('unary ' + op)

    def deref(self, st, x, ty):
        if isinstance(x, PtrV):
            if x.lv is None:
                self.oblige(st, FALSE, 'no null dereference', 'safety')
                raise Unsupported('deref of null pointer value')
            if not z3.is_false(x.null):
                self.oblige(st, Not(x.null), 'no null dereference', 'safety')
                self.fact(Not(x.null), st)
            return x.lv
        if isinstance(x, IterV):
            return self.lib.iter_deref(self, st, x)
        if isinstance(x, V) and x.ty.k == 'ptr':
            self.require_nonnull(st, x.t, '*')
            t = x.ty.a[0]
            if t.k == 'void':
                t = ty
            return LObj(x.t, t)
        if isinstance(x, LObj):
            return x
        raise Unsupported('deref %r' % (x,))

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        l, r = children(n)
        if op == '=':
            rv = self.ev(r, st)
            lv = self.ev(l, st)
            v = self.val(st, rv)
            if isinstance(v, V) and getattr(lv, 'ty', None) is not None and lv.ty.k != 'opq':
                v = self.fit(st, v, lv.ty)
            self.write(st, lv, v)
            return lv
        if op == ',':
            self.ev(l, st)
            return self.ev(r, st)
        if op in ('&&', '||'):
            a = self.truth(self.ev(l, st), st)
            a = self.name_cond(st, a)
            if (op == '&&' and z3.is_false(a)) or (op == '||' and z3.is_true(a)):
                return V(BOOL, a)
            g = a if op == '&&' else Not(a)
            s2 = st.copy(); s2.pc = And(st.pc, g)
            p2 = s2.pc
            b = self.truth(self.ev(r, s2), s2)
            if not s2.pc.eq(p2):
                # evaluation of the right operand ended some paths
                s1 = st.copy(); s1.pc = And(st.pc, Not(g))
                m = self.merge(g, s2, s1, None)
                st.become(m)
            elif self.changed(st, s2):
                s1 = st.copy()
                m = self.merge(g, s2, s1, st.pc)
                st.become(m)
            return V(BOOL, And(a, b) if op == '&&' else Or(a, b))
        a = self.val(st, self.ev(l, st))
        b = self.val(st, self.ev(r, st))
        return self.binop(st, op, a, b, self.tp.of(n), n)

    def changed(self, a, b):
        if len(a.env) != len(b.env) or not a.alloc.eq(b.alloc):
            return True
        for k, v in b.env.items():
            if a.env.get(k) is not v:
                return True
        for k, v in b.heap.items():
            if k not in a.heap:
                a.heap[k] = self.entry_heap[k]
            if not a.heap[k].eq(v):
                return True
        return False

    CMP = ('<', '<=', '>', '>=', '==', '!=')

    def binop(self, st, op, a, b, ty, n=None):
        E = self.E
        if op in self.CMP:
            return V(BOOL, self.compare(st, op, a, b))
        if isinstance(a, IterV) or isinstance(b, IterV):
            return self.lib.iter_arith(self, st, op, a, b)
        if a.ty.k == 'float' or b.ty.k == 'float':
            x = a.t if a.ty.k == 'float' else self.coerce(st, a, b.ty).t
            y = b.t if b.ty.k == 'float' else self.coerce(st, b, a.ty).t
            if op == '/' and E.fmode == 'real':
                pass
            return V(DOUBLE, E.fop(op, x, y))
        if ty.k == 'bool' and op in ('&', '|', '^'):
            x, y = self.truth(a, st), self.truth(b, st)
            return V(BOOL, {'&': And(x, y), '|': Or(x, y), '^': z3.Xor(x, y)}[op])
        if ty.k == 'int':
            x = a.t if a.t.sort() == IntS else self.coerce(st, a, INT()).t
            y = b.t if b.t.sort() == IntS else self.coerce(st, b, INT()).t
            return V(ty, self.arith(st, op, x, y, ty))
        raise Unsupported('binop %s on %r,%r' % (op, a.ty, b.ty))

    def compare(self, st, op, a, b):
        E = self.E
        if isinstance(a, LObj) or isinstance(b, LObj):
            raise Unsupported('object comparison')
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, PtrV) and isinstance(y, V) and z3.is_int_value(y.t) and y.t.as_long() == 0:
                    return x.null if op == '==' else Not(x.null)
            raise Unsupported('pointer comparison')
        if isinstance(a, IterV) and isinstance(b, IterV):
            if not lv_same(a.lv, b.lv):
                raise Unsupported('iterators into different containers')
            return self.lib.iter_cmp(self, st, op, a, b)
        if a.ty.k == 'float' or b.ty.k == 'float':
            x = a.t if a.ty.k == 'float' else self.coerce(st, a, b.ty).t
            y = b.t if b.ty.k == 'float' else self.coerce(st, b, a.ty).t
            return E.fcmp(op, x, y)
        x, y = a.t, b.t
        if x.sort() != y.sort():
            if x.sort() == BoolS:
                x = z3.If(x, I(1), I(0))
            if y.sort() == BoolS:
                y = z3.If(y, I(1), I(0))
        if op == '==':
            return x == y if not x.eq(y) else TRUE
        if op == '!=':
            return x != y
        if x.sort() == IntS:
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        raise Unsupported('compare %r' % a.ty)

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        l, r = children(n)
        rv = self.val(st, self.ev(r, st))
        lv = self.ev(l, st)
        a = self.read(st, lv)
        cty = self.tp.parse(n.get('computeResultType', n['type']).get('desugaredQualType', n.get('computeResultType', n['type'])['qualType']))
        if a.ty.k == 'int' and rv.ty.k == 'float':
            res = self.binop(st, op, self.coerce(st, a, DOUBLE), rv, DOUBLE)
            res = self.cast(st, res, a.ty, 'FloatingToIntegral')
        elif a.ty.k == 'float':
            res = self.binop(st, op, a, rv, DOUBLE)
        elif a.ty.k == 'bool':
            res = self.binop(st, op, a, rv, BOOL if cty.k == 'bool' else BOOL)
        else:
            ra = V(cty, self.wrap(a.t, cty, a.ty)) if cty.k == 'int' else a
            rb = V(cty, self.wrap(rv.t, cty, rv.ty)) if cty.k == 'int' and rv.ty.k == 'int' else rv
            res = self.binop(st, op, ra, rb, cty)
            res = V(a.ty, self.wrap(res.t, a.ty, cty))
        self.write(st, lv, res)
        return lv

    def e_ConditionalOperator(self, n, st):
        c, a, b = children(n)
        t = self.truth(self.ev(c, st), st)
        t = self.name_cond(st, t)
        if z3.is_true(t):
            return self.ev(a, st)
        if z3.is_false(t):
            return self.ev(b, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = And(st.pc, t); s2.pc = And(st.pc, Not(t))
        p1, p2 = s1.pc, s2.pc
        x = self.ev(a, s1)
        y = self.ev(b, s2)
        if s1.dead and s2.dead:
            st.become(s1)
            return V(VOID, I(0))
        if s1.dead:
            st.become(s2)
            return y
        if s2.dead:
            st.become(s1)
            return x
        xv, yv = self.val(s1, x), self.val(s2, y)
        same = s1.pc.eq(p1) and s2.pc.eq(p2)
        m = self.merge(t, s1, s2, st.pc if same else None)
        st.become(m)
        if isinstance(xv, V) and isinstance(yv, V) and xv.ty.k == 'void':
            return xv
        if isinstance(xv, V) and isinstance(yv, V) and xv.t.sort() != yv.t.sort():
            ty = self.tp.of(n)
            xv, yv = self.coerce(st, xv, ty), self.coerce(st, yv, ty)
        r = self.merge_val(t, xv, yv)
        if isinstance(r, Conflict):
            raise Unsupported('conditional of incompatible values')
        return r

    def e_ArraySubscriptExpr(self, n, st):
        b, i = children(n)
        base = self.ev(b, st)
        idx = self.val(st, self.ev(i, st))
        if isinstance(base, LVS):
            v = self.read(st, base)
            if isinstance(v, V) and v.ty.k in ('arr', 'vec', 'str'):
                ety = v.ty.a[0] if v.ty.k != 'str' else elem_of_str(v.ty)
                n0 = self.E.vlen(v.t) if v.ty.k != 'str' else self.E.slen(v.t)
                self.oblige(st, And(idx.t >= 0, idx.t < n0), 'array index in bounds', 'safety')
                return LIndex(base, idx.t, ety)
        if isinstance(base, V) and base.ty.k in ('arr', 'str'):
            tmp = LTemp(base, base.ty)
            ety = base.ty.a[0] if base.ty.k == 'arr' else elem_of_str(base.ty)
            n0 = self.E.vlen(base.t) if base.ty.k == 'arr' else self.E.slen(base.t)
            self.oblige(st, And(idx.t >= 0, idx.t < n0), 'array index in bounds', 'safety')
            return LIndex(tmp, idx.t, ety)
        if isinstance(base, LVS):
            base = self.val(st, base)
        if isinstance(base, V) and base.ty.k == 'ptr' and base.ty.a[0].k in ('int', 'float'):
            # memory behind a pointer a library returned: a function of the pointer and the index
            self.lib.use(self, 'memory behind pointers to numbers the library returns is readable and does not change')
            ety = base.ty.a[0]
            return V(ety, self.E.fn('mem_' + ety.k, IntS, IntS, self.E.sort(ety))(base.t, idx.t))
        raise Unsupported('array subscript')

    def e_MemberExpr(self, n, st):
        sub = children(n)[0]
        name = n.get('name')
        x = self.ev(sub, st)
        d = self.prog.ids.get((self.tu(), n.get('referencedMemberDecl')))
        if d is not None and d.get('kind') == 'VarDecl':      # static member
            return self.global_var({'name': name, 'id': n.get('referencedMemberDecl')}, st, n)
        if n.get('isArrow'):
            x = self.val(st, x)
            base = self.deref(st, x, None) if not isinstance(x, LObj) else x
        else:
            base = x
        return self.member(st, base, d, name, n)

    def member(self, st, base, d, name, n):
        if isinstance(base, V):
            base = LTemp(base, base.ty)
        if isinstance(base, LObj):
            if d is None or d.get('kind') != 'FieldDecl':
                f = self.find_field(base.ty.n if base.ty.k == 'rec' else None, name)
                if f is None:
                    raise Unsupported('unknown member %s of %r' % (name, base.ty))
                d = f
            ty = self.tp.of(d)
            if ty.k == 'rec' and self.fieldkey(d) in getattr(self.root_spec, 'embedded', ()):
                return LObj(self.emb(self.fieldkey(d), base.ref), ty)
            if ty.k in ('ref',) and ty.a[0].k == 'rec':
                raise Unsupported('reference member')
            return LHeap(self.fieldkey(d), base.ref, ty)
        v = self.read(st, base)
        if isinstance(v, LObj):
            return self.member(st, v, d, name, n)
        if v.ty.k == 'tup' and name in ('first', 'second'):
            i = 0 if name == 'first' else 1
            return LField(base, 'f%d' % i, v.ty.a[i])
        if v.ty.k == 'rec':
            f = self.find_field(v.ty.n, name)
            if f is not None:
                return LField(base, self.fieldkey(f), self.tp.of(f))
            if name == 'c':
                sp = self.E.rec_special(v.ty.n)
                if sp:
                    return LField(base, '@base', sp[0][1])
        raise Unsupported('member %s of %r' % (name, v.ty))

    def find_field(self, cname, name):
        if cname is None:
            return None
        for f in self.prog.all_fields(cname):
            if f['name'] == name:
                return f
        return None

    # calls ---------------------------------------------------------
    def callee(self, n):
        """strip casts off a callee expression"""
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') or (n.get('kind') == 'UnaryOperator' and n.get('opcode') in ('&', '*')):
            n = children(n)[0]
        return n

    def find_func(self, rd):
        """declaration reference -> Func with a body in the loaded program (None if external)"""
        i = rd.get('id')
        d = self.prog.ids.get((self.tu(), i))
        if d is not None and d.get('mangledName') in self.prog.funcs:
            return self.prog.funcs[d['mangledName']], d
        return None, d

    def e_CallExpr(self, n, st):
        cs = children(n)
        c = self.callee(cs[0])
        args = cs[1:]
        if c.get('kind') == 'DeclRefExpr':
            rd = c['referencedDecl']
            if rd.get('kind') in ('VarDecl', 'ParmVarDecl'):
                fv = self.val(st, self.ev(c, st))
                return self.call_funcv(st, fv, self.evs(st, args), n)
            f, d = self.find_func(rd)
            if f is not None:
                return self.call_func(st, f, None, self.ev_args(st, f, args), n)
            name = rd.get('name')
            qn = d.get('_qn') if d else None
            if qn:
                sp = self.specs.get(qn, d)
                if sp is not None:
                    return self.call_spec(st, sp, None, self.evs(st, args), n, d)
            return self.lib.call(self, st, name, args, n, rd)
        if c.get('kind') == 'CXXPseudoDestructorExpr':
            return V(VOID, I(0))
        if c.get('kind') == 'LambdaExpr':
            fv = self.ev(c, st)
            return self.call_funcv(st, fv, self.evs(st, args), n)
        if c.get('kind') == 'MemberExpr':
            f, d = self.find_func({'id': c.get('referencedMemberDecl')})
            if f is not None and f.static:
                return self.call_func(st, f, None, self.ev_args(st, f, args), n)
            fv = self.val(st, self.ev(c, st))
            return self.call_funcv(st, fv, self.evs(st, args), n)
        raise Unsupported('call of %s' % c.get('kind'))

    def evs(self, st, args):
        """evaluate arguments; default arguments the AST only references are filled in by the callee side"""
        args = list(args)
        while args and args[-1].get('kind') == 'CXXDefaultArgExpr' and not children(args[-1]):
            args.pop()
        return [self.ev(a, st) for a in args]

    def default_arg(self, st, decl, i):
        d = self.prog.defaults.get((decl.get('mangledName'), i))
        if d is None:
            raise Unsupported('default argument %d of %s' % (i, decl.get('name')))
        class F:
            pass
        fr = Frame(-1, None, None)
        fr.func = F(); fr.func.tu = d[1]; fr.func.name = 'default argument'; fr.func.sig = 'void ()'
        self.frames.append(fr)
        try:
            return self.ev(d[0], st)
        finally:
            self.frames.pop()

    def ev_args(self, st, f, args):
        return self.evs(st, args)

    def call_funcv(self, st, fv, args, n):
        if not isinstance(fv, FuncV):
            raise Unsupported('call of %r' % (fv,))
        if fv.kind == 'lambda':
            return self.inline(st, fv.func, fv.this, args, n, captures=fv.frame)
        if fv.kind == 'fn':
            f, d = self.find_func(fv.ref)
            if f is not None:
                return self.call_func(st, f, None, args, n)
            raise Unsupported('call through function reference %s' % fv.ref.get('name'))
        if fv.kind == 'spec':
            return self.call_spec(st, fv.spec, None, args, n, None)
        if fv.kind == 'bind':
            return fv.call(self, st, args, n)
        raise Unsupported('call of function object')

    def e_LambdaExpr(self, n, st):
        # inner: CXXRecordDecl (with operator()), captures..., body
        rec = children(n)[0]
        op = None
        for c in children(rec):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
            if c.get('kind') == 'FunctionTemplateDecl':
                for q in children(c):
                    if q.get('kind') == 'CXXMethodDecl' and any(z.get('kind') == 'CompoundStmt' for z in children(q)):
                        op = op or q
        if op is None:
            raise Unsupported('lambda')
        from .cast import Func
        f = Func()
        f.name = 'lambda'; f.node = op; f.cls = None; f.tu = self.tu(); f.mangled = 'lambda%s' % n.get('id'); f.kind = 'CXXMethodDecl'
        f.params = [x for x in children(op) if x.get('kind') == 'ParmVarDecl']
        f.inits = []
        f.body = next(x for x in children(op) if x.get('kind') == 'CompoundStmt')
        f.sig = op['type']['qualType']
        f.static = False
        this = None
        for fr in reversed(self.frames):
            if fr.this is not None:
                this = fr.this
                break
        # by-copy captures see the value at creation; reject if that could differ (captured by copy and mutable later)
        return FuncV('lambda', func=f, this=this, frame=self.frames[-1])

    def e_CXXMemberCallExpr(self, n, st):
        cs = children(n)
        me = cs[0]
        while me.get('kind') == 'ParenExpr':
            me = children(me)[0]
        args = cs[1:]
        if me.get('kind') != 'MemberExpr':
            raise Unsupported('member call through %s' % me.get('kind'))
        name = me.get('name')
        d = self.prog.ids.get((self.tu(), me.get('referencedMemberDecl')))
        # logging is dropped before its operand is evaluated
        if d is not None and d.get('_cls') == 'Logger' and name in ('trace', 'debug', 'info', 'warn', 'error'):
            for a in args:
                if not self.lib.pure(self, a):
                    raise Unsupported('logging call with side effects')
            self.dropped_logging += 1
            return DROPPED
        base_e = children(me)[0]
        x = self.ev(base_e, st)
        if x is DROPPED:
            return DROPPED
        if name == 'base' and not args:
            it = self.val(st, x)
            if isinstance(it, IterV) and it.rev:
                return IterV(it.lv, z3.simplify(self.lib.seq_len(self, self.read(st, it.lv)) - it.idx), it.ty)
        if me.get('isArrow'):
            xv = self.val(st, x)
            if isinstance(xv, V) and xv.ty.k == 'ptr':
                if not self.is_this(base_e):
                    self.require_nonnull(st, xv.t, '->' + str(name))
                base = LObj(xv.t, xv.ty.a[0])
            elif isinstance(xv, LObj):
                base = xv
            else:
                base = self.deref(st, xv, None)
        else:
            base = x
        if isinstance(base, (V, IterV, FuncV)):
            base = LTemp(base, getattr(base, 'ty', None))
        if d is not None and d.get('kind') in FUNC:
            f = self.prog.funcs.get(d.get('mangledName'))
            if f is not None:
                vf = self.virtual_targets(d, f)
                this = self.this_of(st, base)
                if f.static:
                    this = None
                return self.call_func(st, f, this, self.evs(st, args), n)
            sp = self.specs.get(d.get('_qn'), d)
            if sp is not None:
                return self.call_spec(st, sp, self.this_of(st, base), self.evs(st, args), n, d)
        if d is None:
            bt = self.tp.of(base_e)
            while bt.k in ('ptr', 'ref', 'rref'):
                bt = bt.a[0]
            if bt.k == 'rec' and bt.n in self.prog.classes:
                f = self.prog.method_by_class(bt.n, name, len(args))
                if f is not None:
                    return self.call_func(st, f, self.this_of(st, base), self.evs(st, args), n)
        return self.lib.method(self, st, base, name, args, n, me, d)

    def virtual_targets(self, d, f):
        return None

    def is_this(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            n = children(n)[0]
        return n.get('kind') == 'CXXThisExpr'

    def this_of(self, st, base):
        v = self.read(st, base) if not isinstance(base, (LObj,)) else base
        if isinstance(v, LObj):
            return V(Ty('ptr', [v.ty]), v.ref)
        return PtrV(base, FALSE, Ty('ptr', [base.ty]))

    def e_CXXOperatorCallExpr(self, n, st):
        cs = children(n)
        c = self.callee(cs[0])
        rd = c.get('referencedDecl', {})
        op = rd.get('name', '')
        args = cs[1:]
        if op == 'operator<<':
            x = self.ev(args[0], st)
            if x is DROPPED:
                for a in args[1:]:
                    if not self.lib.pure(self, a):
                        raise Unsupported('logging operand with side effects')
                return DROPPED
            f, d = self.find_func(rd)
            if f is not None:
                return self.call_func(st, f, None, [x] + self.evs(st, args[1:]), n)
            return self.lib.stream_out(self, st, x, args[1], n)
        f, d = self.find_func(rd)
        if f is None and d is not None and d.get('_qn'):
            sp = self.specs.get(d.get('_qn'), d)
        if f is not None:
            if f.kind == 'CXXMethodDecl' and not f.static:
                b = self.ev(args[0], st)
                if isinstance(b, (V, IterV, FuncV)):
                    b = LTemp(b, getattr(b, 'ty', None))
                return self.call_func(st, f, self.this_of(st, b), self.evs(st, args[1:]), n)
            return self.call_func(st, f, None, self.evs(st, args), n)
        return self.lib.oper(self, st, op, args, n)

    def e_CXXConstructExpr(self, n, st):
        ty = self.tp.of(n)
        args = children(n)
        if ty.k == 'rec':
            return self.construct_rec(st, ty, args, n)
        return self.lib.construct(self, st, ty, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def find_ctor(self, cname, ctor_type):
        want = shorten_type(ctor_type).replace(' noexcept', '')
        qn_end = '::%s::%s' % (cname, cname.split('<')[0])
        for m, f in self.prog.funcs.items():
            if f.kind == 'CXXConstructorDecl' and f.cls == cname:
                if shorten_type(f.sig).replace(' noexcept', '') == want:
                    return f
        return None

    def construct_rec(self, st, ty, args, n):
        """construct a class object as a value"""
        f = self.find_ctor(ty.n, n.get('ctorType', {}).get('qualType', 'void ()'))
        vals = self.evs(st, args)
        if f is None:
            if len(vals) == 1:      # implicit copy/move
                v = self.val(st, vals[0])
                if isinstance(v, LObj):
                    return self.coerce(st, v, ty)
                if isinstance(v, V) and v.ty.k == 'rec':
                    return v
            if not vals:
                return self.default_init_rec(st, ty)
            raise Unsupported('constructor of %s' % ty.n)
        key = ('tmp', self.nframe, n.get('id'))
        self.nframe += 1
        lv = LVar(key, ty)
        st.env[key] = V(ty, self.E.fresh('obj', self.E.sort(ty)))
        self.note_write(('v', key))
        self.run_ctor(st, f, PtrV(lv, FALSE, Ty('ptr', [ty])), vals, n)
        return st.env.pop(key)

    def default_init_rec(self, st, ty):
        key = ('tmp', self.nframe, 'def')
        self.nframe += 1
        lv = LVar(key, ty)
        st.env[key] = V(ty, self.E.default(ty))
        self.default_members(st, ty.n, PtrV(lv, FALSE, Ty('ptr', [ty])))
        return st.env.pop(key)

    def emb(self, fk, owner):
        """the object embedded in a field of another object"""
        t = self.E.fn('emb_' + fk, IntS, IntS)(owner)
        if not self.dry and t.get_id() not in self._emb_seen:
            self._emb_seen.add(t.get_id())
            self.fact(And(t > 0, t < self.alloc0))
        return t

    def this_field(self, st, this, f):
        ty = self.tp.of(f)
        fk = self.fieldkey(f)
        if isinstance(this, PtrV):
            return LField(this.lv, fk, ty)
        return LHeap(fk, this.t, ty)

    def default_members(self, st, cname, this, given=()):
        """in-class initialisers / default construction of the members of an implicit constructor"""
        c = self.prog.classes.get(cname)
        if c is None:
            return
        for b in c.bases:
            if b in self.prog.classes:
                f = self.find_ctor(b, 'void ()')
                if f is not None:
                    self.run_ctor(st, f, this, [], None)
                else:
                    self.default_members(st, b, this)
        for fd in c.fields:
            if fd['id'] in given:
                continue
            self.init_field(st, this, fd)

    def init_field(self, st, this, fd):
        ty = self.tp.of(fd)
        lv = self.this_field(st, this, fd)
        ch = [x for x in children(fd) if not x.get('kind', '').endswith('Attr') and x.get('kind') != 'FullComment']
        if fd.get('hasInClassInitializer') and ch:
            class F:
                pass
            f = F(); f.tu = fd['_tu']; f.name = 'default initialiser of ' + fd['name']; f.sig = 'void ()'
            fr = Frame(-1, f, this)
            self.frames.append(fr)
            try:
                v = self.val(st, self.ev(ch[0], st))
            finally:
                self.frames.pop()
            if isinstance(v, V):
                v = self.fit(st, v, ty)
            self.write(st, lv, v)
        elif ty.k in ('vec', 'map', 'set', 'str', 'stream', 'tup'):
            self.write(st, lv, V(ty, self.E.default(ty)))
        elif ty.k == 'rec':
            f = self.find_ctor(ty.n, 'void ()')
            self.write(st, lv, self.default_init_rec(st, ty) if f is None else self.construct_rec(st, ty, [], {'ctorType': {'qualType': 'void ()'}, 'id': 'm'}))
        elif ty.k in ('int', 'bool', 'float', 'enum', 'ptr', 'arr'):
            self.write(st, lv, V(ty, self.havoc_term(st, 'uninit_' + fd['name'], ty)))
        # other (opaque) members: left arbitrary

    def run_ctor(self, st, f, this, args, n):
        if len(self.frames) > self.MAXDEPTH:
            raise Unsupported('constructor nesting')
        self.inlined.add(f.name)
        self.nframe += 1
        fr = Frame(self.nframe, f, this)
        fr.callsite = n.get('id') if n else 'c'
        self.bind_params(st, fr, f, args)
        self.frames.append(fr)
        try:
            done = set()
            seen_bases = set()
            for ini in f.inits:
                if 'baseInit' in ini:
                    bt = shorten_type(ini['baseInit'].get('desugaredQualType', ini['baseInit']['qualType']))
                    seen_bases.add(bt)
                    e = children(ini)[0]
                    while e.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr'):
                        e = children(e)[0]
                    if bt in self.prog.classes:
                        bf = self.find_ctor(bt, e.get('ctorType', {}).get('qualType', 'void ()'))
                        bargs = [self.ev(a, st) for a in children(e)]
                        if bf is not None:
                            self.run_ctor(st, bf, this, bargs, e)
                        elif not bargs:
                            self.default_members(st, bt, this)
                        else:
                            raise Unsupported('base constructor of %s' % bt)
                    else:
                        sp = self.E.rec_special(f.cls)
                        if sp and isinstance(this, PtrV):
                            self.write(st, LField(this.lv, '@base', sp[0][1]), V(sp[0][1], self.E.default(sp[0][1])))
                elif 'anyInit' in ini:
                    fd = self.prog.ids.get((f.tu, ini['anyInit']['id']))
                    if fd is None:
                        fd = self.find_field(f.cls, ini['anyInit']['name'])
                    if fd is None:
                        raise Unsupported('member initialiser')
                    done.add(fd['id'])
                    e = children(ini)[0] if children(ini) else None
                    if e is None or e.get('kind') == 'CXXDefaultInitExpr':
                        self.init_field(st, this, fd)
                    else:
                        ty = self.tp.of(fd)
                        if ty.k in ('opq', 'ref') :
                            continue
                        v = self.val(st, self.ev(e, st))
                        if isinstance(v, V):
                            v = self.fit(st, v, ty)
                        elif isinstance(v, FuncV):
                            continue
                        self.write(st, self.this_field(st, this, fd), v)
            # members without an initialiser stay arbitrary: they get a fresh value
            c = self.prog.classes.get(f.cls)
            if c:
                for fd in c.fields:
                    if fd['name'] not in {self_ini_name(i) for i in f.inits}:
                        ty = self.tp.of(fd)
                        if ty.k in ('int', 'bool', 'float', 'enum', 'ptr', 'arr') and not isinstance(this, PtrV):
                            self.write(st, self.this_field(st, this, fd), V(ty, self.havoc_term(st, 'uninit_' + fd['name'], ty)))
            r = self.exec(f.body, st)
            ends = r.pop('n', []) + r.pop('r', [])
            self.note_throws(r)
            m = self.merge_exits(ends)
            if m is None:
                st.pc = FALSE
            else:
                st.become(m)
        finally:
            self.frames.pop()

    def note_throws(self, r):
        for s in r.get('t', []):
            self.throws.append(s)
        for k in r:
            if k not in ('t',) and r[k]:
                raise Unsupported('stray %s exit' % k)

    def e_CXXNewExpr(self, n, st):
        ty = self.tp.of(n)
        if n.get('isArray'):
            raise Unsupported('new[]')
        obj = ty.a[0]
        if obj.k != 'rec':
            raise Unsupported('new of %r' % obj)
        ctor = None
        for c in children(n):
            if c.get('kind') == 'CXXConstructExpr':
                ctor = c
        return self.new_object(st, ty, ctor)

    def new_object(self, st, ty, ctor):
        obj = ty.a[0]
        ref = st.alloc
        r2 = self.E.fresh('new_' + obj.n, IntS)
        self.fact(r2 == ref, None, 'fresh object')
        st.alloc = r2 + 1
        self.note_write(('a', 'alloc'))
        dyn = self.E.fn('dyntype', IntS, IntS)
        self.fact(dyn(r2) == self.class_id(obj.n), st, 'dynamic type')
        this = V(ty, r2)
        if ctor is None:
            self.default_members(st, obj.n, this)
        else:
            f = self.find_ctor(obj.n, ctor.get('ctorType', {}).get('qualType', 'void ()'))
            args = [self.ev(a, st) for a in children(ctor)]
            if f is None:
                if obj.n == 'Logger':
                    pass
                elif args:
                    if len(args) == 1 and isinstance(self.val(st, args[0]), LObj):
                        self.write(st, LObj(r2, obj), self.val(st, args[0]))
                    else:
                        raise Unsupported('constructor of %s' % obj.n)
                else:
                    self.default_members(st, obj.n, this)
            else:
                self.run_ctor(st, f, this, args, ctor)
        return V(ty, r2)

    def e_CXXDeleteExpr(self, n, st):
        x = self.val(st, self.ev(children(n)[0], st))
        self.lib.delete(self, st, x)
        return V(VOID, I(0))

    def e_CXXThrowExpr(self, n, st):
        s = st.copy()
        if not self.dry:
            self.throws.append(s)
        st.pc = FALSE
        return V(VOID, I(0))

    # inlining and contracts ----------------------------------------
    def bind_params(self, st, fr, f, args):
        for i, p in enumerate(f.params):
            ty = self.tp.of(p)
            if i < len(args):
                a = args[i]
            else:
                a = self.default_arg(st, f.node, i)
            key = (fr.fid, p.get('name', 'p%d' % i), p['id'])
            if ty.k in ('ref', 'rref'):
                if isinstance(a, LVS) and not isinstance(a, LTemp):
                    fr.names[p['id']] = a
                    continue
                if isinstance(a, LTemp):
                    a = a.v
                if isinstance(a, V) and a.ty.k != 'opq':
                    a = self.fit(st, a, ty.a[0])
                st.env[key] = a
                self.note_write(('v', key))
                fr.names[p['id']] = LVar(key, ty.a[0])
                continue
            v = self.val(st, a)
            if isinstance(v, V):
                v = self.fit(st, v, ty)
            elif isinstance(v, LObj) and ty.k == 'rec':
                v = self.coerce(st, v, ty)
            st.env[key] = v
            self.note_write(('v', key))
            fr.names[p['id']] = LVar(key, ty)

    def call_func(self, st, f, this, args, n):
        sp = self.specs.for_func(f)
        if sp is not None and not (sp is self.root_spec and getattr(sp, 'inline_self', False)):
            if not (self.root_spec is not None and sp.name in getattr(self.root_spec, 'inline', ())):
                return self.call_spec(st, sp, this, args, n, f.node)
        return self.inline(st, f, this, args, n)

    def inline(self, st, f, this, args, n, captures=None):
        if len(self.frames) > self.MAXDEPTH or sum(1 for fr in self.frames if fr.func is f) > 2:
            raise Unsupported('recursive call of %s without a contract' % f.name)
        if f.kind != 'lambda':
            self.inlined.add(f.name)
        self.nframe += 1
        fr = Frame(self.nframe, f, this)
        fr.callsite = n.get('id') if n else '?'
        fr.captures = captures
        if captures is not None:
            fr.names.update(captures.names)
        self.bind_params(st, fr, f, args)
        self.frames.append(fr)
        try:
            r = self.exec(f.body, st)
        finally:
            self.frames.pop()
        ends = r.pop('n', []) + r.pop('r', [])
        self.note_throws(r)
        m = self.merge_exits(ends)
        if m is None:
            st.pc = FALSE
            rt = self.ret_type(fr)
            return V(rt, self.E.default(rt)) if rt is not None and rt.k not in ('void', 'opq', 'func') else V(VOID, I(0))
        st.become(m)
        ret = st.env.pop(('ret', fr.fid), None)
        if ret is None:
            return V(VOID, I(0))
        if isinstance(ret, Conflict):
            raise Unsupported('incompatible return values in %s' % f.name)
        return ret

    def call_spec(self, st, sp, this, args, n, decl):
        from .spec import CallCtx
        self.used_specs.add(sp.name)
        ctx = CallCtx(self, sp, st, this, args, n, decl)
        return ctx.run()


_patok = {}


def patok(t):
    """t can occur in a pattern: no if-then-else, store, boolean structure or arithmetic on the way"""
    k = t.get_id()
    hit = _patok.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    if z3.is_quantifier(t):
        r = False
    elif z3.is_var(t):
        r = True
    else:
        kd = t.decl().kind()
        if kd in (z3.Z3_OP_ITE, z3.Z3_OP_STORE):
            r = False
        elif t.sort() == BoolS and kd not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            r = False
        else:
            r = all(patok(c) for c in t.children())
    _patok[k] = (t, r)
    return r


def copy_attrs(a, b):
    for k, x in getattr(a, '__dict__', {}).items():
        if k not in ('ty', 't'):
            setattr(b, k, x)
    return b


def self_ini_name(i):
    return i.get('anyInit', {}).get('name')


class Conflict:
    pass


def st_special(b):
    return {}


def elem_of_str(ty):
    return INT(True, 32) if ty.n == 'wchar_t' else INT(True, 8)


def ret_of_sig(sig):
    """return type part of a function type string"""
    d = 0
    if ' -> ' in sig:
        return sig.rsplit(' -> ', 1)[1]
    for i, ch in enumerate(sig):
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif ch == '(' and d == 0:
            return sig[:i].strip()
    return None


def parse_cstr(s):
    """clang's printed string literal -> list of code units"""
    i = s.index('"')
    pre = s[:i]
    s = s[i + 1:-1]
    out = []
    k = 0
    wide = pre in ('L', 'U')
    esc = {'n': 10, 't': 9, 'r': 13, 'b': 8, 'f': 12, 'a': 7, 'v': 11, '\\': 92, '"': 34, "'": 39, '?': 63, '0': 0, 'e': 27}
    while k < len(s):
        ch = s[k]
        if ch == '\\':
            c = s[k + 1]
            if c == 'x':
                j = k + 2
                while j < len(s) and s[j] in '0123456789abcdefABCDEF' and (wide or j < k + 4):
                    j += 1
                v = int(s[k + 2:j], 16); k = j
            elif c in '01234567':
                j = k + 1
                while j < len(s) and j < k + 4 and s[j] in '01234567':
                    j += 1
                v = int(s[k + 1:j], 8); k = j
            elif c in 'uU':
                m = 4 if c == 'u' else 8
                v = int(s[k + 2:k + 2 + m], 16); k += 2 + m
                if not wide:
                    for b in chr(v).encode('utf-8'):
                        out.append(b - 256 if b > 127 else b)
                    continue
            else:
                v = esc[c]; k += 2
            if not wide and v > 127:
                v -= 256
            out.append(v)
        else:
            if wide:
                out.append(ord(ch))
            else:
                for b in ch.encode('utf-8', 'surrogateescape'):
                    out.append(b - 256 if b > 127 else b)
            k += 1
    return out
