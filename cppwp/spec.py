"""Contracts: the specification side.  A Spec is bound to a function of /repo by its qualified name; parameters are
referred to by position and data by the public field names, so local names and statement shapes do not matter."""
import z3
from .cast import Ty, VOID, BOOL, INT, DOUBLE, STR, children, shorten_type
from .enc import *
from . import sym as S


def has_ite(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if not z3.is_app(t) or t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_DISTINCT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
        return True
    return any(has_ite(c, seen) for c in t.children())


class Fold:
    """prefix fold over an array: f(arr,0)=init, f(arr,i+1)=step(f(arr,i), arr[i]); `maps` are heap maps it reads.
    kind 'count' additionally has the (inductively valid) laws for slices, concatenation, permutation."""

    prefix = True

    def __init__(self, name, asort, rsort, init, step, nmaps=0, msorts=(), additive=False):
        self.name, self.asort, self.rsort, self.init, self.step, self.additive = name, asort, rsort, init, step, additive
        self.f = z3.Function('fold_' + name, asort, IntS, *(list(msorts) + [rsort]))

    def __call__(self, arr, n, maps=()):
        return self.f(arr, n, *maps)

    def unroll(self, arr, i, maps):
        f = lambda n: self.f(arr, n, *maps)
        e = z3.Select(arr, i)
        return [z3.Implies(i >= 0, f(i + 1) == self.step(f(i), e, maps)), f(I(0)) == self.start(maps)]

    def start(self, maps):
        return self.init(maps) if callable(self.init) else self.init

    def op(self, t, maps):
        kind = t[0]
        F = lambda a, n: self.f(a, n, *maps)
        out = []
        if kind == 'push':
            _, a, n, x, b, _ = t
            out.append(z3.Implies(n >= 0, F(b, n) == F(a, n)))
            out.append(F(a, I(0)) == self.start(maps))
            m = z3.Int('fm')
            if has_ite(b):
                nb = z3.FreshConst(b.sort(), 'pushed')
                out.append(nb == b)
                b = nb
            out.append(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m <= n), F(b, m) == F(a, m)), patterns=[F(b, m)]))
        if self.additive:
            if kind == 'slice':
                _, a, lo, n, b, _ = t
                out.append(z3.Implies(z3.And(lo >= 0, n >= 0), F(b, n) == F(a, lo + n) - F(a, lo)))
                out += [F(a, I(0)) == self.start(maps), F(b, I(0)) == self.start(maps)]
            elif kind == 'concat':
                _, (a, na), (b, nb), _, c, _ = t
                out.append(z3.Implies(z3.And(na >= 0, nb >= 0), F(c, na + nb) == F(a, na) + F(b, nb)))
                out.append(z3.Implies(na >= 0, F(c, na) == F(a, na)))
                out += [F(a, I(0)) == self.start(maps), F(b, I(0)) == self.start(maps), F(c, I(0)) == self.start(maps)]
            elif kind == 'perm':
                _, a, lo, hi, b, n = t
                out.append(z3.Implies(z3.And(lo >= 0, hi <= n), F(b, n) == F(a, n)))
            elif kind == 'insert':
                _, a, p, x, b, n = t
                out.append(z3.Implies(z3.And(p >= 0, p <= n), F(b, n + 1) == self.step(F(a, n), x, maps)))
            elif kind == 'erase':
                _, a, p, x, b, n = t
                out.append(z3.Implies(z3.And(p >= 0, p < n), self.step(F(b, n - 1), z3.Select(a, p), maps) == F(a, n)))
        elif kind == 'perm':
            pass
        return out


class Suffix(Fold):
    """suffix fold: f(arr,i,n,..)=init for i>=n, else step(f(arr,i+1,n,..), arr[i]); maps[0] is n"""
    prefix = False

    def unroll(self, arr, i, maps):
        f = lambda k: self.f(arr, k, *maps)
        return [z3.Implies(i >= 0, f(i) == z3.If(i < maps[0], self.step(f(i + 1), z3.Select(arr, i), maps), self.start(maps)))]

    def op(self, t, maps):
        return []


class Specs:
    def __init__(self, specs=()):
        self.by = {}
        for s in specs:
            self.add(s)

    def add(self, s):
        self.by.setdefault(s.name, []).append(s)

    def get(self, qn, d):
        for s in self.by.get(qn, []):
            if s.sig is None or (d is not None and s.sig in shorten_type(d['type']['qualType'])):
                return s
        return None

    def for_func(self, f):
        return self.get(f.name, f.node)


class Spec:
    name = None
    sig = None            # substring of the (shortened) signature, to select an overload
    tus = ()              # translation units needed
    fmode, smode = 'uf', 'abs'
    inline = ()           # contracted functions this proof expands instead of using their contract
    this_rec = False      # 'this' is a value object instead of a heap object
    trusted = False       # assumed, not verified
    props = ()
    func_params = {}
    timeout = 20000
    check_overflow = True
    skip_frames = ()      # heap fields whose frame the invariants state themselves
    reach = True          # exit must be reachable

    def requires(self, c):
        return ()

    def modifies(self, c):
        return ()

    def ensures(self, c):
        return ()

    def throws(self, c):
        """the exact condition (over the pre-state) under which an exception leaves the function; None: never"""
        return None

    def invariants(self, lc):
        return ()

    def lemmas(self, c):
        return ()

    def ghosts(self, c):
        pass


class Ctx:
    def __init__(self, ex):
        self.ex, self.E = ex, ex.E
        self.pre = self.post = None
        self.result = None
        self.this = None
        self.args = []

    # --- field access
    def field_decl(self, key):
        cls, fn = key.rsplit('.', 1)
        c = self.ex.prog.classes.get(cls)
        if c is None:
            raise S.Unsupported('class %s not found' % cls)
        for f in c.fields:
            if f['name'] == fn:
                return f
        for b in c.bases:
            try:
                return self.field_decl(b + '.' + fn)
            except S.Unsupported:
                pass
        raise S.Unsupported('field %s not found' % key)

    def fmap(self, key, st):
        f = self.field_decl(key)
        return self.ex.heap_map(st, self.ex.fieldkey(f), self.ex.tp.of(f))

    def fld(self, key, ref, st):
        if isinstance(ref, S.V):
            ref = ref.t
        if isinstance(ref, S.LObj):
            ref = ref.ref
        return z3.Select(self.fmap(key, st), ref)

    def fty(self, key):
        return self.ex.tp.of(self.field_decl(key))

    def this_fld(self, key, st):
        f = self.field_decl(key)
        lv = self.ex.this_field(st, self.this, f)
        return self.ex.read(st, lv).t

    def base_val(self, st):
        v = self.ex.read(st, self.this.lv)
        sp = self.E.rec_special(v.ty.n)
        return S.V(sp[0][1], self.E.rec_get(v.ty, v.t, '@base'))

    def this_base(self, st):
        """library base-class part of a value object"""
        v = self.ex.read(st, self.this.lv)
        sp = self.E.rec_special(v.ty.n)
        return self.E.rec_get(v.ty, v.t, '@base')

    # --- arguments
    def av(self, i, st=None):
        """term of argument i (value, or pointee for pointer-to-container / reference parameters) in state st"""
        st = st or self.pre
        a = self.args[i]
        if isinstance(a, S.PtrV):
            a = self.ex.read(st, a.lv)
        elif isinstance(a, S.LVS):
            a = self.ex.read(st, a)
        if isinstance(a, S.LObj):
            return a.ref
        if isinstance(a, S.V):
            return a.t
        raise S.Unsupported('argument %d' % i)

    def null(self, i):
        a = self.args[i]
        if isinstance(a, S.PtrV):
            return a.null
        if isinstance(a, S.V):
            return a.t == 0
        return FALSE

    @property
    def res(self):
        r = self.result
        if isinstance(r, S.V):
            return r.t
        if isinstance(r, S.LVS):
            v = self.ex.read(self.post, r)
            return v.t if isinstance(v, S.V) else v.ref
        raise S.Unsupported('result')

    # --- vectors
    def len(self, v):
        return self.E.vlen(v)

    def at(self, v, i):
        return self.E.vat(v, i)

    def arr(self, v):
        return self.E.varr(v)

    def all_idx(self, v, f, lo=None, hi=None, name='q'):
        i = z3.Int(name)
        lo = I(0) if lo is None else lo
        hi = self.len(v) if hi is None else hi
        arr = self.ex.named(self.arr(v), 'arr')
        body = f(i, z3.Select(arr, i))
        return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), body), patterns=[z3.Select(arr, i)] if S.patok(arr) else [])

    # --- folds
    def fold(self, F, v, n=None, maps=()):
        if F.name not in self.ex.folds:
            self.ex.folds[F.name] = F
            self.ex.fold_maps[F.name] = []
        F = self.ex.folds[F.name]
        if not any(len(m) == len(maps) and all(a.eq(b) for a, b in zip(m, maps)) for m in self.ex.fold_maps[F.name]):
            self.ex.fold_maps[F.name].append(tuple(maps))
        if n is None:
            n = self.len(v)
        arr = self.ex.named(self.arr(v), 'arr') if not z3.is_array(v) else v
        z = (arr.get_id(), 'z')
        if z not in self.ex._index_seen:
            self.ex._index_seen.add(z)
            self.ex.index_terms.append((arr, I(-1)))
        return F(arr, n, maps)

    def heap_fold(self, st, key, fields, step, rsort=None, init=None):
        """fold over the elements of a sequence that reads the given fields of the elements in state st;
        step(acc, element, [values of the fields])"""
        E = self.E
        maps = [self.ex.named(self.fmap(f, st), 'hm') for f in fields]
        if key not in self.ex.folds:
            self.ex.folds[key] = Fold(key, z3.ArraySort(IntS, IntS), E.StrS if rsort is None else rsort, E.sempty() if init is None else init,
                                      lambda acc, e, maps: step(acc, e, [z3.Select(m, e) for m in maps]), msorts=[m.sort() for m in maps])
            self.ex.fold_maps[key] = []
        return lambda v, n=None: self.fold(self.ex.folds[key], v, n, tuple(maps))

    def count(self, v, n=None, x=None):
        """number of occurrences of the ghost element X among the first n elements of v"""
        key = 'count'
        if key not in self.ex.folds:
            X = self.E.ghost('X', IntS)
            self.ex.folds[key] = Fold(key, z3.ArraySort(IntS, IntS), IntS, I(0),
                                      lambda acc, e, maps: acc + z3.If(e == X, I(1), I(0)), additive=True)
            self.ex.fold_maps[key] = []
        return self.fold(self.ex.folds[key], v, n)

    def count2(self, vv, n=None):
        """occurrences of the ghost element X in the first n vectors of a vector of vectors"""
        key = 'count2'
        if key not in self.ex.folds:
            self.count(z3.K(IntS, I(0)), I(0))
            cnt = self.ex.folds['count']
            vs = self.E.sort(Ty('vec', [Ty('ptr', [VOID])]))
            E = self.E
            self.ex.folds[key] = Fold(key, z3.ArraySort(IntS, vs), IntS, I(0),
                                      lambda acc, e, maps: acc + cnt(E.varr(e), E.vlen(e)), additive=True)
            self.ex.fold_maps[key] = []
        return self.fold(self.ex.folds[key], vv, n)

    def ghost(self, name, sort):
        return self.E.ghost(name, sort)

    def is_kind(self, ref, cls):
        return self.ex.is_kind(ref, cls)

    def fresh(self, ref):
        """ref was allocated between pre and post"""
        return z3.And(ref >= self.pre.alloc, ref < self.post.alloc)


class CallCtx(Ctx):
    def __init__(self, ex, sp, st, this, args, n, decl):
        super().__init__(ex)
        self.sp, self.st, self.this, self.n, self.decl = sp, st, this, n, decl
        self.mode = 'call'
        self.args = list(args)

    def fix_args(self):
        ex, st = self.ex, self.st
        if self.decl is None:
            self.args = [a if isinstance(a, S.LVS) and not isinstance(a, S.LTemp) else (a.v if isinstance(a, S.LTemp) else a) for a in self.args]
            return
        params = [x for x in children(self.decl) if x.get('kind') == 'ParmVarDecl']
        out = []
        for i, p in enumerate(params):
            ty = ex.tp.of(p)
            if i < len(self.args):
                a = self.args[i]
            else:
                a = ex.default_arg(st, self.decl, i)
            if ty.k in ('ref', 'rref'):
                if isinstance(a, S.LTemp):
                    a = a.v
                if isinstance(a, S.V):
                    a = ex.fit(st, a, ty.a[0])
                const = 'const' in p['type']['qualType'].split('&')[0]
                if isinstance(a, S.LVS) and const and not isinstance(a, S.LObj):
                    a = ex.read(st, a)
                out.append(a)
                continue
            v = ex.val(st, a)
            if isinstance(v, S.V):
                v = ex.fit(st, v, ty)
            out.append(v)
        self.args = out

    def run(self):
        ex, st, sp = self.ex, self.st, self.sp
        self.fix_args()
        self.pre = st.copy()
        self.post = st
        pre = self.pre
        for nm, f in sp.requires(self):
            ex.oblige(st, f, 'precondition "%s" of %s' % (nm, sp.name), 'pre')
            ex.fact(f, st)
        th = sp.throws(self)
        if th is not None:
            if getattr(ex.root_spec, 'has_throws', False):
                b = ex.name_cond(st, th)
                t = st.copy(); t.pc = And(st.pc, b)
                if not ex.dry:
                    ex.throws.append(t)
                st.pc = And(st.pc, Not(b))
            else:
                ex.oblige(st, Not(th), 'no exception from %s' % sp.name, 'throw')
                ex.fact(Not(th), st)
        self.apply_mods(st, pre, sp.modifies(self))
        # result
        rty = self.ret_type()
        if rty is None or rty.k == 'void':
            self.result = S.V(VOID, I(0))
        else:
            t = ex.havoc_term(st, 'r_' + sp.name.split('::')[-1], rty)
            self.result = S.V(rty, t)
        for nm, f in sp.ensures(self):
            ex.fact(f, st, 'post of %s: %s' % (sp.name, nm))
        return self.result

    def ret_type(self):
        if self.decl is None:
            return None
        t = S.ret_of_sig(self.decl['type']['qualType'])
        if t is None:
            return None
        ty = self.ex.tp.parse(t)
        if ty.k in ('ref', 'rref'):
            return ty.a[0]
        return ty

    def apply_mods(self, st, pre, mods):
        ex, E = self.ex, self.E
        mods = list(mods)
        fresh = [m for m in mods if m[0] == 'fresh']
        keys = {}
        for m in mods:
            if m[0] == 'field':
                f = self.field_decl(m[1])
                keys[ex.fieldkey(f)] = (ex.tp.of(f), m[2] if len(m) > 2 else None, False)
        if fresh:
            a = E.fresh('alloc', IntS)
            ex.fact(a >= pre.alloc)
            st.alloc = a
            ex.note_write(('a', 'alloc'))
            for m in fresh:
                for c in m[1]:
                    for f in ex.prog.all_fields(c):
                        k = ex.fieldkey(f)
                        ty = ex.tp.of(f)
                        if ty.k in ('opq',):
                            pass
                        if k not in keys:
                            keys[k] = (ty, lambda r: FALSE, True)
        for k, (ty, pred, isfresh) in sorted(keys.items()):
            h0 = ex.heap_map(pre, k, ty)
            st.heap.setdefault(k, h0)
            h = E.fresh('H_' + k, h0.sort())
            ex.note_write(('h', k))
            st.heap[k] = h
            for f in ex.heap_wf(h, ty, st.alloc):
                ex.fact(f)
            if pred is not None:
                r = z3.Int('mr')
                ex.fact(z3.ForAll([r], z3.Implies(z3.And(r < pre.alloc, Not(pred(r))), z3.Select(h, r) == z3.Select(h0, r)), patterns=[z3.Select(h, r)]), st, 'frame')
        for m in mods:
            if m[0] == 'ghost':
                ex.heap_map(pre, m[1], m[2])
                h = ex.heap_map(st, m[1], m[2])
                st.heap[m[1]] = E.fresh('G_' + m[1], h.sort())
                ex.note_write(('h', m[1]))
            elif m[0] == 'arg':
                a = self.args[m[1]]
                lv = a.lv if isinstance(a, S.PtrV) else a
                if isinstance(a, S.V) and a.ty.k == 'ptr':
                    continue        # null pointer literal
                if lv is None:
                    continue
                if not isinstance(lv, S.LVS):
                    raise S.Unsupported('modified argument is not a location')
                old = ex.read(pre, lv)
                t = ex.havoc_term(st, 'mod', old.ty)
                ex.write(st, lv, S.V(old.ty, t))
            elif m[0] == 'this':
                f = self.field_decl(m[1])
                lv = ex.this_field(st, self.this, f)
                ty = ex.tp.of(f)
                ex.write(st, lv, S.V(ty, ex.havoc_term(st, 'mod', ty)))
            elif m[0] == 'thisbase':
                v = ex.read(st, self.this.lv)
                sp_ = E.rec_special(v.ty.n)
                ex.write(st, S.LField(self.this.lv, '@base', sp_[0][1]), S.V(sp_[0][1], ex.havoc_term(st, 'mod', sp_[0][1])))


class LoopCtx:
    """what an invariant pool can refer to in a loop: typed variables in scope, the iteration index, loop entry state"""

    def __init__(self, ctx, lp):
        self.c, self.lp, self.ex, self.E = ctx, lp, lp.ex, lp.ex.E
        self.entry = lp.entry
        self.extra = lp.extra
        self.line = lp.line

    def vars(self, pred):
        """[(name, getter(state)->term)] for every variable in scope whose type satisfies pred (a Ty predicate or repr string)"""
        out = []
        for key, v in self.entry.env.items():
            if not isinstance(v, S.V) or not isinstance(key, tuple):
                continue
            if key[0] in ('ret', 'g', 'fmt', 'tmp') or (len(key) > 1 and key[1] == '#idx'):
                continue
            ok = (repr(v.ty) == pred) if isinstance(pred, str) else pred(v.ty)
            if ok:
                out.append((self.vname(key), (lambda s, key=key: s.env[key].t), key))
        return out

    def iters(self):
        """iterator variables in scope the loop advances: (name, getter of the position)"""
        out = []
        for key, v in self.entry.env.items():
            if isinstance(v, S.IterV) and self.written(key):
                out.append((self.vname(key), self.iter_pos(key)))
        return out

    def iter_pos(self, key):
        """forward position of an iterator (of base() for a reverse iterator)"""
        from . import lib as L

        def g(s):
            it = s.env[key]
            return L.seq_len(self.ex, self.ex.read(s, it.lv)) - it.idx if it.rev else it.idx
        return g

    def all_iters(self):
        return [(self.vname(key), self.iter_pos(key)) for key, v in self.entry.env.items() if isinstance(v, S.IterV)]

    def orders(self):
        """(map term, key order) of every map an iterator in scope or the range traverses"""
        out = []
        for key, v in list(self.entry.env.items()):
            if isinstance(v, S.IterV) and v.ty is not None and v.ty.k in ('map', 'set'):
                m = self.ex.read(self.entry, v.lv)
                out.append((m, self.ex.lib.map_order(self.ex, self.entry, m)))
        if self.extra.get('kind') == 'map':
            out.append((self.extra['vec0'], self.extra['ord']))
        seen, res = set(), []
        for m, o in out:
            if o.get_id() not in seen:
                seen.add(o.get_id()); res.append((m, o))
        return res

    def vname(self, key):
        return '%s' % (key[1],) if key[0] in ('arg', 1) else '%s#%s' % (key[1], key[0])

    def written(self, key):
        return ('v', key) in self.lp.wset

    def mod_vars(self, pred):
        return [x for x in self.vars(pred) if self.written(x[2])]

    def indices(self):
        """getters of candidate iteration indices of this loop (the hidden range index, or written integers)"""
        out = []
        if self.extra.get('idx') is not None:
            k = self.extra['idx'].key
            out.append(('idx', lambda s: s.env[k].t))
        else:
            for nm, g, key in self.mod_vars(lambda t: t.k == 'int'):
                out.append((nm, g))
        return out

    def all_indices(self):
        """indices of this loop and of all enclosing loops (and inner-visible ints)"""
        out = list(self.indices())
        for l in self.lp.outer:
            if l.extra.get('idx') is not None:
                k = l.extra['idx'].key
                out.append(('outer%d' % l.depth, lambda s, k=k: s.env[k].t))
        return out

    def seqs(self, pred=lambda t: t.k == 'ptr'):
        """[(name, getter)] for vectors (with elements satisfying pred) this loop may be iterating: the range, or any
        vector variable in scope, or a vector field of an object a variable in scope points at is up to the contract"""
        if self.extra.get('kind') == 'vec':
            v0 = self.extra['vec0']
            if v0.ty.k not in ('vec', 'arr') or not pred(v0.ty.a[0]):
                return []
            return [('range', lambda s: v0.t)]
        out = [(nm, g) for nm, g, key in self.vars(lambda t: t.k in ('vec',) and pred(t.a[0]))]
        for i, a in enumerate(self.c.args):
            if isinstance(a, S.V) and a.ty.k == 'vec' and pred(a.ty.a[0]):
                out.append(('arg%d' % i, lambda s, a=a: a.t))
        seen, res = set(), []
        for nm, g in out:
            try:
                k = g(self.entry).get_id()
            except KeyError:
                continue
            if k not in seen:
                seen.add(k); res.append((nm, g))
        return res

    @property
    def range(self):
        if self.extra.get('kind') == 'vec':
            return self.extra['vec0'].t
        return None
