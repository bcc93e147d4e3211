"""Assumed contracts of the C++ standard library (and of the few external functions) used by the code.
Every model that a verification run uses is recorded in ex.used_models and reported as an assumption."""
import z3
from .cast import Ty, BOOL, DOUBLE, INT, STR, WSTR, VOID, children, FUNC
from .enc import *
from . import sym as S

SIZE = INT(False, 64)
PURE_NAMES = {'toString', 'toShortString', 'size', 'length', 'empty', 'c_str', 'str', 'getWidth', 'getHeight',
              'at', 'front', 'back', 'first', 'second', 'operator[]', 'operator<<', 'to_string', 'join', 'value',
              'setprecision', 'fixed', 'operator+', 'operator*', 'operator->', 'count', 'endl', 'boolalpha', 'abs', 'round'}


def pure(ex, n):
    """may this (logging) operand be dropped?  no assignments, allocation, deletion; only calls of const/std/pure functions"""
    k = n.get('kind')
    if k in ('CompoundAssignOperator', 'CXXNewExpr', 'CXXDeleteExpr', 'CXXThrowExpr', 'LambdaExpr'):
        return False
    if k == 'BinaryOperator' and n.get('opcode') == '=':
        return False
    if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
        return False
    if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
        c = children(n)[0]
        c = ex.callee(c)
        if c.get('kind') == 'MemberExpr':
            nm = c.get('name')
            d = ex.prog.ids.get((ex.tu(), c.get('referencedMemberDecl')))
            if d is not None and d.get('kind') in FUNC:
                sig = d['type']['qualType']
                if not (sig.rstrip().endswith('const') or sig.rstrip().endswith('const noexcept') or nm in PURE_NAMES or d.get('_cls') == 'Logger'):
                    return False
            elif nm in ('push_back', 'pop_back', 'erase', 'insert', 'clear', 'resize', 'pop', 'push', 'emplace_back', 'swap', 'assign'):
                return False
        else:
            rd = c.get('referencedDecl', {})
            nm = rd.get('name', '')
            f, d = ex.find_func(rd)
            if f is not None and not pure_func(ex, f):
                return False
            if nm in ('operator=', 'operator+=', 'operator++', 'operator--', 'operator>>'):
                return False
    return all(pure(ex, c) for c in children(n))


_pure_cache = {}


def pure_func(ex, f):
    if f.mangled in _pure_cache:
        return _pure_cache[f.mangled]
    _pure_cache[f.mangled] = True
    r = True
    for p in f.params:
        t = ex.tp.of(p)
        q = p['type']['qualType']
        if t.k in ('ref', 'ptr') and 'const' not in q and t.k == 'ref':
            r = False
    _pure_cache[f.mangled] = r
    return r


def use(ex, name):
    ex.used_models.add(name)


# ------------------------------------------------------------------ helpers on sequences
def seq_len(ex, v):
    return ex.E.slen(v.t) if v.ty.k in ('str', 'stream') else ex.E.vlen(v.t)


def elem_ty(v):
    return v.ty.a[0] if v.ty.k in ('vec', 'arr') else S.elem_of_str(v.ty)


def base_container(ex, st, x):
    v = ex.read(st, x)
    if isinstance(v, V_) and v.ty.k == 'rec':
        sp = ex.E.rec_special(v.ty.n)
        if sp:
            return S.LField(x, '@base', sp[0][1])
    raise S.Unsupported('container of %r' % (getattr(v, 'ty', None),))


V_ = S.V


def V(ty, t):
    return S.V(ty, t)


def on_elem_write(ex, st, b, idx, v):
    pass


def push_back(ex, st, lv, x):
    E = ex.E
    v = ex.read(st, lv)
    n = E.vlen(v.t)
    ex.fact(n >= 0)
    arr = z3.Store(E.varr(v.t), n, x.t)
    if not ex.dry:
        ex.theory_push(v, n, x.t, arr)
    ex.write(st, lv, V(v.ty, E.vmk(v.t.sort(), z3.simplify(n + 1), arr)))


def slice_vec(ex, st, v, lo, n, name='slice'):
    """fresh vector value with the n elements of v from position lo on"""
    E = ex.E
    t = E.fresh(name, v.t.sort())
    i = z3.Int('si')
    ex.fact(E.vlen(t) == n, st)
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), E.vat(t, i) == E.vat(v.t, lo + i)), patterns=[E.vat(t, i)]), st, 'slice')
    if not ex.dry:
        ex.theory_slice(v, lo, n, t)
    return V(v.ty, t)


def concat_vec(ex, st, a, b, name='cat'):
    E = ex.E
    na, nb = E.vlen(a.t), E.vlen(b.t)
    t = E.fresh(name, a.t.sort())
    i = z3.Int('ci')
    ex.fact(z3.And(na >= 0, nb >= 0, E.vlen(t) == na + nb), st)
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < na), E.vat(t, i) == E.vat(a.t, i)), patterns=[E.vat(t, i), E.vat(a.t, i)] if S.patok(E.varr(a.t)) else [E.vat(t, i)]), st)
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nb), E.vat(t, na + i) == E.vat(b.t, i)), patterns=[E.vat(b.t, i)]), st)
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= na, i < na + nb), E.vat(t, i) == E.vat(b.t, i - na)), patterns=[E.vat(t, i)]), st)
    if not ex.dry:
        ex.theory_concat(a, b, t)
    return V(a.ty, t)


def permutation(ex, st, v, lo, hi, what):
    """fresh vector equal to v with the elements of [lo,hi) permuted"""
    E = ex.E
    v = ex.named_val(v)
    t = E.fresh('perm', v.t.sort())
    k = E._fresh.get('pi', 0)
    E._fresh['pi'] = k + 1
    p = z3.Function('pi!%d' % k, IntS, IntS)
    q = z3.Function('ip!%d' % k, IntS, IntS)
    i = z3.Int('pi_i')
    ex.fact(E.vlen(t) == E.vlen(v.t), st)
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), z3.And(p(i) >= lo, p(i) < hi, q(p(i)) == i, E.vat(t, i) == E.vat(v.t, p(i)))), patterns=[E.vat(t, i), p(i)]), st)
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), z3.And(q(i) >= lo, q(i) < hi, p(q(i)) == i, E.vat(t, q(i)) == E.vat(v.t, i))), patterns=[E.vat(v.t, i), q(i)] if S.patok(E.varr(v.t)) else [q(i)]), st)
    ex.fact(z3.ForAll([i], z3.Implies(z3.Or(i < lo, i >= hi), E.vat(t, i) == E.vat(v.t, i)), patterns=[E.vat(t, i)]), st)
    if not ex.dry:
        ex.theory_perm(v, t, lo, hi)
        ex.perms.append((t, v.t, p, q, lo, hi))
    return V(v.ty, t)


# ------------------------------------------------------------------ maps
def map_put(ex, m, k, val):
    E = ex.E
    d = E.mdom(m.t)
    return E.mmk(m.t.sort(), z3.Store(d, k, TRUE), z3.Store(E.mval(m.t), k, val), z3.If(z3.Select(d, k), E.mcard(m.t), E.mcard(m.t) + 1))


def set_insert(ex, m, k):
    E = ex.E
    d = E.mdom(m.t)
    return E.mmk(m.t.sort(), z3.Store(d, k, TRUE), E.mval(m.t), z3.If(z3.Select(d, k), E.mcard(m.t), E.mcard(m.t) + 1))


def map_order(ex, st, m):
    """the (unspecified) iteration order: an enumeration of the key set without repetition"""
    E = ex.E
    use(ex, 'unordered containers: iteration visits every key exactly once, in an unspecified order')
    ks = E.sort(m.ty.a[0])
    key = ('ord', m.t.get_id())
    if key in ex.ordcache and not ex.dry:
        return ex.ordcache[key]
    ordv = E.fresh('keyorder', z3.ArraySort(IntS, ks))
    k = E._fresh.get('kidx', 0)
    E._fresh['kidx'] = k + 1
    idx = z3.Function('kidx!%d' % k, ks, IntS)
    i = z3.Int('oi')
    x = z3.Const('ok', ks)
    d, c = ex.named(E.mdom(m.t), 'dom'), E.mcard(m.t)
    ex.fact(c >= 0)
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c), z3.And(z3.Select(d, z3.Select(ordv, i)), idx(z3.Select(ordv, i)) == i)), patterns=[z3.Select(ordv, i)]), None, 'key order')
    ex.fact(z3.ForAll([x], z3.Implies(z3.Select(d, x), z3.And(idx(x) >= 0, idx(x) < c, z3.Select(ordv, idx(x)) == x)), patterns=[idx(x), z3.Select(d, x)]), None, 'key order covers')
    if not ex.dry:
        ex.ordcache[key] = ordv
        ex.orders.append((m.t, ordv, idx))
    return ordv


def norm_key(ex, st, k, ty):
    v = ex.val(st, k)
    return ex.coerce(st, v, ty).t if v.t.sort() != ex.E.sort(ty) else v.t


# ------------------------------------------------------------------ iterators
def iter_deref(ex, st, x):
    E = ex.E
    v = ex.read(st, x.lv)
    if v.ty.k in ('map', 'set'):
        n = E.mcard(v.t)
        ex.oblige(st, z3.And(x.idx >= 0, x.idx < n), 'iterator is dereferenceable', 'safety')
        ex.fact(z3.And(x.idx >= 0, x.idx < n), st)
        key = x.key
        if key is None:
            ordv = map_order(ex, st, v)
            key = z3.Select(ordv, x.idx)
            if not ex.dry:
                ex.note_index(ordv, x.idx)
            ex.fact(z3.Select(E.mdom(v.t), key), st)
        if v.ty.k == 'set':
            return V(v.ty.a[0], key)
        return S.LMapEnt(x.lv, key, Ty('tup', v.ty.a))
    n = seq_len(ex, v)
    i = x.idx
    if x.rev:
        i = n - 1 - x.idx
    ex.oblige(st, z3.And(i >= 0, i < n), 'iterator is dereferenceable', 'safety')
    ex.fact(z3.And(i >= 0, i < n), st)
    return S.LIndex(x.lv, i, elem_ty(v))


def iter_arith(ex, st, op, a, b):
    if isinstance(a, S.IterV) and isinstance(b, S.IterV):
        if op == '-' and S.lv_same(a.lv, b.lv):
            return V(INT(True, 64), a.idx - b.idx)
        raise S.Unsupported('iterator arithmetic')
    if isinstance(b, S.IterV):
        a, b = b, a
    if isinstance(a, S.IterV):
        d = b.t if op == '+' else -b.t
        # an unsigned 64-bit offset is converted to the signed difference type
        return S.IterV(a.lv, z3.simplify(a.idx + d), a.ty, a.rev)
    raise S.Unsupported('iterator arithmetic')


def iter_cmp(ex, st, op, a, b):
    x, y = a.idx, b.idx
    return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]


# ------------------------------------------------------------------ member functions
def method(ex, st, base, name, args, n, me, d):
    E = ex.E
    if isinstance(base, S.LObj):
        sp = ex.specs.get('%s::%s' % (base.ty.n, name), None) if base.ty.k == 'opq' else None
        if sp is not None:
            return ex.call_spec(st, sp, V(Ty('ptr', [base.ty]), base.ref), ex.evs(st, args), n, None)
        r = ext_method(ex, st, base, name, args, n)
        if r is None:
            r = pdf_method(ex, st, base, name, args, n)
        if r is None and base.ty.k == 'opq':
            r = gfx_method(ex, st, base, name, args, n)
        if r is not None:
            return r
        raise S.Unsupported('call of %s on an object of class %r' % (name, base.ty))
    v = ex.read(st, base)
    if isinstance(v, (S.PtrV,)) and name == 'get':
        return v
    if isinstance(v, S.IterV):
        raise S.Unsupported('iterator method %s' % name)
    if isinstance(v, S.FuncV):
        if name == 'operator()':
            return ex.call_funcv(st, v, [ex.ev(a, st) for a in args], n)
        raise S.Unsupported('function object method')
    if not isinstance(v, V_):
        raise S.Unsupported('method %s on %r' % (name, v))
    if v.ty.k == 'rec':
        b2 = base_container(ex, st, base)
        if 'priority_queue' in ' '.join(ex.prog.base_chain(v.ty.n)):
            return pq_method(ex, st, b2, name, args, n, v)
        return method(ex, st, b2, name, args, n, me, d)
    k = v.ty.k
    if name == 'operator=' and k in ('vec', 'str', 'map', 'set') and len(args) == 1:
        x = ex.val(st, ex.ev(args[0], st))
        if isinstance(x, V_) and x.t.sort() == E.sort(v.ty):
            ex.write(st, base, V(v.ty, x.t))
            return base
    if k == 'func' and name == 'operator()':
        raise S.Unsupported('call of unknown function object')
    A = lambda i: ex.val(st, ex.ev(args[i], st))
    if k in ('vec', 'arr'):
        return vec_method(ex, st, base, v, name, args, n)
    if k in ('str',):
        return str_method(ex, st, base, v, name, args, n)
    if k in ('map', 'set'):
        return map_method(ex, st, base, v, name, args, n)
    if k == 'stream':
        if name == 'str':
            return V(STR, v.t)
        if name in ('flush', 'precision', 'setf', 'width'):
            for a in args:
                ex.ev(a, st)
            return base
    if k == 'ptr' and name == 'get':
        return v
    if k == 'opq':
        r = pdf_method(ex, st, base, name, args, n)
        if r is not None:
            return r
        if name == 'count' and not args and 'duration' in (v.ty.n or ''):
            rt = ex.tp.of(n)
            return V(rt, ex.havoc_term(st, 'count', rt))
    raise S.Unsupported('method %s of %r' % (name, v.ty))


def vec_method(ex, st, lv, v, name, args, n):
    E = ex.E
    use(ex, 'std::vector: value semantics of the member functions used')
    ety = v.ty.a[0]
    ln = E.vlen(v.t)
    ex.fact(ln >= 0)
    A = lambda i: ex.val(st, ex.ev(args[i], st))
    if v.ty.n == 'stack':
        use(ex, 'std::stack: the top is the last element pushed and not popped')
        name = {'top': 'back', 'push': 'push_back', 'emplace': 'emplace_back', 'pop': 'pop_back'}.get(name, name)
    if name in ('size',):
        return V(SIZE, ln)
    if name == 'empty':
        return V(BOOL, ln == 0)
    if name in ('push_back', 'emplace_back'):
        if name == 'emplace_back' and len(args) != 1:
            raise S.Unsupported('emplace_back')
        x = ex.coerce(st, A(0), ety)
        push_back(ex, st, lv, x)
        return V(VOID, I(0))
    if name == 'pop_back':
        ex.oblige(st, ln > 0, 'pop_back on non-empty vector', 'safety')
        ex.write(st, lv, V(v.ty, E.vmk(v.t.sort(), ln - 1, E.varr(v.t))))
        return V(VOID, I(0))
    if name in ('back', 'front'):
        ex.oblige(st, ln > 0, '%s() of non-empty vector' % name, 'safety')
        ex.fact(ln > 0, st)
        return S.LIndex(lv, ln - 1 if name == 'back' else I(0), ety)
    if name in ('at', 'operator[]'):
        i = A(0).t
        ex.oblige(st, z3.And(i >= 0, i < ln), 'vector index in bounds', 'safety')
        ex.fact(z3.And(i >= 0, i < ln), st)
        return S.LIndex(lv, i, ety)
    if name in ('begin', 'cbegin'):
        return S.IterV(lv, I(0), v.ty)
    if name in ('end', 'cend'):
        return S.IterV(lv, ln, v.ty)
    if name in ('rbegin', 'crbegin'):
        return S.IterV(lv, I(0), v.ty, True)
    if name in ('rend', 'crend'):
        return S.IterV(lv, ln, v.ty, True)
    if name == 'clear':
        ex.write(st, lv, V(v.ty, E.vempty(v.ty)))
        return V(VOID, I(0))
    if name in ('reserve', 'shrink_to_fit'):
        for a in args:
            ex.ev(a, st)
        return V(VOID, I(0))
    if name == 'resize':
        m = A(0).t
        t = E.fresh('resized', v.t.sort())
        i = z3.Int('ri')
        ex.fact(E.vlen(t) == m, st)
        ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z3.If(m < ln, m, ln)), E.vat(t, i) == E.vat(v.t, i)), patterns=[E.vat(t, i)]), st)
        fill = A(1).t if len(args) > 1 else E.default(ety)
        ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= ln, i < m), E.vat(t, i) == fill), patterns=[E.vat(t, i)]), st)
        ex.write(st, lv, V(v.ty, t))
        return V(VOID, I(0))
    if name == 'insert':
        pos = A(0)
        if len(args) == 3:
            b, e = A(1), A(2)
            src = ex.read(st, b.lv)
            if b.rev or e.rev:
                raise S.Unsupported('reverse range insert')
            part = src if (z3.is_int_value(b.idx) and b.idx.as_long() == 0 and e.idx.eq(seq_len(ex, src))) else slice_vec(ex, st, src, b.idx, z3.simplify(e.idx - b.idx))
            if z3.simplify(pos.idx).eq(z3.simplify(ln)):
                ex.write(st, lv, concat_vec(ex, st, v, part))
            elif z3.is_int_value(pos.idx) and pos.idx.as_long() == 0:
                ex.write(st, lv, concat_vec(ex, st, part, v))
            else:
                h = slice_vec(ex, st, v, I(0), pos.idx)
                t = slice_vec(ex, st, v, pos.idx, ln - pos.idx)
                ex.write(st, lv, concat_vec(ex, st, concat_vec(ex, st, h, part), t))
            return V(VOID, I(0))
        if len(args) == 2:
            x = ex.coerce(st, A(1), ety)
            if z3.simplify(pos.idx).eq(z3.simplify(ln)):
                push_back(ex, st, lv, x)
                return V(VOID, I(0))
            p = pos.idx
            t = E.fresh('ins', v.t.sort())
            i = z3.Int('ii')
            ex.fact(E.vlen(t) == ln + 1, st)
            ex.fact(z3.ForAll([i], z3.And(z3.Implies(z3.And(i >= 0, i < p), E.vat(t, i) == E.vat(v.t, i)),
                                          z3.Implies(z3.And(i > p, i <= ln), E.vat(t, i) == E.vat(v.t, i - 1))), patterns=[E.vat(t, i)]), st)
            ex.fact(E.vat(t, p) == x.t, st)
            if not ex.dry:
                ex.theory_insert(v, p, x.t, t)
            ex.write(st, lv, V(v.ty, t))
            return V(VOID, I(0))
    if name == 'erase' and len(args) == 1:
        pos = A(0)
        p = pos.idx
        ex.oblige(st, z3.And(p >= 0, p < ln), 'erase position valid', 'safety')
        t = E.fresh('ers', v.t.sort())
        i = z3.Int('ii')
        ex.fact(E.vlen(t) == ln - 1, st)
        ex.fact(z3.ForAll([i], z3.And(z3.Implies(z3.And(i >= 0, i < p), E.vat(t, i) == E.vat(v.t, i)),
                                      z3.Implies(z3.And(i >= p, i < ln - 1), E.vat(t, i) == E.vat(v.t, i + 1))), patterns=[E.vat(t, i)]), st)
        if not ex.dry:
            ex.theory_erase(v, p, t)
        ex.write(st, lv, V(v.ty, t))
        return S.IterV(lv, p, v.ty)
    if name == 'swap':
        raise S.Unsupported('vector swap')
    raise S.Unsupported('vector::%s' % name)


def str_method(ex, st, lv, v, name, args, n):
    E = ex.E
    use(ex, 'std::string/wstring: value semantics of the member functions used')
    A = lambda i: ex.val(st, ex.ev(args[i], st))
    ety = S.elem_of_str(v.ty)
    ln = E.slen(v.t)
    if name in ('size', 'length'):
        ex.fact(z3.And(ln >= 0, ln <= (1 << 60)))
        return V(SIZE, ln)
    if name == 'empty':
        return V(BOOL, ln == 0)
    if name in ('c_str', 'data'):
        return V(v.ty, v.t)
    if name in ('at', 'operator[]', 'back', 'front'):
        i = A(0).t if name in ('at', 'operator[]') else (ln - 1 if name == 'back' else I(0))
        # s[s.size()] is the terminating null character: allowed for operator[] (read)
        hi = i < ln
        ex.oblige(st, z3.And(i >= 0, hi), 'string index in bounds (%s)' % name, 'safety')
        ex.fact(z3.And(i >= 0, hi), st)
        ex.char_fact(st, v, i)
        return S.LIndex(lv, i, ety)
    if name == 'push_back':
        x = A(0)
        ex.write(st, lv, V(v.ty, E.scat(v.t, E.sunit(x.t))))
        return V(VOID, I(0))
    if name == 'pop_back':
        ex.oblige(st, ln > 0, 'pop_back on non-empty string', 'safety')
        ex.write(st, lv, V(v.ty, E.ssub(v.t, I(0), ln - 1)))
        return V(VOID, I(0))
    if name == 'append':
        if len(args) == 1:
            x = A(0)
            ex.write(st, lv, V(v.ty, E.scat(v.t, x.t)))
            return lv
        raise S.Unsupported('string::append')
    if name == 'clear':
        ex.write(st, lv, V(v.ty, E.sempty()))
        return V(VOID, I(0))
    if name == 'reserve':
        return V(VOID, I(0))
    if name == 'substr':
        pos = A(0).t if args else I(0)
        ex.oblige(st, z3.And(pos >= 0, pos <= ln), 'substr position in range (throws otherwise)', 'safety')
        ex.fact(pos <= ln, st)
        if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr':
            cnt = A(1).t
            m = z3.If(cnt < ln - pos, cnt, ln - pos)
        else:
            m = ln - pos
        return V(v.ty, E.ssub(v.t, pos, z3.simplify(m)))
    if name in ('begin', 'cbegin'):
        return S.IterV(lv, I(0), v.ty)
    if name in ('end', 'cend'):
        return S.IterV(lv, ln, v.ty)
    if name in ('rbegin', 'crbegin'):
        return S.IterV(lv, I(0), v.ty, True)
    if name in ('rend', 'crend'):
        return S.IterV(lv, ln, v.ty, True)
    if name in ('find_first_not_of', 'find_first_of', 'find_last_not_of', 'find_last_of', 'find', 'rfind'):
        return str_find(ex, st, v, name, args)
    if name == 'compare' and len(args) == 1:
        o = A(0)
        f = E.fn('s_compare', E.StrS, E.StrS, IntS)
        r = f(v.t, o.t)
        ex.fact((r == 0) == (v.t == o.t))
        return V(INT(), r)
    raise S.Unsupported('string::%s' % name)


NPOS = (1 << 64) - 1


def str_find(ex, st, v, name, args):
    E = ex.E
    use(ex, 'std::string find functions')
    a = ex.val(st, ex.ev(args[0], st))
    ln = E.slen(v.t)
    pos = None
    if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr':
        pos = ex.val(st, ex.ev(args[1], st)).t
    r = E.fresh('found', IntS)
    i = z3.Int('fi')
    ex.fact(z3.And(ln >= 0, ln <= (1 << 60)))
    if E.smode == 'abs' or (E.smode == 'chars' and name in ('find', 'rfind') and a.t.sort() != IntS and len(lit_chars_any(E, a.t) or ()) != 1):
        ex.fact(z3.Or(r == NPOS, z3.And(r >= 0, r < ln)), st)
        return V(SIZE, r)

    def member(c):
        if a.t.sort() == IntS:
            return c == a.t
        if E.smode == 'chars':
            return E.sin(a.t, c)
        f = E.fn('s_contains', E.StrS, IntS, BoolS)
        j = z3.Int('fj')
        return in_set(ex, st, a.t, c)
    at = lambda k: E.sat(v.t, k)
    if name in ('find_first_of', 'find_first_not_of'):
        start = pos if pos is not None else I(0)
        neg = name == 'find_first_not_of'
        hit = lambda k: Not(member(at(k))) if neg else member(at(k))
        ex.fact(z3.Or(z3.And(r == NPOS, z3.ForAll([i], z3.Implies(z3.And(i >= start, i < ln), Not(hit(i))), patterns=[at(i)])),
                      z3.And(r >= start, r < ln, hit(r), z3.ForAll([i], z3.Implies(z3.And(i >= start, i < r), Not(hit(i))), patterns=[at(i)]))), st)
        return V(SIZE, r)
    if name in ('find_last_of', 'find_last_not_of'):
        neg = name == 'find_last_not_of'
        hit = lambda k: Not(member(at(k))) if neg else member(at(k))
        top = ln if pos is None else z3.If(pos + 1 < ln, pos + 1, ln)
        ex.fact(z3.Or(z3.And(r == NPOS, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < top), Not(hit(i))), patterns=[at(i)])),
                      z3.And(r >= 0, r < top, hit(r), z3.ForAll([i], z3.Implies(z3.And(i > r, i < top), Not(hit(i))), patterns=[at(i)]))), st)
        return V(SIZE, r)
    if name == 'rfind' and E.smode == 'chars':
        ch = a.t if a.t.sort() == IntS else I(lit_chars_any(E, a.t)[0])
        hit = lambda k: at(k) == ch
        top = ln if pos is None else z3.If(pos + 1 < ln, pos + 1, ln)
        ex.fact(z3.Or(z3.And(r == NPOS, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < top), Not(hit(i))), patterns=[at(i)])),
                      z3.And(r >= 0, r < top, hit(r), z3.ForAll([i], z3.Implies(z3.And(i > r, i < top), Not(hit(i))), patterns=[at(i)]))), st)
        return V(SIZE, r)
    if name == 'find':
        start = pos if pos is not None else I(0)
        if a.t.sort() == IntS or E.smode == 'chars':
            ch = a.t if a.t.sort() == IntS else I(lit_chars_any(E, a.t)[0])
            hit = lambda k: at(k) == ch
            ex.fact(z3.Or(z3.And(r == NPOS, z3.ForAll([i], z3.Implies(z3.And(i >= start, i < ln), Not(hit(i))), patterns=[at(i)])),
                          z3.And(r >= start, r < ln, hit(r), z3.ForAll([i], z3.Implies(z3.And(i >= start, i < r), Not(hit(i))), patterns=[at(i)]))), st)
            return V(SIZE, r)
        t = z3.IndexOf(v.t, a.t, start)
        return V(SIZE, z3.If(t < 0, I(NPOS), t))
    raise S.Unsupported('string::%s' % name)


def in_set(ex, st, s, c):
    """character c occurs in string s (s a literal: a disjunction)"""
    cs = lit_chars(s)
    if cs is not None:
        return Or(*[c == I(x) for x in sorted(set(cs))])
    return z3.Contains(s, z3.Unit(c))


def lit_chars_any(E, t):
    if E.smode == 'seq':
        return lit_chars(t)
    for k, c in E.lits.items():
        if c.eq(t):
            return list(k)
    return None


def lit_chars(t):
    d = t.decl().kind()
    if d == z3.Z3_OP_SEQ_UNIT and z3.is_int_value(t.arg(0)):
        return [t.arg(0).as_long()]
    if d == z3.Z3_OP_SEQ_EMPTY:
        return []
    if d == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for i in range(t.num_args()):
            c = lit_chars(t.arg(i))
            if c is None:
                return None
            out += c
        return out
    return None


def map_method(ex, st, lv, v, name, args, n):
    E = ex.E
    use(ex, 'std::unordered_map/map/set: value semantics of the member functions used')
    A = lambda i: ex.val(st, ex.ev(args[i], st))
    kty = v.ty.a[0]
    if name == 'size':
        ex.fact(E.mcard(v.t) >= 0)
        return V(SIZE, E.mcard(v.t))
    if name == 'empty':
        ex.card_fact(st, v)
        return V(BOOL, E.mcard(v.t) == 0)
    if name in ('count', 'contains'):
        k = norm_key(ex, st, A(0), kty)
        b = z3.Select(E.mdom(v.t), k)
        return V(BOOL, b) if name == 'contains' else V(SIZE, z3.If(b, I(1), I(0)))
    if name == 'at':
        k = norm_key(ex, st, A(0), kty)
        ex.oblige(st, z3.Select(E.mdom(v.t), k), 'map::at finds its key', 'safety')
        return S.LMapVal(lv, k, v.ty.a[1])
    if name == 'find':
        k = norm_key(ex, st, A(0), kty)
        f = E.fresh('found', IntS)
        c = E.mcard(v.t)
        ex.fact(z3.If(z3.Select(E.mdom(v.t), k), z3.And(f >= 0, f < c), f == c), st)
        return S.IterV(lv, f, v.ty, False, k)
    if name in ('end', 'cend'):
        return S.IterV(lv, E.mcard(v.t), v.ty, False, None)
    if name in ('begin', 'cbegin'):
        ex.fact(E.mcard(v.t) >= 0)
        return S.IterV(lv, I(0), v.ty, False, None)
    if name == 'insert':
        x = A(0)
        if v.ty.k == 'set':
            k = norm_key(ex, st, x, kty)
            ex.write(st, lv, V(v.ty, set_insert(ex, v, k)))
            return V(VOID, I(0))
        if x.ty.k == 'tup':
            k = E.rec_get(x.ty, x.t, 'f0')
            val = E.rec_get(x.ty, x.t, 'f1')
            old = z3.Select(E.mval(v.t), k)
            new = z3.If(z3.Select(E.mdom(v.t), k), old, val)
            ex.write(st, lv, V(v.ty, map_put(ex, v, k, new)))
            return V(VOID, I(0))
    if name == 'clear':
        ex.write(st, lv, V(v.ty, E.default(v.ty)))
        return V(VOID, I(0))
    raise S.Unsupported('map::%s' % name)


# ------------------------------------------------------------------ priority queue (base of FixedCapacityPriorityQueue)
def pq_method(ex, st, lv, name, args, n, rec):
    """std::priority_queue<T, vector<T>, Cmp>: the underlying container c is a heap; top() is c[0].
    Assumed: push adds exactly the value, pop removes exactly one occurrence of top()."""
    E = ex.E
    use(ex, 'std::priority_queue: push adds the value, pop removes exactly the element referenced by top()')
    v = ex.read(st, lv)
    A = lambda i: ex.val(st, ex.ev(args[i], st))
    ln = E.vlen(v.t)
    ety = v.ty.a[0]
    ex.fact(ln >= 0)
    if name == 'size':
        return V(SIZE, ln)
    if name == 'empty':
        return V(BOOL, ln == 0)
    if name == 'top':
        ex.oblige(st, ln > 0, 'top() of non-empty queue', 'safety')
        ex.fact(ln > 0, st)
        return S.LIndex(lv, I(0), ety)
    if name == 'push':
        x = ex.coerce(st, A(0), ety)
        tmp = S.LTemp(v, v.ty)
        push_back(ex, st, tmp, x)
        ex.write(st, lv, permutation(ex, st, tmp.v, I(0), E.vlen(tmp.v.t), 'heap'))
        return V(VOID, I(0))
    if name == 'pop':
        ex.oblige(st, ln > 0, 'pop() of non-empty queue', 'safety')
        ex.fact(ln > 0, st)
        if not ex.dry:
            ex.note_index(ex.named(E.varr(v.t), 'arr'), I(0))
        w = slice_vec(ex, st, v, I(1), ln - 1)
        ex.write(st, lv, permutation(ex, st, w, I(0), ln - 1, 'heap'))
        return V(VOID, I(0))
    raise S.Unsupported('priority_queue::%s' % name)


def throw_if(ex, st, cond):
    b = ex.name_cond(st, cond)
    t = st.copy()
    t.pc = And(st.pc, b)
    if not ex.dry:
        ex.throws.append(t)
    st.pc = And(st.pc, Not(b))


# ------------------------------------------------------------------ free functions
def call(ex, st, name, args, n, rd):
    E = ex.E
    A = lambda i: ex.val(st, ex.ev(args[i], st))
    if name in ('fabs', 'abs'):
        x = A(0)
        use(ex, 'std::%s' % name)
        if x.ty.k == 'float':
            if E.fmode == 'fp':
                return V(x.ty, z3.fpAbs(x.t))
            return V(x.ty, z3.If(x.t < 0, E.fneg(x.t) if E.fmode == 'uf' else -x.t, x.t))
        ex.oblige(st, x.t > -(1 << (int(x.ty.n[1:]) - 1)), 'abs does not overflow', 'safety')
        return V(x.ty, z3.If(x.t < 0, -x.t, x.t))
    if name in ('min', 'max') and not args:
        # numeric_limits<T>::min()/max()
        ty = ex.tp.of(n)
        return limit(ex, name, ty)
    if name in ('lowest', 'infinity', 'epsilon', 'quiet_NaN') and not args:
        ty = ex.tp.of(n)
        return limit(ex, name, ty)
    if name in ('min', 'max', 'fmin', 'fmax') and len(args) == 2:
        a, b = A(0), A(1)
        use(ex, 'std::min/std::max: (b<a)?b:a and (a<b)?b:a')
        if a.ty.k == 'float' or b.ty.k == 'float':
            x = ex.coerce(st, a, DOUBLE).t; y = ex.coerce(st, b, DOUBLE).t
            c = E.fcmp('<', y, x) if name in ('min', 'fmin') else E.fcmp('<', x, y)
            return V(DOUBLE, z3.If(c, y, x))
        c = b.t < a.t if name == 'min' else a.t < b.t
        return V(a.ty, z3.If(c, b.t, a.t))
    if name in ('min', 'max') and len(args) == 1:
        raise S.Unsupported('min/max of a list')
    if name == 'clamp' and len(args) == 3:
        a, lo, hi = A(0), A(1), A(2)
        return V(a.ty, z3.If(E.fcmp('<', a.t, lo.t) if a.ty.k == 'float' else a.t < lo.t, lo.t, z3.If(E.fcmp('<', hi.t, a.t) if a.ty.k == 'float' else hi.t < a.t, hi.t, a.t)))
    if name in ('round', 'floor', 'ceil', 'sqrt', 'pow', 'trunc', 'rint', 'lround', 'fmod'):
        use(ex, 'std::%s' % name)
        xs = [ex.coerce(st, A(i), DOUBLE).t for i in range(len(args))]
        if E.fmode == 'fp' and name in ('round', 'floor', 'ceil', 'trunc'):
            rm = {'round': z3.RNA(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ()}[name]
            return V(DOUBLE, z3.fpRoundToIntegral(rm, xs[0]))
        if E.fmode == 'real' and name in ('floor', 'ceil', 'round', 'trunc'):
            x = xs[0]
            fl = z3.ToReal(z3.ToInt(x))
            if name == 'floor':
                return V(DOUBLE, fl)
            if name == 'ceil':
                return V(DOUBLE, -z3.ToReal(z3.ToInt(-x)))
            if name == 'round':
                return V(DOUBLE, z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-x + z3.Q(1, 2)))))
            return V(DOUBLE, z3.If(x >= 0, fl, -z3.ToReal(z3.ToInt(-x))))
        f = E.fn('libm_' + name, *([E.fsort()] * len(xs)), E.fsort())
        return V(DOUBLE, f(*xs))
    if name in ('sort', 'stable_sort'):
        a, b = A(0), A(1)
        use(ex, 'std::%s permutes the given range (no assumption about the order it establishes)' % name)
        if not isinstance(a, S.IterV) or a.rev:
            raise S.Unsupported('sort of this range')
        v = ex.read(st, a.lv)
        ex.write(st, a.lv, permutation(ex, st, v, a.idx, b.idx, name))
        return V(VOID, I(0))
    if name == 'partial_sort_copy':
        a, b, c, d = A(0), A(1), A(2), A(3)
        use(ex, 'std::partial_sort_copy of all elements: the result is a permutation of the source')
        src, dst = ex.read(st, a.lv), ex.read(st, c.lv)
        ex.oblige(st, z3.And(E.vlen(src.t) == E.vlen(dst.t)), 'partial_sort_copy into a range of equal length', 'safety')
        ex.write(st, c.lv, permutation(ex, st, src, I(0), E.vlen(src.t), name))
        return c
    if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty'):
        x = ex.ev(args[0], st)
        if not isinstance(x, S.LVS):
            x = S.LTemp(x, x.ty)
        return method(ex, st, x, name, [], n, None, None)
    if name == 'reverse':
        a, b = A(0), A(1)
        v = ex.read(st, a.lv)
        t = E.fresh('rev', v.t.sort())
        i = z3.Int('ri')
        ex.fact(E.vlen(t) == E.vlen(v.t), st)
        lo, hi = a.idx, b.idx
        ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), E.vat(t, i) == E.vat(v.t, lo + hi - 1 - i)), patterns=[E.vat(t, i)]), st)
        ex.fact(z3.ForAll([i], z3.Implies(z3.Or(i < lo, i >= hi), E.vat(t, i) == E.vat(v.t, i)), patterns=[E.vat(t, i)]), st)
        if not ex.dry:
            ex.theory_perm(v, V(v.ty, t).t, lo, hi)
        ex.write(st, a.lv, V(v.ty, t))
        return V(VOID, I(0))
    if name == 'find':
        a, b, x = A(0), A(1), A(2)
        v = ex.read(st, a.lv)
        use(ex, 'std::find')
        if v.ty.k in ('map', 'set'):
            # position in iteration order: begin() <= r < end() exactly for members (searched from the first element)
            if v.ty.k != 'set' or not (z3.is_int_value(a.idx) and a.idx.as_long() == 0):
                raise S.Unsupported('std::find on part of a map')
            k = norm_key(ex, st, x, v.ty.a[0])
            r = E.fresh('found', IntS)
            c = E.mcard(v.t)
            ex.fact(z3.If(z3.Select(E.mdom(v.t), k), z3.And(r >= 0, r < c), r == c), st)
            return S.IterV(a.lv, r, v.ty, False, k)
        r = E.fresh('fnd', IntS)
        i = z3.Int('fi')
        at = (lambda k: E.sat(v.t, k)) if v.ty.k == 'str' else (lambda k: E.vat(v.t, k))
        ex.fact(z3.And(r >= a.idx, r <= b.idx, z3.Implies(r < b.idx, at(r) == x.t)), st)
        ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= a.idx, i < r), at(i) != x.t), patterns=[at(i)]), st)
        return S.IterV(a.lv, r, a.ty)
    if name in ('next', 'prev') and len(args) >= 1:
        a = A(0)
        d = A(1).t if len(args) > 1 else I(1)
        return S.IterV(a.lv, a.idx + d if name == 'next' else a.idx - d, a.ty, a.rev)
    if name == 'distance':
        a, b = A(0), A(1)
        return V(INT(True, 64), b.idx - a.idx)
    if name in ('make_pair', 'make_tuple'):
        vs = [A(i) for i in range(len(args))]
        ty = ex.tp.of(n)
        vs = [ex.coerce(st, v, a) for v, a in zip(vs, ty.a)]
        return V(ty, E.sort(ty).constructor(0)(*[v.t for v in vs]))
    if name == 'get' and len(args) == 1:
        x = ex.ev(args[0], st)
        i = tuple_index(n)
        v = ex.val(st, x)
        if not isinstance(x, S.LVS):
            x = S.LTemp(v, v.ty)
        return S.LField(x, 'f%d' % i, v.ty.a[i])
    if name in ('move', 'forward', 'addressof', 'as_const', 'ref', 'cref'):
        return ex.ev(args[0], st)
    if name == 'swap' and len(args) == 2:
        a, b = ex.ev(args[0], st), ex.ev(args[1], st)
        x, y = ex.read(st, a), ex.read(st, b)
        ex.write(st, a, y)
        ex.write(st, b, x)
        return V(VOID, I(0))
    if name == '__assert_fail':
        ex.oblige(st, FALSE, 'assert() holds', 'assert')
        st.pc = FALSE
        return V(VOID, I(0))
    if name == 'to_string':
        x = A(0)
        use(ex, 'std::to_string (uninterpreted text of a number)')
        return V(STR, fmt(ex, x))
    if name in ('isupper', 'islower', 'isalpha', 'isdigit', 'isspace', 'isalnum', 'tolower', 'toupper', 'iswspace', 'iswupper', 'towlower', 'isblank', 'ispunct', 'iscntrl'):
        x = A(0)
        use(ex, 'ctype/wctype classification in the C locale (uninterpreted; isupper is A-Z)')
        if name == 'isupper':
            return V(INT(), z3.If(z3.And(x.t >= 65, x.t <= 90), I(1), I(0)))
        if name == 'islower':
            return V(INT(), z3.If(z3.And(x.t >= 97, x.t <= 122), I(1), I(0)))
        if name == 'isdigit':
            return V(INT(), z3.If(z3.And(x.t >= 48, x.t <= 57), I(1), I(0)))
        if name == 'isspace':
            return V(INT(), z3.If(z3.Or(x.t == 32, z3.And(x.t >= 9, x.t <= 13)), I(1), I(0)))
        f = E.fn('ctype_' + name, IntS, IntS)
        return V(INT(), f(x.t))
    if name == 'rand':
        use(ex, 'rand(): any value in [0, RAND_MAX]')
        t = E.fresh('rand', IntS)
        ex.fact(z3.And(t >= 0, t <= 2147483647))
        return V(INT(), t)
    if name in ('strlen', 'wcslen'):
        return V(SIZE, E.slen(A(0).t))
    if name in ('setfill', 'setw', 'setprecision', 'hex', 'setbase'):
        a = A(0) if args else None
        return S.FuncV('manip', name=name, arg=a)
    if name in ('high_resolution_clock', 'now', 'clock'):
        return V(ex.tp.of(n), E.fresh('now', IntS))
    if name in ('duration_cast',):
        A(0)
        return V(ex.tp.of(n), E.fresh('dur', IntS))
    if name == 'transform' and len(args) == 4:
        a, b, o, f = A(0), A(1), A(2), ex.ev(args[3], st)
        v = ex.read(st, a.lv) if isinstance(a, S.IterV) else None
        if v is not None and v.ty.k == 'str' and isinstance(f, S.FuncV) and f.kind == 'fn' and isinstance(o, S.IterV) and S.lv_same(o.lv, a.lv) \
                and z3.is_int_value(a.idx) and a.idx.as_long() == 0 and z3.is_int_value(o.idx) and o.idx.as_long() == 0 and b.idx.eq(E.slen(v.t)):
            use(ex, 'std::transform over a whole string in place: an uninterpreted function of the string, one per character function')
            ex.write(st, o.lv, V(v.ty, E.fn('s_map_' + f.ref.get('name'), E.StrS, E.StrS)(v.t)))
            return V(VOID, I(0))
        raise S.Unsupported('std::transform')
    if name == 'bind':
        return do_bind(ex, st, args, n)
    if name == 'isnan':
        x = A(0)
        return V(BOOL, z3.fpIsNaN(x.t) if E.fmode == 'fp' else FALSE)
    if name == 'check_first_occurrence':
        use(ex, 'boost::program_options: check_first_occurrence throws if the option has a value already')
        throw_if(ex, st, Not(E.fn('any_empty', IntS, BoolS)(A(0).t)))
        return V(VOID, I(0))
    if name == 'get_single_string':
        use(ex, 'boost::program_options: get_single_string returns the only token and throws if there is not exactly one')
        v = A(0)
        throw_if(ex, st, E.vlen(v.t) != 1)
        return V(STR, E.vat(v.t, I(0)))
    h = EXTERNAL.get(name)
    if h is not None:
        return h(ex, st, args, n)
    raise S.Unsupported('call of external function %s' % name)


# ------------------------------------------------------------------ Poppler and utf8proc (opaque objects, assumed contracts)
def x_utf8proc_map(ex, st, args, n):
    use(ex, 'utf8proc_map: any result, an allocated text of that length if it is not negative')
    for i in (0, 1, 3):
        ex.ev(args[i], st)
    out = ex.val(st, ex.ev(args[2], st))
    ty = out.lv.ty
    ex.write(st, out.lv, V(ty, ex.havoc_term(st, 'utf8', ty)))
    rt = ex.tp.of(n)
    return V(rt, ex.havoc_term(st, 'utf8len', rt))


def x_free(ex, st, args, n):
    for a in args:
        ex.ev(a, st)
    return V(VOID, I(0))


def x_make_unique(ex, st, args, n):
    rt = ex.tp.of(n)
    if args or rt.k != 'ptr':
        raise S.Unsupported('make_unique with arguments')
    use(ex, 'std::make_unique: a new object')
    t = ex.havoc_term(st, 'unique', rt)
    ex.fact(t > 0, st)
    return V(rt, t)


EXTERNAL = {'utf8proc_map': x_utf8proc_map, 'free': x_free, 'make_unique': x_make_unique}


def pdf_method(ex, st, base, name, args, n):
    """Poppler's documents: loading a path gives a document, which is ok or has an error code (functions of the path)"""
    E = ex.E
    if name == 'createPDFDoc':
        use(ex, 'PDFDocFactory::createPDFDoc: a document that is a function of the path')
        x = ex.val(st, ex.ev(args[0], st))
        t = E.fn('pdf_of_path', x.t.sort(), IntS)(x.t)
        ex.fact(t > 0, st)
        return V(ex.tp.of(n), t)
    if name in ('isOk', 'getErrorCode', 'getNumPages') and not args:
        use(ex, 'PDFDoc::isOk, getErrorCode, getNumPages: functions of the document')
        rt = ex.tp.of(n)
        return V(rt, E.fn('pdf_' + name, IntS, E.sort(rt))(base.ref))
    return None


def ext_method(ex, st, base, name, args, n):
    E = ex.E
    if name == 'getTextEncoding' and not args:
        use(ex, 'GlobalParams::getTextEncoding: the UTF-8 map or null')
        ty = ex.tp.of(n)
        return V(ty, ex.havoc_term(st, 'umap', ty))
    if name == 'mapUnicode' and len(args) == 3:
        use(ex, 'UnicodeMap::mapUnicode of the UTF-8 map: 1 to 4 bytes for code points up to 0x10ffff, else 0')
        u = ex.val(st, ex.ev(args[0], st)).t
        buf = ex.ev(args[1], st)
        size = ex.val(st, ex.ev(args[2], st)).t
        v = ex.read(st, buf)
        ex.oblige(st, size <= E.vlen(v.t), 'buffer of mapUnicode is as large as stated', 'safety')
        ex.oblige(st, size >= 4, 'buffer of mapUnicode holds 4 bytes', 'safety')
        t = ex.havoc_term(st, 'buf', v.ty)
        ex.fact(E.vlen(t) == E.vlen(v.t), st)
        ex.write(st, buf, V(v.ty, t))
        return V(ex.tp.of(n), z3.If(u <= 0x7f, I(1), z3.If(u <= 0x7ff, I(2), z3.If(u <= 0xffff, I(3), z3.If(u <= 0x10ffff, I(4), I(0))))))
    return None


def do_bind(ex, st, args, n):
    c = ex.callee(args[0])
    rd = c.get('referencedDecl', {})
    return S.FuncV('bindraw', target=rd)


def tuple_index(n):
    q = children(n)[0]
    import re
    while q.get('kind') != 'DeclRefExpr':
        q = children(q)[0]
    t = q['referencedDecl'].get('type', {}).get('qualType', '')
    m = re.search(r'__tuple_element_t<(\d+)', t) or re.search(r'tuple_element<(\d+)', t)
    if m:
        return int(m.group(1))
    raise S.Unsupported('std::get index')


def limit(ex, name, ty):
    E = ex.E
    if ty.k == 'float':
        if E.fmode == 'fp':
            x = {'max': E.DBL_MAX, 'min': E.DBL_MIN, 'lowest': -E.DBL_MAX, 'infinity': float('inf'), 'epsilon': 2.220446049250313e-16, 'quiet_NaN': float('nan')}[name]
            return V(ty, E.fval(x))
        if name == 'max':
            return V(ty, E.fval(E.DBL_MAX))
        if name == 'lowest':
            return V(ty, E.fval(-E.DBL_MAX))
        if name == 'min':
            return V(ty, E.fval(E.DBL_MIN))
        if name == 'epsilon':
            return V(ty, E.fval(2.220446049250313e-16))
        raise S.Unsupported('numeric_limits::' + name)
    b = int(ty.n[1:])
    if ty.n[0] == 's':
        return V(ty, I(-(1 << (b - 1)) if name in ('min', 'lowest') else (1 << (b - 1)) - 1))
    return V(ty, I(0 if name in ('min', 'lowest') else (1 << b) - 1))


# ------------------------------------------------------------------ streams
def fmt(ex, v, hexw=None):
    E = ex.E
    if v.ty.k == 'str':
        return v.t
    if v.ty.k == 'int' and int(v.ty.n[1:]) == 8:
        return E.sunit(v.t)
    if v.ty.k == 'float':
        f = E.fn('fmt_double', E.fsort(), E.StrS)
        return f(v.t)
    if v.ty.k in ('int', 'enum', 'bool'):
        t = v.t if v.t.sort() == IntS else z3.If(v.t, I(1), I(0))
        f = E.fn('fmt_int', IntS, E.StrS)
        return f(t)
    if v.ty.k == 'ptr':
        f = E.fn('fmt_ptr', IntS, E.StrS)
        return f(v.t)
    raise S.Unsupported('formatting of %r' % v.ty)


def stream_out(ex, st, x, arg, n):
    E = ex.E
    if not isinstance(x, S.LVS):
        raise S.Unsupported('<< on %r' % (getattr(x, 'ty', x),))
    v = ex.read(st, x)
    if v.ty.k != 'stream':
        raise S.Unsupported('<< on %r' % v.ty)
    use(ex, 'ostream: << appends the text of its operand; the text of a number is an uninterpreted function of its value (default format)')
    a = ex.ev(arg, st)
    if isinstance(a, S.FuncV):
        nm = a.ref.get('name') if a.kind == 'fn' else a.name
        fk = ('fmt',) + tuple([id(x)])
        if nm == 'endl':
            ex.write(st, x, V(v.ty, E.scat(v.t, E.slit('\n'))))
            return x
        if nm in ('flush',):
            return x
        # sticky formatting state: tracked only inside one function, per stream object
        key = ex.lvkey(x)
        fs = dict(ex.fmtstate(st, key))
        if nm in ('hex', 'dec', 'fixed', 'boolalpha'):
            fs['base' if nm in ('hex', 'dec') else nm] = nm
        elif nm in ('setfill', 'setw', 'setprecision'):
            fs[nm] = a.arg.t
        else:
            raise S.Unsupported('manipulator %s' % nm)
        ex.set_fmtstate(st, key, fs)
        return x
    av = ex.val(st, a)
    if isinstance(av, S.LObj) or not isinstance(av, V_):
        raise S.Unsupported('<< of %r' % (av,))
    key = ex.lvkey(x)
    fs = {k: v for k, v in ex.fmtstate(st, key).items() if (k in ('base', 'setw', 'setfill')) == (av.ty.k != 'float') or k == 'setw'}
    if any(isinstance(v, str) and v == 'unknown' for v in fs.values()) and not (av.ty.k == 'str' and 'setw' not in fs) and not (av.ty.k == 'int' and av.ty.n[1:] == '8' and 'setw' not in fs):
        raise S.Unsupported('formatting state not determined')
    if fs and av.ty.k in ('int', 'enum', 'bool', 'float') and not (av.ty.k == 'int' and av.ty.n[1:] == '8'):
        t = av.t if av.t.sort() != BoolS else z3.If(av.t, I(1), I(0))
        parts = []
        extra = []
        for kk in sorted(fs):
            if kk == 'base':
                parts.append(fs[kk])
            else:
                parts.append(kk)
                if z3.is_expr(fs[kk]):
                    extra.append(fs[kk])
        f = E.fn('fmt_' + '_'.join(parts) + ('_f' if av.ty.k == 'float' else ''), *([e.sort() for e in extra] + [t.sort(), E.StrS]))
        txt = f(*(extra + [t]))
        if 'setw' in fs:
            fs = dict(fs); fs.pop('setw'); ex.set_fmtstate(st, key, fs)
    else:
        txt = fmt(ex, av)
        if 'setw' in fs:
            raise S.Unsupported('setw for text')
    ex.write(st, x, V(v.ty, E.scat(v.t, txt)))
    return x


# ------------------------------------------------------------------ operators
def oper(ex, st, op, args, n):
    E = ex.E
    if op == 'operator=':
        rv = ex.ev(args[1], st)
        lv = ex.ev(args[0], st)
        v = ex.val(st, rv)
        if lv is S.DROPPED:
            return lv
        if isinstance(v, V_) and getattr(lv, 'ty', None) is not None and lv.ty.k == 'opq' and (lv.ty.n or '').split('::')[-1] == 'any' and v.ty.k != 'opq':
            use(ex, 'boost::any holds the value assigned last')
            v = V(lv.ty, E.fn('any_of_%s' % (v.ty.n or v.ty.k), v.t.sort(), IntS)(v.t))
        if isinstance(v, V_) and getattr(lv, 'ty', None) is not None and lv.ty.k == 'str' and v.t.sort() == IntS:
            v = V(lv.ty, E.sunit(v.t))
        if isinstance(v, V_) and getattr(lv, 'ty', None) is not None:
            v = ex.fit(st, v, lv.ty)
        ex.write(st, lv, v)
        return lv
    if op == 'operator+=':
        rv = ex.val(st, ex.ev(args[1], st))
        lv = ex.ev(args[0], st)
        v = ex.read(st, lv)
        if isinstance(v, S.IterV):
            ex.write(st, lv, S.IterV(v.lv, v.idx + rv.t, v.ty, v.rev))
            return lv
        if v.ty.k == 'str':
            use(ex, 'std::string/wstring: value semantics of the member functions used')
            t = rv.t if rv.ty.k == 'str' else E.sunit(rv.t)
            ex.write(st, lv, V(v.ty, E.scat(v.t, t)))
            return lv
    if op == 'operator[]':
        base = ex.ev(args[0], st)
        idx = ex.val(st, ex.ev(args[1], st))
        if isinstance(base, (V_,)):
            base = S.LTemp(base, base.ty)
        v = ex.read(st, base)
        if isinstance(v, S.LObj) or v.ty.k == 'rec':
            base = base_container(ex, st, base)
            v = ex.read(st, base)
        if v.ty.k in ('vec', 'arr'):
            ln = E.vlen(v.t)
            use(ex, 'std::vector: value semantics of the member functions used')
            ex.oblige(st, z3.And(idx.t >= 0, idx.t < ln), 'vector index in bounds', 'safety')
            ex.fact(z3.And(idx.t >= 0, idx.t < ln), st)
            return S.LIndex(base, idx.t, v.ty.a[0])
        if v.ty.k == 'str':
            ln = E.slen(v.t)
            use(ex, 'std::string/wstring: value semantics of the member functions used')
            ex.oblige(st, z3.And(idx.t >= 0, idx.t < ln), 'string index in bounds', 'safety')
            ex.fact(z3.And(idx.t >= 0, idx.t < ln), st)
            ex.char_fact(st, v, idx.t)
            return S.LIndex(base, idx.t, S.elem_of_str(v.ty))
        if v.ty.k == 'map':
            use(ex, 'std::unordered_map/map/set: value semantics of the member functions used')
            k = norm_key(ex, st, idx, v.ty.a[0])
            d = E.mdom(v.t)
            dv = E.default(v.ty.a[1])
            old = z3.Select(E.mval(v.t), k)
            ex.write(st, base, V(v.ty, map_put(ex, v, k, z3.If(z3.Select(d, k), old, dv))))
            return S.LMapVal(base, k, v.ty.a[1])
    if op in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        a = ex.val(st, ex.ev(args[0], st))
        b = ex.val(st, ex.ev(args[1], st))
        if isinstance(a, V_) and isinstance(b, V_) and a.ty.k in ('vec', 'map') :
            raise S.Unsupported('container comparison')
        if isinstance(a, V_) and a.ty.k == 'str' and op not in ('operator==', 'operator!='):
            f = E.fn('s_less', E.StrS, E.StrS, BoolS)
            return V(BOOL, {'operator<': f(a.t, b.t), 'operator>': f(b.t, a.t), 'operator<=': Not(f(b.t, a.t)), 'operator>=': Not(f(a.t, b.t))}[op])
        return V(BOOL, ex.compare(st, op[8:], a, b))
    if op in ('operator+', 'operator-'):
        a = ex.val(st, ex.ev(args[0], st))
        if len(args) == 1:
            raise S.Unsupported('unary operator')
        b = ex.val(st, ex.ev(args[1], st))
        if isinstance(a, V_) and (a.ty.k == 'str' or b.ty.k == 'str'):
            use(ex, 'std::string/wstring: value semantics of the member functions used')
            x = a.t if a.ty.k == 'str' else E.sunit(a.t)
            y = b.t if b.ty.k == 'str' else E.sunit(b.t)
            return V(a.ty if a.ty.k == 'str' else b.ty, E.scat(x, y))
        if isinstance(a, S.IterV) or isinstance(b, S.IterV):
            return iter_arith(ex, st, op[8:], a, b)
        if op == 'operator-':
            return V(ex.tp.of(n), E.fresh('opaque', IntS))
    if op == 'operator*':
        x = ex.val(st, ex.ev(args[0], st))
        return ex.deref(st, x, ex.tp.of(n)) if isinstance(x, (S.IterV, S.PtrV)) or (isinstance(x, V_) and x.ty.k == 'ptr') else _uns('operator*')
    if op == 'operator->':
        x = ex.val(st, ex.ev(args[0], st))
        if isinstance(x, S.IterV):
            v = ex.read(st, x.lv)
            if v.ty.k == 'map':
                return S.PtrV(iter_deref(ex, st, x), FALSE, Ty('ptr', [Ty('tup', v.ty.a)]))
            return S.PtrV(iter_deref(ex, st, x), FALSE, None)
        return x
    if op in ('operator++', 'operator--'):
        lv = ex.ev(args[0], st)
        v = ex.read(st, lv)
        d = 1 if op == 'operator++' else -1
        if isinstance(v, S.IterV):
            ex.write(st, lv, S.IterV(v.lv, z3.simplify(v.idx + d), v.ty, v.rev, v.key))
            return v if len(args) > 1 else lv
    if op == 'operator()':
        fv = ex.val(st, ex.ev(args[0], st))
        return ex.call_funcv(st, fv, [ex.ev(a, st) for a in args[1:]], n)
    if op == 'operator bool':
        return V(BOOL, ex.truth(ex.ev(args[0], st), st))
    raise S.Unsupported('operator %s' % op)


def _uns(w):
    raise S.Unsupported(w)


# ------------------------------------------------------------------ constructors of library types
def construct(ex, st, ty, args, n):
    E = ex.E
    if ty.k in ('vec',):
        real = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        vals = [ex.ev(a, st) for a in real]
        if not vals:
            return V(ty, E.vempty(ty))
        if len(vals) == 1:
            v = ex.val(st, vals[0])
            if isinstance(v, V_) and v.ty.k in ('vec', 'arr'):
                return V(ty, v.t)
            if isinstance(v, V_) and v.ty.k == 'int':
                t = E.fresh('filled', E.sort(ty))
                ex.fact(E.vlen(t) == v.t, st)
                i = z3.Int('vi')
                ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.t), E.vat(t, i) == E.default(ty.a[0])), patterns=[E.vat(t, i)]), st)
                return V(ty, t)
        if len(vals) == 2:
            a, b = ex.val(st, vals[0]), ex.val(st, vals[1])
            if isinstance(a, S.IterV) and isinstance(b, S.IterV):
                use(ex, 'std::vector: value semantics of the member functions used')
                src = ex.read(st, a.lv)
                lo, hi = a.idx, b.idx
                ex.oblige(st, z3.And(lo >= 0, lo <= hi, hi <= E.vlen(src.t)), 'vector built from a valid iterator range', 'safety')
                ex.fact(z3.And(lo >= 0, lo <= hi, hi <= E.vlen(src.t)), st)
                return V(ty, slice_vec(ex, st, src, lo, z3.simplify(hi - lo)).t)
            if isinstance(a, V_) and a.ty.k == 'int':
                t = E.fresh('filled', E.sort(ty))
                b = ex.coerce(st, b, ty.a[0])
                ex.fact(E.vlen(t) == a.t, st)
                i = z3.Int('vi')
                ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.t), E.vat(t, i) == b.t), patterns=[E.vat(t, i)]), st)
                return V(ty, t)
        raise S.Unsupported('vector constructor')
    if ty.k == 'str':
        real = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if not real:
            return V(ty, E.sempty())
        vals = [ex.val(st, ex.ev(a, st)) for a in real]
        use(ex, 'std::string/wstring: value semantics of the member functions used')
        if len(vals) == 1:
            if isinstance(vals[0], V_) and vals[0].ty.k in ('str', 'stream'):
                return V(ty, vals[0].t)
            if isinstance(vals[0], V_) and vals[0].t.sort() == E.StrS:
                return V(ty, vals[0].t)
        if len(vals) == 2 and isinstance(vals[0], V_) and vals[0].ty.k == 'ptr':
            use(ex, 'string built from a foreign buffer: any string of that length')
            t = E.fresh('foreign', E.StrS)
            ex.fact(E.slen(t) == vals[1].t, st)
            return V(ty, t)
        if len(vals) == 2 and isinstance(vals[0], V_) and vals[0].ty.k == 'int':
            n_, c_ = z3.simplify(vals[0].t), z3.simplify(vals[1].t)
            if z3.is_int_value(n_) and z3.is_int_value(c_) and 0 <= n_.as_long() <= 64:
                return V(ty, E.slit([c_.as_long()] * n_.as_long()))
            t = E.fresh('filled', E.StrS)
            ex.fact(E.slen(t) == vals[0].t, st)
            if E.smode in ('seq', 'chars'):
                i = z3.Int('si')
                ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < vals[0].t), E.sat(t, i) == vals[1].t), patterns=[E.sat(t, i)]), st)
            f = E.fn('s_fill', IntS, IntS, E.StrS)
            ex.fact(t == f(vals[0].t, vals[1].t), st)
            return V(ty, t)
        if len(vals) == 2 and isinstance(vals[0], S.IterV):
            src = ex.read(st, vals[0].lv)
            if src.ty.k == 'str':
                lo, hi = vals[0].idx, vals[1].idx
                ex.oblige(st, z3.And(lo >= 0, lo <= hi, hi <= E.slen(src.t)), 'string built from a valid iterator range', 'safety')
                return V(ty, E.ssub(src.t, lo, hi - lo))
        raise S.Unsupported('string constructor')
    if ty.k in ('map', 'set'):
        real = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if not real:
            return V(ty, E.default(ty))
        v = ex.val(st, ex.ev(real[0], st))
        if isinstance(v, V_) and v.ty.k == ty.k:
            return V(ty, v.t)
        if isinstance(v, S.IterV) and ty.k == 'set' and len(real) >= 2:
            w = ex.val(st, ex.ev(real[1], st))
            src = ex.read(st, v.lv)
            if isinstance(w, S.IterV) and src.ty.k == 'vec':
                use(ex, 'std::unordered_map/map/set: value semantics of the member functions used')
                t = E.fresh('setof', E.sort(ty))
                i, at = z3.Int('si'), (lambda k: E.vat(src.t, k))
                k = z3.Const('sk', at(I(0)).sort())
                wit = z3.Function(str(t) + '_at', k.sort(), IntS)
                inr = lambda x: z3.And(x >= v.idx, x < w.idx)
                ex.fact(z3.ForAll([i], z3.Implies(inr(i), z3.Select(E.mdom(t), at(i))), patterns=[at(i)]), st)
                ex.fact(z3.ForAll([k], z3.Implies(z3.Select(E.mdom(t), k), z3.And(inr(wit(k)), at(wit(k)) == k)), patterns=[z3.Select(E.mdom(t), k)]), st)
                ex.fact(z3.And(E.mcard(t) >= 0, (E.mcard(t) > 0) == (w.idx > v.idx)), st)
                return V(ty, t)
        if isinstance(v, V_) and v.ty.k in ('vec', 'arr') and (v.ty.n in ('initializer_list',) or (ty.k == 'map' and v.ty.k == 'arr')):
            ln = z3.simplify(E.vlen(v.t))
            if ty.k == 'map' and z3.is_int_value(ln) and v.ty.a[0].k == 'tup' and ln.as_long() <= 64:
                m = V(ty, E.default(ty))
                for i in range(ln.as_long()):
                    e = E.vat(v.t, I(i))
                    e = z3.simplify(e)
                    so = e.sort()
                    g = lambda j: e.arg(j) if z3.is_app(e) and e.decl().eq(so.constructor(0)) else so.accessor(0, j)(e)
                    if not z3.is_false(z3.simplify(z3.Select(E.mdom(m.t), g(0)))):
                        raise S.Unsupported('map from a list whose keys may be equal')
                    m = V(ty, map_put(ex, m, g(0), g(1)))
                return m
            raise S.Unsupported('map from list')
        raise S.Unsupported('map constructor')
    if ty.k == 'tup':
        vals = [ex.val(st, ex.ev(a, st)) for a in args]
        if not vals:
            return V(ty, E.default(ty))
        if len(vals) == 1 and vals[0].ty.k == 'tup':
            v = vals[0]
            if v.t.sort() == E.sort(ty):
                return V(ty, v.t)
            parts = [ex.coerce(st, V(v.ty.a[i], E.rec_get(v.ty, v.t, 'f%d' % i)), ty.a[i]).t for i in range(len(ty.a))]
            return V(ty, E.sort(ty).constructor(0)(*parts))
        return V(ty, E.sort(ty).constructor(0)(*[ex.coerce(st, v, a).t for v, a in zip(vals, ty.a)]))
    if ty.k == 'iter':
        v = ex.val(st, ex.ev(args[0], st))
        return v
    if ty.k == 'func':
        x = ex.val(st, ex.ev(args[0], st)) if args else None
        return x if x is not None else V(ty, I(0))
    if ty.k == 'stream':
        return V(ty, E.sempty())
    if ty.k == 'ptr':
        return ex.val(st, ex.ev(args[0], st)) if args else V(ty, I(0))
    if ty.k == 'opq':
        if len(args) == 1 and args[0].get('kind') != 'CXXDefaultArgExpr':
            x = ex.ev(args[0], st)
            v = ex.val(st, x)
            return v
        for a in args:
            if a.get('kind') != 'CXXDefaultArgExpr':
                ex.ev(a, st)
        return V(ty, E.fresh('opq', IntS))
    if ty.k in ('int', 'float', 'bool') and len(args) <= 1:
        return ex.val(st, ex.ev(args[0], st)) if args else V(ty, E.default(ty))
    if ty.k == 'arr':
        return V(ty, E.default(ty))
    raise S.Unsupported('construction of %r' % ty)


def delete(ex, st, x):
    """delete is modelled as a no-op on the heap model (the object must not be used afterwards: not checked)"""
    use(ex, 'delete: modelled as no-op (use after delete is not checked)')


GFX = ('GfxState', 'GfxPath', 'GfxSubpath', 'GfxFont', 'Gfx8BitFont', 'GfxCIDFont')


def gfx_method(ex, st, base, name, args, n):
    """Poppler's graphics state: what a method returns or writes through its pointers is a function of the object and its arguments"""
    E = ex.E
    cl = base.ty.n or ''
    if cl not in GFX:
        return None
    use(ex, 'methods of %s: functions of the object and the arguments, which change nothing but the cells they are given' % ', '.join(GFX))
    ins, outs = [base.ref], []
    for a in args:
        x = ex.ev(a, st)
        v = ex.val(st, x)
        if isinstance(v, S.PtrV):
            outs.append(v)
        elif isinstance(v, V_):
            ins.append(v.t)
        else:
            raise S.Unsupported('argument of %s::%s' % (cl, name))
    sorts = [t.sort() for t in ins]
    for i, p in enumerate(outs):
        lv = p.lv
        cur = ex.read(st, lv)
        if not isinstance(cur, V_):
            raise S.Unsupported('argument of %s::%s' % (cl, name))
        t = E.fn('gfx_%s_%s_%d' % (cl, name, i), *(sorts + [E.sort(cur.ty)]))(*ins)
        ex.write(st, lv, ex.fit(st, V(cur.ty, t), cur.ty))
    rt = ex.tp.of(n)
    if rt.k == 'void':
        return V(rt, I(0))
    t = E.fn('gfx_%s_%s' % (cl, name), *(sorts + [E.sort(rt)]))(*ins)
    if rt.k in ('int', 'float', 'ptr'):
        for f in E.wf(rt, t, st.alloc):
            ex.fact(f, None, 'type range')
    r = V(rt, t)
    return ex.fit(st, r, rt)
