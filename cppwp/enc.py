"""Logical encoding of C++ values (z3 sorts and terms)."""
import z3
from .cast import Ty, BOOL, DOUBLE, INT, STR, WSTR, VOID

IntS, BoolS = z3.IntSort(), z3.BoolSort()
I = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True or z3.is_true(x):
            continue
        if x is False or z3.is_false(x):
            return FALSE
        ys.append(x)
    if not ys:
        return TRUE
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if x is False or z3.is_false(x):
            continue
        if x is True or z3.is_true(x):
            return TRUE
        ys.append(x)
    if not ys:
        return FALSE
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def Ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def simp(x):
    return z3.simplify(x)


class Enc:
    """Sort factory for one verification run (float mode and string mode are parameters)."""

    def __init__(self, prog, tp, fmode='real', smode='seq'):
        self.prog, self.tp, self.fmode, self.smode = prog, tp, fmode, smode
        self._sorts = {}
        self._fresh = {}
        self._ghost = {}
        self.axioms = []       # (name, formula) globally assumed facts about uninterpreted symbols
        self.uf = {}
        self.lits = {}
        self.litcodes = {}
        self.merged = set()
        self.sfolds = {}
        if smode == 'seq':
            self.StrS = z3.SeqSort(IntS)
        else:
            self.StrS = z3.DeclareSort('Str')
            self._init_abs()

    # ---- names
    def fresh(self, base, sort):
        n = self._fresh.get(base, 0)
        self._fresh[base] = n + 1
        return z3.Const('%s!%d' % (base, n), sort)

    def ghost(self, name, sort):
        if name not in self._ghost:
            self._ghost[name] = z3.Const('ghost_' + name, sort)
        return self._ghost[name]

    def fn(self, name, *sorts):
        if name not in self.uf:
            self.uf[name] = z3.Function(name, *sorts)
        return self.uf[name]

    # ---- sorts
    def fsort(self):
        return z3.Float64() if self.fmode == 'fp' else z3.RealSort()

    def sort(self, ty):
        k = ty.key()
        if k in self._sorts:
            return self._sorts[k]
        s = self._sort(ty)
        self._sorts[k] = s
        return s

    def _name(self, ty):
        import re
        return re.sub(r'\W+', '_', repr(ty))

    def _sort(self, ty):
        k = ty.k
        if k == 'bool':
            return BoolS
        if k in ('int', 'enum', 'ptr', 'opq', 'func', 'iter', 'fn'):
            return IntS
        if k == 'float':
            return self.fsort()
        if k in ('str', 'stream'):
            return self.StrS
        if k in ('ref', 'rref'):
            return self.sort(ty.a[0])
        if k in ('vec', 'arr'):
            es = self.sort(ty.a[0])
            nm = 'Vec_' + str(es).replace(' ', '_').replace('(', '').replace(')', '').replace(',', '_')
            if nm in self._sorts:
                return self._sorts[nm]
            d = z3.Datatype(nm)
            d.declare('mk_' + nm, ('len_' + nm, IntS), ('arr_' + nm, z3.ArraySort(IntS, es)))
            self._sorts[nm] = d.create()
            return self._sorts[nm]
        if k in ('map', 'set'):
            ks = self.sort(ty.a[0])
            vs = self.sort(ty.a[1]) if k == 'map' else BoolS
            nm = 'Map_%s_%s' % (ks, vs)
            nm = ''.join(c if c.isalnum() else '_' for c in nm)
            if nm in self._sorts:
                return self._sorts[nm]
            d = z3.Datatype(nm)
            # card: number of keys; ord: keys in iteration order (a bijection with the key set)
            d.declare('mk_' + nm, ('dom_' + nm, z3.ArraySort(ks, BoolS)), ('val_' + nm, z3.ArraySort(ks, vs)),
                      ('card_' + nm, IntS))
            self._sorts[nm] = d.create()
            return self._sorts[nm]
        if k == 'tup':
            fs = [('f%d' % i, self.sort(a)) for i, a in enumerate(ty.a)]
            return self._rec('Tup_' + '_'.join(str(s) for _, s in fs), fs)
        if k == 'rec':
            fs = []
            for f in self.prog.all_fields(ty.n):
                ft = self.tp.of(f)
                fs.append((f['_class'] + '.' + f['name'], self.sort(ft)))
            for bt in self.rec_special(ty.n):
                fs.append((bt[0], self.sort(bt[1])))
            return self._rec('Rec_' + ty.n, fs)
        if k == 'void':
            return IntS
        raise Exception('no sort for %r' % ty)

    def rec_special(self, cname):
        """extra components standing for standard-library base classes"""
        out = []
        for c in self.prog.base_chain(cname):
            if c in self.prog.classes:
                continue
            t = self.tp.parse(c)
            if t.k in ('map', 'set', 'vec'):
                out.append(('@base', t))
            if c.startswith('priority_queue<'):
                inner = c[len('priority_queue<'):-1]
                first = self.tp._split(inner)[0]
                out.append(('@base', Ty('vec', [self.tp.parse(first)])))
        return out

    def _rec(self, nm, fs):
        nm = ''.join(c if c.isalnum() else '_' for c in nm)
        if nm in self._sorts:
            return self._sorts[nm]
        d = z3.Datatype(nm)
        if not fs:
            fs = [('__dummy', IntS)]
        d.declare('mk_' + nm, *[('%s@%s' % (f, nm), s) for f, s in fs])
        s = d.create()
        self._sorts[nm] = s
        self._sorts[nm + '#f'] = [f for f, _ in fs]
        return s

    def rec_fields(self, ty):
        s = self.sort(ty)
        return self._sorts[s.name() + '#f']

    def rec_get(self, ty, t, fname):
        s = self.sort(ty)
        i = self.rec_fields(ty).index(fname)
        acc = s.accessor(0, i)
        if z3.is_app(t) and t.decl().eq(s.constructor(0)):
            return t.arg(i)
        return acc(t)

    def rec_set(self, ty, t, fname, v):
        s = self.sort(ty)
        fs = self.rec_fields(ty)
        return s.constructor(0)(*[v if f == fname else self.rec_get(ty, t, f) for f in fs])

    # ---- vectors
    def vmk(self, sort, n, arr):
        return sort.constructor(0)(n, arr)

    def vlen(self, t):
        s = t.sort()
        if z3.is_app(t) and t.decl().eq(s.constructor(0)):
            return t.arg(0)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = self.vlen(t.arg(1)), self.vlen(t.arg(2))
            if a.eq(b):
                return a
        return s.accessor(0, 0)(t)

    def varr(self, t):
        s = t.sort()
        if z3.is_app(t) and t.decl().eq(s.constructor(0)):
            return t.arg(1)
        return s.accessor(0, 1)(t)

    def vat(self, t, i):
        return z3.Select(self.varr(t), i)

    def vempty(self, ty):
        s = self.sort(ty)
        return self.vmk(s, I(0), z3.K(IntS, self.default(ty.a[0])))

    # ---- maps
    def mdom(self, t):
        s = t.sort()
        if z3.is_app(t) and t.decl().eq(s.constructor(0)):
            return t.arg(0)
        return s.accessor(0, 0)(t)

    def mval(self, t):
        s = t.sort()
        if z3.is_app(t) and t.decl().eq(s.constructor(0)):
            return t.arg(1)
        return s.accessor(0, 1)(t)

    def mcard(self, t):
        s = t.sort()
        if z3.is_app(t) and t.decl().eq(s.constructor(0)):
            return t.arg(2)
        return s.accessor(0, 2)(t)

    def mmk(self, sort, d, v, c):
        return sort.constructor(0)(d, v, c)

    # ---- strings
    def sempty(self):
        return self.slit('')

    def slit(self, s):
        """s: python str (code units given by ord) or list of ints"""
        cs = [ord(c) for c in s] if isinstance(s, str) else list(s)
        if self.smode == 'seq':
            if not cs:
                return z3.Empty(self.StrS)
            us = [z3.Unit(I(c)) for c in cs]
            return us[0] if len(us) == 1 else z3.Concat(*us)
        key = tuple(cs)
        if key not in self.lits:
            c = z3.Const('lit_%d' % len(self.lits), self.StrS)
            self.axioms.append(('literal length', self.slen(c) == len(cs)))
            self.axioms.append(('distinct literals', z3.Function('lit_no', self.StrS, IntS)(c) == len(self.lits)))
            if not cs:
                a = z3.Const('a', self.StrS)
                self.axioms.append(('empty right', z3.ForAll([a], self._cat(a, c) == a, patterns=[self._cat(a, c)])))
                self.axioms.append(('empty left', z3.ForAll([a], self._cat(c, a) == a, patterns=[self._cat(c, a)])))
                self.axioms.append(('empty is the only string of length 0', z3.ForAll([a], z3.Implies(self.slen(a) == 0, a == c), patterns=[self.slen(a)])))
            if self.smode == 'chars':
                for j, ch in enumerate(cs):
                    self.axioms.append(('literal character', self._sat(c, j) == ch))
                x = z3.Int('c')
                self.axioms.append(('literal characters', z3.ForAll([x], self._sin(c, x) == Or(*[x == ch for ch in sorted(set(cs))]), patterns=[self._sin(c, x)])))
            self.lits[key] = c
            self.litcodes[c.get_id()] = key
        return self.lits[key]

    def _init_abs(self):
        S = self.StrS
        self._cat = z3.Function('s_cat', S, S, S)
        self._slen = z3.Function('s_len', S, IntS)
        self._sat = z3.Function('s_at', S, IntS, IntS)
        self._ssub = z3.Function('s_sub', S, IntS, IntS, S)
        self._sunit = z3.Function('s_unit', IntS, S)
        a, b, c = z3.Consts('a b c', S)
        i = z3.Int('i')
        self.axioms += [
            ('assoc', z3.ForAll([a, b, c], self._cat(self._cat(a, b), c) == self._cat(a, self._cat(b, c)), patterns=[self._cat(self._cat(a, b), c)])),
            ('len cat', z3.ForAll([a, b], self._slen(self._cat(a, b)) == self._slen(a) + self._slen(b), patterns=[self._cat(a, b)])),
            ('len nonneg', z3.ForAll([a], self._slen(a) >= 0, patterns=[self._slen(a)])),
            ('len unit', z3.ForAll([i], self._slen(self._sunit(i)) == 1, patterns=[self._sunit(i)])),
        ]
        if self.smode == 'chars':
            n, k = z3.Ints('n k')
            at, ln = self._sat, self._slen
            self._sin = z3.Function('s_in', S, IntS, BoolS)
            sidx = z3.Function('s_idx', S, IntS, IntS)
            inr = lambda t, j: z3.And(j >= 0, j < ln(t))
            self.axioms += [
                ('char cat', z3.ForAll([a, b, i], z3.Implies(z3.And(i >= 0, i < ln(a) + ln(b)), at(self._cat(a, b), i) == z3.If(i < ln(a), at(a, i), at(b, i - ln(a)))), patterns=[at(self._cat(a, b), i)])),
                ('char unit', z3.ForAll([i], at(self._sunit(i), 0) == i, patterns=[self._sunit(i)])),
                ('sub length', z3.ForAll([a, i, n], z3.Implies(z3.And(i >= 0, n >= 0, i + n <= ln(a)), ln(self._ssub(a, i, n)) == n), patterns=[self._ssub(a, i, n)])),
                ('sub char', z3.ForAll([a, i, n, k], z3.Implies(z3.And(i >= 0, k >= 0, k < n, i + n <= ln(a)), at(self._ssub(a, i, n), k) == at(a, i + k)), patterns=[at(self._ssub(a, i, n), k)])),
                ('whole sub', z3.ForAll([a, n], z3.Implies(n == ln(a), self._ssub(a, 0, n) == a), patterns=[self._ssub(a, 0, n)])),
                ('occurs', z3.ForAll([a, i], z3.Implies(inr(a, i), self._sin(a, at(a, i))), patterns=[at(a, i)])),
                ('occurs at', z3.ForAll([a, i], z3.Implies(self._sin(a, i), z3.And(inr(a, sidx(a, i)), at(a, sidx(a, i)) == i)), patterns=[self._sin(a, i)])),
            ]
        self.slit('')

    def str_ext(self, a, b):
        '''same length and characters (equivalent to equality)'''
        j = z3.Int('se')
        return z3.And(self.slen(a) == self.slen(b), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.slen(a)), self.sat(a, j) == self.sat(b, j)), patterns=[self.sat(a, j), self.sat(b, j)]))

    def sin(self, s, c):
        '''character c occurs in s'''
        return self._sin(s, c)

    def str_fold(self, name, rsort, init, step):
        '''prefix fold over the characters of a string: F(s, 0) = init, F(s, i + 1) = step(F(s, i), s[i], s, i)'''
        if name not in self.sfolds:
            S = self.StrS
            F = z3.Function('sfold_' + name, S, IntS, rsort)
            a = z3.Const('a', S)
            i = z3.Int('i')
            self.sfolds[name] = F
            self.axioms.append(('fold start', z3.ForAll([a], F(a, 0) == init, patterns=[F(a, 0), self.slen(a)])))
            self.axioms.append(('fold step', z3.ForAll([a, i], z3.Implies(z3.And(i >= 0, i < self.slen(a)), F(a, i + 1) == step(F(a, i), self.sat(a, i), a, i)), patterns=[self.sat(a, i)])))
        return self.sfolds[name]

    def slen(self, t):
        return z3.Length(t) if self.smode == 'seq' else self._slen(t)

    def sat(self, t, i):
        return t[i] if self.smode == 'seq' else self._sat(t, i)

    def scat(self, a, b):
        if self.smode == 'seq':
            if a.eq(self.sempty()):
                return b
            if b.eq(self.sempty()):
                return a
            return z3.Concat(a, b)
        e = self.sempty()
        if a.eq(e):
            return b
        if b.eq(e):
            return a
        if z3.is_app(a) and a.decl().eq(self._cat):
            return self.scat(a.arg(0), self.scat(a.arg(1), b))
        # normal form: nested to the right, adjacent literals merged (where a literal is split does not matter)
        la = self.litcodes.get(a.get_id())
        if la is not None:
            lb = self.litcodes.get(b.get_id())
            if lb is not None:
                return self.merge(a, b, la, lb)
            if z3.is_app(b) and b.decl().eq(self._cat):
                lb = self.litcodes.get(b.arg(0).get_id())
                if lb is not None:
                    return self._cat(self.merge(a, b.arg(0), la, lb), b.arg(1))
        return self._cat(a, b)

    def merge(self, a, b, la, lb):
        m = self.slit(list(la) + list(lb))
        if (a.get_id(), b.get_id()) not in self.merged:
            self.merged.add((a.get_id(), b.get_id()))
            self.axioms.append(('concatenated literals', self._cat(a, b) == m))
        return m

    def ssub(self, t, i, n):
        return z3.SubSeq(t, i, n) if self.smode == 'seq' else self._ssub(t, i, n)

    def sunit(self, c):
        if self.smode != 'seq' and z3.is_int_value(c):
            return self.slit([c.as_long()])
        return z3.Unit(c) if self.smode == 'seq' else self._sunit(c)

    # ---- defaults, well-formedness
    def default(self, ty):
        k = ty.k
        if k == 'bool':
            return FALSE
        if k in ('int', 'enum', 'ptr', 'opq', 'func', 'iter', 'fn', 'void'):
            return I(0)
        if k == 'float':
            return z3.FPVal(0.0, z3.Float64()) if self.fmode == 'fp' else z3.RealVal(0)
        if k in ('str', 'stream'):
            return self.sempty()
        if k in ('ref', 'rref'):
            return self.default(ty.a[0])
        if k == 'vec':
            return self.vempty(ty)
        if k == 'arr':
            s = self.sort(ty)
            return self.vmk(s, I(int(ty.n)), z3.K(IntS, self.default(ty.a[0])))
        if k in ('map', 'set'):
            s = self.sort(ty)
            ks = self.sort(ty.a[0])
            v = self.default(ty.a[1]) if k == 'map' else FALSE
            return self.mmk(s, z3.K(ks, FALSE), z3.K(ks, v), I(0))
        if k == 'tup':
            s = self.sort(ty)
            return s.constructor(0)(*[self.default(a) for a in ty.a])
        if k == 'rec':
            s = self.sort(ty)
            vals = [self.default(self.tp.of(f)) for f in self.prog.all_fields(ty.n)]
            vals += [self.default(t) for _, t in self.rec_special(ty.n)]
            if not vals:
                vals = [I(0)]
            return s.constructor(0)(*vals)
        raise Exception('no default for %r' % ty)

    def wf(self, ty, t, alloc, depth=0):
        """list of formulas every value of this C++ type satisfies (ranges, lengths, pointers below alloc)"""
        k = ty.k
        if k == 'int':
            b = int(ty.n[1:])
            if ty.n[0] == 's':
                return [t >= -(1 << (b - 1)), t <= (1 << (b - 1)) - 1]
            return [t >= 0, t <= (1 << b) - 1]
        if k == 'enum':
            vs = self.prog.enums.get(ty.n, {}).values()
            return [t >= 0, t <= max(vs)] if vs and min(vs) >= 0 else []
        if k == 'ptr':
            return [t >= 0] + ([t < alloc] if alloc is not None else [])
        if k in ('vec', 'arr'):
            out = [self.vlen(t) >= 0, self.vlen(t) <= (1 << 60)] if k == 'vec' else [self.vlen(t) == int(ty.n)]
            if depth < 3:
                i = z3.Int('wf%d' % depth)
                sub = self.wf(ty.a[0], self.vat(t, i), alloc, depth + 1)
                if sub:
                    out.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.vlen(t)), And(*sub)), patterns=[self.vat(t, i)]))
            return out
        if k in ('map', 'set'):
            out = [self.mcard(t) >= 0]
            if k == 'map' and depth < 3:
                kk = z3.Const('wk%d' % depth, self.sort(ty.a[0]))
                sub = self.wf(ty.a[1], z3.Select(self.mval(t), kk), alloc, depth + 1)
                if sub:
                    out.append(z3.ForAll([kk], z3.Implies(z3.Select(self.mdom(t), kk), And(*sub)), patterns=[z3.Select(self.mval(t), kk)]))
            return out
        if k == 'tup':
            out = []
            for i, a in enumerate(ty.a):
                out += self.wf(a, self.rec_get(ty, t, 'f%d' % i), alloc, depth)
            return out
        if k == 'rec':
            out = []
            for f in self.prog.all_fields(ty.n):
                out += self.wf(self.tp.of(f), self.rec_get(ty, t, f['_class'] + '.' + f['name']), alloc, depth)
            for nm, bt in self.rec_special(ty.n):
                out += self.wf(bt, self.rec_get(ty, t, nm), alloc, depth)
            return out
        if k in ('str', 'stream') and self.smode == 'seq':
            return []
        return []

    # ---- floating point
    def fval(self, x):
        if self.fmode == 'fp':
            return z3.FPVal(float(x), z3.Float64())
        from fractions import Fraction
        import math
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return z3.Const('F_%s' % str(x).replace('-', 'm'), z3.RealSort())
        fr = Fraction(x)
        return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)

    RM = z3.RNE()

    def fop(self, op, a, b):
        if self.fmode == 'fp':
            f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op]
            return f(self.RM, a, b)
        if self.fmode == 'uf':
            R = z3.RealSort()
            nm = {'+': 'f_add', '-': 'f_sub', '*': 'f_mul', '/': 'f_div'}[op]
            new = nm not in self.uf
            f = self.fn(nm, R, R, R)
            if new and op in '+-':
                # facts of IEEE-754 addition/subtraction on finite doubles, each discharged in z3's floating-point
                # theory by contracts/mathutils.py (obligations 'lemma ...')
                x, y, z = z3.Reals('fx fy fz')
                P = z3.MultiPattern
                A = self.axioms.append
                A(('monotone in the left operand', z3.ForAll([x, y, z], z3.Implies(x <= y, f(x, z) <= f(y, z)), patterns=[P(f(x, z), f(y, z))])))
                if op == '+':
                    A(('monotone in the right operand', z3.ForAll([x, y, z], z3.Implies(x <= y, f(z, x) <= f(z, y)), patterns=[P(f(z, x), f(z, y))])))
                    A(('adding a non-negative number', z3.ForAll([x, z], z3.And(z3.Implies(z >= 0, f(x, z) >= x), z3.Implies(z <= 0, f(x, z) <= x), z3.Implies(x >= 0, f(x, z) >= z), z3.Implies(x <= 0, f(x, z) <= z)), patterns=[f(x, z)])))
                else:
                    A(('antitone in the right operand', z3.ForAll([x, y, z], z3.Implies(x <= y, f(z, x) >= f(z, y)), patterns=[P(f(z, x), f(z, y))])))
                    A(('subtracting a non-negative number', z3.ForAll([x, z], z3.And(z3.Implies(z >= 0, f(x, z) <= x), z3.Implies(z <= 0, f(x, z) >= x)), patterns=[f(x, z)])))
                    A(('sign of a difference', z3.ForAll([x, y], z3.And((f(x, y) >= 0) == (x >= y), (f(x, y) <= 0) == (x <= y)), patterns=[f(x, y)])))
            if new and op == '/':
                x, y, z = z3.Reals('fx fy fz')
                self.axioms.append(('quotient of non-negative numbers', z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y > 0), z3.And(f(x, y) >= 0, z3.Implies(x <= y, f(x, y) <= 1))), patterns=[f(x, y)])))
            return f(a, b)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()

    def fcmp(self, op, a, b):
        if self.fmode == 'fp':
            return {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ, '!=': z3.fpNEQ}[op](a, b)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]

    def fneg(self, a):
        return z3.fpNeg(a) if self.fmode == 'fp' else (self.fn('f_neg', z3.RealSort(), z3.RealSort())(a) if self.fmode == 'uf' else -a)

    def i2f(self, t):
        if self.fmode == 'fp':
            if z3.is_int_value(t):
                return self.fval(t.as_long())
            return z3.fpToFP(self.RM, z3.ToReal(t), z3.Float64())
        return z3.ToReal(t)

    DBL_MAX = 1.7976931348623157e308
    DBL_MIN = 2.2250738585072014e-308
