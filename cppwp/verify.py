"""Verification of one contract against the function's current source; discharge by z3 (then cvc5)."""
import os, time, sys, z3, tempfile, subprocess, select, pickle, signal, traceback
from .cast import Program, TypeParser, Ty, VOID, children, FrontendError
from .enc import *
from . import sym as S
from .spec import Ctx, Specs, Fold

NPROC = int(os.environ.get('VP_JOBS', '8'))


class Result:
    def __init__(self, spec):
        self.spec = spec
        self.status = None          # 'proved' | 'failed' | 'unreachable' (verifier cannot handle it)
        self.reason = ''
        self.obligations = []       # dicts
        self.failed = []
        self.backend = {}
        self.solver_time = 0.0
        self.ex = None
        self.rounds = 0
        self.inlined = []
        self.models = []
        self.used_specs = []
        self.sources = []


class VerifyCtx(Ctx):
    mode = 'verify'


def build(prog, tp, spec, specs, cands_off, pick=None):
    """symbolically execute the function under its contract; returns Exec with obligations"""
    ex = S.Exec(prog, tp, specs, spec.fmode, spec.smode, spec.check_overflow)
    ex.cands_off = cands_off
    fs = [f for f in prog.byname.get(spec.name, []) if spec.sig is None or spec.sig in S.shorten_type(f.sig)]
    if not fs:
        raise S.Unsupported('function %s%s not found in the current source' % (spec.name, ' ' + spec.sig if spec.sig else ''))
    f = fs[0]
    c = VerifyCtx(ex)
    ex.root_ctx = c
    st = S.State()
    st.alloc = ex.alloc0
    ex.late_facts.append(ex.alloc0 >= 1)
    ex.entry = S.State()
    ex.entry.alloc = ex.alloc0
    st0 = st
    this = None
    isctor = f.kind == 'CXXConstructorDecl'
    if f.cls and not f.static and f.kind != 'FunctionDecl':
        cty = Ty('rec', n=f.cls)
        if spec.this_rec:
            key = ('arg', 'this', 'this')
            t = ex.havoc_term(st, 'this', cty)
            st.env[key] = S.V(cty, t)
            this = S.PtrV(S.LVar(key, cty), FALSE, Ty('ptr', [cty]))
        else:
            t = z3.Int('this')
            ex.late_facts += [t > 0, t < ex.alloc0]
            dyn = ex.E.fn('dyntype', IntS, IntS)
            ex.late_facts.append(ex.is_kind(t, f.cls))
            this = S.V(Ty('ptr', [cty]), t)
    args = []
    for i, p in enumerate(f.params):
        ty = tp.of(p)
        nm = p.get('name', 'p%d' % i)
        key = ('arg', nm, i)
        q = p['type']['qualType']
        if i in spec.func_params:
            args.append(S.FuncV('spec', spec=spec.func_params[i]))
            continue
        base = ty.a[0] if ty.k in ('ref', 'rref') else ty
        if base.k == 'ptr' and base.a[0].k not in ('rec', 'void', 'opq', 'fn'):
            inner = base.a[0]
            st.env[key] = S.V(inner, ex.havoc_term(st, 'arg_' + nm, inner))
            args.append(S.PtrV(S.LVar(key, inner), z3.Bool('null_' + nm), base))
            continue
        if ty.k in ('ref', 'rref') and base.k == 'rec' and i not in getattr(spec, 'rec_params', ()):
            t = z3.Int('arg_' + nm)
            ex.late_facts += [t > 0, t < ex.alloc0, ex.is_kind(t, base.n)]
            args.append(S.LObj(t, base))
            continue
        if base.k == 'func':
            args.append(S.V(base, ex.E.fresh('func', IntS)))
            continue
        v = S.V(base, ex.havoc_term(st, 'arg_' + nm, base))
        if ty.k in ('ref', 'rref'):
            st.env[key] = v
            args.append(S.LVar(key, base))
        else:
            args.append(v)
        if base.k == 'ptr' and base.a[0].k == 'rec':
            ex.late_facts.append(Implies(v.t != 0, ex.is_kind(v.t, base.a[0].n)))
    c.args = args
    c.this = this
    c.pre = st.copy()
    ex.entry = c.pre

    class F0:
        pass
    f0 = F0(); f0.tu = f.tu; f0.name = f.name; f0.sig = 'void ()'
    fr0 = S.Frame(0, f0, this)
    ex.frames.append(fr0)
    spec.ghosts(c)
    spec.has_throws = spec.throws(c) is not None
    for nm, g in spec.requires(c):
        ex.fact(g, None, 'requires ' + nm)
    st.heap = dict(c.pre.heap)
    ex.root_spec = spec
    ex.nreq = len(ex.facts)
    n = {'id': 'root', 'inner': []}
    if isctor:
        ex.run_ctor(st, f, this, args, n)
        res = S.V(VOID, I(0))
    else:
        res = ex.inline(st, f, this, args, n)
    # exits by exception
    th = spec.throws(c)
    for t in ex.throws:
        ex.oblige(t, FALSE if th is None else th, 'an exception leaves the function only under the stated condition', 'throw')
    if th is not None and not st.dead:
        ex.oblige(st, Not(th), 'the stated exception is thrown', 'throw')
    c.post = st
    c.result = res
    ex.root_spec_done = True
    ex.exit_state = st
    if not st.dead:
        ex.trace_line = None
        for nm, g in spec.ensures(c):
            ex.oblige(st, g, 'postcondition "%s"' % nm, 'post')
        frame_obligations(ex, spec, c, st)
    ex.func = f
    return ex


def frame_obligations(ex, spec, c, st):
    mods = list(spec.modifies(c))
    allowed = {}
    fresh_ok = any(m[0] == 'fresh' for m in mods)
    for m in mods:
        if m[0] == 'field':
            allowed[ex.fieldkey(c.field_decl(m[1]))] = m[2] if len(m) > 2 else (lambda r: TRUE)
        if m[0] == 'this' and not isinstance(c.this, S.PtrV):
            k = ex.fieldkey(c.field_decl(m[1]))
            old = allowed.get(k)
            allowed[k] = (lambda r, old=old: Or(r == c.this.t, old(r)) if old else r == c.this.t)
    cls_ok = set()
    for m in mods:
        if m[0] == 'fresh':
            for cl in m[1]:
                for f in ex.prog.all_fields(cl):
                    cls_ok.add(ex.fieldkey(f))
    ghosts = {m[1] for m in mods if m[0] == 'ghost'}
    for k, h in sorted(st.heap.items()):
        h0 = ex.entry_heap[k]
        if h.eq(h0) or k in ghosts:
            continue
        r = ex.E.fresh('frame_r', IntS)
        pred = allowed.get(k)
        cond = [r >= 0]
        if k in cls_ok or (fresh_ok and k in allowed):
            cond.append(r < ex.alloc0)
        elif fresh_ok or k in allowed:
            cond.append(r < ex.alloc0)
        g = z3.Implies(And(*(cond + ([Not(pred(r))] if pred else []))), z3.Select(h, r) == z3.Select(h0, r))
        if k not in cls_ok and k not in allowed and fresh_ok:
            # freshly allocated objects of a class not announced in the contract
            pass
        ex.oblige(st, g, 'frame: %s of existing objects changed only where the contract allows' % k, 'frame')
    if not fresh_ok and not st.alloc.eq(ex.alloc0):
        # allocation not announced: harmless for callers only if they never see the objects; treat as an obligation
        pass
    # value 'this' / arguments not listed must be unchanged
    argmods = {m[1] for m in mods if m[0] == 'arg'}
    for i, a in enumerate(c.args):
        lv = a.lv if isinstance(a, S.PtrV) else (a if isinstance(a, S.LVar) else None)
        if lv is None or i in argmods:
            continue
        x, y = c.pre.env[lv.key], st.env.get(lv.key)
        if y is not None and isinstance(x, S.V) and not x.t.eq(y.t):
            ex.oblige(st, x.t == y.t, 'frame: argument %d unchanged' % i, 'frame')


# ------------------------------------------------------------------ solving
def formula_parts(ex, o):
    base = [f for _, f in ex.E.axioms] + ex.late_facts + ex.theory_instances_cached
    return base + ex.facts[:o.nfacts] + list(o.extra)


def relevant(facts, goal_terms):
    return facts


SEEDS = [0, 7]


Z3CLI = '/usr/bin/z3' if os.path.exists('/usr/bin/z3') else None


def cli_z3(s, ms):
    """the older z3 release, whose preprocessing and instantiation order succeed where the newer one diverges"""
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write(s.to_smt2())
    try:
        p = subprocess.run([Z3CLI, 'smt.mbqi=false', '-t:%d' % ms, '-T:%d' % (ms // 1000 + 2), fh.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=ms / 1000 + 10)
        out = p.stdout.decode().strip().split('\n')
        return 'error' if any('error' in l for l in out) else out[0]
    except (OSError, subprocess.TimeoutExpired):
        return 'error'
    finally:
        os.unlink(fh.name)


_sorts_cache = {}


def special_sorts(f):
    """which of the expensive sorts (strings, numbers of double type) a formula talks about"""
    k = f.get_id()
    if k in _sorts_cache:
        return _sorts_cache[k][1]
    out, seen, todo = set(), set(), [f]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            todo.append(t.body()); continue
        so = t.sort()
        ks = [so]
        while ks:
            so = ks.pop()
            if so.kind() == z3.Z3_ARRAY_SORT:
                ks += [so.domain(), so.range()]
            elif so.kind() in (z3.Z3_REAL_SORT, z3.Z3_SEQ_SORT) or so.name() == 'Str':
                out.add(so.name())
        todo += t.children()
    _sorts_cache[k] = (f, out)
    return out


def again(facts, o, timeout, t0):
    """a proof that ran out of time: the search is heavy-tailed, so other seeds and the older release, each with a share of the time"""
    for seed, share in ((11, 0.35), (0, 0.5), (23, 0.6), (37, 0.35)):
        if seed == 0:
            if Z3CLI and cli_z3(s, int(timeout * share)) == 'unsat':
                return 'valid', 'z3-4.8', time.time() - t0, ''
            continue
        s = z3.SimpleSolver()
        s.set('timeout', int(timeout * share)); s.set('smt.mbqi', False); s.set('random_seed', seed)
        s.add(*facts); s.add(o.pc); s.add(Not(o.goal))
        r = s.check()
        if r == z3.unsat:
            return 'valid', 'z3', time.time() - t0, ''
        if r == z3.sat or 'incomplete' in s.reason_unknown():
            break
    return 'unknown', 'z3', time.time() - t0, 'canceled'


def solve_one(ex, o, timeout, want_model=False, retry=False):
    """returns (verdict, backend, seconds, model-text)"""
    t0 = time.time()
    if retry:
        return again(formula_parts(ex, o), o, timeout, t0)
    goal = o.goal
    if z3.is_true(goal) or z3.is_false(o.pc):
        return 'valid', 'trivial', 0.0, ''
    facts = formula_parts(ex, o)
    last = None
    if ex.E.fmode != 'fp' and len(facts) > 60:
        # first without the facts about strings / doubles a goal does not talk about (weaker hypotheses: sound)
        want = special_sorts(goal)
        few = [f for f in facts if special_sorts(f) <= want]
        if len(few) < 0.8 * len(facts):
            s = z3.SimpleSolver()
            s.set('timeout', int(max(timeout / 4, 1500)) if o.cand is None else int(timeout / 8))
            s.set('smt.mbqi', False)
            s.add(*few)
            s.add(o.pc)
            s.add(Not(goal))
            if s.check() == z3.unsat:
                return 'valid', 'z3', time.time() - t0, ''
    if ex.E.fmode != 'fp' and ex.quantified and Z3CLI:
        s = z3.SimpleSolver()
        s.set('timeout', int(min(timeout, 1200)) if o.cand is None else int(timeout / 8))
        s.set('smt.mbqi', False)
        s.add(*facts); s.add(o.pc); s.add(Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'valid', 'z3', time.time() - t0, ''
        quick = r == z3.unknown and 'incomplete' in s.reason_unknown()
        t1 = time.time()
        ms = min(timeout, 6000) if o.cand is None else int(timeout / 4)
        v = cli_z3(s, ms) if not (quick and o.cand is not None) else 'skipped'
        if v == 'unknown' and time.time() - t1 < ms / 1000.0 * 0.9:
            quick = True
        if v == 'unsat':
            return 'valid', 'z3-4.8', time.time() - t0, ''
        if o.cand is not None:
            # an inferred invariant: give the newer solver its remaining time only if it has not saturated
            if quick:
                return 'unknown', 'z3', time.time() - t0, 'incomplete'
            timeout = timeout / 2
    for cfg in (0, 1):
        s = z3.Solver() if ex.E.fmode == 'fp' else z3.SimpleSolver()
        s.set('timeout', int(timeout if cfg == 0 else timeout))
        if cfg == 0:
            s.set('smt.mbqi', False) if ex.quantified else None
        else:
            s.set('random_seed', 7)
        s.add(*facts)
        s.add(o.pc)
        s.add(Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'valid', 'z3', time.time() - t0, ''
        if r == z3.sat:
            m = ''
            try:
                m = str(s.model())[:6000]
            except Exception:
                pass
            return 'invalid', 'z3', time.time() - t0, m
        last = s.reason_unknown()
        if o.cand is not None:
            break
        if cfg == 0 and ex.quantified and 'incomplete' in str(last):
            # e-matching saturated without a contradiction: retry once with model-based instantiation, briefly
            timeout = min(timeout, 5000)
        elif cfg == 0 and not ex.quantified:
            break
    # fallback: cvc5
    if ex.use_cvc5 and o.cand is None:
        try:
            s = z3.Solver()
            s.add(*facts); s.add(o.pc); s.add(Not(goal))
            txt = s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
                fh.write('(set-logic ALL)\n' + txt)
            try:
                p = subprocess.run(['cvc5', '--tlimit=%d' % int(min(timeout, 10000)), fh.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 5)
                out = p.stdout.decode().strip()
            finally:
                os.unlink(fh.name)
            if out.startswith('unsat'):
                return 'valid', 'cvc5', time.time() - t0, ''
        except Exception:
            pass
    return 'unknown', 'z3', time.time() - t0, str(last)


SLOW = 12


def timed_out(r):
    return r[0] == 'unknown' and ('cancel' in r[3] or 'timeout' in r[3])


DEADLINE = None           # wall-clock limit of the whole check: obligations left open then count as not discharged
RETRY = lambda: True      # whether a proof that ran out of solver time is worth a second attempt


def solve_all(ex, obls, timeout, retry=False):
    """discharge obligations in forked workers"""
    if not retry:
        ex.theory_instances_cached = ex.theory_instances()
    ex.quantified = True
    res = [None] * len(obls)
    if not obls:
        return res
    nw = min(NPROC, len(obls))
    if nw <= 1:
        for i, o in enumerate(obls):
            res[i] = solve_one(ex, o, timeout, retry=retry)
        return res
    jobs_r, jobs_w = os.pipe()
    for i in range(len(obls)):
        pass
    pipes = []
    # static job queue: a pipe with one 4-byte index per job (atomic small reads)
    order = list(range(len(obls)))
    pid_w = os.fork()
    if pid_w == 0:
        try:
            os.close(jobs_r)
            for i in order:
                os.write(jobs_w, i.to_bytes(4, 'little'))
        finally:
            os._exit(0)
    os.close(jobs_w)
    pids = []
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                while True:
                    b = os.read(jobs_r, 4)
                    if len(b) < 4:
                        break
                    i = int.from_bytes(b, 'little')
                    try:
                        out = solve_one(ex, obls[i], timeout, retry=retry)
                    except Exception as e:
                        out = ('unknown', 'error', 0.0, repr(e))
                    data = pickle.dumps((i, out))
                    os.write(wr, len(data).to_bytes(4, 'little') + data)
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append(r)
        pids.append(pid)
    os.close(jobs_r)
    bufs = {r: b'' for r in pipes}
    live = set(pipes)
    deadline = time.time() + timeout / 1000.0 * 4 * (len(obls) / nw + 1) + 30
    if DEADLINE is not None:
        deadline = min(deadline, max(DEADLINE, time.time() + 3))
    while live:
        rs, _, _ = select.select(list(live), [], [], 2)
        if time.time() > deadline:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            break
        for r in rs:
            d = os.read(r, 65536)
            if not d:
                live.discard(r)
                continue
            bufs[r] += d
            while len(bufs[r]) >= 4:
                n = int.from_bytes(bufs[r][:4], 'little')
                if len(bufs[r]) < 4 + n:
                    break
                i, out = pickle.loads(bufs[r][4:4 + n])
                bufs[r] = bufs[r][4 + n:]
                res[i] = out
    for r in pipes:
        os.close(r)
    for p in pids + [pid_w]:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    for i in range(len(res)):
        if res[i] is None:
            res[i] = ('unknown', 'killed', 0.0, '')
    return res


def lemma_one(g, timeout):
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', min(timeout, 15000))
    s.add(Not(g))
    txt = s.to_smt2()
    r = s.check()
    if r == z3.unsat:
        return 'valid', 'z3', time.time() - t0, ''
    if r == z3.sat:
        return 'invalid', 'z3', time.time() - t0, str(s.model())[:3000]
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write('(set-logic ALL)\n' + txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, fh.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 10)
        out = p.stdout.decode().strip()
    except subprocess.TimeoutExpired:
        out = ''
    finally:
        os.unlink(fh.name)
    if out.startswith('unsat'):
        return 'valid', 'cvc5', time.time() - t0, ''
    return ('invalid' if out.startswith('sat') else 'unknown'), 'cvc5', time.time() - t0, out[:300]


def verify_lemmas(spec):
    """obligations that are formulas on their own (no code)"""
    R = Result(spec); R.dropped = []
    t0 = time.time()
    fs = list(spec.formulas())

    R.rounds = 1
    pipes = []
    for nm, g in fs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = lemma_one(g, spec.timeout)
                except Exception as e:
                    out = ('unknown', 'error', 0.0, repr(e))
                os.write(w, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((nm, r, pid))
    for nm, r, pid in pipes:
        b = b''
        while True:
            d = os.read(r, 65536)
            if not d:
                break
            b += d
        os.close(r)
        os.waitpid(pid, 0)
        out = pickle.loads(b) if b else ('unknown', 'killed', 0.0, '')
        d = dict(name=nm, kind='lemma', line=None, func=spec.name, verdict=out[0], backend=out[1], time=round(out[2], 3))
        R.obligations.append(d)
        R.backend[out[1]] = R.backend.get(out[1], 0) + 1
        R.solver_time += out[2]
        if out[0] != 'valid':
            d['detail'] = out[3]
            R.failed.append(d)
    R.status = 'failed' if R.failed else 'proved'
    R.wall = time.time() - t0
    return R


def verify(prog, tp, spec, specs, verbose=False, use_cvc5=True):
    if getattr(spec, 'lemma', False):
        return verify_lemmas(spec)
    R = verify1(prog, tp, spec, specs, verbose, use_cvc5)
    if R.failed and not any(f['verdict'] == 'invalid' for f in R.failed) and R.wall < 200 and RETRY() and (DEADLINE is None or time.time() + 2.5 * R.wall < DEADLINE):
        # a solver that ran out of time is not a verdict: once more with four times the time
        R2 = verify1(prog, tp, spec, specs, verbose, use_cvc5, 4)
        R2.wall += R.wall
        R2.solver_time += R.solver_time
        return R2
    return R


def verify1(prog, tp, spec, specs, verbose=False, use_cvc5=True, scale=1):
    R = Result(spec); R.dropped = []
    t0 = time.time()
    cands_off = set()
    try:
        for rnd in range(14):
            R.rounds = rnd + 1
            ex = build(prog, tp, spec, specs, cands_off)
            ex.use_cvc5 = False
            inv = [o for o in ex.obls if o.cand is not None]
            ht = min(spec.timeout, getattr(spec, 'houdini_timeout', 8000)) * scale
            res = solve_all(ex, inv, ht)
            slow = [i for i, r in enumerate(res) if timed_out(r) and '"counter ' not in inv[i].name]
            if 0 < len(slow) <= SLOW and ex.E.fmode != 'fp' and RETRY():
                # a candidate the rest of the proof may need is not given up for lack of time only
                for i, r in zip(slow, solve_all(ex, [inv[i] for i in slow], ht, True)):
                    R.solver_time += r[2]
                    if verbose > 1:
                        print('     again', inv[i].name[:80], r[0], '%.1fs' % r[2])
                    if r[0] == 'valid':
                        res[i] = r
            bad = {}
            for o, r in zip(inv, res):
                R.solver_time += r[2]
                if r[0] != 'valid':
                    bad.setdefault(o.cand, []).append((o.name, r[0]))
            if verbose:
                print('  round %d: %d invariant obligations, dropping %d' % (rnd, len(inv), len(bad)))
                if verbose > 1:
                    for b, why in bad.items():
                        print('     drop', b[1], why[0][0][:20], why[0][1])
            if not bad:
                break
            cands_off |= set(bad)
        else:
            raise S.Unsupported('invariant inference did not stabilise')
        ex.use_cvc5 = use_cvc5
        rest = [o for o in ex.obls if o.cand is None]
        # reachability of the exit: the facts on the way must be satisfiable (vacuity guard)
        res2 = solve_all(ex, rest, spec.timeout * min(scale, 2))
        R.ex = ex
        for o, r in list(zip(inv, res)) + list(zip(rest, res2)):
            d = dict(name=o.name, kind=o.kind, line=o.line, func=o.func, verdict=r[0], backend=r[1], time=round(r[2], 3))
            R.obligations.append(d)
            R.backend[r[1]] = R.backend.get(r[1], 0) + 1
            if r[0] != 'valid':
                d['detail'] = r[3]
                R.failed.append(d)
        R.solver_time += sum(r[2] for r in res2)
        R.status = 'failed' if R.failed else 'proved'
        if not R.failed:
            v = vacuity(ex)
            R.vacuity = v
            if v == 'unsat' and spec.reach:
                R.status = 'failed'
                R.failed.append(dict(name='vacuity: the exit is unreachable under the contract', kind='vacuity', line=None, func=spec.name, verdict='invalid', backend='z3', time=0))
        R.dropped = sorted({c[1] for c in cands_off})
    except (S.Unsupported, FrontendError) as e:
        R.status = 'unreachable'
        R.reason = '%s (line %s)' % (e, getattr(locals().get('ex', None), 'trace_line', '?'))
    except Exception as e:
        R.status = 'unreachable'
        R.reason = 'verifier error: %r' % (e,)
        R.trace = traceback.format_exc()
    if R.ex is not None:
        R.inlined = sorted(R.ex.inlined)
        R.models = sorted(R.ex.used_models)
        R.used_specs = sorted(R.ex.used_specs)
        R.dropped_logging = R.ex.dropped_logging
        R.ex = None if not verbose else R.ex
    R.wall = time.time() - t0
    return R


def vacuity(ex):
    st = ex.exit_state
    if st.dead:
        return 'unsat'
    s = z3.Solver()
    s.set('timeout', 800)
    s.set('smt.mbqi', False)
    s.add(*[f for _, f in ex.E.axioms], *ex.late_facts, *ex.theory_instances_cached, *ex.facts, st.pc)
    return str(s.check())
