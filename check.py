#!/usr/bin/env python3-vt
"""check.py <property> [--replay FILE]: decides one property of /repo's current working tree.

1. verify every contract of the property (contracts/registry.py) against the code clang reads from /repo now;
2. run the replay harness (harness/<id>.cpp), which runs the real code: it supplies a concrete failing input for a failed
   obligation, and is the (bounded, labelled) stand-in for functions the verifier cannot reach;
3. write evidence/<id>.json and print VIOLATION / KNOWN-FINDING lines."""
import importlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VP_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
CXX = ['g++', '-std=c++20', '-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS', '-include', 'algorithm', '-include', 'cstring',
       '-I/usr/include/poppler', '-I' + REPO + '/src', '-I' + REPO, '-I' + HERE + '/harness', '-I' + HERE + '/stub',
       '-DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR="x"']
LIBS = ['-lpoppler', '-lutf8proc', '-lboost_program_options']


class Harness:
    def __init__(self, pid, cfg):
        self.pid, self.cfg = pid, cfg
        self.dir = tempfile.mkdtemp(prefix='vh_%s_' % pid, dir='/tmp')
        self.src = os.path.join(HERE, 'harness', cfg['harness'] + '.cpp')
        self.exe = os.path.join(self.dir, 'h')
        self.err = None
        self.jobs = []

    def start(self):
        txt = open(self.src).read()
        m = re.search(r'^// SRCS:(.*)$', txt, re.M)
        srcs = m.group(1).split() if m else []
        extra = re.search(r'^// FLAGS:(.*)$', txt, re.M)
        self.flags = extra.group(1).split() if extra else []
        self.objs = []
        todo = [self.src] + [os.path.join(REPO, 'src', s) for s in srcs]
        self.listed = set(todo)
        self.compile(todo)

    def compile(self, files):
        for f in files:
            if not os.path.exists(f):
                continue
            o = os.path.join(self.dir, re.sub(r'[^A-Za-z0-9]', '_', f) + '.o')
            p = subprocess.Popen(CXX + self.flags + ['-c', f, '-o', o], stdout=subprocess.DEVNULL, stderr=open(o + '.err', 'w'))
            self.jobs.append((p, o, f))

    def wait(self):
        bad = ''
        for p, o, f in self.jobs:
            if p.wait() != 0:
                bad += '%s: %s\n' % (f, open(o + '.err').read()[:1500])
            else:
                self.objs.append(o)
        self.jobs = []
        return bad

    def finish(self):
        bad = self.wait()
        if bad:
            self.err = bad
            return False
        r = self.link()
        if r:
            # sources moved between files: link against everything that builds
            rest = []
            for d, _, fs in os.walk(os.path.join(REPO, 'src')):
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    if f.endswith('.cpp') and p not in self.listed and f != 'pdftotext++.cpp':
                        rest.append(p)
            self.compile(rest)
            self.wait()
            r = self.link()
        if r:
            self.err = r
            return False
        return True

    def link(self):
        p = subprocess.run(CXX + self.flags + self.objs + ['-o', self.exe] + LIBS, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        return p.stderr.decode()[-3000:] if p.returncode else ''

    def run(self, count, secs, first=0):
        """returns (fails [(key, idx, msg)], evaluations, kinds, checks)"""
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0:exitcode=78', LC_ALL='C')
        fails, ev, kinds, checks = [], 0, 0, 0
        t0 = time.time()
        end = first + count
        crashes = 0
        while first < end and crashes < 12:
            prog = os.path.join(self.dir, 'progress')
            left = max(1.0, secs - (time.time() - t0))
            hang = left + 60
            try:
                p = subprocess.run([self.exe, str(SEED), str(first), str(end - first), str(left), prog], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=self.dir, timeout=hang)
                out, err, rc = p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace'), p.returncode
            except subprocess.TimeoutExpired as e:
                out, err, rc = (e.stdout or b'').decode('utf-8', 'replace'), 'timeout', 'timeout'
            done = None
            for l in out.split('\n'):
                if l.startswith('FAIL\t'):
                    a = l.split('\t', 3)
                    fails.append((a[1], int(a[2]), a[3]))
                elif l.startswith('DONE\t'):
                    done = [int(x) for x in l.split('\t')[1:5]]
            if done is not None:
                ev += done[0]; kinds += done[1]; checks += done[3]
                break
            idx, n = struct.unpack('QQ', open(prog, 'rb').read(16))
            ev += n + 1
            crashes += 1
            if rc == 'timeout':
                what = 'no-termination'
            else:
                m = re.search(r'Sanitizer: ([\w-]+)', err) or re.search(r'(runtime error: [^\n]*)', err) or re.search(r"(Assertion `[^\n]*' failed|terminate called[^\n]*\n?[^\n]*)", err)
                what = m.group(1).strip().replace('\n', ' ') if m else 'exit %s' % rc
                loc = re.search(r'/repo/src/(\S+?):', err)
                if loc:
                    what += ' in ' + loc.group(1)
            note = re.search(r'^NOTE\t(.*)$', out, re.M)
            lines = [l for l in out.split('\n') if l.startswith('CASE\t')]
            key = 'crash'
            km = re.findall(r'^CRASHKEY\t(.*)$', err, re.M)
            if km:
                key = 'crash:' + km[-1]
            fails.append((key, idx, what + ' | ' + (err[:1500].replace('\n', ' ')) + (lines[-1] if lines else '')))
            first = idx + 1
            if time.time() - t0 > secs:
                break
        return fails, ev, kinds, checks

    def close(self):
        for p, _, _ in self.jobs:
            try:
                p.kill(); p.wait()
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def prove(pid, cfg):
    from cppwp.cast import Program, TypeParser, FrontendError
    from cppwp.spec import Specs
    from cppwp.verify import verify, Result
    specs = []
    for m in cfg['modules']:
        for s in importlib.import_module('contracts.' + m).specs:
            if s not in specs:
                specs.append(s)
    want = cfg.get('functions')
    todo = [s for s in specs if not s.trusted and (want is None or s.name in want or (s.name + ' ' + (s.sig or '')) in want)]
    prog, tp, S, out = None, None, None, []
    tus = []
    for s in todo:
        for t in s.tus:
            if t not in tus:
                tus.append(t)
    tus = [t for t in tus if os.path.exists(os.path.join(REPO, t.split('@')[0]))]
    try:
        prog = Program(); prog.load(tus)
        tp = TypeParser(prog)
        S = Specs(specs)
    except FrontendError as e:
        for s in todo:
            r = Result(s); r.dropped = []; r.status = 'unreachable'; r.reason = 'front end: %s' % str(e)[:300]; r.wall = 0
            out.append(r)
        return out, specs
    for s in todo:
        r = verify(prog, tp, s, S)
        out.append(r)
        print('# %-55s %-11s obligations=%d failed=%d solver=%.1fs %s' % (s.name + (' [%s]' % s.sig if s.sig else ''), r.status, len(r.obligations), len(r.failed), r.solver_time, r.reason or ''), flush=True)
        for f in r.failed:
            print('#    not discharged: %s (%s line %s): %s' % (f['name'], f['func'], f['line'], f['verdict']))
    return out, specs


def main():
    pid = sys.argv[1]
    from contracts.registry import PROPS
    cfg = PROPS[pid]
    t0 = time.time()
    h = Harness(pid, cfg) if cfg.get('harness') else None
    try:
        if h:
            h.start()
        if '--replay' in sys.argv:
            rep = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
            print(json.dumps({k: rep[k] for k in rep if k != 'verifier_output'}, indent=1))
            if rep.get('case') is None or not h.finish():
                print(rep.get('verifier_output', '')); return 1
            global SEED
            SEED = rep['seed']
            fails, _, _, _ = h.run(1, 60, rep['case'])
            for f in fails:
                print('REPRODUCED', f)
            return 1 if fails else 0
        out = dict(fails=[], ev=0, kinds=0, checks=0)
        knkeys = {k for k, _ in known(pid)}

        def testing():
            if h.finish():
                secs = cfg.get('secs', 25) * (10 if TIER == 'thorough' else 1)
                out['fails'], out['ev'], out['kinds'], out['checks'] = h.run(cfg.get('cases', 200000) * (20 if TIER == 'thorough' else 1), secs)
        import cppwp.verify as V
        thread = None
        if h:
            thread = threading.Thread(target=testing)
            thread.start()
            # with a failing input at hand the verdict is settled: no second attempt for proofs that ran out of time
            V.RETRY = lambda: not any(f[0] not in knkeys for f in out['fails'])
        if TIER != 'thorough':
            V.DEADLINE = t0 + 720
        results, specs = prove(pid, cfg)
        if thread:
            thread.join()
        fails, ev, kinds, checks, herr = out['fails'], out['ev'], out['kinds'], out['checks'], h.err if h else None
        if herr:
            print('# harness does not build: %s' % herr[:800])
        return report(pid, cfg, results, specs, fails, ev, kinds, checks, herr, t0)
    finally:
        if h:
            h.close()


def report(pid, cfg, results, specs, fails, ev, kinds, checks, herr, t0):
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    kn = known(pid)
    knkeys = {k for k, _ in kn}
    hit = {}
    new = []
    for f in fails:
        if f[0] in knkeys:
            hit.setdefault(f[0], f)
        else:
            new.append(f)
    for k, what in kn:
        print('KNOWN-FINDING: property=%s %s%s' % (pid, what, '' if k in hit else ' (not exercised by this run)'))
    failed = [(r, f) for r in results for f in r.failed]
    viol = 0
    vout = '\n'.join('%s: obligation "%s" at %s line %s: %s\n%s' % (r.spec.name, f['name'], f['func'], f['line'], f['verdict'], str(f.get('detail', ''))[:3000]) for r, f in failed)
    if new:
        viol = 1
        k, idx, msg = new[0]
        path = os.path.join(rdir, '%s.json' % pid)
        json.dump(dict(property=pid, seed=SEED, case=idx, clause=k, what=msg, all=[list(x) for x in new], failed_obligations=[f['name'] for _, f in failed], verifier_output=vout, replay_cmd='python3-vt /verif/check.py %s --replay %s' % (pid, path)), open(path, 'w'), indent=1)
        for x in new[:5]:
            print('# failing input: [%s] case %d: %s' % (x[0], x[1], x[2][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    elif failed:
        viol = 1
        path = os.path.join(rdir, '%s.json' % pid)
        json.dump(dict(property=pid, seed=SEED, case=None, clause=failed[0][1]['name'], failed_obligations=['%s: %s' % (r.spec.name, f['name']) for r, f in failed], verifier_output=vout, inputs_tried=ev), open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    proved = [r for r in results if r.status == 'proved']
    unreach = [r for r in results if r.status == 'unreachable']
    obl = sum(len(r.obligations) for r in results)
    dis = sum(sum(1 for o in r.obligations if o['verdict'] == 'valid') for r in results)
    backends = {}
    for r in results:
        for k, v in r.backend.items():
            backends[k] = backends.get(k, 0) + v
    used = set()
    for r in results:
        used |= set(r.used_specs)
    mine = {r.spec.name for r in results}
    assumed = sorted({s.name for s in specs if s.trusted and s.name in used})
    elsewhere = sorted({s.name for s in specs if not s.trusted and s.name in used and s.name not in mine})
    models = sorted({m for r in results for m in r.models})
    trusted = ['cppwp (verification condition generator in /verif/cppwp, own code)', 'clang 18 AST', 'z3 4.x / cvc5 1.1.2']
    trusted += ['assumed contract: ' + a for a in assumed] + ['library model: ' + m for m in models]
    assumptions = ['distinct non-null pointers returned by new; no aliasing between local containers and heap objects',
                   'std::ostream writes to the logger have no effect on program state (dropped: %d statements)' % sum(getattr(r, 'dropped_logging', 0) or 0 for r in results)]
    assumptions += cfg.get('assumptions', [])
    assumptions += ['contract proved by another check: ' + e for e in elsewhere]
    cov = dict(obligations=obl, discharged=dis, checker_cmd='python3-vt /verif/check.py %s' % pid, trusted_base=trusted,
               functions_under_contract=[dict(function=r.spec.name + (' ' + r.spec.sig if r.spec.sig else ''), status=r.status, obligations=len(r.obligations), discharged=sum(1 for o in r.obligations if o['verdict'] == 'valid'),
                                              backends=r.backend, solver_s=round(r.solver_time, 2), arithmetic=r.spec.fmode, inlined=r.inlined, reason=r.reason,
                                              vacuity=getattr(r, 'vacuity', '')) for r in results],
               functions_proved=len(proved), functions_not_reached=[dict(function=r.spec.name, reason=r.reason, stand_in='bounded harness') for r in unreach],
               obligations_by_backend=backends, solver_s=round(sum(r.solver_time for r in results), 2),
               bounded_functions=cfg.get('bounded', []),
               replay_harness=dict(evaluations=ev, distinct_inputs=kinds, oracle_checks=checks, built=herr is None and bool(cfg.get('harness')), label='bounded testing of the real code, never counted as proved'))
    level = cfg.get('level', 'proof')
    if level != 'proof':
        cov['explanation'] = cfg.get('explanation', '')
        cov['evaluations'] = ev
        cov['distinct_nontrivial'] = kinds
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=viol), open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('# %s: %d/%d obligations discharged, %d functions proved, %d not reached; harness: %d inputs, %d checks; %.1fs' % (pid, dis, obl, len(proved), len(unreach), ev, checks, time.time() - t0))
    return viol


if __name__ == '__main__':
    sys.exit(main())
