"""check.py <property> [--tier quick|thorough]: extract, verify, replay, decide."""
import argparse, hashlib, importlib.util, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from cv.frontend import Program, ExtractError, REPO, CORE_INC
import cv.spec as spec

def load_spec(pid):
    p = os.path.join(VERIF, 'specs', pid + '.py')
    s = importlib.util.spec_from_file_location('spec_' + pid, p)
    m = importlib.util.module_from_spec(s)
    sys.path.insert(0, os.path.join(VERIF, 'specs'))
    s.loader.exec_module(m)
    return m

# ------------------------------------------------------------------ replay harness
class Replay:
    def __init__(self, cfg, tmp, seed, tier):
        self.cfg, self.tmp, self.seed, self.tier = cfg, tmp, seed, tier
        self.exe = os.path.join(tmp, 'replay')
        self.log = ''
        self.built = None
        self.fails = []
        self.evals = self.distinct = 0
        self.samples = []
        self.ran = False

    def build(self):
        c = self.cfg
        flags = ['-std=c++17', '-DBUILD_FOR_LINUX', '-D_DEBUG', '-w', '-O1', '-fno-access-control', '-I' + os.path.join(VERIF, 'replay')]
        flags += ['-DVH_REPO="%s"' % REPO]
        flags += c.get('flags', [])
        san = c.get('san', True)
        if san:
            flags += ['-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']
        if c.get('core', True):
            inc = list(CORE_INC)
        else:
            inc = []
        inc += ['-I' + os.path.join(REPO, i) for i in c.get('inc', [])]
        srcs = [os.path.join(VERIF, 'replay', c['src'])] + [os.path.join(REPO, s) for s in c.get('repo', [])]
        objs, procs = [], []
        sem = threading.Semaphore(8)
        errs = []
        def comp(i, s):
            with sem:
                o = os.path.join(self.tmp, 'o%d.o' % i)
                objs.append(o)
                p = subprocess.run(['g++', '-c', s, '-o', o] + flags + inc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    errs.append('%s:\n%s' % (s, p.stdout[-3000:]))
        ts = [threading.Thread(target=comp, args=(i, s)) for i, s in enumerate(srcs)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            self.built = False
            self.log = '\n'.join(errs)
            return
        p = subprocess.run(['g++', '-o', self.exe] + objs + (['-fsanitize=address,undefined'] if san else []) + c.get('libs', []) + ['-lpthread'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.built = p.returncode == 0
        self.log = p.stdout[-3000:]

    def run(self, rounds, budget, pool=(), seed=None):
        out = os.path.join(self.tmp, 'fails.txt')
        for x in (out, out + '.samples'):
            if os.path.exists(x):
                os.unlink(x)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        scratch = os.path.join(self.tmp, 'cwd')
        os.makedirs(scratch, exist_ok=True)
        try:
            p = subprocess.run([self.exe, out, str(seed if seed is not None else self.seed), str(budget), str(rounds)] + [repr(x) for x in pool],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=scratch, timeout=budget * 3 + 120)
            txt = p.stdout
        except subprocess.TimeoutExpired as e:
            txt = 'replay driver timed out'
        m = re.search(r'evaluations=(\d+) distinct=(\d+)', txt)
        if m:
            self.ran = True
            self.evals += int(m.group(1))
            self.distinct += int(m.group(2))
        if os.path.exists(out + '.samples'):
            self.samples += open(out + '.samples').read().splitlines()[:8]
        if os.path.exists(out):
            for blk in re.findall(r'FAIL (.*?)\n(.*?)\nENDFAIL', open(out, errors='replace').read(), re.S):
                self.fails.append({'key': blk[0], 'text': blk[1][:6000], 'stderr': txt[-3000:] if blk[0].startswith(('crash', 'hang')) else ''})
        return txt

# ------------------------------------------------------------------ proof
_P = None
_TASKS = None
_PART = None
def _run_task(args):
    i, effort = args
    t = _TASKS[i]
    t.partial = _PART and os.path.join(_PART, str(i))
    try:
        return t.run(effort)
    except BaseException as e:                                    # never lose a task silently
        return {'name': t.name, 'status': 'unsupported', 'detail': 'internal: %s %s' % (type(e).__name__, traceback.format_exc()[-1500:]),
                'obligations': [], 'failed': [], 'backends': {}, 'solver_s': 0.0, 'wall': 0}

def run_tasks(tasks, jobs, effort, deadline, decided=lambda: False):
    global _TASKS, _PART
    _TASKS = tasks
    _PART = tempfile.mkdtemp(prefix='cvp_')
    try:
        return run_tasks1(tasks, jobs, effort, deadline, decided)
    finally:
        shutil.rmtree(_PART, ignore_errors=True)

def run_tasks1(tasks, jobs, effort, deadline, decided):
    t0 = time.time()
    res = [None] * len(tasks)
    ctx = mp.get_context('fork')
    with ctx.Pool(min(jobs, max(1, len(tasks))), maxtasksperchild=1) as pool:
        hs = [pool.apply_async(_run_task, ((i, effort),)) for i in range(len(tasks))]
        for i, h in enumerate(hs):
            while not h.ready() and time.time() < (min(deadline, t0 + 60) if decided() else deadline):
                h.wait(1)
            if h.ready():
                res[i] = h.get()
            else:
                res[i] = {'name': tasks[i].name, 'status': 'timeout', 'detail': 'verification did not finish in the time allowed', 'obligations': [],
                          'failed': [], 'backends': {}, 'solver_s': 0.0, 'wall': 0}
                if os.path.exists(os.path.join(_PART, str(i))):          # obligations already found to fail count
                    with open(os.path.join(_PART, str(i)), 'rb') as f:
                        res[i].update(pickle.load(f))
        pool.terminate()
    return res

def pool_values(results):
    vals = []
    for r in results:
        for f in r['failed']:
            for m in re.finditer(r'= (-?\d+(?:/\d+)?(?:\.\d+)?)\??', f.get('model', '')):
                try:
                    x = m.group(1)
                    v = float(x.split('/')[0]) / float(x.split('/')[1]) if '/' in x else float(x)
                    if abs(v) < 1e300 and v not in vals:
                        vals.append(v)
                except (ValueError, ZeroDivisionError, OverflowError):
                    pass
    return vals[:200]

def known(pid):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--only', default='')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pid = a.pid
    m = load_spec(pid)
    jobs = 8
    tmp = tempfile.mkdtemp(prefix='vchk_%s_' % pid)
    try:
        rc = decide(a, pid, m, seed, jobs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def decide(a, pid, m, seed, jobs, tmp, t0):
    quick = a.tier == 'quick'
    rp = None
    th = None
    cfg = getattr(m, 'REPLAY', None)
    if cfg and not a.no_replay:
        rp = Replay(cfg, tmp, seed, a.tier)
        def first():
            rp.build()
            if rp.built:
                rp.run(cfg.get('rounds', 2000) * (1 if quick else 25), cfg.get('budget', 30) if quick else 240)
        th = threading.Thread(target=first)
        th.start()
    results, extract_err = [], None
    P = Program()
    try:
        groups = m.GROUPS if hasattr(m, 'GROUPS') else [(m.TUS, m.tasks)]
        tasks = []
        for tus, mk in groups:
            P = Program()
            P.load(tus)
            tasks += mk(P)
        if a.only:
            tasks = [t for t in tasks if a.only in t.name]
    except ExtractError as e:
        extract_err = str(e)
        tasks = []
    kn = known(pid)
    deadline = t0 + (330 if quick else 700)
    if tasks:
        def decided():
            return bool(th) and not th.is_alive() and any(all(k[0] != f['key'] for k in kn) for f in rp.fails)
        results = run_tasks(tasks, jobs, 1, deadline, decided)
        # second chance with more solver effort for what was left open
        again = [i for i, r in enumerate(results) if r['status'] == 'ok' and r['failed']]
        if th and again:
            th.join()
            if any(all(k[0] != f['key'] for k in kn) for f in rp.fails):
                again = []                   # decided already: a failing input was replayed
        if again and time.time() < deadline - 120:
            sub = run_tasks([tasks[i] for i in again], jobs, 2 if quick else 6, deadline)
            for i, r in zip(again, sub):
                if r['status'] == 'ok' and len(r['failed']) < len(results[i]['failed']):
                    results[i] = r
    nobl = sum(len(r['obligations']) for r in results)
    nproved = sum(1 for r in results for _, s in r['obligations'] if s == 'proved')
    failed = [(r['name'], f) for r in results for f in r['failed']]
    unsup = [r for r in results if r['status'] in ('unsupported', 'timeout')]
    vac = [r for r in results if r['status'] == 'vacuous']
    if th:
        th.join()
    if rp and rp.built:
        rounds = cfg.get('rounds', 2000) * (1 if quick else 25)
        if (failed or unsup) and not rp.fails:
            pv = pool_values(results)
            rp.run(rounds * 6, 90 if quick else 120, pool=pv, seed=seed + 77)
    viol = []
    knhit = []
    if rp:
        for f in rp.fails:
            hit = [k for k in kn if k[0] == f['key']]
            if hit:
                knhit.append(hit[0])
            else:
                viol.append(f)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, '%s.txt' % pid)
    rc = 0
    if a.v or viol or failed:
        for r in results:
            print('%-60s %-11s obl %d proved %d paths %s/%s solver %.1fs wall %.1fs' % (r['name'], r['status'], len(r['obligations']),
                  sum(1 for _, s in r['obligations'] if s == 'proved'), r.get('feasible_paths'), r.get('paths'), r['solver_s'], r['wall']))
            if r['detail']:
                print('      ' + r['detail'].replace('\n', '\n      '))
            for f in r['failed']:
                print('      NOT DISCHARGED (%s) %s' % (f['status'], f['label']))
            if a.v:
                for fn, inv in r.get('inv', []):
                    print('      invariant in %s: %s' % (fn, inv))
        if rp:
            print('replay built=%s evals=%d distinct=%d fails=%s %s' % (rp.built, rp.evals, rp.distinct, [f['key'] for f in rp.fails], '' if rp.built else rp.log))
    for k in knhit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
    if viol or failed:
        rc = 1
        with open(rpath, 'w') as f:
            f.write('property %s violated\n' % pid)
            for v in viol:
                f.write('\n== failing input (replayed on the real code), case %s\n%s\n%s\n' % (v['key'], v['text'], v['stderr']))
            for n, x in failed:
                f.write('\n== obligation not discharged: function under contract %s\n%s (%s)\ngoal: %s\nsolver counterexample: %s\n' %
                        (n, x['label'], x['status'], x['goal'], x['model']))
            f.write('\nrerun: python3-vt cv/check.py %s --tier %s (VERIF_SEED=%d)\n' % (pid, a.tier, seed))
        print('VIOLATION property=%s replay=%s%s' % (pid, rpath, '' if viol else ' no-failing-input-found'))
    proof = bool(results) and not failed and not unsup and not vac and not extract_err
    write_evidence(a, pid, m, seed, results, rp, rc, proof, extract_err, unsup, vac, nobl, nproved, t0, viol, failed)
    if vac:
        print('note: vacuous contract for ' + ', '.join(r['name'] for r in vac))
    if unsup or extract_err:
        print('note: outside the verifier\'s reach, bounded check stands in: ' + (extract_err or '; '.join('%s (%s)' % (r['name'], r['detail'].splitlines()[0] if r['detail'] else r['status']) for r in unsup))[:1500])
    print('%s %s: %s obligations %d/%d functions %d replay evaluations %d wall %.1fs' % (pid, a.tier, 'VIOLATED' if rc else ('held (proof)' if proof else 'held (bounded)'),
          nproved, nobl, len(results), rp.evals if rp else 0, time.time() - t0))
    return rc

def write_evidence(a, pid, m, seed, results, rp, rc, proof, extract_err, unsup, vac, nobl, nproved, t0, viol, failed):
    be = {}
    for r in results:
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
    assumed = sorted({x for r in results for x in r.get('assumed', [])})
    inl = sorted({x for r in results for x in r.get('inlined', [])})
    used = sorted({x for r in results for x in r.get('contracts', [])})
    ass = ['double arithmetic is treated as exact real arithmetic (rounding, overflow to infinity and -0.0 are outside the model; NaN and infinity are modelled where an operation creates them)',
           'signed integer overflow is not modelled; unsigned subtraction and conversions wrap',
           'arguments passed by reference and members do not alias each other unless the source makes them',
           'contract of the standard library, libm and boost value types used by the code (assumed, see cv/stdmodel.py): ' + ', '.join(assumed)]
    ass += list(getattr(m, 'ASSUMPTIONS', []))
    e = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'proof' if proof else 'exploration', 'wall_s': round(time.time() - t0, 2),
         'violations': (len(viol) or len(failed)) if rc else 0, 'assumptions': ass}
    cov = {}
    if proof or nobl:
        cov.update({'obligations': nobl, 'discharged': nproved,
                    'checker_cmd': 'python3-vt cv/check.py %s --tier %s -v' % (pid, a.tier),
                    'trusted_base': ['clang-18 AST of the current /repo sources (extraction: cv/frontend.py)', 'the verification-condition generator cv/execu.py, cv/loops.py, cv/stdmodel.py',
                                     'z3 4.x in process, cvc5, z3-new'] + ['assumed contract: ' + x for x in getattr(m, 'TRUSTED', [])]})
        cov['functions_under_contract'] = [r['name'] for r in results]
        cov['functions_expanded'] = inl
        cov['callee_contracts_used'] = used
        cov['backends'] = be
        cov['solver_s'] = round(sum(r['solver_s'] for r in results), 2)
        cov['loop_invariants'] = [{'function': fn, 'kept': inv} for r in results for fn, inv in r.get('inv', [])][:60]
        cov['failed_obligations'] = [x['label'] for _, x in failed]
        cov['outside_reach'] = [r['name'] + ': ' + r['detail'][:300] for r in unsup + vac] + ([extract_err] if extract_err else [])
    if rp:
        cov['evaluations'] = rp.evals
        cov['distinct_nontrivial'] = rp.distinct
        cov['rule'] = rp.cfg.get('rule', 'distinct inputs handed to the real functions and compared with the oracle of the property')
        cov['samples'] = rp.samples[:8] or ['none']
        cov['replay_label'] = 'bounded supplement: concrete inputs, never counted as proved'
        if not rp.built:
            cov['replay_build_error'] = rp.log[-800:]
    if hasattr(m, 'BOUNDED'):
        cov['bounded_functions'] = m.BOUNDED
    e['coverage'] = cov
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1)

if __name__ == '__main__':
    main()
