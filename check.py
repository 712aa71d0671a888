#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property for the current /repo tree:
  1. compiles the real sources + the property's contract harnesses to LLVM IR,
  2. discharges every obligation of every harness entry with yv (Z3, cvc5),
  3. compiles the same harnesses natively and samples them (bounded stand-in for
     whatever step 2 left undecided, and the replay vehicle for counterexamples),
  4. writes evidence/<id>.json.
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('YV_REPO', '/repo')
sys.path.insert(0, HERE)
BUILD = os.path.join(HERE, 'build')
NCPU = os.cpu_count() or 4


class Undecided(Exception):
    pass


def run(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'


INC = ['include', 'include/aux', 'src/kernel/lib', 'src/common', 'src/contrib/coefficients', 'src/compiler/lib']


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tmp = tempfile.mkdtemp(prefix='yv_%s_' % pid)
        self.t0 = time.time()
        self.notes = []

    def incs(self):
        r = ['-I' + os.path.join(HERE, 'shim'), '-I' + os.path.join(HERE, 'yv'), '-I' + os.path.join(HERE, 'harness')]
        return r + ['-I' + os.path.join(REPO, d) for d in INC]


BCFLAGS = ['clang++-18', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
           '-D_OPENMP=201511', '-DCHECK', '-DYV_SYMBOLIC', '-Wno-everything', '-c', '-emit-llvm']
NATFLAGS = ['g++', '-std=c++17', '-O1', '-g1', '-ffunction-sections', '-fdata-sections', '-D_OPENMP=201511', '-DCHECK', '-w', '-fno-access-control',
            '-fsanitize=signed-integer-overflow,bounds,integer-divide-by-zero,shift', '-fsanitize-undefined-trap-on-error', '-c']
ASANFLAGS = ['g++', '-std=c++17', '-O1', '-g1', '-ffunction-sections', '-fdata-sections', '-D_OPENMP=201511', '-DCHECK', '-w', '-fno-access-control',
             '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment,vptr', '-c']
OPT = ['opt-18', '-passes=function(sroa,early-cse,simplifycfg)']


def src_path(s):
    if s.startswith('/'):
        return s
    return os.path.join(REPO, s) if s.startswith('src/') else os.path.join(HERE, 'harness', s)


class Unit:
    """One group of translation units compiled and linked together."""

    def __init__(self, name, srcs, defs=(), incs=(), entries=(), native_srcs=None, native_defs=(), symbolic=True, libs=(), omp=False, pre=()):
        self.omp, self.pre = omp, list(pre)
        self.name, self.srcs, self.defs, self.incs = name, list(srcs), list(defs), list(incs)
        self.entries = list(entries)
        self.native_srcs = list(native_srcs) if native_srcs is not None else list(srcs)
        self.native_defs = list(native_defs)
        self.symbolic = symbolic
        self.libs = list(libs)


class Entry:
    def __init__(self, name, secs=60, nat_secs=4, nat_n=200000, exact=True, symbolic=True, native=True, thorough_secs=None, what='', env=None):
        self.name, self.secs, self.nat_secs, self.nat_n, self.exact = name, secs, nat_secs, nat_n, exact
        self.symbolic, self.native, self.what = symbolic, native, what
        self.thorough_secs = thorough_secs or secs * 4


def compile_unit(cx, u, mode, pool):
    d = os.path.join(cx.tmp, u.name + '_' + mode)
    os.makedirs(d, exist_ok=True)
    srcs = u.srcs if mode == 'bc' else u.native_srcs
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, '%d_%s.%s' % (i, os.path.basename(s), 'bc' if mode == 'bc' else 'o'))
        base = BCFLAGS if mode == 'bc' else (ASANFLAGS if mode == 'asan' else NATFLAGS)
        fl = ['-fno-access-control'] if mode == 'bc' else []
        if u.omp:
            base = [x for x in base if not x.startswith('-D_OPENMP')] + ['-fopenmp', '-I' + os.path.join(HERE, 'shim_par')]
        cmd = base + fl + list(u.pre) + cx.incs() + list(u.incs) + list(u.defs) + (list(u.native_defs) if mode != 'bc' else []) + [src_path(s), '-o', o]
        jobs.append((o, cmd))
    res = list(pool.map(lambda j: run(j[1], 400), jobs))
    for (o, cmd), r in zip(jobs, res):
        if r[0] != 0:
            raise Undecided('compile (%s) failed: %s\n%s' % (mode, ' '.join(cmd[-3:]), r[2][-3000:]))
    if mode == 'bc':
        l = os.path.join(d, 'l.bc')
        r = run(['llvm-link-18', os.path.join(BUILD, 'rtall.bc')] + [o for o, _ in jobs] + ['-o', l], 200)
        if r[0]:
            raise Undecided('llvm-link failed: ' + r[2][-2000:])
        m = os.path.join(d, 'm.bc')
        r = run(OPT + [l, '-o', m], 300)
        if r[0]:
            raise Undecided('opt failed: ' + r[2][-2000:])
        return m
    exe = os.path.join(d, 'native')
    ld = ['g++', '-rdynamic'] + (['-fsanitize=address,undefined'] if mode == 'asan' else [])
    r = run(ld + [o for o, _ in jobs] + [os.path.join(BUILD, 'native.o'), '-o', exe, '-ldl', '-lrt', '-lpthread'] + u.libs, 200)
    if r[0]:
        raise Undecided('link failed: ' + r[2][-2000:])
    return exe


def yv(cx, bc, e):
    out = bc + '.' + e.name + '.json'
    t = e.secs if cx.tier == 'quick' else e.thorough_secs
    rc, so, se = run([os.path.join(BUILD, 'yv'), bc, '--entry', e.name, '--out', out, '--time', str(t)], t + 120)
    if rc != 0 or not os.path.exists(out):
        return {'entry': e.name, 'crashed': 'yv rc=%d %s' % (rc, se[-300:])}
    return json.load(open(out))


def native(cx, exe, e):
    t = e.nat_secs if cx.tier == 'quick' else e.nat_secs * 8
    n = e.nat_n if cx.tier == 'quick' else e.nat_n * 8
    rc, so, se = run([exe, '--entry', e.name, '--random', str(n), '--time', str(t), '--seed', str(cx.seed)], t + 100)
    for l in so.splitlines()[::-1]:
        if l.startswith('{"entry"'):
            return json.loads(l)
    return {'entry': e.name, 'crashed': 'native rc=%d %s' % (rc, (so + se)[-300:])}


def write_inputs(path, inputs, header):
    with open(path, 'w') as f:
        for h in header:
            for l in h.splitlines():
                f.write('# ' + l + '\n')
        for n, v in inputs:
            f.write('%s %s\n' % (n, v))


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


def decide(pid, tier, prop):
    cx = Ctx(pid, tier)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    violations, ev_entries, undecided = [], [], []
    units = []
    pool = ThreadPoolExecutor(NCPU)
    pool2 = ThreadPoolExecutor(max(NCPU, 4))
    try:
        if not os.path.exists(os.path.join(BUILD, 'yv')):
            run([os.path.join(HERE, 'yv', 'mk.sh'), BUILD], 900)
        try:
            units = prop['units'](cx)
        except Undecided as e:
            undecided.append('set-up: ' + str(e))
            units = []
        jobs = []

        def both(u):
            r = {}
            def bc():
                try:
                    r['bc'] = compile_unit(cx, u, 'bc', pool)
                except Undecided as e:
                    r['bc_err'] = str(e)
            def nat():
                try:
                    r['nat'] = compile_unit(cx, u, 'nat', pool)
                except Undecided as e:
                    r['nat_err'] = str(e)
            fs = []
            if u.symbolic and any(e.symbolic for e in u.entries):
                fs.append(pool2.submit(bc))
            if any(e.native for e in u.entries):
                fs.append(pool2.submit(nat))
            for f in fs:
                f.result()
            return u, r
        uf = [ThreadPoolExecutor(1).submit(both, u) for u in units]
        futs = []
        for f in uf:
            u, r = f.result()
            for k in ('bc_err', 'nat_err'):
                if k in r:
                    undecided.append('%s: %s' % (u.name, r[k]))
            for e in u.entries:
                fy = pool.submit(yv, cx, r['bc'], e) if e.symbolic and u.symbolic and 'bc' in r else None
                fn = pool.submit(native, cx, r['nat'], e) if e.native and 'nat' in r else None
                futs.append((u, r, e, fy, fn))
        asan = {}
        for u, r, e, fy, fn in futs:
            y = fy.result() if fy else None
            n = fn.result() if fn else None
            rec = {'unit': u.name, 'entry': e.name, 'what': e.what}
            viol = None
            # -- bounded sampling
            if n:
                if 'crashed' in n:
                    rec['native'] = n['crashed']
                    undecided.append('%s: native run: %s' % (e.name, n['crashed']))
                else:
                    rec['bounded_samples'] = n['evaluations']
                    rec['bounded_distinct'] = n['distinct']
                    rec['sample'] = n['sample']
                    if n['status'] >= 2:
                        viol = (n['label'], n['inputs'], 'found by running the real code on sampled inputs', True)
            # -- deductive
            if y:
                if 'crashed' in y:
                    undecided.append('%s: %s' % (e.name, y['crashed']))
                    rec['deductive'] = y['crashed']
                else:
                    for k in ('instances', 'by_simplification', 'by_solver', 'failed', 'unknown', 'paths', 'queries', 'solver_s', 'wall_s', 'cvc5'):
                        rec[k] = y[k]
                    rec['y'] = y
                    bad = [o for o in y['obligations'] if o['failed']]
                    if y['unsupported']:
                        undecided.append('%s: not fully explored: %s' % (e.name, '; '.join(y['unsupported'][:3])))
                    if y['covers_missed'] or (not y['covers_hit'] and not bad and y['paths'] == 0):
                        undecided.append('%s: vacuity guard: unreached covers %s, paths %d' % (e.name, y['covers_missed'], y['paths']))
                        rec['vacuous'] = True
                    for o in y['obligations']:
                        if o['unknown']:
                            undecided.append('%s: obligation "%s" undecided by the solvers' % (e.name, o['label']))
                    if bad and not (viol and viol[3]):
                        for o in bad:
                            f = os.path.join(cx.tmp, 'rep.txt')
                            write_inputs(f, o['inputs'], [])
                            ok = False
                            tried = []
                            if 'nat' in r:
                                rc, so, se = run([r['nat'], '--entry', e.name, '--replay', f], 60)
                                ok = '"status":2' in so or '"status":3' in so
                                tried.append('native: ' + so.strip()[:300])
                            if not ok and o['kind'] in ('memory', 'overflow', 'arith', 'unreachable') and u.name not in asan and 'nat' in r:
                                try:
                                    asan[u.name] = compile_unit(cx, u, 'asan', pool)
                                except Undecided as ex:
                                    asan[u.name] = None
                            if not ok and asan.get(u.name):
                                rc, so, se = run([asan[u.name], '--entry', e.name, '--replay', f], 120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:allow_user_segv_handler=1'))
                                ok = rc != 0
                                tried.append('sanitizers: ' + (so + se).strip()[:1500])
                            if ok:
                                viol = ('%s: %s' % (o['kind'], o['label']), o['inputs'], 'verifier counterexample, replayed on the real code\n' + '\n'.join(tried) + '\nat ' + o['where'], True)
                                break
                        if not viol:
                            o = bad[0]
                            if e.exact and not y['unsupported']:
                                viol = ('%s: %s' % (o['kind'], o['label']), o['inputs'], 'obligation refuted by the solver; no failing native input found\nmodel: ' + o.get('model', '') + '\nat ' + o['where'] + '\n' + '\n'.join(tried), False)
                            else:
                                undecided.append('%s: obligation "%s" not provable under the loop/contract abstraction and not reproduced natively' % (e.name, o['label']))
            if viol:
                violations.append((e, viol, u))
            ev_entries.append(rec)
        # -- extra (non-harness) parts
        extra_ev = {}
        if 'extra' in prop:
            try:
                extra_ev, ex_viol = prop['extra'](cx)
                for v in ex_viol:
                    violations.append((Entry(v.get('entry', 'extra')), (v['label'], v.get('inputs', []), v.get('text', ''), v.get('replayed', True)), None))
            except Undecided as ex:
                undecided.append('extra: ' + str(ex))
        # ---------------------------------------------------------------- report
        kf = known_findings(pid)
        rc = 0
        seen = set()
        for e, (label, inputs, text, replayed), u in violations:
            hit = [k for k in kf if k[0] == e.name or k[0] == hashlib.sha1((e.name + label).encode()).hexdigest()[:10]]
            if hit:
                if hit[0] not in seen:
                    print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][1]))
                    seen.add(hit[0])
                continue
            path = os.path.join(rdir, '%s-%s.txt' % (pid, e.name))
            write_inputs(path, inputs, ['property %s' % pid, 'failed obligation: %s' % label, 'harness entry: %s' % e.name, text,
                                        'replay: native harness --entry %s --replay <this file>' % e.name])
            print('%s: failed obligation in %s: %s' % (pid, e.name, label))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if replayed else ' no-failing-input-found'))
            rc = 1
        obl = sum(x.get('instances', 0) for x in ev_entries)
        dis = sum(x.get('by_simplification', 0) + x.get('by_solver', 0) for x in ev_entries)
        fns, contracts, loops, ext, stubs, covers, named = set(), {}, {}, {}, {}, 0, 0
        for x in ev_entries:
            y = x.pop('y', None)
            if not y:
                continue
            fns.update(y['functions'])
            covers += len(y['covers_hit'])
            named += len(y['obligations'])
            for src, dst in ((y['contracts'], contracts), (y['loops'], loops), (y['externals'], ext), (y['stubs'], stubs)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
        cov = {
            'obligations': obl, 'discharged': dis, 'named_obligations': named,
            'discharged_by_simplification_or_intervals': sum(x.get('by_simplification', 0) for x in ev_entries),
            'discharged_by_z3_or_cvc5': sum(x.get('by_solver', 0) for x in ev_entries),
            'cvc5_queries': sum(x.get('cvc5', 0) for x in ev_entries),
            'solver_queries': sum(x.get('queries', 0) for x in ev_entries),
            'solver_seconds': round(sum(x.get('solver_s', 0) for x in ev_entries), 2),
            'paths': sum(x.get('paths', 0) for x in ev_entries),
            'reachability_covers_hit': covers,
            'checker_cmd': 'python3 check.py %s' % pid,
            'trusted_base': prop.get('trusted', []) + TRUSTED,
            'functions_under_proof': sorted(fns)[:400],
            'contracts_used_at_calls': contracts,
            'loop_rule_applications': loops,
            'library_models_used': sorted(ext)[:80], 'stubs_used': sorted(stubs)[:40],
            'undecided': undecided[:40],
            'entries': ev_entries,
            'bounded_evaluations': sum(x.get('bounded_samples', 0) for x in ev_entries),
            'bounded_note': 'bounded_* counts are native sampled executions of the same contracts; they are not counted as proved',
        }
        cov.update(extra_ev)
        cov.update(prop.get('cov', {}))
        level = prop.get('level', 'proof')
        if level != 'proof':
            cov.setdefault('evaluations', cov['bounded_evaluations'] + cov.get('extra_evaluations', 0))
            cov.setdefault('distinct_nontrivial', sum(x.get('bounded_distinct', 0) for x in ev_entries) + cov.get('extra_distinct', 0))
            cov.setdefault('rule', prop.get('rule', 'inputs drawn by the harness; non-trivial = pre-condition satisfied, counted once per distinct input vector'))
            cov.setdefault('samples', [x['sample'] for x in ev_entries if x.get('sample')][:5])
        ev = {'property': pid, 'tier': tier, 'seed': cx.seed, 'level': level, 'coverage': cov,
              'assumptions': prop.get('assumptions', []) + ASSUME, 'wall_s': round(time.time() - cx.t0, 2), 'violations': sum(1 for _ in violations) if rc else 0}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d bounded samples, %d undecided notes, %.1f s' % (pid, obl, dis, cov['bounded_evaluations'], len(undecided), time.time() - cx.t0))
        for un in undecided[:12]:
            print('  undecided: ' + un[:400])
        return rc
    finally:
        if not os.environ.get('YV_KEEP'):
            shutil.rmtree(cx.tmp, ignore_errors=True)
        else:
            print('kept', cx.tmp)


TRUSTED = ['clang 18 front end + sroa/early-cse/simplifycfg', 'yv (verif/yv/yv.cpp: IR semantics, VC generation)', 'Z3 5.3 / cvc5 1.1.2',
           'rt.cpp, rtc.c: models of libc and libstdc++.so functions', 'iostream output calls are no-ops', 'std::min/std::max by their specification']
ASSUME = ['OpenMP pragmas are ignored: regions run sequentially with one thread', 'floating point treated as real arithmetic where symbolic',
          'inputs restricted to the ranges stated in the harness pre-conditions']


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    import props
    sys.exit(decide(pid, tier, props.PROPS[pid]))


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    main()
