#!/usr/bin/env python3
"""check.py <property>: extract, generate and discharge the obligations of one
property from /repo's current source, replay counterexamples natively, write
the evidence file."""
import sys, os, json, subprocess, hashlib, time, shutil, re, glob
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import extract as EX

NPROC = os.cpu_count() or 4
BUILD = os.path.join(VERIF, 'build')
SYM_FLAGS = ['-std=c++17', '-O1', '-w', '-fpermissive', '-D_GLIBCXX_ASSERTIONS', '-DEIGEN_NO_DEBUG']
NAT_FLAGS = ['-std=c++17', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS', '-DDV_NATIVE']
MODULES = ['utility', 'models', 'ThermalFunctions', 'minimizer', 'minimum_tracer', 'bounce_solution',
           'gravitational_waves', 'transition_tracer']
TRUSTED = [
    'dv engine (/verif/dv): path exploration, polynomial/rational normal form, SMT encoding',
    'extractor (/verif/tools/extract.py): token rewriting double -> exact real',
    'g++ 13 compiling the extracted text; Eigen 3 matrix arithmetic as templates over dv::Real',
    'z3, z3-new, cvc5 for obligations the normal form does not decide',
    'machine floating point treated as exact real arithmetic (rounding, overflow and NaN not modelled); '
    'a quotient is constrained only where its denominator is non-zero',
]


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                              timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def sources(root, modules):
    out = []
    for m in modules:
        for r, d, fs in os.walk(os.path.join(root, 'src', m)):
            for f in sorted(fs):
                if f.endswith('.cpp') and f not in ('Minfunc_gen.cpp', 'MinimizeLibCMAES.cpp') and 'asciiplotter' not in r:
                    out.append(os.path.join(r, f))
    return out


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def headers(dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs if f.endswith(('.h', '.hpp'))]
    return out


def compile_all(files, flags, incs, hdrs, cachedir, fixer=None):
    os.makedirs(cachedir, exist_ok=True)
    hd = digest(hdrs, ' '.join(flags))
    objs, errs = {}, []

    def one(f):
        for attempt in range(6):
            key = hashlib.sha256((hd + f).encode() + open(f, 'rb').read()).hexdigest()[:32]
            o = os.path.join(cachedir, key + '.o')
            if os.path.exists(o):
                return f, o, None
            tmp = o + f'.{os.getpid()}.tmp.o'
            r = run(['g++'] + flags + incs + ['-c', f, '-o', tmp], timeout=600)
            if r.returncode == 0:
                os.replace(tmp, o)
                return f, o, None
            if fixer is None or not fixer(f, r.stderr):
                return f, None, r.stderr
        return f, None, r.stderr

    # biggest first
    files = sorted(files, key=lambda f: -os.path.getsize(f))
    with ThreadPoolExecutor(NPROC) as ex:
        for f, o, e in ex.map(one, files):
            if e:
                errs.append((f, e))
            else:
                objs[f] = o
    return objs, errs


TERN = re.compile(r"operands to '\?:' have different types|conditional expression is ambiguous")


def make_fixer(gen):
    """An integer literal that is one arm of ?: next to a double arm: the
    built-in promotion is spelled out."""
    def fix(f, err):
        # file:line refer to the real file; map back to the generated one
        changed = False
        for m in re.finditer(r'^(/[^:\n]+):(\d+):\d+: error: (.*)$', err, re.M):
            path, line, msg = m.group(1), int(m.group(2)), m.group(3)
            if not TERN.search(msg):
                continue
            rel = os.path.relpath(path, REPO)
            g = os.path.join(gen, rel)
            if not os.path.exists(g):
                continue
            L = open(g).read().split('\n')
            for k in range(line + 1, min(line + 5, len(L))):
                new = re.sub(r'([?:]\s*)(-?\d+)(?=\s*[;:),\]]|\s*$)', r'\1dv::Real(\2)', L[k])
                if new != L[k]:
                    L[k] = new
                    changed = True
            open(g, 'w').write('\n'.join(L))
        return changed
    return fix


def build_symbolic(pid, cfg):
    gen = os.path.join(BUILD, 'gen', pid)
    if os.path.isdir(gen):
        shutil.rmtree(gen)
    opts = {'virtual': cfg.get('virtual', {}), 'switch': cfg.get('switch', []),
            'weak': cfg.get('weak', [])}
    EX.extract(REPO, gen, opts)
    dvdir = os.path.join(VERIF, 'dv')
    incs = ['-I' + os.path.join(dvdir, 'stubs'), '-I' + dvdir, '-I' + os.path.join(gen, 'include'),
            '-I' + os.path.join(gen, 'src'), '-I' + os.path.join(VERIF, 'contracts'), '-I/usr/include/eigen3']
    hdrs = headers([dvdir, os.path.join(gen, 'include'), os.path.join(gen, 'src'), os.path.join(VERIF, 'contracts')])
    srcs = sources(gen, cfg.get('modules', MODULES))
    cons = [os.path.join(VERIF, 'contracts', s) for s in cfg['src']]
    engine = os.path.join(dvdir, 'dv.cpp')
    cache = os.path.join(BUILD, 'obj')
    objs, errs = compile_all(srcs + cons + [engine], SYM_FLAGS, incs, hdrs, cache, make_fixer(gen))
    if errs:
        return None, errs
    key = hashlib.sha256(' '.join(sorted(objs.values())).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, f'{pid}.{key}')
    lib = exe + '.a'
    if os.path.exists(lib):
        os.remove(lib)
    r = run(['ar', 'rcs', lib] + [objs[s] for s in srcs])
    r = run(['g++', '-o', exe, objs[engine]] + [objs[c] for c in cons] +
            [lib, '-lz3', '-lgmpxx', '-lgmp', '-lpthread'])
    os.path.exists(lib) and os.remove(lib)
    if r.returncode:
        return None, [('link', r.stderr)]
    return exe, None


def build_native(pid, cfg):
    cfgdir = os.path.join(BUILD, 'native_inc', 'BSMPT')
    os.makedirs(cfgdir, exist_ok=True)
    c = '#pragma once\n#define NLopt_FOUND\n#define nlohmann_json_FOUND\n#define Boost_FOUND\n'
    p = os.path.join(cfgdir, 'config.h')
    if not (os.path.exists(p) and open(p).read() == c):
        open(p, 'w').write(c)
    dvdir = os.path.join(VERIF, 'dv')
    incs = ['-I' + dvdir, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'),
            '-I' + os.path.join(BUILD, 'native_inc'), '-I' + os.path.join(VERIF, 'contracts'), '-I/usr/include/eigen3']
    hdrs = headers([dvdir, os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(VERIF, 'contracts')])
    srcs = sources(REPO, cfg.get('modules', MODULES))
    cons = [os.path.join(VERIF, 'contracts', s) for s in cfg['src']]
    engine = os.path.join(dvdir, 'dv_native.cpp')
    objs, errs = compile_all(srcs + cons + [engine], NAT_FLAGS, incs, hdrs, os.path.join(BUILD, 'nobj'))
    if errs:
        return None, errs
    key = hashlib.sha256(' '.join(sorted(objs.values())).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, f'{pid}.native.{key}')
    lib = exe + '.a'
    if os.path.exists(lib):
        os.remove(lib)
    run(['ar', 'rcs', lib] + [objs[s] for s in srcs])
    r = run(['g++', '-o', exe, objs[engine]] + [objs[c] for c in cons] +
            [lib, '-lgsl', '-lgslcblas', '-lnlopt', '-lpthread'])
    os.path.exists(lib) and os.remove(lib)
    if r.returncode:
        return None, [('link', r.stderr)]
    return exe, None


def discharge(exe, names, timeout, solver_ms, outdir):
    os.makedirs(outdir, exist_ok=True)
    res = {}

    def one(n):
        o = os.path.join(outdir, n + '.json')
        if os.path.exists(o):
            os.remove(o)
        t = time.time()
        r = run([exe, '--timeout', str(solver_ms), '--out', o, n], timeout=timeout)
        d = None
        if os.path.exists(o):
            try:
                d = json.loads(open(o).read())
            except Exception:
                d = None
        if d is None:
            d = {'contract': n, 'paths': 0, 'infeasible': 0, 'forks': 0, 'queries': 0, 'solver_ms': 0,
                 'error': 'timeout' if r.returncode == 124 else f'crashed rc={r.returncode} {r.stderr[-400:]}',
                 'assumptions': [], 'covers': {}, 'notes': [], 'obligations': []}
        d['wall_s'] = time.time() - t
        return n, d

    with ThreadPoolExecutor(NPROC) as ex:
        for n, d in ex.map(one, names):
            res[n] = d
    return res


def bad_obligations(d):
    return [o for o in d['obligations'] if o['failed'] or o['unknown']]


def main():
    pid = sys.argv[1]
    if '--build' in sys.argv:  # developer aid: only build, print the binary
        cfg = json.load(open(os.path.join(VERIF, 'contracts', 'config.json'))).get(pid, {'src': [pid + '.cpp']})
        exe, errs = build_symbolic(pid, cfg)
        print(exe or '\n'.join(f + ':' + e[:3000] for f, e in errs))
        sys.exit(0 if exe else 1)
    verbose = '-v' in sys.argv
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    allcfg = json.load(open(os.path.join(VERIF, 'contracts', 'config.json')))
    cfg = allcfg[pid]
    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == pid]
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    for f in glob.glob(os.path.join(BUILD, f'{pid}.*')):
        try:
            os.remove(f)
        except OSError:
            pass
    exe, errs = build_symbolic(pid, cfg)
    tb = time.time() - t0
    results, failures, undecided = {}, [], []
    if exe is None:
        for f, e in errs:
            log(f'extraction of {f} does not compile:\n' + '\n'.join(l for l in e.split('\n') if 'error' in l)[:1500])
        failures.append(('*', 'obligations-could-not-be-generated', errs[0][0] + ': ' + errs[0][1][:1500], {}))
        names = cfg.get('contracts', [])
    else:
        names = [n for n in run([exe, '--list']).stdout.split() if n]
        if tier != 'thorough':
            names = [n for n in names if not n.startswith('thorough_')]
        # longest first (from the previous configuration hint)
        slow = cfg.get('slow', [])
        names.sort(key=lambda n: (0 if n in slow else 1, n))
        tmo = cfg.get('timeout', 240) * (3 if tier == 'thorough' else 1)
        sms = cfg.get('solver_ms', 20000) * (3 if tier == 'thorough' else 1)
        outdir = os.path.join(BUILD, 'res', pid)
        results = discharge(exe, names, tmo, sms, outdir)
        # an undecided query may be load: once more, alone, with more time
        again = [n for n, d in results.items() if any(o['unknown'] for o in d['obligations']) and
                 not any(o['failed'] for o in d['obligations'])]
        if again and time.time() - t0 < 400:
            results.update(discharge(exe, again, tmo, sms * 3, outdir))
        for n, d in results.items():
            if d['error']:
                failures.append((n, 'contract-not-decided', d['error'], {}))
            for o in bad_obligations(d):
                failures.append((n, o['name'], o['detail'], o.get('model', {})))
            if not d['error'] and not d['obligations']:
                failures.append((n, 'vacuous-contract', 'no obligation was generated', {}))
            for c, k in d['covers'].items():
                if k == 0:
                    failures.append((n, 'cover:' + c, 'unreachable: the contract became vacuous', {}))
    if not names:
        failures.append(('*', 'vacuous', 'no contract found', {}))

    # known findings
    new, seen = [], []
    for f in failures:
        k = [x for x in known if x['contract'] == f[0] and x['obligation'] == f[1]]
        if k:
            seen.append((f, k[0]))
        else:
            new.append(f)
    done = set()
    for f, k in seen:
        if k['id'] not in done:
            done.add(k['id'])
            log(f"KNOWN-FINDING: property={pid} {k['what']}")

    viol = 0
    if new:
        log(f'{len(new)} obligation(s) not discharged')
        for n, ob, det, mod in new[:12]:
            log(f'  {n} / {ob}: {det[:600]}')
        viol = replay(pid, cfg, new, names, seed, t0)
    ev = evidence(pid, cfg, tier, seed, results, failures, new, seen, t0, tb)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    c = ev['coverage']
    log(f"{pid} [{tier}]: {c['contracts']} contracts, {c['paths']} paths, {c['obligations']} obligations, "
        f"{c['discharged']} discharged {c['by_backend']}, solver {c['solver_s']}s, build {c['build_s']}s, wall {ev['wall_s']}s")
    if exe and not os.environ.get('DV_KEEP'):
        try:
            os.remove(exe)
        except OSError:
            pass
    sys.exit(1 if new else 0)


def replay(pid, cfg, new, names, seed, t0):
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    for f in glob.glob(os.path.join(rdir, f'{pid}-*')):
        os.remove(f)
    exe, errs = (None, [('', 'replay disabled for this property')]) if cfg.get('no_replay') else build_native(pid, cfg)
    by = {}
    for n, ob, det, mod in new:
        by.setdefault(n, []).append((ob, det, mod))
    concrete = []
    allf = os.path.join(rdir, f'{pid}-obligations.txt')
    with open(allf, 'w') as f:
        f.write(f'property {pid}: obligations the verifier did not discharge on the current tree\n')
        for n, l in by.items():
            for ob, det, mod in l:
                f.write(f'\ncontract {n}\nobligation {ob}\nverifier: {det}\nmodel: {json.dumps(mod)}\n')
        if exe is None:
            f.write('\nnative replay not available: ' + str(errs)[:1500] + '\n')
    if exe:
        todo = []
        for n in (list(by) if '*' not in by else names):
            models = [m for _, _, m in by.get(n, []) if m] or [{}]
            todo.append((n, models[0]))
        budget = max(20, min(90, 800 - (time.time() - t0)) * NPROC / max(NPROC, len(todo)))

        def one(x):
            n, mod = x
            mf = os.path.join(rdir, f'{pid}-{n}.model')
            with open(mf, 'w') as f:
                for k, v in mod.items():
                    f.write(f'{k} {v!r}\n')
            of = os.path.join(rdir, f'{pid}-{n}.txt')
            cmd = [exe, '--model', mf, '--trials', '400', '--seed', str(seed), '--budget', str(int(budget)), '--out', of, n]
            r = run(cmd, timeout=budget + 60)
            os.path.exists(mf) and os.remove(mf)
            if r.returncode == 1 and os.path.exists(of):
                with open(of, 'a') as f:
                    for ob, det, mod in by.get(n, []):
                        f.write(f'obligation {ob}\nverifier: {det}\n')
                return of
            return None
        with ThreadPoolExecutor(NPROC) as ex:
            for of in ex.map(one, todo):
                if of:
                    concrete.append(of)
        try:
            os.remove(exe)
        except OSError:
            pass
    if concrete:
        for of in concrete:
            log(f'VIOLATION property={pid} replay={of}')
        return len(concrete)
    log(f'VIOLATION property={pid} replay={allf} no-failing-input-found')
    return 1


def evidence(pid, cfg, tier, seed, results, failures, new, seen, t0, tb):
    nob = ndis = paths = forks = queries = infeas = 0
    solver = 0.0
    be, assum = {}, set(cfg.get('assumptions', []))
    contracts = []
    for n, d in results.items():
        paths += d['paths']
        forks += d['forks']
        infeas += d['infeasible']
        queries += d['queries']
        solver += d['solver_ms']
        assum |= set(d['assumptions'])
        k = sum(o['paths'] for o in d['obligations'])
        p = sum(o['proved'] for o in d['obligations'])
        nob += k
        ndis += p
        for o in d['obligations']:
            for b, c in o['backend'].items():
                be[b] = be.get(b, 0) + c
        contracts.append({'contract': n, 'paths': d['paths'], 'obligations': k, 'discharged': p,
                          'named_obligations': len(d['obligations']), 'solver_s': round(d['solver_ms'] / 1000, 2),
                          'covers': d['covers'], 'error': d['error']})
    return {
        'property': pid, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'proof'),
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': f'python3 tools/check.py {pid}',
            'trusted_base': TRUSTED + cfg.get('trusted', []),
            'explanation': cfg.get('explanation', ''),
            'functions_under_contract': cfg.get('functions', []),
            'bounded_parts': cfg.get('bounded', []),
            'contracts': len(results), 'paths': paths, 'infeasible_paths': infeas, 'decisions_forked': forks,
            'solver_queries': queries, 'by_backend': be, 'solver_s': round(solver / 1000, 2),
            'build_s': round(tb, 1), 'per_contract': contracts,
            'known_findings_seen': [k['id'] for _, k in seen],
        },
        'assumptions': sorted(assum),
        'wall_s': round(time.time() - t0, 1),
        'violations': len(new),
    }


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
