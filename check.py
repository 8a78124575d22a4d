#!/usr/bin/env python3
"""Driver: compiles /repo's current sources to LLVM IR, runs the symbolic engine on the harnesses of
one property, replays every counterexample against a native sanitizer build of the same sources,
and writes the evidence file.

  check.py P01            run the check (tier from VERIF_TIER, default quick)
  check.py --replay FILE  replay one recorded counterexample
"""
import json, os, sys, time, glob, subprocess, shutil, tempfile, hashlib, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, V)
ENGINE = V + '/build/symex'
LIMIT_S = {'quick': 780, 'thorough': 3300}
JOBS = min(8, os.cpu_count() or 4)

EXPORT_H = '''#pragma once
#define E57_DLL
#define E57FORMAT_NO_EXPORT
#define E57_DEPRECATED
#define E57_DEPRECATED_EXPORT
#define E57_DEPRECATED_NO_EXPORT
'''
DEFS = ['-DE57_VALIDATION_LEVEL=2', '-DCRCPP_USE_CPP11', '-DCRCPP_BRANCHLESS', '-DREVISION_ID="vf"', '-DE57_ENABLE_DIAGNOSTIC_OUTPUT']
WRAPS = ['open', 'open64', 'read', 'write', 'lseek', 'lseek64', 'close', 'remove', 'unlink', 'ftruncate', 'fsync']


class ToolError(Exception):
    pass


def run(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return -999, o, e
    return p.returncode, o, e


def ensure_engine():
    if not os.path.exists(ENGINE):
        rc, o, e = run(['make', '-C', V + '/engine'], timeout=900)
        if rc:
            raise ToolError('engine build failed: ' + e[-2000:])


def repo_sources():
    l = sorted(glob.glob(REPO + '/src/*.cpp'))
    if not l:
        raise ToolError('no sources in ' + REPO)
    return l


def gen_headers(W):
    os.makedirs(W + '/gen', exist_ok=True)
    open(W + '/gen/E57Export.h', 'w').write(EXPORT_H)
    # E57Version.h is part of the source tree; anything else generated by CMake is only E57Export.h


def compile_many(jobs):
    """jobs: list of (cmd, label)"""
    errs = []
    with ThreadPoolExecutor(JOBS) as ex:
        for (cmd, label), (rc, o, e) in zip(jobs, ex.map(lambda j: run(j[0], timeout=600), jobs)):
            if rc:
                errs.append('%s: %s' % (label, e[:3000]))
    if errs:
        raise ToolError('compilation failed\n' + '\n'.join(errs))


def build_bitcode(W, harnesses, real_crc=False, ub=False):
    gen_headers(W)
    base = ['clang++', '-std=c++14', '-O1', '-fwrapv', '-Xclang', '-disable-llvm-passes', '-g0', '-w', '-ffp-contract=off']
    inc = ['-I' + W + '/gen', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/extern/CRCpp/inc', '-I' + V + '/models', '-I' + V + '/harness']
    pre = ['-include', V + '/models/prefix.h', '-I' + V + '/models/shadow']
    jobs, lib, hs = [], [], {}
    for s in repo_sources():
        o = W + '/' + os.path.basename(s) + '.bc'
        jobs.append((base + DEFS + pre + inc + ['-emit-llvm', '-c', s, '-o', o], s))
        lib.append(o)
    for s in ['models.cpp', 'vfs.cpp']:
        o = W + '/m_' + s + '.bc'
        jobs.append((base + DEFS + pre + inc + ['-emit-llvm', '-c', V + '/models/' + s, '-o', o], s))
        lib.append(o)
    jobs.append((['clang', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-w', '-emit-llvm', '-c', V + '/models/clib.c', '-o', W + '/m_clib.bc'], 'clib.c'))
    lib.append(W + '/m_clib.bc')
    for h in harnesses:
        o = W + '/h_' + h + '.bc'
        jobs.append((base + DEFS + pre + inc + ['-emit-llvm', '-c', V + '/harness/' + h + '.cpp', '-o', o], h))
        hs[h] = o
    compile_many(jobs)
    rc, o, e = run(['llvm-link-18'] + lib + ['-o', W + '/lib.bc'], timeout=120)
    if rc:
        raise ToolError('llvm-link: ' + e[:2000])
    return W + '/lib.bc', hs


def build_native(W, harnesses):
    gen_headers(W)
    N = W + '/nat'
    os.makedirs(N, exist_ok=True)
    san = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,signed-integer-overflow', '-fwrapv', '-fno-sanitize-recover=all']
    base = ['g++', '-std=c++14', '-O0', '-g1', '-w', '-ffp-contract=off', '-DVF_NATIVE', '-ftrivial-auto-var-init=pattern'] + san
    inc = ['-I' + W + '/gen', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/extern/CRCpp/inc', '-I' + V + '/models', '-I' + V + '/harness']
    jobs, objs, hobj = [], [], {}
    for s in repo_sources() + [V + '/models/native.cpp', V + '/models/vfs.cpp']:
        o = N + '/' + os.path.basename(s) + '.o'
        jobs.append((base + DEFS + inc + ['-c', s, '-o', o], s))
        objs.append(o)
    for h in harnesses:
        o = N + '/h_' + h + '.o'
        jobs.append((base + DEFS + inc + ['-c', V + '/harness/' + h + '.cpp', '-o', o], h))
        hobj[h] = o
    compile_many(jobs)
    exe = N + '/replay'
    rc, o, e = run(['g++', '-o', exe] + objs + list(hobj.values()) + san + ['-Wl,--wrap=' + w for w in WRAPS] + ['-lxerces-c', '-lpthread'], timeout=300)
    if rc:
        raise ToolError('native link: ' + e[:3000])
    return exe


NAT_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:malloc_fill_byte=205:max_malloc_fill_size=268435456:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0',
           'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98'}


def replay_one(exe, entry, path, timeout=60):
    """-> (verdict, detail): verdict in violation, ok, assume, desync, error"""
    d = tempfile.mkdtemp(prefix='vfr-')
    env = dict(os.environ)
    env.update(NAT_ENV)
    try:
        rc, o, e = run([exe, entry, path], timeout=timeout, cwd=d, env=env, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CPU, (timeout, timeout + 5)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = o.strip().splitlines()
    if rc == 0:
        return 'ok', out
    if rc == 42:
        v = [x for x in out if x.startswith('REPLAY-VIOLATION')]
        return 'violation', (v[-1][17:] if v else 'assertion')
    if rc == 77:
        return 'assume', ''
    if rc == 78:
        return 'desync', out[-1] if out else ''
    if rc == 2:
        return 'error', e[-300:]
    if rc in (-999, -signal.SIGXCPU, -signal.SIGKILL):
        return 'violation', 'termination: the replay did not finish within %d s' % timeout
    line = [x for x in e.splitlines() if 'ERROR: AddressSanitizer' in x or 'runtime error' in x or 'terminate called' in x or 'Assertion' in x]
    return 'violation', 'memory-safety/abnormal termination: ' + (line[0][:300] if line else 'exit status %d' % rc)


def known_findings():
    r = []
    f = V + '/known-findings.txt'
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known:'):
                kv = dict(x.split('=', 1) for x in l[6:].split('|') if '=' in x)
                r.append({k.strip(): v.strip() for k, v in kv.items()})
    return r


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        return do_replay(sys.argv[2])
    prop = sys.argv[1]
    only = sys.argv[2:] # optional entry names, for development
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in LIMIT_S:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    from registry import REG
    spec = REG[prop]
    t0 = time.time()
    deadline = t0 + LIMIT_S[tier]
    os.makedirs(V + '/evidence', exist_ok=True)
    W = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    try:
        return check(prop, spec, tier, seed, W, t0, deadline, only)
    except ToolError as x:
        print('CHECK-ERROR property=%s %s' % (prop, x))
        return 2
    finally:
        shutil.rmtree(W, ignore_errors=True)


def expand(spec, tier):
    r = []
    for j in spec['jobs']:
        if j.get('tier', 'both') not in ('both', tier):
            continue
        ps = j.get('params_' + tier, j.get('params', [0]))
        for p in ps:
            k = dict(j)
            k['param'] = p
            r.append(k)
    return r


def check(prop, spec, tier, seed, W, t0, deadline, only):
    ensure_engine()
    jobs = expand(spec, tier)
    if only:
        jobs = [j for j in jobs if j['entry'] in only]
    hfiles = sorted(set(j['file'] for j in jobs))
    lib, hs = build_bitcode(W, hfiles)
    tb = time.time() - t0
    for i, j in enumerate(jobs):
        j['out'] = '%s/o%d' % (W, i)
        os.makedirs(j['out'])
        j['rep'] = j['out'] + '/r.json'
    jobs.sort(key=lambda j: -j.get('time', 60))

    def one(j):
        lim = min(j.get('time_' + tier, j.get('time', 60)), max(5, deadline - time.time() - 60))
        cmd = [ENGINE, lib, hs[j['file']], '--entry', j['entry'], '--param', str(j['param']), '--out', j['out'], '--report', j['rep'],
               '--time', str(int(lim)), '--seed', str(seed), '--wit', str(j.get('wit', 2)), '--stop', str(j.get('stop', 12)), '--per', '3',
               '--steps', str(j.get('steps', 60000000)), '--cross', str(j.get('cross', 40)), '--mem', str(j.get('mem', 6000))]
        cmd += j.get('args', [])
        env = dict(os.environ)
        env['SYMEX_TMP'] = j['out']
        rc, o, e = run(cmd, timeout=lim + 90, env=env)
        j['stderr'] = e
        if not os.path.exists(j['rep']):
            j['r'] = None
            return j
        try:
            j['r'] = json.load(open(j['rep']))
        except ValueError:
            j['r'] = None
        return j

    nat = None
    nat_err = None
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        try:
            nat = build_native(W, hfiles)
        except ToolError as x:
            nat_err = str(x)
        for f in as_completed(futs):
            f.result()
    if nat_err:
        raise ToolError(nat_err)
    kf = known_findings()
    viol, known, unconf, incomplete, failed = [], [], [], [], []
    tot = dict(paths=0, paths_ended_early=0, infeasible=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, model_hits=0,
               fp_queries=0, external=0, cross_checked=0, cross_disagree=0, cross_inconclusive=0, solver_s=0.0, terms=0, concretizations=0)
    asserts, covers, funcs, perjob = {}, {}, set(), []
    wits, wit_bad, replayed = 0, [], 0
    rdir = V + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob('%s/%s_*.txt' % (rdir, prop)):
        os.remove(f)
    samples = []
    todo = []
    for j in jobs:
        r = j['r']
        name = '%s(%s)' % (j['entry'], j['param'])
        if r is None or r['fatal']:
            failed.append('%s: %s' % (name, (r or {}).get('fatal') or j.get('stderr', '')[-400:]))
            if r is None:
                continue
        for k in tot:
            tot[k] += r.get(k, 0)
        for k, v in r['asserts'].items():
            a = asserts.setdefault(k, dict(folded=0, discharged=0, failed=0, unknown=0))
            for q in a:
                a[q] += v[q]
        for k, v in r['covers'].items():
            covers[k] = covers.get(k, 0) + v
        funcs |= set(r['functions'])
        for x in r['incomplete']:
            incomplete.append('%s: %s' % (name, x))
        perjob.append(dict(job=name, paths=r['paths'], queries=r['queries'], solver_s=r['solver_s'], wall_s=r['wall_s']))
        for c in r['candidates']:
            todo.append((j, c))
    # witnesses
    wl = []
    for j in jobs:
        for w in sorted(glob.glob(j['out'] + '/wit_*.txt')):
            wl.append((j, w))
    maxw = 24 if tier == 'quick' else 80
    if len(wl) > maxw:
        step = len(wl) / maxw
        wl = [wl[int(i * step)] for i in range(maxw)]
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda x: replay_one(nat, x[0]['entry'], x[1]), wl))
        cres = list(ex.map(lambda x: replay_one(nat, x[0]['entry'], x[1]['file'], x[0].get('replay_s', 60)), todo))
    for (j, w), (v, d) in zip(wl, res):
        exp = [l[5:].strip() for l in open(w) if l.startswith('#obs ')]
        if v == 'ok':
            got = [l[4:].strip() for l in d if l.startswith('OBS ')]
            if got == exp:
                wits += 1
                if len(samples) < 4:
                    samples.append(dict(job='%s(%s)' % (j['entry'], j['param']), inputs=[l.strip()[:200] for l in open(w) if not l.startswith('#')][:12], observed=exp[:12]))
            else:
                diff = [(a, b) for a, b in zip(exp, got) if a != b][:3]
                wit_bad.append('%s: engine and native observations differ: %s' % (j['entry'], diff or (len(exp), len(got))))
        elif v == 'violation':
            # a path the engine believes fine fails natively: a genuine failing execution of the real code
            wit_bad.append('%s: native run of a passing path fails: %s' % (j['entry'], d))
            todo.append((j, dict(id=str(d).split(':')[0], kind='native', msg=str(d), at='native run', file=w)))
            cres.append((v, d))
        else:
            wit_bad.append('%s: %s %s' % (j['entry'], v, d))
    seen = {}
    for (j, c), (v, d) in zip(todo, cres):
        replayed += 1
        desc = '%s(%s) %s: %s' % (j['entry'], j['param'], c['id'], c['msg'])
        if v == 'violation':
            key = (j['entry'], c['id'])
            kfm = [k for k in kf if k.get('property') == prop and k.get('entry') == j['entry'] and k.get('assert') in (c['id'],) and (k.get('param') in (None, str(j['param'])))]
            if kfm:
                known.append((kfm[0], desc))
                continue
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 2:
                continue
            dst = '%s/%s_%s_%d.txt' % (rdir, prop, j['entry'], len(viol))
            txt = open(c['file']).read()
            open(dst, 'w').write('#property %s\n#file %s\n#entry %s\n#native %s\n' % (prop, j['file'], j['entry'], d) + txt)
            viol.append((dst, desc, d))
        else:
            unconf.append('%s (replay: %s %s)' % (desc, v, str(d)[:200]))
    complete = not incomplete and not failed and not asserts_unknown(asserts)
    missing = [c for c in spec.get('covers', []) if not covers.get(c)]
    if only:
        missing = []
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(viol),
              coverage=dict(states=tot['paths'] + tot['paths_ended_early'], transitions=tot['instructions'], traces_validated_against_impl=wits,
                            samples=samples or [dict(note='no completed path')],
                            exhaustive=bool(complete),
                            meaning='states = completed symbolic paths, each standing for every input that satisfies its path condition; transitions = IR instructions executed symbolically; '
                                    'traces_validated = solver models of completed paths run on the native sanitizer build of the same sources with identical observations',
                            bounds=spec['bounds'], outside=spec.get('outside', ''),
                            functions_encoded=sorted(funcs), function_count=len(funcs),
                            assertions=asserts, witnesses_reached=covers, forks=tot['forks'], infeasible_branches=tot['infeasible'], concretizations=tot['concretizations'],
                            queries=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], query_cache_hits=tot['cache_hits'], model_hits=tot['model_hits'],
                            floating_point_queries=tot['fp_queries'], second_solver_checked=tot['cross_checked'], second_solver_disagreed=tot['cross_disagree'],
                            second_solver_inconclusive=tot['cross_inconclusive'], external_solver_runs=tot['external'], solver_s=round(tot['solver_s'], 2),
                            incomplete=sorted(set(incomplete))[:40], failed_jobs=failed[:10], counterexamples_replayed=replayed, unconfirmed=unconf[:20], witness_mismatches=wit_bad[:10],
                            jobs=perjob, build_s=round(tb, 2)),
              assumptions=COMMON_ASSUMPTIONS + spec.get('assumptions', []))
    if not only:
        open(V + '/evidence/%s.json' % prop, 'w').write(json.dumps(ev, indent=1))
    print('%s %s: %d jobs, %d paths, %d queries (%.1f s solver), asserts %s, validated %d, wall %.1f s' % (
        prop, tier, len(jobs), tot['paths'] + tot['paths_ended_early'], tot['queries'], tot['solver_s'],
        {k: v['folded'] + v['discharged'] for k, v in asserts.items()}, wits, wall))
    for k, d in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', d)))
    for x in sorted(set(incomplete))[:12]:
        print('INCOMPLETE', x)
    for x in unconf[:8]:
        print('UNCONFIRMED', x)
    for x in wit_bad[:8]:
        print('WITNESS-MISMATCH', x)
    for x in failed[:8]:
        print('JOB-FAILED', x)
    if viol:
        for dst, desc, d in viol:
            print('  %s -> native: %s' % (desc, d))
            print('VIOLATION property=%s replay=%s' % (prop, dst))
        return 1
    if tot['cross_disagree']:
        print('CHECK-ERROR solvers disagree')
        return 2
    if failed and not perjob:
        print('CHECK-ERROR no job finished')
        return 2
    if missing:
        print('CHECK-ERROR not reached: %s' % missing)
        return 2
    return 0


def asserts_unknown(a):
    return any(v['unknown'] for v in a.values())


COMMON_ASSUMPTIONS = [
    'clang -O1 IR without passes plus sroa/early-cse/instcombine/inline represents the C++ source; x86-64 little endian, IEEE-754 round to nearest',
    'operator new succeeds up to 256 MiB per request and throws bad_alloc beyond',
    'file system replaced by an in-memory model (models/vfs.cpp); std::iostream and Xerces-C replaced by models in the symbolic build, by the real ones in the native replay build',
    'the page checksum is an uninterpreted function (exact on concrete bytes); the real CRC code is encoded only in the property about checksums',
    'signed overflow wraps (native replay is built with -fwrapv): the library relies on it when it computes the width of a 64-bit range',
    'single thread',
]


def do_replay(path):
    hdr = {}
    for l in open(path):
        if l.startswith('#'):
            k, _, v = l[1:].strip().partition(' ')
            hdr.setdefault(k, v)
    W = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        exe = build_native(W, [hdr['file']])
        v, d = replay_one(exe, hdr['entry'], os.path.abspath(path))
        print(v, d)
        return 1 if v == 'violation' else 0
    finally:
        shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
