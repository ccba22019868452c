#!/usr/bin/env python3
"""check.py <PROPERTY> : build the property's generated-input harness from /repo's working tree, run it,
write evidence/<PROPERTY>.json, print VIOLATION / KNOWN-FINDING lines.  Exit 0 or 1 (2: the harness could not run)."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'clang++-18'
FLAGS = ['-std=gnu++20', '-O1', '-g0', '-w', '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS', '-DNLOPT_DLL', '-DRAPIDJSON_HAS_CXX11_RVALUE_REFS',
         '-I' + REPO, '-I' + REPO + '/inc', '-isystem', '/usr/include/eigen3', '-I' + HERE + '/harness']
LIBS = ['-lnlopt', '-ltbb', '-lm', '-lpthread']
OCCT = ['-lTKernel', '-lTKMath', '-lTKG2d', '-lTKG3d', '-lTKGeomBase', '-lTKBRep', '-lTKTopAlgo', '-lTKGeomAlgo', '-lTKXSBase', '-lTKIGES']
VTK = ['-lvtk%s-9.1' % x for x in ('CommonCore', 'CommonDataModel', 'CommonExecutionModel', 'CommonMath', 'CommonTransforms', 'CommonSystem', 'CommonMisc', 'CommonColor', 'FiltersCore', 'FiltersGeneral', 'FiltersSources',
                                   'RenderingCore', 'RenderingOpenGL2', 'RenderingFreeType', 'InteractionStyle', 'RenderingAnnotation', 'InteractionWidgets')]

# property -> harness sources (+ options)
CONF = json.load(open(os.path.join(HERE, 'harness', 'checks.json')))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    conf = CONF[pid]
    t0 = time.time()
    bdir = os.environ.get('VERIF_BUILD_DIR') or os.path.join(HERE, '_build')
    b = os.path.join(bdir, pid)
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    flags = FLAGS + conf.get('flags', [])
    if conf.get('occt'):
        flags += ['-isystem', '/usr/include/opencascade']
    if conf.get('vtk'):
        flags += ['-isystem', '/usr/include/vtk-9.1']
    if conf.get('python'):
        flags = ['-I' + os.path.join(HERE, 'harness', 'py_shim')] + flags + ['-I' + os.path.join(REPO, 'python'), '-isystem', '/usr/include/python3.12', '-Wno-pragmas']
    srcs = [os.path.join(HERE, 'harness', s) for s in conf['src']] + [os.path.join(HERE, 'harness', 'pbt_main.cpp')]
    srcs += [os.path.join(REPO, s) for s in conf.get('repo_src', [])]

    def comp(s):
        o = os.path.join(b, os.path.basename(s) + '.o')
        return sh([CXX] + flags + ['-c', s, '-o', o]), o
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(comp, srcs))
    for r, _ in rs:
        if r.returncode:
            print('\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:3000])
            print('harness of %s does not compile against %s' % (pid, REPO))
            return 2
    exe = os.path.join(b, 'check')
    san = [f for f in conf.get('flags', []) if f.startswith('-fsanitize')]
    r = sh([CXX] + san + [o for _, o in rs] + ['-o', exe] + (OCCT if conf.get('occt') else []) + (VTK if conf.get('vtk') else []) + (['-lvtkWrappingPythonCore3.12-9.1', '-lpython3.12'] if conf.get('python') else []) + LIBS)
    if r.returncode:
        print(r.stdout[-4000:])
        return 2
    tb = time.time() - t0
    n = int(conf.get('shards', 8))
    scale = float(os.environ.get('VERIF_SCALE', '1')) * conf.get('scale', 1)
    cap = 480 if tier == 'quick' else 3 * 3600
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1',
               UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0',
               MALLOC_PERTURB_='64')  # memory that nothing wrote reads as -0.123, freed memory as 32.5
    tmp = os.path.join(b, 'run')
    os.makedirs(tmp)

    def run(i):
        rep = os.path.join(replays, '%s-seed%d-shard%d.replay' % (pid, seed, i))
        if os.path.exists(rep):
            os.unlink(rep)
        out = os.path.join(b, 'out%d.json' % i)
        cmd = [exe, '--seed', str(seed), '--tier', tier, '--shard', '%d/%d' % (i, n), '--scale', str(scale), '--max-seconds', str(cap),
               '--out', out, '--replay-out', rep]
        for a in args:
            if a.startswith('--arm='):
                cmd += ['--arm', a[6:]]
        r = sh(cmd, cwd=tmp, env=env)
        try:
            return json.load(open(out)), rep, r
        except Exception as e:
            return None, rep, r
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(run, range(n)))
    cov = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[], discarded=0, arms={}, labels={})
    notes, viol, broken = [], [], False
    for d, rep, r in res:
        if d is None:
            broken = True
            print('shard gave no result: rc=%s %s' % (r.returncode, r.stdout[-1500:]))
            continue
        if d['verdict'] == 'fail':
            viol.append((rep, d['why']))
        elif d['verdict'] == 'inconclusive':
            notes.append('inconclusive shard: ' + d['why'])
        st = d.get('stats')
        if st:
            for k in ('evaluations', 'distinct_nontrivial', 'discarded'):
                cov[k] += st[k]
            cov['rule'] = st['rule']
            if st['truncated']:
                notes.append('a shard stopped at its time cap of %d s' % cap)
            for a, v in st['arms'].items():
                t = cov['arms'].setdefault(a, dict(cases=0, nontrivial=0, discarded=0))
                for k in v:
                    t[k] += v[k]
            for l, v in st['labels'].items():
                cov['labels'][l] = cov['labels'].get(l, 0) + v
            for x in st['samples']:
                if not any(y.split(':')[0] == x.split(':')[0] for y in cov['samples']):
                    cov['samples'].append(x)
    # recorded findings
    kf = [f for f in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if f['property'] == pid and f['status'] == 'known']
    found = {}
    if kf:
        r = sh([exe, '--probes'], cwd=tmp, env=env)
        for line in r.stdout.splitlines():
            if line.startswith('PROBE '):
                p = line.split(' ', 3)
                found[p[1]] = p[2] == 'present'
        for f in kf:
            if found.get(f['probe']):
                print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    cov['known_findings_reproduced'] = [f['probe'] for f in kf if found.get(f['probe'])]
    if broken and not viol:
        return 2
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(viol), assumptions=conf.get('assumptions', []) + notes)
    ev['coverage']['build_s'] = round(tb, 1)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for x in notes:
        print('note: ' + x)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.0f s (build %.0f s)' % (
        pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0, tb))
    if viol:
        viol.sort(key=lambda v: os.path.getsize(v[0]) if os.path.exists(v[0]) else 1 << 30)
        for rep, why in viol[:3]:
            print('  ' + why[:800])
        print('VIOLATION property=%s replay=%s' % (pid, viol[0][0]))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
