#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep]

Compiles the property's harness together with the current /repo sources to LLVM IR, executes it
symbolically (build/vsx, Z3), replays every counterexample against a native build of the same
sources before reporting it, and validates a sample of the explored paths the same way.
Exit 0 held on everything explored; 1 violation; 2 no answer.
"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import meta, props  # noqa: E401, E402

CLANG = '/usr/lib/llvm-18/bin/clang++'
CLANGC = '/usr/lib/llvm-18/bin/clang'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else '/usr/lib/llvm-18/bin/llvm-link'
OMPINC = [p for p in glob.glob('/usr/lib/gcc/x86_64-linux-gnu/*/include') if os.path.exists(p + '/omp.h')]
SYMFLAGS = ['-std=c++20', '-O2', '-DNDEBUG', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
            '-ffp-contract=off', '-mlong-double-64', '-gline-tables-only', '-fopenmp', '-w',
            '-I' + OMPINC[0], f'-I{VERIF}/harness', f'-I{VERIF}/shim', '-I' + REPO,
            '-include', f'{VERIF}/shim/prelude.h', '-emit-llvm', '-c']
NATFLAGS = ['-std=c++20', '-O1', '-g1', '-DNDEBUG', '-fopenmp', '-w', '-ffp-contract=off', '-rdynamic',
            '-fsanitize=address', f'-I{VERIF}/harness', f'-I{VERIF}/shim', '-I' + REPO]


class NoAnswer(Exception):
    pass


def sh(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise NoAnswer(f'{what} failed:\n' + p.stdout[-1500:])


def newer(out, deps):
    if not os.path.exists(out):
        return False
    t = os.path.getmtime(out)
    return all(os.path.getmtime(d) <= t for d in deps)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    eng = glob.glob(f'{VERIF}/engine/*')
    jobs = []
    with concurrent.futures.ThreadPoolExecutor() as ex:
        if not newer(f'{BUILD}/vsx', eng):
            jobs.append(ex.submit(sh, ['make', '-s', '-C', f'{VERIF}/engine', f'OUT={BUILD}', '-B'], 'engine build'))
        shim = glob.glob(f'{VERIF}/shim/*') + glob.glob(f'{VERIF}/harness/*.h')

        def one(src, out, cmd):
            if not newer(out, shim):
                tmp = f'{out}.{os.getpid()}'
                sh(cmd + [src, '-o', tmp], src)
                os.replace(tmp, out)
        jobs.append(ex.submit(one, f'{VERIF}/shim/libc.c', f'{BUILD}/libc.bc', [CLANGC, '-O2', '-fno-builtin', '-w', '-emit-llvm', '-c']))
        jobs.append(ex.submit(one, f'{VERIF}/shim/shim.cpp', f'{BUILD}/shim.bc', [CLANG] + SYMFLAGS + ['-fno-builtin']))
        jobs.append(ex.submit(one, f'{VERIF}/shim/zstub.cpp', f'{BUILD}/zstub.bc', [CLANG] + SYMFLAGS))
        natc = ['g++'] + [f for f in NATFLAGS if f != '-rdynamic'] + ['-c']
        jobs.append(ex.submit(one, f'{VERIF}/shim/native.cpp', f'{BUILD}/native.o', natc))
        jobs.append(ex.submit(one, f'{VERIF}/shim/zstub.cpp', f'{BUILD}/zstub.o', natc))
        for j in jobs:
            j.result()


def compile_case(src, defs, zlib, work):
    tag = re.sub(r'\W', '_', src + '_' + '_'.join(defs))
    bc, nat = f'{work}/{tag}.bc', f'{work}/{tag}.native'
    dd = ['-D' + d for d in defs]

    def sym():
        sh([CLANG] + SYMFLAGS + dd + [f'{VERIF}/harness/{src}', '-o', bc + '.o'], f'compiling {src} against {REPO} (IR)')
        sh([LINK, bc + '.o', f'{BUILD}/shim.bc', f'{BUILD}/libc.bc'] + ([f'{BUILD}/zstub.bc'] if zlib != 'own' else []) + ['-o', bc], 'link')

    def native():
        extra = ['-lz'] if zlib == 'real' else [f'{BUILD}/zstub.o'] if zlib == 'stub' else []
        sh(['g++'] + NATFLAGS + dd + [f'{VERIF}/harness/{src}', f'{BUILD}/native.o', '-o', nat] + extra + ['-ldl'], f'compiling {src} against {REPO} (native)')

    def strict():
        so = nat + '.strict'
        if not os.path.exists(so):
            extra = ['-lz'] if zlib == 'real' else [f'{BUILD}/zstub.o'] if zlib == 'stub' else []
            fl = [f for f in NATFLAGS if not f.startswith('-O')] + ['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
            sh(['g++'] + fl + dd + [f'{VERIF}/harness/{src}', f'{BUILD}/native.o', '-o', so] + extra + ['-ldl'], f'compiling {src} (instrumented)')
        return so
    return bc, nat, sym, native, strict


def run_native(nat, entry, values, case, tiern, timeout=60, asan=''):
    d = tempfile.mkdtemp(prefix='vsr')
    try:
        with open(f'{d}/.in', 'w') as f:
            for n, w, v in values:
                f.write(f'{n} {w} {v}\n')
        env = dict(os.environ, VS_CASE=str(case), VS_TIERN=str(tiern), OMP_NUM_THREADS='2',
                   ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=43' + asan, TMPDIR=d)
        try:
            p = subprocess.run([nat, entry, f'{d}/.in'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 124, 'timeout', []
        out = p.stdout.decode('latin1')
        obs = [l.split()[1:] for l in out.splitlines() if l.startswith('VS_OBS')]
        return p.returncode, out + p.stderr.decode('latin1')[-3000:], obs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings():
    r = []
    p = f'{VERIF}/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) entry=(\S+) msg="([^"]*)" (.*)', l)
            if m:
                r.append(m.groups())
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    tiern = 1 if tier == 'thorough' else 0
    seed = int(os.environ.get('VERIF_SEED') or 1)
    only = sys.argv[sys.argv.index('--entry') + 1] if '--entry' in sys.argv else None
    verbose = '-v' in sys.argv
    P = props.PROPS[pid]
    t0 = time.time()
    budget = 1500 if tiern else 780
    work = tempfile.mkdtemp(prefix=f'vs_{pid}_')
    os.makedirs(f'{BUILD}/replay', exist_ok=True)
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    problems, viols, known, cov = [], [], [], []
    tot = dict(paths=0, steps=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, checks=0, checks_const=0, checks_solver=0, solver_s=0.0, exact=0, done=0)
    functions, samples = set(), []
    validated = diverged = 0
    try:
        build_engine()
        comp, cases = {}, []
        for c in P['cases']:
            if only and c['entry'] != only:
                continue
            if tier == 'quick' and c.get('thorough_only'):
                continue
            src, defs, zl = c.get('src', P.get('src')), tuple(c.get('defs', P.get('defs', ()))), c.get('zlib', P.get('zlib', 'real'))
            k = (src, defs, zl)
            if k not in comp:
                comp[k] = compile_case(src, list(defs), zl, work)
            cases.append((c, comp[k]))
        ex = concurrent.futures.ThreadPoolExecutor(max_workers=8)
        natf = {id(v): ex.submit(v[3]) for v in comp.values()}
        symf = {id(v): ex.submit(v[2]) for v in comp.values()}
        for v in comp.values():
            symf[id(v)].result()
        for v in comp.values():
            natf[id(v)].result()
        for c, cp in cases:
            bc, nat = cp[0], cp[1]
            entry = c['entry']
            for cs in c.get('cs', [0]):
                if verbose:
                    print(f'[{time.time()-t0:6.1f}] {entry}/{cs}', flush=True)
                out = f'{work}/{entry}_{cs}.json'
                left = budget - (time.time() - t0)
                if left < 5:
                    raise NoAnswer(f'{entry}/{cs}: out of time')
                tl = min(left, c.get('time', [600, 1400])[tiern])
                cmd = [f'{BUILD}/vsx', '--bc', bc, '--entry', entry, '--out', out, '--case', str(cs), '--tier', str(tiern), '--jobs', str(c.get('jobs', 8)),
                       '--time', str(int(tl)), '--seed', str(seed), '--max-wit', str(c.get('wit', 6))] + [str(a) for a in c.get('opts', [])]
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if verbose and p.stdout.strip():
                    print(p.stdout[-2000:])
                files = [out] + sorted(glob.glob(out + '.[0-9]*'))
                if p.returncode or not os.path.exists(out):
                    raise NoAnswer(f'{entry}/{cs}: engine exit {p.returncode}: {p.stdout[-1500:]}')
                R = [json.load(open(f)) for f in files]
                st = {k: sum(r['stats'][k] for r in R) for k in tot}
                for k in tot:
                    tot[k] += st[k]
                reached = set().union(*[set(r['reached']) for r in R])
                incon = set().union(*[set(r['inconclusive']) for r in R])
                for r in R:
                    functions |= set(r['functions'])
                vs = [v for r in R for v in r['violations']]
                if verbose:
                    print('   ', {k: v for k, v in st.items() if v}, 'reached', sorted(reached), 'viol', len(vs), 'inconclusive', sorted(incon)[:6], flush=True)
                for tag in c.get('reach', P.get('reach', ['end'])):
                    if tag not in reached and not vs:
                        problems.append(f'{entry}/{cs}: vacuous: "{tag}" not reached')
                seen, tried = set(), {}
                for v in vs:
                    v['loc'] = re.sub(r'std::\S+|\[abi:cxx11\]|/usr/\S+/include/', '', v['loc'])[:300]
                    key = (v['kind'], re.sub(r'-?\d+', '#', v['msg']))
                    tried[key] = tried.get(key, 0) + 1
                    if key in seen or tried[key] > 4:
                        continue
                    # a loop that does not end may also use up the memory
                    endless = v['kind'] == 'nontermination'
                    rc, log, _ = run_native(nat, entry, v['values'], cs, tiern, 40 if endless else 60, ':hard_rss_limit_mb=12000' if endless else '')
                    if rc == 0 and v['kind'] not in ('check', 'race', 'nontermination'):
                        # undefined behaviour that the ordinary build happens to survive: a build with more instrumentation
                        rc, log, _ = run_native(cp[4](), entry, v['values'], cs, tiern)
                    if verbose:
                        print('    violation', v['kind'], v['msg'], v['loc'], 'native rc', rc, log[-300:].strip(), str(v['values'][:40])[:700])
                    confirmed = rc not in (0, 77, 3)
                    if v['kind'] == 'race' or (v['real'] and c.get('trust')):
                        confirmed = True
                    if not confirmed:
                        problems.append(f'{entry}/{cs}: counterexample for "{v["msg"]}" ({v["kind"]}, {v["loc"]}) did not replay natively (exit {rc})')
                        continue
                    seen.add(key)
                    m = re.findall(r'^VS_FAIL (.*)', log, re.M)
                    msg = m[-1] if m else v['msg']
                    kf = [k for k in known_findings() if k[0] == pid and k[1] == entry and k[2] in (msg, v['msg'])]
                    if kf:
                        known.append((msg, kf[0][3]))
                        continue
                    rp = f'{BUILD}/replay/{pid}_{len(viols)}.json'
                    json.dump(dict(property=pid, entry=entry, case=cs, tier=tier, kind=v['kind'], message=v['msg'], location=v['loc'], values=v['values'],
                                   native_exit=rc, native_output=log[-4000:],
                                   how='python3 check.py replay <this file>'), open(rp, 'w'), indent=1)
                    viols.append((entry, v, rp))
                if incon and not viols and not c.get('allow_inconclusive'):
                    if not (known and st['unknown'] == 0 and not incon):
                        problems.append(f'{entry}/{cs}: inconclusive: {sorted(incon)[:5]}')
                wits = [w for r in R for w in r['witnesses'] if not w['undef']]
                nw = c.get('validate', 12 if not tiern else 40)
                wits = wits[:: max(1, len(wits) // nw)][:nw] if wits else []
                if not c.get('no_native') and not vs:
                    for w, (rc, log, obs) in zip(wits, ex.map(lambda w: run_native(nat, entry, w['values'], cs, tiern), wits)):
                        if rc == 77:
                            diverged += 1
                            problems.append(f'{entry}/{cs}: path witness diverges natively: {log[-300:]} {w["values"][:40]}')
                        elif rc != 0:
                            problems.append(f'{entry}/{cs}: path witness fails natively (exit {rc}): {log[-600:]} {w["values"][:40]}')
                        elif [[a, int(b, 16)] for a, b in obs] != [[a, int(b, 16)] for a, b in w['obs']]:
                            problems.append(f'{entry}/{cs}: native observations differ: {obs[:12]} vs {w["obs"][:12]} for {w["values"][:40]}')
                        else:
                            validated += 1
                if wits and len(samples) < 8:
                    samples.append(dict(entry=entry, case=cs, inputs=[f'{n}={v}' for n, _, v in wits[-1]['values']][:24], checks=wits[-1]['checks'], path_conditions=wits[-1]['pc']))
                cov.append(dict(entry=entry, case=cs, paths=st['paths'], completed=st['done'], instructions=st['steps'], queries=st['queries'], unsat=st['unsat'], sat=st['sat'], checks=st['checks'], checks_by_normal_form=st['checks_const'], checks_by_solver=st['checks_solver'], solver_s=round(st['solver_s'], 3), reached=sorted(reached)))
                if viols:
                    break
            if viols:
                break
    except NoAnswer as e:
        problems.append(str(e))
    finally:
        os.environ.get('VS_KEEP') or shutil.rmtree(work, ignore_errors=True)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viols),
              assumptions=props.COMMON_ASSUMPTIONS + P.get('assumptions', []),
              coverage=dict(states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=validated, samples=samples or ['none'],
                            exhaustive_within_bounds=not problems and not viols, bounds=meta.META[pid]['bounds'],
                            meaning='states: symbolic execution states (each a set of inputs following one path); transitions: IR instructions executed on them; traces_validated: path witnesses re-run against the native build with equal observations',
                            obligations=tot['checks'], obligations_decided_by_normal_form=tot['checks_const'], obligations_decided_by_solver=tot['checks_solver'],
                            queries=tot['queries'], queries_unsat=tot['unsat'], queries_sat=tot['sat'], queries_unknown=tot['unknown'], solver_s=round(tot['solver_s'], 3),
                            functions_encoded=sorted(functions), entries=cov, problems=problems, known_findings=[k[0] for k in known]))
    json.dump(ev, open(f'{VERIF}/evidence/{pid}.json', 'w'), indent=1)
    for m, d in sorted(set(known)):
        print(f'KNOWN-FINDING: property={pid} {d}')
    for e, v, rp in viols[:3]:
        print(f'{pid}: {e}: {v["kind"]}: {v["msg"]} at {v["loc"]}')
        print('  inputs: ' + ' '.join(f'{n}={x}' for n, _, x in v['values'][:60]))
        print(f'VIOLATION property={pid} replay={rp}')
    if viols:
        return 1
    if problems:
        for p in problems[:6]:
            print(f'NO-ANSWER {pid}: {p}'[:900])
        return 2
    print(f'{pid} held: {tot["paths"]} paths, {tot["checks"]} obligations ({tot["checks_solver"]} by solver), {tot["queries"]} queries, {validated} witnesses validated, {time.time()-t0:.1f} s')
    return 0


def replay(path):
    r = json.load(open(path))
    P = props.PROPS[r['property']]
    c = [c for c in P['cases'] if c['entry'] == r['entry']][0]
    build_engine()
    work = tempfile.mkdtemp(prefix='vs_replay_')
    try:
        cp = compile_case(c.get('src', P.get('src')), list(c.get('defs', P.get('defs', ()))), c.get('zlib', P.get('zlib', 'real')), work)
        cp[3]()
        rc, log, _ = run_native(cp[1], r['entry'], r['values'], r['case'], 1 if r['tier'] == 'thorough' else 0)
        print(log)
        print('exit', rc)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        build_engine()
        sys.exit(0)
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main())
