#!/usr/bin/env python3
"""Builds /repo's current sources into the monitored variants and runs one property's check.

  run.py setup                 prebuild everything (setup_cmd)
  run.py check C05             quick or thorough by VERIF_TIER, seed by VERIF_SEED
  run.py replay FILE           run the recorded case again, verbosely
--tier quick|thorough overrides VERIF_TIER. Development: VERIF_REPO=<dir> uses another copy of the sources; --cases N, --shards N.
"""
import sys, os, json, hashlib, subprocess, glob, time, shutil, re, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
NCPU = os.cpu_count() or 8
SHARDS = 8

sys.path.insert(0, os.path.join(VERIF, 'tools'))
from props import PROPS, CHECKS          # noqa: E402

REPODEF = ['-DHAS_RES_NINIT']
WARN = ['-w']
COMMON = ['-g1', '-fno-omit-frame-pointer', '-pipe']
LIBS = ['-lssl', '-lcrypto', '-lsodium', '-lresolv', '-ldl', '-lpthread']
VARIANTS = {
    'asan': dict(cxx='g++', flags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                                   '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1'],
                 link=['-fsanitize=address,undefined']),
    'tsan': dict(cxx='g++', flags=['-O1', '-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DNO_CRYPTO_INTERPOSE'],
                 link=['-fsanitize=thread']),
    'cov': dict(cxx='g++', flags=['-O1', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DNO_CRYPTO_INTERPOSE'],
                repoflags=['-fsanitize-coverage=trace-pc'], link=[]),
    'plain': dict(cxx='g++', flags=['-O1', '-DNO_CRYPTO_INTERPOSE'], link=[]),
    # the library as others build it; the harness is compiled the same way in all of them
    'unsigned': dict(cxx='g++', flags=['-O1', '-DNO_CRYPTO_INTERPOSE'], repocxx='clang++', repoflags=['-O2', '-funsigned-char'], link=[]),
    'fast': dict(cxx='g++', flags=['-O1', '-DNO_CRYPTO_INTERPOSE'], repoflags=['-O3', '-funsigned-char', '-fno-plt', '-D_FORTIFY_SOURCE=2'], link=[]),
    'unopt': dict(cxx='g++', flags=['-O1', '-DNO_CRYPTO_INTERPOSE'], repocxx='clang++', repoflags=['-O0', '-fsigned-char'], repodef=[], link=[]),
    'fuzz': dict(cxx='clang++', flags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function'],
                 repoflags=['-fsanitize=fuzzer-no-link'], link=['-fsanitize=fuzzer,address,undefined']),
}
ENV = dict(os.environ, LC_ALL='C.UTF-8',
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0:strict_string_checks=1:check_initialization_order=1:malloc_context_size=12:handle_abort=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98',
           MALLOC_PERTURB_='')


class HarnessError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


_hdr = {}


def headers_hash(which):
    """Hash of the headers a source may include: 'repo' or 'harness'."""
    if which not in _hdr:
        if which == 'repo':
            fs = sorted(glob.glob(REPO + '/src/**/*.hpp', recursive=True) + glob.glob(REPO + '/src/**/*.h', recursive=True))
            _hdr[which] = sha(*[x for f in fs for x in (os.path.relpath(f, REPO), read(f))])
        else:
            fs = sorted(glob.glob(H + '/*.hpp'))
            _hdr[which] = sha(*[x for f in fs for x in (os.path.basename(f), read(f))])
    return _hdr[which]


NOREPO = {'tool_env.cpp', 'ref.cpp', 'gen.cpp', 'main.cpp', 'interpose.cpp', 'covmon.cpp', 'dnspkt.cpp'}


def compile_job(src, variant, kind):
    v = VARIANTS[variant]
    flags = WARN + COMMON + v['flags']
    cxx = v['cxx']
    if kind == 'repo':
        flags = ['-std=c++11'] + flags + v.get('repoflags', []) + v.get('repodef', REPODEF) + ['-I' + REPO]
        dep = headers_hash('repo')
        cxx = v.get('repocxx', cxx)
    else:
        flags = ['-std=c++17'] + flags + REPODEF + ['-I' + H]
        dep = headers_hash('harness')
        if os.path.basename(src) not in NOREPO:
            flags += ['-I' + REPO]
            dep += headers_hash('repo')
    # the path of the sources is part of the object (debug info, assertions)
    key = sha(read(src), dep, ' '.join(flags), cxx, src)
    obj = os.path.join(BUILD, 'obj', f'{variant}-{os.path.basename(src)}-{key}.o')
    return (src, obj, [cxx] + flags + ['-c', src, '-o'])


def run_compile(job):
    src, obj, cmd = job
    if os.path.exists(obj):
        os.utime(obj)
        return None
    tmp = f'{obj}.{os.getpid()}.{threadid()}.tmp'
    p = subprocess.run(cmd + [tmp], capture_output=True, text=True)
    if p.returncode:
        return f'{src}: ' + p.stderr[-4000:]
    os.rename(tmp, obj)
    return None


def threadid():
    import threading
    return threading.get_ident()


def build(targets):
    """targets: list of (exe name, variant, harness sources, with repo main). Returns {name: path}."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    jobs, plan = {}, []
    targets = list({t[0]: t for t in targets}.values())
    for name, variant, srcs, tool in targets:
        js = []
        for s in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True)):
            js.append(compile_job(s, variant, 'repo'))
        if tool:
            js.append(compile_job(REPO + '/tools/src/main.cpp', variant, 'repo'))
            # the tool includes the library's headers by plain name
            src, obj, cmd = js[-1]
            js[-1] = (src, obj, cmd[:1] + ['-I' + REPO + '/src'] + cmd[1:])
        for s in srcs:
            js.append(compile_job(os.path.join(H, s), variant, 'harness'))
        for j in js:
            jobs[j[1]] = j
        plan.append((name, variant, js))
    # the biggest sources first
    order = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(run_compile, order) if e]
    if errs:
        raise HarnessError('compilation failed:\n' + '\n'.join(errs))

    def link(pl):
        name, variant, js = pl
        v = VARIANTS[variant]
        exe = os.path.join(BUILD, 'bin', f'{name}-' + sha(*[j[1] for j in js]))
        if os.path.exists(exe):
            os.utime(exe)
            return (name, exe, None)
        tmp = f'{exe}.{os.getpid()}.{threadid()}.tmp'
        p = subprocess.run([v['cxx']] + v['link'] + ['-rdynamic', '-o', tmp] + [j[1] for j in js] + LIBS, capture_output=True, text=True)
        if p.returncode:
            return (name, None, p.stderr[-4000:])
        os.rename(tmp, exe)
        return (name, exe, None)
    out = {}
    with ThreadPoolExecutor(NCPU) as ex:
        for name, exe, err in ex.map(link, plan):
            if err:
                raise HarnessError('link failed: ' + err)
            out[name] = exe
    return out


def trim_cache(limit=3 << 30):
    fs = []
    for d in ('obj', 'bin'):
        for f in glob.glob(os.path.join(BUILD, d, '*')):
            try:
                st = os.stat(f)
                fs.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    total = sum(s for _, s, _ in fs)
    for _, s, f in sorted(fs):
        if total <= limit:
            break
        try:
            os.unlink(f)
            total -= s
        except OSError:
            pass


# ---------------------------------------------------------------- running

def crash_key(rc, err):
    m = re.search(r'SUMMARY: (\w+): (\S+) (?:\S*/)?([\w.+-]+):?(\d+)?\S* in (\S+)', err)
    if m:
        return f'{m.group(1)}:{m.group(2)}:{m.group(3)}:{m.group(5)}'
    m = re.search(r'(?:\S*/)?([\w.]+\.[ch]pp):\d+:\d+: runtime error: ([^\n]*)', err)
    if m:
        return f'UBSan:{m.group(1)}:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(2))[:80]
    m = re.search(r'ERROR: (\w+): (\S+)', err)
    if m:
        return f'{m.group(1)}:{m.group(2)}'
    if rc == 97 or 'CPU-TIME LIMIT' in err:
        return 'no-termination'
    if rc < 0:
        return f'signal-{-rc}'
    return f'exit-{rc}'


def run_shards(exe, check, tier, seed, workdir, cases, shards, prefix=(), env=None, timeout=None):
    """Runs the shards; returns (merged summary, violations, harness problems)."""
    env = dict(ENV, **(env or {}))
    env['MON_BUDGET'] = str(check.get('budget', {}).get(tier, 60 if tier == 'quick' else 600))
    if cases:
        env['MON_CASES'] = str(cases)

    def one(i):
        viols, sums, restarts = [], [], 0
        start = i
        while True:
            out = os.path.join(workdir, f'{os.path.basename(exe)}.{i}.{restarts}')
            cmd = list(prefix) + [exe, str(i), str(shards), str(seed), tier, out, str(start)]
            errf = open(out + '.err', 'w+b')
            try:
                p = subprocess.run(cmd, env=env, stdout=errf, stderr=errf, stdin=subprocess.DEVNULL, cwd=workdir,
                                   timeout=timeout or 840)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            errf.seek(0)
            err = errf.read().decode('utf-8', 'replace')
            errf.close()
            if os.path.exists(out + '.viol'):
                for l in open(out + '.viol'):
                    try:
                        viols.append(json.loads(l))
                    except ValueError:
                        pass
            cur = None
            try:
                b = read(out + '.cur')
                cur = int.from_bytes(b[0:8], 'little'), int.from_bytes(b[8:16], 'little')
            except OSError:
                pass
            if os.path.exists(out):
                sums.append(json.load(open(out)))
                if rc in (0, 1):
                    return viols, sums, None
            if rc == 'timeout':
                return viols, sums, f'shard {i} ran out of wall time (case {cur})\n' + err[-1500:]
            if rc == 3 or cur is None or cur[1] == 0:
                return viols, sums, f'shard {i} could not run (exit {rc}):\n' + err[-3000:]
            # a crash of the code under test in case cur
            if rc == 96:        # recorded by a monitor before it stopped the process
                pass
            elif rc == 97 or 'CPU-TIME LIMIT' in err:
                # confirm alone: a loaded machine must not look like a hang
                out2 = out + '.again'
                try:
                    p = subprocess.run(list(prefix) + [exe, 'only', str(cur[0]), str(seed), tier, out2], env=env, cwd=workdir,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
                    again = p.returncode
                except subprocess.TimeoutExpired:
                    again = 97
                if again == 97:
                    viols.append(dict(idx=cur[0], key='no-termination', detail='the case used up its CPU-time limit, twice'))
            else:
                viols.append(dict(idx=cur[0], key='crash:' + crash_key(rc, err), detail=err[-6000:]))
            restarts += 1
            if restarts > 4:
                return viols, sums, None
            start = cur[0] + shards

    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(shards)))
    merged = dict(evaluations=0, events={}, samples=[], distinct=set(), states=set(), rule='')
    viols, problems = [], []
    for v, ss, prob in res:
        viols += v
        if prob:
            problems.append(prob)
        for s in ss:
            merged['evaluations'] += s['evaluations']
            merged['rule'] = s['rule']
            for k, n in s['events'].items():
                if k.startswith('max '):
                    merged['events'][k] = max(merged['events'].get(k, 0), n)
                else:
                    merged['events'][k] = merged['events'].get(k, 0) + n
            merged['samples'] += s['samples'][:1]
            merged['distinct'].update(s['distinct'])
            merged['states'].update(s['states'])
    return merged, viols, problems


def known_findings():
    r = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                r.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return r


def check(prop, opts):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    parts = CHECKS[prop]
    work = os.path.join(BUILD, 'work', f'{prop}.{os.getpid()}')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    viols, problems, total = [], [], None
    cov = {}
    try:
        active = [p for p in parts if tier in p.get('tiers', ('quick', 'thorough'))]
        exes = build([(f'{prop}-{p["name"]}', p['variant'], p['srcs'], p.get('tool', False)) for p in active])
        # what a part needs besides its own executable
        extra = {}
        for p in active:
            for n, t in p.get('needs', {}).items():
                extra[n] = build([t])[t[0]]
        tb = time.time() - t0
        for p in active:
            exe = exes[f'{prop}-{p["name"]}']
            env = dict(p.get('env', {}))
            for n, path in extra.items():
                env[n] = path
            env['VERIF_DIR'] = VERIF
            env['MON_WORK'] = work
            if p['variant'] == 'tsan' and not p.get('prefix'):
                p = dict(p, prefix=no_aslr())
            if p.get('kind') == 'libfuzzer':
                m, v, pr = run_libfuzzer(exe, p, tier, seed, work, env)
            else:
                m, v, pr = run_shards(exe, p, tier, seed, work, opts.get('cases') or p.get('cases', {}).get(tier), opts.get('shards') or p.get('shards', SHARDS),
                                      p.get('prefix', ()), env, p.get('timeout'))
            for x in v:
                x['part'] = p['name']
            viols += v
            problems += pr
            if total is None:
                total = m
            else:
                total['evaluations'] += m['evaluations']
                for k, n in m['events'].items():
                    total['events'][f'{p["name"]}: {k}'] = n
                total['samples'] += m['samples'][:2]
                total['distinct'] |= m['distinct']
                total['states'] |= m['states']
                if m['rule'] and m['rule'] not in total['rule']:
                    total['rule'] += ' | ' + p['name'] + ': ' + m['rule']
        cov = dict(evaluations=total['evaluations'], distinct_nontrivial=len(total['distinct']), rule=total['rule'],
                   samples=total['samples'][:6] or ['(none)'], monitor_events=total['events'],
                   distinct_states=len(total['states']), build_s=round(tb, 1))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings().get(prop, {})
    seen, fresh = {}, {}
    for v in viols:
        (seen if v['key'] in known else fresh).setdefault(v['key'], v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    level = PROPS[prop].get('level', 'exploration')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=PROPS[prop].get('assume', []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k, what in known.items():
        print(f'KNOWN-FINDING: property={prop} {what}')
    rc = 0
    for k, v in fresh.items():
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', f'{prop}-{sha(k)[:10]}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, part=v.get('part'), seed=seed, tier=tier, idx=v['idx'], key=k, detail=v['detail'],
                           again=f'python3 run.py replay {path}'), f, indent=1)
        print(f'violation: {prop} {k} (case {v["idx"]})\n' + '\n'.join('    ' + l[:1500] for l in v['detail'].split('\n')[:12]))
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        rc = 1
    if rc == 0 and problems:
        print('the check could not run to its end:\n' + '\n'.join(problems), file=sys.stderr)
        return 2
    if rc == 0 and (cov['evaluations'] == 0 or cov['distinct_nontrivial'] == 0):
        print('the monitors observed nothing', file=sys.stderr)
        return 2
    for k in (PROPS[prop].get('must_see', []) if rc == 0 and not opts.get('cases') else []):
        if not total['events'].get(k):
            print(f'the monitor never saw: {k}', file=sys.stderr)
            return 2
    if rc == 0:
        print(f'{prop}: held on {cov["evaluations"]} executions ({cov["distinct_nontrivial"]} distinct non-trivial), '
              f'build {tb:.1f} s, total {time.time() - t0:.1f} s')
    return rc


def run_libfuzzer(exe, p, tier, seed, work, env):
    corpus = os.path.join(work, 'corpus')
    os.makedirs(corpus, exist_ok=True)
    secs = p['seconds'][tier]
    art = os.path.join(work, 'artifact-')
    if env.get('SEEDER'):
        subprocess.run([env['SEEDER'], '0', '1', str(seed), 'quick', os.path.join(work, 'seeder')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env=dict(ENV, **env, MON_SEEDS=corpus, MON_CASES='4000'), timeout=300)
    cmd = [exe, corpus, f'-seed={seed}', f'-max_total_time={secs}', '-max_len=4096', f'-artifact_prefix={art}', '-print_final_stats=1',
           f'-fork={SHARDS}', '-timeout=20', '-rss_limit_mb=3000', '-ignore_crashes=0']
    pr = subprocess.run(cmd, env=dict(ENV, **env), cwd=work, capture_output=True, text=True, errors='replace', timeout=secs + 240)
    viols = []
    for a in sorted(glob.glob(art + '*')):
        base = os.path.basename(a)
        if base.startswith(('artifact-slow', 'artifact-oom')):
            continue
        viols.append(dict(idx=0, key='fuzz:' + crash_key(pr.returncode, pr.stderr), detail='input (hex): ' + read(a).hex()[:4000] + '\n' + pr.stderr[-4000:]))
        break
    runs = [int(x) for x in re.findall(r'^#(\d+):', pr.stderr, re.M)]
    covs = [int(x) for x in re.findall(r'cov: (\d+)', pr.stderr)]
    n = max(runs) if runs else 0
    files = glob.glob(corpus + '/*')
    m = dict(evaluations=n, events={'max coverage edges': max(covs) if covs else 0, 'corpus inputs': len(files)}, samples=[],
             distinct=set(int(hashlib.sha256(read(f)).hexdigest()[:15], 16) for f in files), states=set(), rule='libFuzzer inputs; non-trivial: kept in the corpus (new coverage)')
    probs = []
    if pr.returncode and not viols:
        probs.append(f'libFuzzer ended with {pr.returncode}:\n' + pr.stderr[-2000:])
    return m, viols, probs


def no_aslr():
    """ThreadSanitizer cannot map its shadow under every address layout."""
    try:
        if subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0:
            return ['setarch', '-R']
    except OSError:
        pass
    return []


def all_targets(tiers):
    t = []
    for prop, parts in CHECKS.items():
        for p in parts:
            if set(p.get('tiers', ('quick', 'thorough'))) & set(tiers):
                t.append((f'{prop}-{p["name"]}', p['variant'], p['srcs'], p.get('tool', False)))
                t += list(p.get('needs', {}).values())
    return t


def replay(path):
    r = json.load(open(path))
    part = [p for p in CHECKS[r['property']] if p['name'] == r['part']][0]
    exe = build([(f'{r["property"]}-{part["name"]}', part['variant'], part['srcs'], part.get('tool', False))]).popitem()[1]
    if part['variant'] == 'tsan':
        part = dict(part, prefix=no_aslr())
    env = dict(ENV, **part.get('env', {}), VERIF_DIR=VERIF, MON_WORK='/tmp')
    for n, t in part.get('needs', {}).items():
        env[n] = build([t])[t[0]]
    work = os.path.join(BUILD, 'work', f'replay.{os.getpid()}')
    os.makedirs(work, exist_ok=True)
    env['MON_WORK'] = work
    try:
        rc = subprocess.run(list(part.get('prefix', ())) + [exe, 'only', str(r['idx']), str(r['seed']), r['tier'], os.path.join(work, 'out')], env=env).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print('exit', rc)
    return 1 if rc else 0


def main():
    a = sys.argv[1:]
    opts = {}
    while '--cases' in a:
        i = a.index('--cases'); opts['cases'] = int(a[i + 1]); del a[i:i + 2]
    while '--shards' in a:
        i = a.index('--shards'); opts['shards'] = int(a[i + 1]); del a[i:i + 2]
    while '--tier' in a:
        i = a.index('--tier'); os.environ['VERIF_TIER'] = a[i + 1]; del a[i:i + 2]
    try:
        if a[0] == 'setup':
            build(all_targets(('quick',)))
            return 0
        if a[0] == 'check':
            rc = check(a[1], opts)
            trim_cache()
            return rc
        if a[0] == 'replay':
            return replay(a[1])
    except HarnessError as e:
        print('HARNESS ERROR: ' + str(e), file=sys.stderr)
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
