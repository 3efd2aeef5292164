#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and runs the checks.

  drive.py setup
  drive.py check PROP quick|thorough
  drive.py replay FILE [verbose]
  drive.py determinism [PROP...]
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SIM = os.path.join(VERIF, 'sim')
JOBS = min(8, os.cpu_count() or 1)

CONFIG_H = '''#pragma once
#define HAVE_CXX11_SHAREDPTR 1
'''
DEFS = ['-DENABLE_YAML', '-DENABLE_XML', '-DENABLE_CURL', '-DHAVE_LONG_LONG=1']
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'strdup', 'regcomp', 'regexec', 'regfree', 'exit']
# functions of libc that the simulator of threads follows (sim/sched/runtime.cc)
LIBC = ('strlen strnlen strcpy stpcpy strncpy strcat strncat strcmp strncmp strcasecmp strncasecmp memcmp bcmp memchr strchr strrchr '
        'strstr strtok snprintf vsnprintf sprintf vsprintf strtod strtof strtold strtol strtoul strtoll strtoull __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull atoi atol atof '
        'setlocale localeconv getenv setenv unsetenv putenv localtime gmtime ctime asctime drand48').split()
REDEFINE = [x for f in LIBC for x in ('--redefine-sym', f + '=sim_' + f)]

# runs of the quick and the thorough tier, by property
RUNS = {
    'C01': (60000, 3000000),
    'C02': (60000, 3000000),
    'C03': (60000, 3000000),
    'C04': (60000, 3000000),
    'C05': (60000, 3000000),
    'C06': (120000, 6000000),
    'C07': (60000, 3000000),
    'C08': (120000, 6000000),
    'C09': (30000, 1500000),
    'C10': (30000, 1500000),
    'C11': (10000, 600000),
    'C12': (12000, 1000000),
    'C13': (40000, 3000000),
    'C14': (40000, 2500000),
    'C15': (60000, 3000000),
    'C16': (60000, 3000000),
    'C17': (60000, 3000000),
    'C18': (30000, 3000000),
    'C19': (60000, 3000000),
    'C20': (30000, 3000000),
}
VARIANT = {'C12': 'sched', 'C13': 'sched'}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def lib_sources():
    cc = [f for f in sorted(f for e in ('cc', 'cpp', 'cxx') for f in glob.glob(REPO + '/src/**/*.' + e, recursive=True))
          if os.path.basename(f) != 'varsh.cc' and not os.path.basename(f).startswith('MsgPack')]
    return cc, sorted(glob.glob(REPO + '/lib/json/**/*.c', recursive=True))


def tree_hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0' + read(f) + b'\0')
    return h.hexdigest()


def headers():
    r = []
    for d in ('include', 'src', 'lib'):
        for base, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(base, f) for f in fs if f.endswith(('.h', '.hh', '.hpp', '.inc', '.i', '.def'))]
    return r


def build(variant):
    """Returns the path of the simulator binary for the current tree."""
    os.makedirs(BUILD + '/obj', exist_ok=True)
    inc = BUILD + '/include/Variant'
    os.makedirs(inc, exist_ok=True)
    cfg = inc + '/Config.h'
    with open(BUILD + '/lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(cfg) or read(cfg) != CONFIG_H.encode():
            with open(cfg, 'w') as f:
                f.write(CONFIG_H)
        hh = tree_hash(headers())
        simh = tree_hash(glob.glob(SIM + '/*.h') + glob.glob(SIM + '/sched/*.h'))
        sim_plain = []
        xml = ['-I/usr/include/libxml2']
        incs = ['-I' + REPO + '/include', '-I' + BUILD + '/include', '-I' + REPO + '/lib/json', '-I' + REPO + '/src', '-I' + REPO + '/lib'] + xml
        base = ['-g', '-O1', '-fno-omit-frame-pointer', '-pthread']
        cc, c = lib_sources()
        jobs = []
        if variant == 'asan':
            inst = ['-fsanitize=address']
            libf = base + inst + ['-fsanitize-coverage=trace-pc-guard']
            simf = base + inst + ['-DSIM_ASAN', '-I' + SIM]
            sim_src = sorted(glob.glob(SIM + '/*.cc'))
            link = ['clang++', '-fsanitize=address', '-rdynamic', '-pthread'] + ['-Wl,--wrap=' + w for w in WRAP]
            libs = ['-l:libyaml.a', '-lxml2', '-ldl', '-lm']
        else:
            inst = ['-fsanitize=thread']
            # calls of the runtime in sim/sched/runtime.cc, not of the ThreadSanitizer runtime
            inst += ['-mllvm', '-tsan-instrument-func-entry-exit=0', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
            libf = base + inst + ['-fsanitize-coverage=trace-pc-guard']
            simf = base + inst + ['-I' + SIM]
            sim_src = [SIM + '/%s.cc' % x for x in ('model', 'world', 'common', 'act')] + sorted(glob.glob(SIM + '/sched/prop_*.cc'))
            sim_plain = [SIM + '/core.cc', SIM + '/main.cc', SIM + '/sched/runtime.cc']
            link = ['clang++', '-rdynamic', '-pthread'] + ['-Wl,--wrap=' + w for w in WRAP]
            libs = ['-l:libyaml.a', '-lxml2', '-ldl', '-lm']
        for s in cc:
            jobs.append((s, ['clang++', '-std=gnu++17', '-Wno-everything'] + libf + DEFS + incs, hh))
        for s in c:
            jobs.append((s, ['clang', '-Wno-everything'] + libf + DEFS + incs, hh))
        if os.path.exists(REPO + '/src/varsh.cc') and variant == 'asan':
            jobs.append((REPO + '/src/varsh.cc', ['clang++', '-std=gnu++17', '-Wno-everything', '-include', SIM + '/varsh_shim.h', '-Dmain=varsh_main', '-I' + SIM] + libf + DEFS + incs, hh + simh))
        for s in sim_plain:
            jobs.append((s, ['clang++', '-std=c++17', '-Wall', '-Wno-unused-function', '-I' + SIM] + base + DEFS + incs, hh + simh))
        for s in sim_src:
            jobs.append((s, ['clang++', '-std=c++17', '-Wall', '-Wno-unused-function'] + simf + DEFS + incs, hh + simh))

        def one(j):
            src, cmd, extra = j
            key = hashlib.sha256(b'\0'.join([' '.join(cmd + REDEFINE * (variant == 'sched')).encode(), src.encode(), read(src), extra.encode()])).hexdigest()
            obj = '%s/obj/%s-%s.o' % (BUILD, os.path.basename(src), key[:32])
            if not os.path.exists(obj):
                tmp = obj + '.tmp'
                r = sh(cmd + ['-c', src, '-o', tmp])
                if r.returncode == 0 and variant == 'sched' and src.startswith(REPO):
                    r = sh(['objcopy'] + REDEFINE + [tmp])
                if r.returncode:
                    raise BuildError(' '.join(cmd) + ' ' + src + '\n' + r.stdout)
                os.rename(tmp, obj)
            else:
                os.utime(obj)
            return obj
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, jobs))
        key = hashlib.sha256(' '.join(link + objs + libs).encode()).hexdigest()[:32]
        out = '%s/vsim-%s-%s' % (BUILD, variant, key)
        if not os.path.exists(out):
            r = sh(link + objs + libs + ['-o', out + '.tmp'])
            if r.returncode:
                raise BuildError(r.stdout)
            os.rename(out + '.tmp', out)
        else:
            os.utime(out)
        prune()
        return out


def prune():
    """Keeps the cache small: drops the oldest binaries and objects."""
    for pat, keep in (('vsim-*', 6), ('obj/*.o', 700)):
        fs = sorted(glob.glob(os.path.join(BUILD, pat)), key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            if time.time() - os.path.getmtime(f) > 3600 or len(fs) > 2 * keep:
                try:
                    os.unlink(f)
                except OSError:
                    pass


def known_findings(prop):
    """[(signature, text)] of open findings."""
    r = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('finding: '):
                continue
            head, _, text = l[9:].partition(' | ')
            kv = dict(x.split('=', 1) for x in head.split(' ', 1))
            if kv.get('property') == prop:
                r.append((kv['sig'].strip(), text))
    return r


def search(binary, prop, seed, first, count, limit, workdir, known):
    kf = workdir + '/known'
    with open(kf, 'w') as f:
        f.write(''.join(s + '\n' for s, _ in known))
    procs = []
    for w in range(JOBS):
        a, b = first + count * w // JOBS, first + count * (w + 1) // JOBS
        out = '%s/w%d.json' % (workdir, w)
        cmd = [binary, 'search', '--prop', prop, '--seed', str(seed), '--from', str(a), '--count', str(b - a), '--out', out, '--dir', workdir, '--known', kf, '--time', str(limit)]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace'), out))
    res = []
    for p, out in procs:
        err = p.communicate()[1]
        if p.returncode or not os.path.exists(out):
            raise RuntimeError('worker failed (%s): %s' % (p.returncode, err[-2000:]))
        with open(out, errors='replace') as f:
            res.append(json.load(f))
        res[-1]['sigfile'] = out + '.sigs'
    return res


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    man = json.load(open(VERIF + '/MANIFEST.json'))
    ent = [c for c in man['checks'] if c['property'] == prop]
    level = ent[0]['level'] if ent else 'exploration'
    try:
        binary = build(VARIANT.get(prop, 'asan'))
    except BuildError as e:
        print('BUILD ERROR\n' + str(e)[-4000:])
        return 2
    tb = time.time() - t0
    runs = RUNS[prop][0 if tier == 'quick' else 1]
    runs = int(os.environ.get('VERIF_RUNS', runs))
    limit = float(os.environ.get('VERIF_TIME', 600 if tier == 'quick' else 3600))
    known = known_findings(prop)
    workdir = '%s/work-%s-%d' % (BUILD, prop, os.getpid())
    os.makedirs(workdir)
    try:
        ts = time.time()
        res = search(binary, prop, seed, 0, runs, limit, workdir, known)
        wall_search = time.time() - ts
        vios, errors = [], []
        for r in res:
            for v in r['violations']:
                (errors if v['error'] else vios).append(v)
        confirmed = []
        vios.sort(key=lambda v: v['run'])
        seen = set()
        for v in vios:
            if v['sig'] in seen:
                continue
            seen.add(v['sig'])
            rp = sh([binary, 'replay', v['replay']])
            if rp.returncode != 1:
                errors.append({'error': 'fresh-process replay gave %d: %s' % (rp.returncode, rp.stdout[-500:]), 'sig': v['sig']})
                continue
            os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
            dst = '%s/evidence/replay/%s' % (VERIF, os.path.basename(v['replay']))
            shutil.copy(v['replay'], dst)
            v['replay'] = dst
            confirmed.append(v)
        sigs = set()
        for r in res:
            d = read(r['sigfile'])
            sigs.update(struct.unpack('<%dQ' % (len(d) // 8), d))
        tot = lambda k: sum(r[k] for r in res)
        faults, probes, khits, kdet, edges, samples = {}, {}, {}, {}, set(), []
        for r in res:
            for k, n in r['faults'].items():
                faults[k] = faults.get(k, 0) + n
            for k, n in r['probes'].items():
                probes[k] = probes.get(k, 0) + n
            for k, n in r['known'].items():
                khits[k] = khits.get(k, 0) + n['count']
                kdet[k] = n['detail']
            edges.update(r['edges'])
            samples += r['samples'][:2]
        done = tot('runs')
        hist = sum(int(r['history_sum'], 16) for r in res) & (2 ** 64 - 1)
        cov = {
            'evaluations': done,
            'distinct_nontrivial': len(sigs),
            'rule': res[0]['rule'],
            'samples': samples[:6],
            'seed_range': 'runs 0..%d of VERIF_SEED=%d' % (runs - 1, seed),
            'runs_per_hour': int(done / max(wall_search, 0.001) * 3600),
            'simulated_time_steps': tot('steps'),
            'longest_run_steps': max(r['max_steps'] for r in res),
            'seam_events': tot('seam_events'),
            'history_events': tot('history_events'),
            'nontrivial_runs': tot('nontrivial_runs'),
            'runs_with_fault_fired': tot('faulty_runs'),
            'faults_fired': faults,
            'reach_probes': probes,
            'edges_reached': len(edges),
            'edges_total': res[0]['guards'],
            'distinct_measure': 'distinct signatures of non-trivial runs: hash of the set of library edges with bucketed hit counts, or of the schedule, combined with the state values the check mixes in',
            'history_checksum': '%016x' % hist,
            'stopped_by_time_limit': any(r['timed_out'] for r in res),
            'real_code': REAL.get(prop, REAL['']),
            'stubs': STUB.get(prop, STUB['']),
        }
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
              'violations': len(confirmed), 'assumptions': ASSUME.get(prop, []) + ASSUME['']}
        ev['coverage']['build_s'] = round(tb, 2)
        if known:
            ev['coverage']['known_finding_hits'] = khits
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        tmp = '%s/evidence/%s.json.tmp' % (VERIF, prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.rename(tmp, '%s/evidence/%s.json' % (VERIF, prop))
        for s, text in known:
            print('KNOWN-FINDING: property=%s %s (signature %s, seen %d times in this run)' % (prop, text, s, khits.get(s, 0)))
        print('%s %s: %d runs, %d non-trivial, %d distinct, %d faults fired, %.1f s' % (
            prop, tier, done, cov['nontrivial_runs'], len(sigs), sum(faults.values()), time.time() - t0))
        for v in confirmed:
            print('seed=%d run=%d signature=%s\n%s' % (seed, v['run'], v['sig'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        if confirmed:
            return 1
        for e in errors:
            print('ERROR: ' + e['error'])
        if errors:
            return 2
        if done == 0 or not sigs:
            print('ERROR: no non-trivial run')
            return 2
        return 0
    finally:
        shutil.rmtree(workdir)


REAL = {'': ['all library sources of /repo/src and /repo/lib/json (clang, AddressSanitizer, edge instrumentation)', 'libyaml 0.2.5 (static)', 'libxml2 (shared)', 'glibc stdio and libstdc++ above the simulated disk']}
REAL['C12'] = REAL['C13'] = ['all library sources of /repo/src and /repo/lib/json (clang, every memory access instrumented)', 'real threads, running one at a time', 'libyaml 0.2.5 (static)', 'libxml2 (shared)', 'glibc stdio and libstdc++ above the simulated disk']
STUB = {'': ['disk below stdio (fopencookie on memory)', 'libcurl easy interface', 'allocation failure decisions', 'caller-supplied readers, sinks and callbacks']}
STUB['C12'] = STUB['C13'] = STUB[''] + ['thread scheduler', 'guards of function-local statics, mutexes, read-write locks, condition variables and once-calls (same semantics, decided by the scheduler)']
ASSUME = {'': ['libyaml, libxml2, libstdc++ and libc behave as installed here', 'allocation failures inside libxml2 are not injected']}
ASSUME['C12'] = ASSUME['C13'] = ['accesses made inside libyaml, libxml2 and the shared part of libstdc++ are neither preempted nor part of the race analysis', 'libxml2 is initialised by the program before it starts threads, as libxml2 asks for', 'schedules are sequentially consistent; weaker orders are covered by the race analysis only']


def replay(path, verbose):
    prop = ''
    for l in open(path, errors="replace"):
        if l.startswith('property '):
            prop = l.split()[1]
            break
    b = build(VARIANT.get(prop, 'asan'))
    return subprocess.call([b, 'replay', path] + (['v'] if verbose else []))


def determinism(plist, n=200):
    """Same seeds in different processes and batchings give the same histories."""
    bad = 0
    for p in plist:
        b = build(VARIANT.get(p, 'asan'))
        a = sh([b, 'hash', '--prop', p, '--seed', '7', '--from', '0', '--count', str(n)]).stdout
        ok = True
        for m in (4, 8): # one after another, all at once
            def part(k):
                return sh([b, 'hash', '--prop', p, '--seed', '7', '--from', str(k), '--count', str(n // m)], env=dict(os.environ, X='y' * k)).stdout
            with concurrent.futures.ThreadPoolExecutor(1 if m == 4 else m) as ex:
                ok = ok and a == ''.join(ex.map(part, range(0, n, n // m)))
        print(p, 'deterministic' if ok else 'NOT DETERMINISTIC', n, 'seeds')
        bad += not ok
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[0] == 'setup':
        build('asan')
        if any(v == 'sched' for v in VARIANT.values()):
            build('sched')
        return 0
    if a[0] == 'check':
        return check(a[1], a[2])
    if a[0] == 'replay':
        return replay(a[1], len(a) > 2)
    if a[0] == 'build':
        print(build(a[1]))
        return 0
    if a[0] == 'determinism':
        return determinism(a[1:] or sorted(RUNS))
    return 2


if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        print(e)
        sys.exit(2)
