#!/usr/bin/env python3
"""Runs the check of one property: builds the monitors from /repo's working
tree, runs the workers, writes evidence/<id>.json and prints the verdict."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
GO = '/opt/veriftools/go1.27.3/bin'

sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS, DEFAULT  # noqa: E402


def env():
    e = dict(os.environ)
    e.update(PATH=GO + ':' + e.get('PATH', '/usr/bin:/bin'), GOENV='off', GO111MODULE='off', GOFLAGS='',
             GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', CGO_ENABLED='1',
             GOPATH=os.path.join(BUILD, 'gp'), GOCACHE=os.path.join(BUILD, 'gocache'),
             HOME=BUILD, GOTMPDIR=BUILD + '/tmp')
    return e


def link(path, target):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        if os.readlink(path) == target:
            return
        os.unlink(path)
    os.symlink(target, path)


def build():
    os.makedirs(BUILD + '/tmp', exist_ok=True)
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        link(BUILD + '/gp/src/github.com/qbeon/webwire-go', REPO)
        link(BUILD + '/gp/src/vh', VERIF + '/harness/vh')
        link(BUILD + '/gp/src/instr', VERIF + '/harness/instr')
        link(BUILD + '/gp/src/aatap', VERIF + '/harness/aatap')
        fd, out = tempfile.mkstemp(prefix='vh-', dir=BUILD + '/tmp')
        os.close(fd)
        run = lambda *a: subprocess.run(a, env=env(), cwd=BUILD + '/gp/src/vh', stdout=subprocess.PIPE,
                                        stderr=subprocess.STDOUT, text=True)
        # delay points around all synchronisation operations of the library
        ins, overlay, log = BUILD + '/ins', [], ''
        shutil.rmtree(ins, ignore_errors=True)
        os.makedirs(ins)
        lib = BUILD + '/gp/src/' + LIB
        p = run('go', 'build', '-o', BUILD + '/instr', 'instr')
        if p.returncode == 0:
            p = run(BUILD + '/instr', os.path.realpath(REPO), ins, lib, os.path.realpath(REPO))
        if p.returncode == 0:
            overlay = ['-overlay', ins + '/overlay.json']
        else:
            log = p.stdout
        p = run('go', 'build', '-race', '-tags', 'verif', *overlay, '-o', out, 'vh')
        if p.returncode != 0 and overlay:
            log = p.stdout
            shutil.rmtree(ins)
            p = run('go', 'build', '-race', '-tags', 'verif', '-o', out, 'vh')
        if p.returncode != 0:
            print(p.stdout)
            print('HARNESS-ERROR: the monitors could not be built')
            sys.exit(3)
        if log:
            print('NOTE: no automatic delay points: ' + log[:2000])
        places = ''
        try:
            places = open(ins + '/places').read()
        except OSError:
            pass
        return out, places


RACE = re.compile(r'WARNING: DATA RACE.*?(?:\n={18}|\Z)', re.S)
FRAME = re.compile(r'^\s+(\S+)\(.*\)$', re.M)
LIB = 'github.com/qbeon/webwire-go'


def race_sig(block):
    """pair of accessing functions, line numbers stripped"""
    tops = []
    for fr in accesses(block):
        libf = [f for f in fr if LIB in f]
        tops.append((libf or fr or ['?'])[0].replace(LIB, 'wwr'))
    return ' <-> '.join(sorted(tops))


def accesses(block):
    """frames of the two accesses"""
    return [FRAME.findall(p) for p in re.split(r'\n\s*\n', block)[:2]]


def harness_race(block):
    """both accesses are made by code of the harness"""
    for fr in accesses(block):
        own = [f for f in fr if f.startswith('main.') or LIB in f and '/vpoint' not in f]
        if not own or not own[0].startswith('main.'):
            return False
    return True


def crash_info(err):
    """(is library crash, headline, excerpt) of a crashed worker's output"""
    m = re.search(r'^(panic: .*|fatal error: .*|SIG[A-Z]+: .*|runtime: .*)$', err, re.M)
    if not m:
        return None
    rest = err[m.start():]
    # the first goroutine printed is the one that crashed
    g = re.search(r'\ngoroutine \d+[^\n]*\[.*?(?=\n\ngoroutine|\Z)', rest, re.S)
    stack = g.group(0) if g else rest[:4000]
    own = re.sub(r'\ncreated by .*', '', stack, flags=re.S)
    frames = [f for f in re.findall(r'^(\S+)\(', own, re.M)]
    lib = any(f.startswith(LIB) and '/vpoint' not in f for f in frames)
    return lib, m.group(1), rest[:6000]


def zone(case, cfg):
    """the worker that runs a case"""
    m = re.search(r'/(\d+)$', case)
    return int(m.group(1)) % cfg['shards'] if m else 0


def main():
    prop = sys.argv[1]
    if prop == '--build-only':
        os.unlink(build()[0])
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    for a in sys.argv[2:]:
        if a.startswith('--case='):
            only = a[7:]
        if a.startswith('--seed='):
            seed = int(a[7:])
    cfg = dict(DEFAULT)
    cfg.update(CHECKS[prop])
    t0 = time.time()
    exe, places = build()
    tbuild = time.time() - t0
    limit = cfg['limit'][tier]
    base = tempfile.mkdtemp(prefix='vh-%s-' % prop)
    os.chmod(base, 0o755)
    with open(base + '/places', 'w') as f:
        f.write(places)
    os.chmod(base + '/places', 0o644)
    workers = []
    n = 1 if only else cfg['shards']
    procs = cfg['procs']
    try:
        for i in range(n):
            d = os.path.join(base, str(i))
            os.mkdir(d)
            os.mkdir(d + '/scratch')
            os.chmod(d + '/scratch', 0o755)
            e = dict(os.environ)
            e.update(GOMAXPROCS=str(procs[i % len(procs)]), GOTRACEBACK='all', VH_EXE=exe, VH_PLACES=base + '/places',
                     GORACE='halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path=' + d + '/race')
            args = [exe, '-check', prop, '-seed', str(seed), '-shard', str(i), '-shards', str(n),
                    '-out', d + '/report.json', '-scratch', d + '/scratch', '-limit', str(limit),
                    '-mult', str(cfg['mult']), '-zone', str(zone(only, cfg) if only else i)]
            if tier == 'thorough':
                args.append('-thorough')
            if only:
                args += ['-case', only]
            workers.append((i, d, subprocess.Popen(args, env=e, cwd=d, stdin=subprocess.DEVNULL,
                            stdout=open(d + '/stdout', 'w'), stderr=open(d + '/stderr', 'w'),
                            start_new_session=True)))
        deadline = time.time() + limit + 60
        for i, d, p in workers:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        return verdict(prop, tier, seed, cfg, workers, only, t0, tbuild)
    finally:
        shutil.rmtree(base, ignore_errors=True)
        try:
            os.unlink(exe)
        except OSError:
            pass


def read(path, cap=4_000_000):
    try:
        with open(path, errors='replace') as f:
            return f.read(cap)
    except OSError:
        return ''


def verdict(prop, tier, seed, cfg, workers, only, t0, tbuild):
    viol, incon, errors = [], [], []
    counters, samples, cases, distinct, evals = {}, [], [], set(), 0
    sets = {}
    races = {}
    for i, d, p in workers:
        try:
            rep = json.load(open(d + '/report.json'))
        except Exception as ex:  # noqa
            rep = None
            errors.append('worker %d left no report: %s' % (i, ex))
        err = read(d + '/stderr')
        last = re.findall(r'^@case (.*)$', err, re.M)
        last = last[-1] if last else '?'
        for f in sorted(os.listdir(d)):
            if f.startswith('race'):
                for b in RACE.findall(read(os.path.join(d, f))):
                    races.setdefault(race_sig(b), (b, i, last))
        if rep:
            evals += rep['evaluations']
            distinct.update(rep['distinct'] or [])
            samples += (rep['samples'] or [])[:2]
            cases += rep.get('case_samples') or []
            for k, v in (rep['counters'] or {}).items():
                counters[k] = max(counters.get(k, 0), v) if k.startswith('max_') else counters.get(k, 0) + v
            for k, v in (rep.get('sets') or {}).items():
                sets.setdefault(k, set()).update(v)
            for v in rep['violations'] or []:
                v['shard'] = i
                viol.append(v)
            incon += rep['inconclusive'] or []
        if p.returncode != 0 or not (rep and rep['done']):
            ci = crash_info(err)
            if ci and ci[0]:
                viol.append(dict(kind='crash:' + ci[1][:120], case=last, detail='the process crashed', witness=ci[2].split('\n'), shard=i))
            elif ci:
                errors.append('worker %d crashed in the harness (case %s): %s' % (i, last, ci[2][:3000]))
            elif not (rep and rep['inconclusive']):
                errors.append('worker %d ended with %s (case %s): %s' % (i, p.returncode, last, err[-1500:]))
    for k, v in sets.items():
        counters['distinct_' + k] = len(v)
    nraces = 0
    for sig, (b, i, last) in sorted(races.items()):
        if LIB in re.sub(LIB + '/vpoint', '', b) and not harness_race(b):
            nraces += 1
            viol.append(dict(kind='data-race:' + sig, case=last, detail='data race', witness=b.split('\n')[:80], shard=i))
        else:
            errors.append('data race inside the harness: ' + b[:3000])

    known = []
    try:
        known = [k for k in json.load(open(VERIF + '/known-findings.json'))['findings']
                 if k['property'] == prop and k['status'] == 'known']
    except FileNotFoundError:
        pass
    fresh, shown = [], set()
    for v in viol:
        k = next((k for k in known if re.search(k['match'], v['kind'] + ' ' + v['detail'])), None)
        if k:
            shown.add(k['id'])
        else:
            fresh.append(v)
    for k in known:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, k['what'], '' if k['id'] in shown else ' (not reproduced in this run)'))

    os.makedirs(VERIF + '/evidence', exist_ok=True)
    cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=cfg['rule'], samples=(samples[:6] + cases)[:8] or ['none'],
               observed=counters, workers=len(workers), gomaxprocs=[cfg['procs'][i % len(cfg['procs'])] for i, _, _ in workers],
               race_reports=nraces, inconclusive=incon, harness_errors=errors, build_s=round(tbuild, 1))
    json.dump(dict(property=prop, tier=tier, seed=seed, level=cfg['level'], coverage=cov, assumptions=cfg['assumptions'],
                   wall_s=round(time.time() - t0, 1), violations=len(fresh)), open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s %s seed=%d: %d evaluations, %d distinct, %.1f s' % (prop, tier, seed, evals, len(distinct), time.time() - t0))
    for m in incon:
        print('INCONCLUSIVE:', m[:3000])
    for m in errors:
        print('HARNESS-ERROR:', m)
    if fresh:
        os.makedirs(VERIF + '/replays', exist_ok=True)
        seen = set()
        for v in fresh:
            if v['kind'] in seen:
                continue
            seen.add(v['kind'])
            h = hashlib.sha1((v['kind'] + v['case']).encode()).hexdigest()[:10]
            path = VERIF + '/replays/%s-%s.json' % (prop, h)
            json.dump(dict(property=prop, seed=seed, tier=tier, shard=v['shard'], gomaxprocs=cfg['procs'][v['shard'] % len(cfg['procs'])],
                           replay='VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s --case=%s' % (seed, tier, VERIF, prop, v['case']), **{k: v.get(k) for k in ('kind', 'case', 'detail', 'witness')}),
                      open(path, 'w'), indent=1)
            print('%s [%s] %s' % (v['kind'], v['case'], v['detail'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors or incon:
        return 3
    if evals < cfg['min_evals'] and not only:
        print('INCONCLUSIVE: only %d evaluations' % evals)
        return 3
    return 0


sys.exit(main())
