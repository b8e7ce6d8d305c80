"""C01: the same request in differently configured simulated processes must give the same bytes.

A configuration has a part fixed at process start (hash seed, interpreter flags, environment, install
location, what the world looks like while the package is imported) and a part drawn per run (clock, pid,
host, CPU count, id() mask, encoding, directory order, random state, cwd, target path, heap layout)."""
import hashlib
import json
import os
import random
import shutil
import threading
import time

import check
import props
from catalog import Gen, rkey, doc_name, glue_inner, cli_argv
from pool import HarnessError, Pool

NAMES = ['TZ', 'LANG', 'LC_ALL', 'LC_CTYPE', 'LC_NUMERIC', 'LANGUAGE', 'HOME', 'USER', 'LOGNAME', 'TMPDIR', 'TEMP', 'COLUMNS', 'LINES',
         'TERM', 'DEBUG', 'VERBOSE', 'NO_COLOR', 'CI', 'EDITOR', 'PWD', 'SHELL', 'OMP_NUM_THREADS', 'SOURCE_DATE_EPOCH', 'HOSTNAME',
         'DISPLAY', 'VIRTUAL_ENV', 'PYTEST_CURRENT_TEST']
VALUES = ['', '0', '1', '7', 'C', 'de_DE.UTF-8', 'true', 'debug', 'Asia/Kolkata', '/simroot/home', '120', 'no']
SPECIAL = {'TZ': ['UTC0', 'IST-5:30', 'PST8PDT', 'Asia/Kolkata'], 'LC_ALL': ['C', 'POSIX', 'C.UTF-8', 'en_US.UTF-8'], 'LANG': ['C', 'POSIX', 'C.UTF-8', 'en_US.UTF-8'],
           'COLUMNS': ['20', '80', '300'], 'HOME': ['/simroot/home', '/simroot/tmp', '/nonexistent']}
# names whose value steers the interpreter or our own workers
NEVER = {'PATH', 'LD_LIBRARY_PATH', 'LD_PRELOAD', 'PYTHONHASHSEED', 'PYTHONPATH', 'PYTHONHOME'}

RULE = '''a run is one request executed in one drawn process configuration; it is non-trivial when the request succeeds
alone in the reference configuration, so that its bytes are compared; distinct = distinct (request, configuration) pairs'''
ASSUME = ['requests costing more than the per-tier cap (at most 1.6 s, measured on this machine) are not sampled',
          'the interpreter is always /opt/venv CPython 3.12: reproducibility across Python versions is not explored']


class P01:
    flavour = 'api'
    rule, assumptions = RULE, ASSUME

    def nontrivial(self, sc, res):
        return True


def draw_world(rng):
    return {'clock': rng.choice([0.0, 86399.5, 9.5e8, 1.6e9 + rng.random() * 2e8, 4.2e9]), 'clock_step': rng.choice([0.001, 0.0, 1.5, 3600.0]),
            'pid': rng.choice([1, 2, 4242, 32767, rng.randrange(2, 4000000)]), 'host': rng.choice(['a', 'node17', 'x-y.example']),
            'cpus': rng.choice([1, 2, 3, 8, 64]), 'idmask': rng.choice([0, 0xffff0, 0x7ffffffff0, rng.randrange(1 << 40) << 4]),
            'enc': rng.choice(['utf-8', 'latin-1', 'ascii', 'cp1252', 'utf-8']), 'list_seed': rng.randrange(1000),
            'rand_seed': rng.randrange(1000), 'tz': rng.choice([0, 3600, -36000, 19800]),
            'cols': rng.choice([0, 40, 80, 200]), 'tty': rng.random() < 0.4, 'uid': rng.choice([0, 1000, 65534])}


def draw_environ(rng, names):
    e = {}
    for n in rng.sample(sorted(names), min(len(names), rng.choice([0, 3, 8, 20]))):
        if n not in NEVER and not n.startswith('TFSIM'):
            e[n] = rng.choice(SPECIAL.get(n, VALUES) + [None])
    return e


def draw_config(rng, i, names):
    c = {'hashseed': str(rng.choice([0, rng.randrange(1, 1 << 32)]) if i else rng.randrange(1, 1 << 32)), 'flags': [], 'environ': draw_environ(rng, names),
         'env': draw_world(rng), 'install': rng.choice(['repo', 'repo', 'copy', 'link', 'deep']),
         'flavour': rng.choice(['api', 'api', 'api', 'bare'])}
    x = rng.random()
    if x < 0.2:
        c['flags'] = ['-O']
    elif x < 0.35:
        c['flags'] = ['-OO']
    elif x < 0.42:
        c['flags'] = ['-X', 'utf8=0']
    elif x < 0.49:
        c['flags'] = ['-W', 'ignore']
    elif x < 0.56:
        c['flags'] = ['-B', '-s']
    return c


PRE = {'random': [5, 77], 'argv': [['prog', '-x'], ['/simroot/home/my script.py'], ['']], 'gc': ['off', [500, 5, 5]], 'umask': [0o077, 0o002],
       'tempdir': ['/simroot/tmp'], 'sys_path': ['/simroot/lib'], 'switchinterval': [0.5], 'recursion_limit': [3000, 100000],
       'warnings': ['ignore'], 'excepthook': [1], 'displayhook': [1], 'bytecode': [True], 'stack_size': [1 << 24], 'sigint': ['own']}
PLANTED = ['', '1\n', '{}', '{"a": 1}', 'garbage\n', '[section]\nkey = value\n', '\\documentclass{article}\n\\begin{document}\n', 'x = 1\n' * 40]


# files of others in the same directories
NEAR = ['other.tex', 'other.py', 'zz.json', '../truncs.json', '../other/notes.txt', 'main.tex', 'default.cfg', '/simroot/home/x.py']


def draw_life(rng, r, names, probes=()):
    """per-run part"""
    life = {'kind': 'api', 'env': draw_world(rng), 'junk': rng.randrange(1, 1 << 30)}
    if rng.random() < 0.3:       # helper threads, if the code ever starts any, are scheduled differently
        life['sched'] = rng.choice([{'mode': 'random', 'p': rng.choice([0.5, 0.1]), 'seed': rng.randrange(1 << 30)}, {'mode': 'lockstep', 'burst': rng.choice([1, 3])}])
        if (check_cost(r) or 999) <= 30:
            life['sched']['lines'] = True
    if rng.random() < 0.4:       # what the caller did to the process before
        life['pre'] = {k: rng.choice(PRE[k]) for k in rng.sample(sorted(PRE), rng.choice([1, 3, 6]))}
    if rng.random() < 0.5:
        life['environ'] = {k: v for k, v in draw_environ(rng, names).items()}
    if r['k'].startswith('glue'):
        if rng.random() < 0.5:
            life.update(kind='cli', argv=cli_argv(r), g=r)
            return life, props.WORK + doc_name(r)
        life['ops'] = [{'do': 'req', 'r': r, 'path': 'x'}]
        return life, props.WORK + doc_name(r)
    path = rng.choice(['out', './out.tex', 'a.py', '../other/o', '/simroot/home/o.tex', '/simroot/tmp/q', '../work/zz', 'with space.tex',
                       'NAME.PY'])
    life['ops'] = [{'do': 'req', 'r': r, 'path': path}]
    for q in rng.sample(NEAR, rng.choice([0, 0, 1, 3])):
        life['ops'].insert(0, {'do': 'probes', 'paths': [q], 'recipe': {'raw': rng.choice(PLANTED)}})
    if probes and rng.random() < 0.5:
        life['ops'][-1]['path'] = 'out'
        life['ops'].insert(0, {'do': 'probes', 'r': r, 'paths': probes, 'recipe': {'raw': rng.choice(PLANTED)}})
        return life, props.WORK + 'out'
    if rng.random() < 0.4:
        life['vcwd'] = rng.choice(['/simroot', '/simroot/home', '/simroot/a/other', '/simroot/a', '/simroot/tmp'])
        if not path.startswith('/'):
            return life, os.path.normpath(life['vcwd'] + '/' + (path if not path.startswith('../') else 'up.tex')) \
                if not path.startswith('../') else fix_up(life, path)
    return life, props.vpath(path) if path != '../work/zz' else props.WORK + 'zz'


def fix_up(life, path):
    del life['vcwd']
    return props.vpath(path) if path != '../work/zz' else props.WORK + 'zz'


def install_dirs(base):
    out = {'repo': '/repo/termfactory'}
    src = '/repo/termfactory'
    for name, d in (('copy', base + '/inst/site-packages/termfactory'), ('deep', base + '/inst/a b/c/d/e/pkg')):
        shutil.copytree(src, d, ignore=shutil.ignore_patterns('__pycache__', '*.txt', '*.log'))
        out[name] = d
    for d, _, files in os.walk(base + '/inst/a b'):
        for f in files:
            os.utime(os.path.join(d, f), (1.1e9, 1.1e9))
    os.makedirs(base + '/inst/ln')
    os.symlink(src, base + '/inst/ln/tf')
    out['link'] = base + '/inst/ln/tf'
    return out


def requests(rng, n, caps):
    out, seen = [], set()
    while len(out) < n:
        cap = rng.choices([c for c, _ in caps], [w for _, w in caps])[0]
        g = Gen(rng, cap)
        r = g.good(cap, glue=0.12)
        # prefer the expensive end of the band: that is where many terms meet
        if cap > 30:
            for _ in range(4):
                q = g.good(cap, glue=0.12)
                if (check_cost(q) or 0) > (check_cost(r) or 0):
                    r = q
        if rkey(r) in seen:
            if len(seen) > 50 and rng.random() < 0.2:
                n -= 1
            continue
        seen.add(rkey(r))
        out.append(r)
    return out


def check_cost(r):
    from catalog import cost
    return cost(r)


def expect(r, refs):
    """(sha, size) the request must produce, or None when it is refused alone"""
    ref = refs[rkey(r)]
    if ref['out'] != 'ok':
        return None
    if r['k'].startswith('glue'):
        return ref['files'].get(props.WORK + doc_name(r))
    return ref['files'].get('@')


def verdict(run, res, refs):
    lr = res['lives'][0]
    if lr.get('error'):
        raise HarnessError('simulated process failed: %s\n%s' % (lr['error'], json.dumps(run)[:1500]))
    want = expect(run['r'], refs)
    if want is None:
        return None
    name = props.brief(run['r'])
    if lr.get('hang'):
        return ('stuck', '%s does not finish in this configuration' % name)
    x = lr['results'][-1] if lr['results'] else {'out': 'none'}
    ok = (x['out'] == 'ok') or (x['out'] == 'cli' and x['code'] == 0)
    if not ok:
        return ('outcome', '%s succeeds in the reference configuration, here: %s %s' % (name, x.get('exc'), x.get('code', '')))
    got = lr['final'].get(run['at'])
    if got != want:
        return ('content', '%s: %s bytes in the reference configuration are %s, here %s' % (name, run['at'], want, got))
    return ()


class Lab:
    """workers per configuration"""

    def __init__(self, pool):
        self.pool = pool
        self.inst = install_dirs(pool.base)

    def worker(self, c):
        return self.pool.new_worker(c['flavour'], hashseed=c['hashseed'], flags=c['flags'], environ=c['environ'],
                                    tfdir=None if c['install'] == 'repo' else self.inst[c['install']], env=c['env'])

    def scenario(self, c, run):
        life = dict(run['life'])
        if c['install'] != 'repo':
            life['tfdir'] = self.inst[c['install']]
        return {'lives': [life], 'limit': 180}

    def once(self, c, run):
        try:
            w = self.worker(c)
        except HarnessError as e:
            return {'lives': [{'results': [{'out': 'exc', 'exc': 'import fails: ' + str(e).strip().splitlines()[-1]}], 'final': {}}]}
        try:
            return w.run(self.scenario(c, run))
        finally:
            w.close()


NEUTRAL = {'hashseed': '0', 'flags': [], 'environ': {}, 'env': {}, 'install': 'repo', 'flavour': 'api'}


def minimise(lab, c, run, refs, cls, wall):
    end = time.monotonic() + wall
    c, run = json.loads(json.dumps(c)), json.loads(json.dumps(run))
    tried = 0

    def fails(c2, run2):
        nonlocal tried
        tried += 1
        try:
            v = verdict(run2, lab.once(c2, run2), refs.d)
        except HarnessError:
            return False
        return bool(v) and v[0] == cls
    moves = []
    for f in ('flags', 'install', 'environ', 'env', 'flavour', 'hashseed'):
        moves.append(('c', f, NEUTRAL[f]))
    for f in ('environ', 'env', 'junk', 'sched', 'pre'):
        moves.append(('l', f, None))
    for where, f, v in moves:
        if time.monotonic() > end:
            break
        c2, r2 = json.loads(json.dumps(c)), json.loads(json.dumps(run))
        if where == 'c':
            if c2[f] == v:
                continue
            c2[f] = v
        else:
            if f not in r2['life']:
                continue
            del r2['life'][f]
        if fails(c2, r2):
            c, run = c2, r2
    for where in ('c', 'l'):
        for f in ('environ', 'env'):
            for k in list((c if where == 'c' else run['life']).get(f) or {}):
                if time.monotonic() > end:
                    break
                c2, r2 = json.loads(json.dumps(c)), json.loads(json.dumps(run))
                del (c2 if where == 'c' else r2['life'])[f][k]
                if fails(c2, r2):
                    c, run = c2, r2
    # a smaller request
    progress = True
    while progress and time.monotonic() < end and run['life']['kind'] == 'api' and 't' in run['r'] and not run['r']['k'].startswith('glue'):
        progress = False
        for j, v in enumerate(run['r']['t']):
            if v > 1 and time.monotonic() < end:
                r2 = json.loads(json.dumps(run))
                r2['r']['t'][j] -= 1
                r2['life']['ops'][-1]['r'] = r2['r']
                refs.need([{'lives': [{'ops': [{'do': 'req', 'r': r2['r']}]}]}])
                if fails(c, r2):
                    run, progress = r2, True
                    break
    return c, run, tried


def search(tier, seed, dump=None):
    t0 = time.monotonic()
    pool = Pool()
    refs = check.Refs(pool)
    rng = random.Random('%s:C01:plan' % seed)
    quick = tier == 'quick'
    nreq = int(os.environ.get('TFSIM_N', '0')) or (650 if quick else 6000)
    ncfg = 40 if quick else 160
    per = 5 if quick else 6
    caps = [(30, 4), (150, 3), (600, 2), (1600, 0.7)] if quick else [(30, 2), (150, 3), (600, 3), (2500, 2), (12000, 1)]
    wall = float(os.environ.get('TFSIM_WALL', '0')) or (150 if quick else 3 * 3600)
    reqs = requests(rng, nreq, caps)
    refs.need([{'lives': [{'ops': [{'do': 'req', 'r': r} for r in reqs]}]}])
    names = set(NAMES)
    for k in refs.d.values():
        names |= set(k.get('env') or ())
    pool.get('api')
    names |= set(pool.workers['api'][0].hello.get('import_env') or ())
    names -= NEVER
    cfgs = [draw_config(random.Random('%s:C01:cfg:%d' % (seed, i)), i, names) for i in range(ncfg)]
    runs = [[] for _ in cfgs]
    for i, r in enumerate(reqs):
        rr = random.Random('%s:C01:%d' % (seed, i))
        for ci in rr.sample(range(ncfg), min(per, ncfg)):
            life, at = draw_life(rr, r, names, props.probe_paths(refs.d[rkey(r)], 'out'))
            runs[ci].append({'i': i, 'r': r, 'life': life, 'at': at})
    lab = Lab(pool)
    # the reference workers are no longer needed
    st = check.Stats()
    p = P01()
    found, errs = [], []
    lock = threading.Lock()
    nxt = iter(range(ncfg))
    deadline = t0 + wall

    def drive():
        while not found and not errs:
            with lock:
                ci = next(nxt, None)
            if ci is None:
                return
            c = cfgs[ci]
            try:
                w = lab.worker(c)
            except HarnessError as e:
                # the reference configuration did start: this one makes the package fail to import
                try:
                    lab.worker(c).close()
                    errs.append(e)
                except HarnessError:
                    good = [run for run in runs[ci] if expect(run['r'], refs.d) is not None]
                    if 'termfactory' in str(e) or 'site-packages' in str(e) or 'c/d/e/pkg' in str(e):
                        if good:
                            with lock:
                                found.append((ci, good[0], ('outcome', 'the package does not import: %s' % str(e).strip().splitlines()[-1])))
                            continue
                    errs.append(e)
                return
            try:
                for run in runs[ci]:
                    if found or errs or time.monotonic() > deadline:
                        st.skipped += 1
                        continue
                    sc = lab.scenario(c, run)
                    res = w.run(sc)
                    v = verdict(run, res, refs.d)
                    with lock:
                        st.runs += 1
                        for lr in res['lives']:
                            st.life(dict(lr, clock0=lr.get('clock') if lr.get('hang') else 0))
                        st.kinds[run['r']['k']] = st.kinds.get(run['r']['k'], 0) + 1
                        if v is not None:
                            h = hashlib.sha1(json.dumps([c, run], sort_keys=True).encode()).hexdigest()
                            if h not in st.histories:
                                st.histories.add(h)
                                st.nontrivial += 1
                                if len(st.samples) < 3:
                                    st.samples.append({'configuration': c, 'run': run})
                        if dump is not None:
                            dump.write('%d %d %s %s\n' % (ci, run['i'], check.history_hash({'l': [dict(x, final=x['final'].get(run['at'])) for x in res['lives']]}), v))
                    if v:
                        v2 = verdict(run, lab.once(c, run), refs.d)
                        with lock:
                            if v2 and v2[0] == v[0]:
                                found.append((ci, run, v2))
                            else:
                                st.unreproduced += 1
            except Exception as e:
                errs.append(e)
            finally:
                w.close()
    ths = [threading.Thread(target=drive) for _ in range(pool.n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs and not found:
        raise HarnessError(str(errs[0]))
    st.simtime = 0.0
    code = 0
    if found:
        ci, run, v = min(found, key=lambda x: (x[1]['i'], x[0]))
        c, small, tried = minimise(lab, cfgs[ci], run, refs, v[0], 60)
        res = lab.once(c, small)
        v = verdict(small, res, refs.d) or v
        path = check.write_replay('C01', seed, run['i'], small, res, [v], {'configuration': c, 'minimisation_runs': tried,
                                                                         'original': {'configuration': cfgs[ci], 'run': run}})
        print('  %s: %s' % v)
        print('VIOLATION property=C01 replay=%s' % path)
        code = 1
    check.write_evidence('C01', tier, seed, st, time.monotonic() - t0, p,
                         {'configurations': ncfg, 'requests': len(reqs), 'environment_names_varied': sorted(names),
                          'hash_seeds': len({c['hashseed'] for c in cfgs}),
                          'interpreter_flags': sorted({' '.join(c['flags']) for c in cfgs}),
                          'simulated_clock_range': [0.0, 4.2e9],
                          'faults_injected': {'configuration-variation': st.runs}}, 1 if found else 0)
    print('C01 %s seed=%d runs=%d nontrivial=%d skipped=%d refs=%d (%.0fs) wall=%.1fs' % (
        tier, seed, st.runs, st.nontrivial, st.skipped, len(refs.d), refs.time, time.monotonic() - t0))
    pool.close()
    return code
