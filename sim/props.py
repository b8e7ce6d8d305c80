"""Per property: how scenarios are generated from a seed and how the recorded history is judged.

A scenario is plain JSON and fully determines one simulated execution.  Generation draws only from the PRNG it
is given.  Judging compares the history with the reference model: each request's result in a fresh process."""
import json
import random

from catalog import Gen, cost, rkey, glue_inner, doc_name, cli_argv, KEYS, MAXIMA, KIND_TYPE, ANSATZ, DEFAULT_PATH

WORK = '/simroot/a/work/'
RECORD = '/simroot/a/truncs.json'
SAVE_WINDOW_LOCS = 12      # distinct source lines a save step may execute once the target is open


def vpath(p):
    if p.startswith('/'):
        return p
    if p.startswith('../'):
        return '/simroot/a/' + p[3:]
    return WORK + (p[2:] if p.startswith('./') else p)


def is_log(p, life=None):
    names = (life or {}).get('log_names') or ['default_logging_file.txt']
    return '/zlog/' in p or p.rsplit('/', 1)[-1] in names


def nolog(tree, life=None):
    return {k: v for k, v in (tree or {}).items() if not is_log(k, life)}


# --------------------------------------------------------------------------------------------------
# walking scenarios
# --------------------------------------------------------------------------------------------------
def walk_reqs(sc):
    """all requests a scenario mentions, with whether their size in lines is needed"""
    for life in sc['lives']:
        for m in (life.get('members') or [life]):
            if m.get('g'):
                q = glue_inner(m['g'])
                if q is not None:
                    yield q, bool(m.get('inj'))
            for op in m.get('ops', ()):
                par = op['do'] == 'par'
                for o in (op['ops'] if par else [op]):
                    if o['do'] in ('req', 'probes'):
                        yield o['r'], par or bool(o.get('inj'))
                    if o['do'] == 'put' and 'of' in o.get('recipe', {}):
                        yield o['recipe']['of'], False


def probe_paths(ref, path):
    """absent files the request looked for in its reference run, for a run with target `path`"""
    out = []
    tgt = vpath(path)
    for p in (ref or {}).get('probes') or ():
        if p == WORK + 'out' or p in ((ref or {}).get('files') or {}):
            continue
        d, b = p.rsplit('/', 1)
        if d + '/' == WORK and b.startswith(('out', '.out')):
            td, tb = tgt.rsplit('/', 1)
            p = td + '/' + b.replace('out', tb, 1)
        if p != tgt and p not in out:
            out.append(p)
    return out


def resolve(sc, refs):
    """turn fractions into concrete points, using the sizes of the reference runs"""
    def inj_n(inj, ref, extra_lines=0):
        if inj.get('frac') is None:
            return
        n = (ref or {}).get('locs' if inj['at'] == 'loc' else 'lines') or 1
        inj['n'] = int(inj.pop('frac') * (n + 1))
        if inj['at'] == 'line':
            inj['n'] += 1
    for life in sc['lives']:
        for m in (life.get('members') or [life]):
            if m.get('inj'):
                q = glue_inner(m['g']) if m.get('g') else None
                ref = refs.get(rkey(q)) if q else None
                inj_n(m['inj'], {'locs': ((ref or {}).get('locs') or 1) + 700, 'lines': ((ref or {}).get('lines') or 1) + 900})
            for op in m.get('ops', ()):
                if op['do'] == 'par':
                    tot = 0
                    for j, o in enumerate(op['ops']):
                        ref = refs.get(rkey(o['r'])) if o['do'] == 'req' else None
                        tot += (ref or {}).get('lines') or 1000
                        for e in op['sched'].get('plan', ()):
                            if e[0] == j + 1 and isinstance(e[2], float):
                                n = 6 if e[1] == 'lock' else (ref or {}).get({'loc': 'locs', 'line': 'lines', 'io': 'nops'}[e[1]]) or {'loc': 36, 'line': 60, 'io': 5}[e[1]]
                                e[2] = int(e[2] * n) + (0 if e[1] == 'loc' else 1)
                    op['budget'] = 40 * tot + 500000
                    continue
                if op['do'] == 'probes':
                    op.setdefault('paths', probe_paths(refs.get(rkey(op['r'])), op.get('path', 'out')))
                    continue
                ref = refs.get(rkey(op['r'])) if op['do'] == 'req' else {'locs': 36, 'lines': 90}
                if op.get('inj'):
                    inj_n(op['inj'], ref)
                    op['budget'] = 40 * ((ref or {}).get('lines') or 1000) + 500000
    return sc


# --------------------------------------------------------------------------------------------------
# oracles
# --------------------------------------------------------------------------------------------------
def expected_files(ref, path):
    out = {}
    for p, h in (ref.get('files') or {}).items():
        out[vpath(path) if p == '@' else p] = h
    return out


def brief(r):
    if not isinstance(r, dict):
        return str(r)
    x = r['k']
    if 't' in r:
        x += '(%s)' % ','.join(map(str, r['t']))
    if 'n' in r:
        x += '(%s%s)' % (r['n'], ',%s' % r['h'] if 'h' in r else '')
    for f in ('gs', 'rf', 'side', 'tmut', 'kw'):
        if f in r:
            x += ' %s=%s' % (f, r[f])
    return x


def check_clean(op, res, ref, tree):
    """a request without faults of its own must behave as it does alone in a fresh process"""
    bad = []
    if op['do'] == 'req':
        name = brief(op['r'])
        if res['out'] not in ('ok', 'exc'):
            return [('stuck', '%s never finishes (%s)' % (name, res['out']))]
        if res['out'] != ref['out']:
            return [('outcome', '%s alone: %s %s, here: %s %s' % (name, ref['out'], ref.get('exc'), res['out'], res.get('exc')))]
        if res['out'] == 'exc':
            if res['exc'] != ref['exc']:
                bad.append(('refusal', '%s alone raises %s, here %s' % (name, ref['exc'], res['exc'])))
        else:
            if tree is not None:
                for p, h in expected_files(ref, op.get('path', 'out')).items():
                    if tree.get(p) != h:
                        bad.append(('content', '%s: %s is %s, alone it is %s' % (name, p, tree.get(p), h)))
            if res.get('ret') != ref.get('ret'):
                bad.append(('return', '%s returns %s, alone %s' % (name, res.get('ret'), ref.get('ret'))))
    if res.get('args_changed'):
        bad.append(('args', 'the caller\'s arguments were modified by %s' % op['do']))
    return bad


def dict_of(ty, t):
    return {k: v for k, v in zip(KEYS[ty], t)}


def valid_record(d):
    """True / False / None (unspecified)"""
    if not isinstance(d, dict):
        return False
    ks = set(d)
    if not any(ks == set(x) for x in KEYS.values()):
        return False
    verdict = True
    for k, v in d.items():
        if isinstance(v, bool) or isinstance(v, float):
            verdict = None if verdict else verdict
        elif not isinstance(v, int):
            return False
        if isinstance(v, (int, float)) and not (1 <= v <= MAXIMA[k]):
            return False
    return verdict


def valid_op_trunc(op):
    d = dict_of(op['ty'], op['t'])
    for m in op.get('tmut') or ():
        if m[0] == 'drop':
            d.pop(m[1], None)
        elif m[0] == 'set':
            d[m[1]] = m[2]
        elif m[0] == 'extra':
            d[m[1]] = m[2]
        elif m[0] == 'clear':
            d.clear()
    return valid_record(d), d


def loaded(res):
    """dictionary a load returned (None if it is not one with proper keys)"""
    r = res.get('ret')
    if not isinstance(r, dict) or 'dict' not in r:
        return None
    return {k: v for k, v, kt, vt in r['dict']}


def parse_bytes(text):
    """what a byte string says as a record: dict, or None when it is not one"""
    def pairs(ps):
        if len({k for k, _ in ps}) != len(ps):
            raise LookupError
        return dict(ps)
    try:
        return 'ok', json.loads(text.encode('latin-1').decode('utf-8'), object_pairs_hook=pairs)
    except LookupError:
        return 'unspecified', None
    except (ValueError, RecursionError):
        return 'bad', None


def in_window(res):
    """did the injected fault land inside the save step?"""
    i = res.get('inj')
    return bool(i) and i.get('mut') is not None and i.get('mut_locs', 0) <= SAVE_WINDOW_LOCS


# --------------------------------------------------------------------------------------------------
# pieces for generators
# --------------------------------------------------------------------------------------------------
EXCS = ['KeyboardInterrupt', 'MemoryError', 'RecursionError', 'InjectedError']
LEVELS = [0, 1, 5, 10, 15, 20, 30, 40, 50, 60]


def gen_inj(rng, excs=EXCS):
    if rng.random() < 0.75:
        return {'at': 'loc', 'frac': rng.random(), 'hit': rng.choice([1, 1, 1, 2, 2, 3, 5, 9]), 'exc': rng.choice(excs)}
    return {'at': 'line', 'frac': rng.random(), 'exc': rng.choice(excs)}


def gen_faults(rng, stdout=True, log=False):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        x = rng.random()
        if x < 0.2:
            f = {'op': 'open_w', 'err': rng.choice(['EACCES', 'ENOSPC', 'EMFILE', 'EIO', 'EROFS', 'EPERM', 'EBUSY', 'EINTR']),
                 'n': rng.choice([0, 0, 0, 1])}
        elif x < 0.6:
            f = {'op': 'write', 'err': rng.choice(['ENOSPC', 'ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'short', 'short', 'EINTR', 'EAGAIN']),
                 'n': rng.choice([0, 0, 0, 0, 1, 2]), 'frac': round(rng.random(), 3)}
            if f['err'] == 'short' and rng.random() < 0.3:
                f['sticky'] = True
                f['frac'] = round(0.3 + 0.6 * rng.random(), 3)
            if f['err'] not in ('short', 'EINTR', 'EAGAIN') and rng.random() < 0.4:
                f['sticky'] = True
            if rng.random() < 0.3 and f['err'] != 'short':
                f['frac'] = None
        elif x < 0.75:
            f = {'op': 'close_w', 'err': rng.choice(['EIO', 'ENOSPC', 'EDQUOT', 'EINTR']), 'n': rng.choice([0, 0, 0, 1])}
        elif x < 0.85 and stdout:
            f = {'op': 'stdout', 'err': rng.choice(['EPIPE', 'ENOSPC', 'EIO', 'ValueError']), 'n': rng.choice([0, 0, 1, 5]),
                 'at': rng.choice(['write', 'write', 'flush']), 'sticky': rng.random() < 0.7}
        elif x < 0.9:
            f = {'op': 'open_r', 'err': rng.choice(['EIO', 'EACCES', 'EMFILE'])}
        elif x < 0.93:
            f = {'op': 'read', 'err': rng.choice(['EIO', 'short'])}
        elif x < 0.96:
            f = {'op': 'fsync', 'err': rng.choice(['EIO', 'ENOSPC'])}
        else:
            f = {'op': rng.choice(['rename', 'unlink']), 'err': rng.choice(['EIO', 'EACCES', 'ENOSPC'])}
        out.append(f)
    return out


def gen_recipe(rng, g, r=None):
    """what may lie at a path from earlier activity"""
    x = rng.random()
    if x < 0.06:
        return {'raw': ''}
    if x < 0.14:
        return {'raw': rng.choice(['garbage', '\n\n\n', '% user notes\n' * 40, 'import os\n', '{"a": 1}', '\\end{document}',
                                   'x' * 20000, '\r\nold\r\n'])}
    if r is not None and x < 0.75:
        of = r if rng.random() < 0.75 else g.related(r)
    else:
        of = g.good(60, glue=0)
    if of['k'].startswith('glue'):
        of = glue_inner(of) or {'k': 'w', 'n': 2}
    rc = {'of': of, 'then': []}
    y = rng.random()
    if y < 0.25:
        pass
    elif y < 0.36:
        rc['then'].append(['lines', round(rng.random(), 4), rng.choice(['\n', '\n\n', '\n\n', '\\begin{document}\n', '\\begin{document}\n\n'])])
    elif y < 0.5:
        rc['then'].append(['torn', rng.choice([0.0, round(rng.random(), 3), round(rng.random(), 3), 0.999])])
    elif y < 0.62:
        rc['then'].append(['zero', rng.choice([0.0, round(rng.random(), 3)])])
    elif y < 0.76:
        rc['then'].append(['flip', rng.choice([round(rng.random(), 4)] * 6 + [0.0, 0.9999]), rng.choice([1, 2, 4, 8, 16, 32, 32])])
    elif y < 0.82:
        rc['then'].append(['append', rng.choice(['\n', 'tail of a longer run\n' * 30, ' ', '# edited\n'])])
    elif y < 0.85:
        rc['then'].append(['double'])
    elif y < 0.95:
        rc['then'].append([rng.choice(['drop_line', 'dup_line', 'swap_lines', 'rewrap', 'case', 'crlf']), round(rng.random(), 3)])
    else:
        rc['then'].append(['torn', round(rng.random(), 3)])
        rc['then'].append(['append', 'x' * rng.randint(1, 3000)])
    return rc


def gen_trunc(rng, ty=None, bad=0.0):
    ty = ty or rng.choice(['fcc', 'fcc', 'eTz', 'zhz'])
    t = [rng.randint(1, MAXIMA[k]) for k in KEYS[ty]]
    op = {'ty': ty, 't': t}
    if rng.random() < bad:
        key = rng.choice(KEYS[ty])
        x = rng.random()
        if x < 0.6:
            op['tmut'] = [['set', key, rng.choice([0, -1, MAXIMA[key] + 1, 99])]]
        elif x < 0.9:
            op['tmut'] = [['drop', key]]
        else:
            op['tmut'] = [['extra', 'bogus', 1]]
    return op


SIDE = ['.tmp', '.bak', '~', '.old', '.lock', '.new', '.part', '.orig', '.swp', '.cache', '.json', '.1']


# outputs of other requests that are likely to lie in the same directory
DOCUMENTED = sorted({'%s%s_%s%s.tex' % (g, a, q, f) for g in ('', 'ground_state_') for a in ('full_cc', 'z_t', 'eT_z_t')
                     for q in ('symmetric_equations', 'special_LHS_terms') for f in ('', '_no_f_terms')}
                    | {'%sfull_cc_%s%s.py' % (g, q, f) for g in ('', 'ground_state_') for q in ('equations', 'special_LHS_equations') for f in ('', '_no_f_terms')}
                    | {'eT_zhz_eqs_%s_H(%d)_P(%d)_T(1)_exp(%d)_Z(%d).py' % (q, h, z, e, z) for q in ('RHS', 'LHS') for h in (1, 2) for z in (1, 2) for e in (1, 2)}
                    | {p[2:] for p in DEFAULT_PATH.values()})


def bystanders(rng, path, names):
    """files of somebody else near the target"""
    d, b = path.rsplit('/', 1) if '/' in path else ('', path)
    d = d + '/' if d else ''
    stem = b.rsplit('.', 1)[0]
    cand = names + [d + b + x for x in SIDE] + [d + '.' + b + '.swp', d + 'tmp_' + b, d + stem + '.log', d + stem + '.tex', d + stem + '.aux']
    if rng.random() < 0.4:
        cand = [x + n for n in DOCUMENTED for x in sorted({'', d})]
    return [p for p in rng.sample(cand, rng.choice([0, 1, 2, 5])) if vpath(p) != vpath(path)]


def share(rng):
    """does the caller pass a new dictionary, the one of an earlier equal request, or one it keeps refilling?"""
    return rng.choice([False, True, 'refill'])


def dp(rng, o, p=0.3):
    """sometimes let the request use its default target"""
    if o['r']['k'] in DEFAULT_PATH and rng.random() < p:
        o['path'], o['dp'] = DEFAULT_PATH[o['r']['k']], True
    return o


def argv_bad(rng):
    """(argv) refused by the command line tool"""
    return rng.choice([
        [], ['-t', '1', '2'], ['-t', '1', '1', '1', '1', '1', '1'], ['-t', 'x', '1', '1', '1'], ['-t', '0', '1', '1', '1'],
        ['-t', '1', '1', '7', '1'], ['-t', '1', '1', '2', '1', '1'], ['-t', '7', '1', '1'], ['-t', '1', '1', '1', '-a', 'bogus'],
        ['-t', '1', '1', '1', '-a', 'full cc'], ['-t', '1', '1', '1', '1', '-a', 'z_t ansatz'], ['-p', 'missing.json'],
        ['-t', '1', '1', '1', '1', '-p', '../truncs.json'], ['-p', 'broken.json'], ['--nonsense'], ['-t', '1', '1', '1', '-c'],
        ['-t', '2', '2', '2', '-es'], ['-t', '1', '2', '1', '2', '1', '-es'], ['-t', '6', '1', '1', '1', '-c'],
        ['-t', '6', '2', '1', '2', '2', '-c'], ['-t', '-1', '1', '1', '1'],
        ['-p', 'outofrange.json'], ['-p', 'missingkey.json'],
    ])


def argv_trunc(argv):
    """the truncations a command line with -t records (None: it records none)"""
    vals = []
    try:
        for a in argv[argv.index('-t') + 1:]:
            if a.startswith('-') and not a[1:].isdigit():
                break
            vals.append(int(a))
    except ValueError:
        return None
    ty = {3: 'zhz', 4: 'fcc', 5: 'eTz'}.get(len(vals))
    if ty and valid_record(dict_of(ty, vals)) and '-p' not in argv:
        return dict_of(ty, vals)
    return None


BROKEN = {
    'broken.json': '{"maximum_hamiltonian_rank": 1, "maximum_coupled_clus',
    'outofrange.json': '{"maximum_hamiltonian_rank": 1, "maximum_coupled_cluster_rank": 9, "s_taylor_max_order": 1, "omega_max_order": 1}',
    'missingkey.json': '{"maximum_hamiltonian_rank": 1, "maximum_coupled_cluster_rank": 1, "maximum_T_rank": 1, "omega_max_order": 1}',
}


def record_text(ty, t):
    return json.dumps(dict_of(ty, t))


def cli_life(rng, g, src='t'):
    g = json.loads(json.dumps(g))
    g['explicit_ansatz'] = rng.random() < 0.3
    return {'kind': 'cli', 'g': g, 'argv': cli_argv(g, src)}


LONG = {'-t': '-t', '-p': '--path', '-a': '--ansatz', '-es': '--excited_state', '-rf': '--remove_f_terms', '-c': '--code', '-lhs': '-lhs', '-s': '--stdlog',
        '-l': '--log_path'}


def spell(rng, life, log=True):
    """the same command line with options in another order, spelt differently, and with logging options"""
    groups = []
    for a in life['argv']:
        if a in LONG:
            groups.append([a])
        else:
            groups[-1].append(a)
    x = rng.random()
    if x < 0.2:
        groups.append(['-s'])
    elif x < 0.35 and log:
        groups.append(['-l', 'my.log'])
        life['log_names'] = ['my.log']
    rng.shuffle(groups)
    for gr in groups:
        if rng.random() < 0.3:
            gr[0] = LONG[gr[0]]
            if len(gr) == 2 and gr[0].startswith('--') and rng.random() < 0.3:
                gr[:] = [gr[0] + '=' + gr[1]]
    life['argv'] = [a for gr in groups for a in gr]
    return life


def cli_expect(life, refs):
    """(exit ok?, documented path, hash) for a fault-free invocation"""
    if not life.get('g'):
        return False, None, None
    g = life['g']
    q = glue_inner(g)
    if q is None:
        return False, None, None
    ref = refs[rkey(q)]
    if ref['out'] != 'ok':
        return False, None, None
    return True, WORK + doc_name(g), ref['files'].get('@')


def judge_cli(life, res, refs, before, after, faulty, strict_record=True):
    """one invocation of the command line tool in a session"""
    bad = []
    name = ' '.join(life['argv'])
    if res.get('crashed'):
        return judge_cli_crash(life, before, after, refs)
    r = (res.get('results') or [None])[0]
    if r is None:
        return [('stuck', 'driver %s: no result' % name)]
    if r['out'] != 'cli':
        return [('stuck', 'driver %s never finishes (%s)' % (name, r['out']))]
    okexp, path, h = cli_expect(life, refs)
    b, a = nolog(before, life), nolog(after, life)
    code = r['code']
    if not faulty and (code == 0) != okexp:
        bad.append(('exit', 'driver %s: exit status %s, an isolated run %s' % (name, code, 'succeeds' if okexp else 'fails')))
        return bad
    if code == 0:
        if path is None:
            bad.append(('exit', 'driver %s: exit status 0 for a request that cannot succeed' % name))
        elif a.get(path) != h or h is None:
            bad.append(('content', 'driver %s: exit status 0 but %s is %s, expected %s' % (name, path, a.get(path), h)))
    allowed = {path, RECORD} if (code == 0 or faulty) else {RECORD}
    for p in sorted(set(b) | set(a)):
        if p not in allowed and b.get(p) != a.get(p):
            bad.append(('other-file', 'driver %s (exit %s) changed %s: %s -> %s' % (name, code, p, b.get(p), a.get(p))))
    return bad


def judge_cli_crash(life, before, after, refs):
    okexp, path, h = cli_expect(life, refs)
    b, a = nolog(before, life), nolog(after, life)
    bad = []
    for p in sorted(set(b) | set(a)):
        if p not in (path, RECORD) and b.get(p) != a.get(p):
            bad.append(('other-file', 'killed driver %s changed %s' % (' '.join(life['argv']), p)))
    return bad


def life_problem(lr):
    if lr.get('dead'):
        return [('died', 'the whole process ended without an answer')]
    if lr.get('hang'):
        return [('stuck', 'the simulated process does not finish')]
    return []


# --------------------------------------------------------------------------------------------------
class Prop:
    flavour = 'api'
    quick, thorough = 1000, 15000
    rule = ''
    assumptions = []

    def judge(self, sc, res, refs):
        raise NotImplementedError

    def nontrivial(self, sc, res):
        return any(m.get('results') or m.get('crashed') for l in res['lives'] for m in (l.get('members') or [l]))


# share of each kind of request in sweeps over the source lines (about proportional to the lines each kind executes)
SWEEP_W = {'eT_py': 24, 'eT_tex': 18, 'fcc_py': 15, 'fcc_tex': 13, 'zhz_tex': 9, 'dt': 5, 'w': 4, 'res': 4, 'gw': 2, 'ew': 3,
           'glue_tex': 5, 'glue_py': 4}
SLOTS = [k for k in SWEEP_W for _ in range(SWEEP_W[k])]
random.Random('slots').shuffle(SLOTS)


def sweep_point(rng, i):
    """kind of request and position among its source lines for sweep step i: low-discrepancy, so that every line has its turn"""
    k = SLOTS[i % len(SLOTS)]
    m = i // len(SLOTS) * SWEEP_W[k] + SLOTS[:i % len(SLOTS)].count(k)
    f = (m * 0.6180339887498949 + (SWEEP_W[k] * 37 % 100) / 100 + 0.05 * rng.random()) % 1.0
    if k.startswith('glue') and rng.random() < 0.5:       # the front end itself
        return k, 0.12 * f
    return k, edge(rng, f)


def edge(rng, f):
    """the first and last lines of a request (set-up, save, clean-up) get more weight"""
    x = rng.random()
    return f if x < 0.75 else 0.05 * f if x < 0.9 else 1.0 - 0.04 * f


EVEN = ['fcc_tex', 'w', 'eT_py', 'gw', 'zhz_tex', 'dt', 'fcc_py', 'ew', 'eT_tex', 'res', 'glue_tex', 'glue_py']


def even(g, i, cap=12):
    """a small request, every kind in turn"""
    return g.of_kind(EVEN[i % len(EVEN)], cap)


class C02(Prop):
    rule = 'one run is one process life with 2-7 requests (good, refused, interrupted, storage-faulted, repeated, related); non-trivial: at least two operations completed; distinct = distinct (scenario, observed history) pairs'
    assumptions = ['reference model: the same request alone in a fresh process of the same tree and configuration']
    quick, thorough = 7200, 90000

    def long(self, rng):
        """many small requests in one process: counters, bounded caches, slow leaks"""
        g = Gen(rng, 12)
        base = [g.good(12) for _ in range(rng.choice([3, 12, 40]))]
        n = rng.choice([30, 60, 140])
        ops = []
        for j in range(n):
            r = rng.choice(base) if rng.random() < 0.85 else g.bad() if rng.random() < 0.5 else g.related(rng.choice(base), 12)
            ops.append({'do': 'req', 'r': r, 'path': 'o%d' % j if r['k'] == 'ew' else 'o%d' % (j % 3), 'share': share(rng)})
        return {'lives': [{'kind': 'api', 'ops': ops}]}

    def same(self, rng, i):
        """hundreds of tiny requests of one kind in one process"""
        g = Gen(rng, 12)
        base = sorted((g.of_kind(EVEN[i % len(EVEN)], 12) for _ in range(12)), key=lambda r: cost(r) or 99)[:rng.choice([1, 2, 4])]
        ops = []
        for j in range(rng.choice([300, 530])):
            r = base[j % len(base)]
            ops.append({'do': 'req', 'r': r, 'path': 'o%d' % j if r['k'] == 'ew' else 'o%d' % (j % 3)})
        return {'lives': [{'kind': 'api', 'ops': ops}]}

    def records(self, rng, i):
        """saves and loads that fail or are interrupted (every line has its turn), then clean ones"""
        g = Gen(rng, 12)
        ops = []
        for j in range(rng.choice([1, 2, 3])):
            o = dict(gen_trunc(rng, bad=0.2), do='save', path='../rec%d.json' % rng.randint(0, 1)) if rng.random() < 0.65 else \
                {'do': 'load', 'path': '../rec%d.json' % rng.randint(0, 1)}
            if rng.random() < 0.5:
                o['faults'] = gen_faults(rng, stdout=False)
                if o['do'] == 'load':
                    o['faults'] = [{'op': rng.choice(['open_r', 'read']), 'err': rng.choice(['EIO', 'EACCES'])}]
            elif rng.random() < 0.8:
                o['inj'] = {'at': 'loc', 'frac': (i * 0.6180339887498949) % 1.0, 'hit': rng.choice([1, 1, 2]), 'exc': rng.choice(EXCS)}
            ops.append(o)
        for j in range(rng.choice([1, 2])):
            o = dict(gen_trunc(rng), do='save', path='../rec%d.json' % j)
            ops += [o, {'do': 'load', 'path': o['path']}]
        ops.append({'do': 'req', 'r': g.good(12), 'path': 'q'})
        return {'lives': [{'kind': 'api', 'ops': ops}]}

    def sweep(self, rng, i):
        """one small request disturbed at a source line (all lines get their turn), then clean ones"""
        g = Gen(rng, 12)
        kind, frac = sweep_point(rng, i)
        r = g.of_kind(kind, 12)
        o = {'do': 'req', 'r': r, 'path': 'a', 'share': share(rng)}
        if rng.random() < 0.88:
            o['inj'] = {'at': 'loc', 'frac': frac, 'hit': rng.choice([1, 1, 1, 2, 3]), 'exc': rng.choice(EXCS)}
        else:
            o['faults'] = gen_faults(rng)
        ops = [o]
        if rng.random() < 0.2:
            ops.insert(0, {'do': 'req', 'r': g.related(r, 12), 'path': 'z', 'share': share(rng)})
        for j in range(rng.choice([1, 1, 2])):
            q = r if j == 0 and rng.random() < 0.6 else g.related(r, 12)
            ops.append({'do': 'req', 'r': q, 'path': 'b%d' % j, 'share': share(rng)})
            if q['k'] != 'ew':
                dp(rng, ops[-1])
        return {'lives': [{'kind': 'api', 'ops': ops}]}

    def gen(self, rng, i):
        if i % 4:
            return self.sweep(rng, i // 4 * 3 + i % 4 - 1)
        if i % 560 == 0:
            return self.same(rng, i // 560)
        if rng.random() < 0.025:
            return self.long(rng)
        if rng.random() < 0.1:
            return self.records(rng, i)
        logcfg = rng.random() < 0.1
        cap = rng.choice([20, 20, 60, 60, 150, 400]) if not logcfg else 12      # verbose logging is slow
        g = Gen(rng, cap)
        ops = []
        picked = [g.good(cap)]
        n = rng.choice([2, 2, 3, 3, 4, 5, 6])
        faulty = rng.random() < 0.45
        samepath = rng.random() < 0.3
        for j in range(n):
            last = j == n - 1
            x = rng.random()
            if j == 0:
                r = picked[0] if rng.random() < 0.75 else g.bad()
            elif x < 0.4:
                r = g.related(rng.choice(picked), cap)
            elif x < 0.65:
                r = rng.choice(picked)
            elif x < 0.8 and not last:
                r = g.bad()
            else:
                r = g.good(cap)
            if not last and rng.random() < 0.06:
                o = dict(gen_trunc(rng, bad=0.3), do='save', path='../rec%d.json' % rng.randint(0, 1))
                ops.append(o)
                if rng.random() < 0.8:
                    ops.append({'do': 'load', 'path': o['path']})
                continue
            picked.append(r)
            o = {'do': 'req', 'r': r, 'path': 'out' if samepath and r['k'] != 'ew' else 'out%d' % j, 'share': share(rng)}
            if faulty and not last and rng.random() < 0.5:
                if rng.random() < 0.65:
                    o['inj'] = gen_inj(rng)
                else:
                    o['faults'] = gen_faults(rng)
            elif rng.random() < 0.04 and not last:
                o['depth'] = rng.randint(5, 60)
            ops.append(o if r['k'] == 'ew' else dp(rng, o))
        if logcfg:
            ops.insert(0, {'do': 'log', 'cfg': {'levels': [['*', rng.choice(LEVELS)]], 'root_level': rng.choice(LEVELS)}})
        return {'lives': [{'kind': 'api', 'ops': ops}]}

    def judge(self, sc, res, refs):
        bad = []
        lr = res['lives'][0]
        bad += life_problem(lr)
        rec = {}
        for op, r in zip(sc['lives'][0]['ops'], lr['results']):
            if op['do'] == 'req':
                if op.get('inj') or op.get('faults') or op.get('depth'):
                    if r.get('args_changed'):
                        bad.append(('args', 'arguments modified by %s' % brief(op['r'])))
                    if r['out'] == 'deadlock':
                        bad.append(('stuck', '%s never finishes' % brief(op['r'])))
                    continue
                bad += check_clean(op, r, refs[rkey(op['r'])], r['tree'])
            elif op['do'] == 'save':
                v, d = valid_op_trunc(op)
                if r['out'] == 'ok' and v:
                    rec[op['path']] = d
                elif r['out'] == 'ok' or op.get('inj') or op.get('faults'):
                    rec[op['path']] = None
                if r['out'] in ('deadlock', 'budget'):
                    bad.append(('stuck', 'save never finishes'))
                if v and r['out'] != 'ok' and not op.get('inj') and not op.get('faults'):
                    bad.append(('outcome', 'saving valid truncations %s fails: %s' % (op['t'], r.get('exc'))))
                if r.get('args_changed'):
                    bad.append(('args', 'arguments modified by save'))
            elif op['do'] == 'load' and rec.get(op['path']) is not None:
                if (op.get('inj') or op.get('faults')) and r['out'] != 'ok':
                    continue
                if r['out'] != 'ok' or loaded(r) != rec[op['path']]:
                    bad.append(('content', 'load gives %s, saved %s' % (r.get('ret') or r.get('exc'), rec[op['path']])))
        return bad

    def nontrivial(self, sc, res):
        return len(res['lives'][0]['results']) >= 2


class C03(Prop):
    rule = 'one run is one process with 2-4 concurrent requests under a seeded scheduler (random, lock-step or planned preemption at source-line, lock and disk-operation granularity); non-trivial: more context switches than threads; distinct = distinct (scenario, history) pairs'
    assumptions = ['preemption points are source lines and bytecode instructions of termfactory, lock operations and disk operations; switches inside library code between two of them are not explored']
    quick, thorough = 3000, 40000

    def park(self, rng, i):
        """3-5 small requests of one kind, each stopped at some source lines (every line has its turn) while others run"""
        g = Gen(rng, 8)
        n = rng.choice([3, 4, 5])
        rs, plan = [], []
        stops = rng.choice([1, 1, 2, 3, 6])
        for j in range(n):
            if j == 0:
                kind, frac = sweep_point(rng, i)
                if i % 14 == 3:
                    kind, frac = rng.choice(['glue_tex', 'glue_tex', 'glue_py']), rng.random()
                rs.append(g.of_kind(kind, 8))
            else:
                frac = (frac + 0.6180339887498949 / (j + 1) + 0.1 * rng.random()) % 1.0
                rs.append(dict(rs[0]) if rng.random() < 0.3 else g.related(rng.choice(rs), 8) if rng.random() < 0.8 else g.of_kind(kind, 8))
            for _ in range(stops):
                e = [j + 1, 'loc', frac if _ == 0 else edge(rng, rng.random()), rng.choice([1, 1, 1, 2])]
                if kind.startswith('glue') and rng.random() < 0.5:       # the front end itself
                    e[2:] = [0.12 * rng.random(), 1]
                if rng.random() < 0.2:
                    e.append(rng.randint(1, 14))
                plan.append(e)
        rng.shuffle(rs)
        if rng.random() < 0.3:
            plan.append([rng.randint(1, n), rng.choice(['io', 'loc']), rng.random(), 1])
        ops, names = [], set()
        for j, r in enumerate(rs):
            if r['k'].startswith('glue'):
                for _ in range(12):        # one front end, different outputs
                    if doc_name(r) not in names:
                        break
                    r = g.related(rng.choice(rs), 8)
                    if not r['k'].startswith('glue') or glue_inner(r) is None:
                        r = rs[j]
                if doc_name(r) in names:
                    r = g.of_kind('w')
                else:
                    names.add(doc_name(r))
            ops.append({'do': 'req', 'r': r, 'path': 'o%d' % j if not r['k'].startswith('glue') else doc_name(r)})
        sched = {'mode': 'plan', 'plan': plan}
        if kind.startswith('glue') and rng.random() < 0.4:
            return {'lives': [{'kind': 'api', 'ops': [{'do': 'par', 'ops': ops, 'sched': rng.choice([
                {'mode': 'lockstep', 'burst': rng.choice([1, 1, 2, 3])}, {'mode': 'random', 'p': rng.choice([0.5, 0.2]), 'seed': rng.randrange(1 << 30)}])}]}], 'limit': 90}
        if any(len(e) > 4 for e in plan):
            sched['instr'] = True
        return {'lives': [{'kind': 'api', 'ops': [{'do': 'par', 'ops': ops, 'sched': sched}]}], 'limit': 90}

    def gen(self, rng, i):
        if i % 3:
            return self.park(rng, i // 3 * 2 + i % 3 - 1)
        cap = rng.choice([6, 12, 12, 25, 60])
        g = Gen(rng, cap)
        n = rng.choice([2, 2, 2, 3, 4])
        rs = [g.good(cap, glue=0) if rng.random() < 0.85 else g.bad()]
        for _ in range(n - 1):
            x = rng.random()
            rs.append(g.related(rs[0], cap) if x < 0.5 else dict(rs[0]) if x < 0.6 else g.good(cap, glue=0) if x < 0.9 else g.bad())
        ops = [{'do': 'req', 'r': r, 'path': rng.choice(['o%d', 'o%d', './o%d.tex', '../other/o%d', '/simroot/home/o%d.py']) % j}
               for j, r in enumerate(rs)]
        pre = []
        y = rng.random()
        if y < 0.06:
            ops[-1] = dict(gen_trunc(rng), do='save', path='../r.json')
        elif y < 0.14:         # the truncation records: several writers and readers, each with its own file
            t = gen_trunc(rng)
            pre = [dict(t, do='save', path='../seen.json')]
            ops = [dict(gen_trunc(rng), do='save', path='../r%d.json' % j) if rng.random() < 0.5 else
                   dict(do='load', path='../seen.json', want=dict_of(t['ty'], t['t'])) for j in range(n)]
            rs = []
        elif y < 0.2:          # through the front end: documented names, distinct
            seen = set()
            for o in ops:
                q = g.glue(cap)
                if doc_name(q) not in seen:
                    seen.add(doc_name(q))
                    o['r'], o['path'] = q, doc_name(q)
            rs = [o['r'] for o in ops if not o['r']['k'].startswith('glue')]
        kinds = [o['r']['k'] for o in ops if o['do'] == 'req']
        for o in ops:
            if o['do'] == 'req' and kinds.count(o['r']['k']) == 1:
                dp(rng, o)
        m = rng.random()
        if m < 0.35:
            sched = {'mode': 'random', 'p': rng.choice([0.5, 0.2, 0.05, 0.01, 0.003]), 'seed': rng.randrange(1 << 30)}
        elif m < 0.55:
            sched = {'mode': 'lockstep', 'burst': rng.choice([1, 1, 2, 3, 7, 20, 100])}
        elif m < 0.6:
            sched = {'mode': 'random', 'p': rng.choice([0.3, 0.05, 0.01, 0.003]), 'seed': rng.randrange(1 << 30), 'instr': True}
        else:
            plan = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
                kind = rng.choice(['loc', 'loc', 'loc', 'line', 'io', 'lock'])
                hit = rng.choice([1, 1, 1, 2, 2, 3, 5]) if kind == 'loc' else 1
                plan.append([rng.randint(1, len(ops)), kind, rng.random(), hit])
            sched = {'mode': 'plan', 'plan': plan}
            for e in plan:
                if e[1] != 'loc':
                    e[3] = 1
        life = pre + [{'do': 'par', 'ops': ops, 'sched': sched}]
        if rs and rng.random() < 0.25:
            life.append({'do': 'req', 'r': rng.choice(rs), 'path': 'after'})
        life += [{'do': 'load', 'path': o['path'], 'want': dict_of(o['ty'], o['t'])} for o in ops if o['do'] == 'save']
        return {'lives': [{'kind': 'api', 'ops': life}], 'limit': 90}

    def judge(self, sc, res, refs):
        lr = res['lives'][0]
        bad = life_problem(lr)
        for op, r in zip(sc['lives'][0]['ops'], lr['results']):
            if op['do'] == 'par':
                if r.get('deadlock'):
                    bad.append(('stuck', 'requests wait for each other forever'))
                for o, t in zip(op['ops'], r['threads']):
                    if t is None:
                        bad.append(('stuck', '%s never finishes' % brief(o.get('r', 'save'))))
                    elif o['do'] == 'req':
                        bad += check_clean(o, t, refs[rkey(o['r'])], r['tree'])
                    elif t['out'] != 'ok':
                        bad.append(('outcome', 'concurrent %s fails: %s' % (o['do'], t.get('exc'))))
                    elif o['do'] == 'load' and loaded(t) != o['want']:
                        bad.append(('content', 'concurrent load gives %s, the record says %s' % (t.get('ret'), o['want'])))
            elif op['do'] == 'load':
                if r['out'] != 'ok' or loaded(r) != op['want']:
                    bad.append(('content', 'a record saved concurrently loads as %s, saved %s' % (r.get('ret') or r.get('exc'), op['want'])))
            elif op['do'] == 'req':
                bad += check_clean(op, r, refs[rkey(op['r'])], r['tree'])
        return bad

    def nontrivial(self, sc, res):
        return any(r.get('switches', 0) > len(r['threads']) for r in res['lives'][0]['results'] if r['out'] == 'par')


class C04(Prop):
    rule = 'one run puts files on the disk, then issues a request that is refused or has a failure injected at a seeded source line; non-trivial: that request did fail; distinct = distinct (scenario, history) pairs'
    assumptions = ['a failure injected after the target was first opened counts as part of the save step if at most 12 distinct source lines ran since']
    quick, thorough = 8000, 60000

    def gen(self, rng, i):
        cap = rng.choice([15, 40, 40, 150])
        g = Gen(rng, cap)
        ops = []
        x = rng.random()
        sweep = sweep_point(rng, i // 2) if i % 2 else None
        if sweep:
            x = 1.0
        if x < 0.14:
            path = '../truncs.json'
            if rng.random() < 0.9:
                t = gen_trunc(rng)
                ops.append({'do': 'put', 'path': path, 'recipe': {'raw': record_text(t['ty'], t['t'])}})
            o = dict(gen_trunc(rng, bad=1.0), do='save', path=path)
            return {'lives': [{'kind': 'api', 'ops': ops + [o]}]}
        natural = x < 0.75
        r = g.of_kind(sweep[0], 12) if sweep else g.bad() if natural else g.good(cap)
        if r['k'].startswith('glue'):
            q = glue_inner(r)
            path = doc_name(r) if q is not None else 'x'
        else:
            path = rng.choice(['out', './out.tex', '../other/out', '/simroot/home/out.py'])
        d = dp(rng, {'r': r, 'path': path})
        path = d['path']
        if rng.random() < 0.85:
            o = {'do': 'put', 'path': path, 'recipe': gen_recipe(rng, g, r if not natural else None)}
            if rng.random() < 0.3:
                o['mtime'] = rng.choice([0, 1.6e9, 1.8e9])
            ops.append(o)
        for p in bystanders(rng, path, ['notes.txt', 'out.tex', '../other/keep', '../truncs.json', 'temp.txt']):
            ops.append({'do': 'put', 'path': p, 'recipe': {'raw': 'precious %s\n' % p}})
        if rng.random() < 0.1:
            ops.append({'do': 'req', 'r': g.good(cap), 'path': 'first'})
        o = dict(d, do='req')
        if not natural:
            y = rng.random()
            if sweep:
                o['inj'] = {'at': 'loc', 'frac': sweep[1], 'hit': rng.choice([1, 1, 1, 2, 3]), 'exc': rng.choice(EXCS)}
            elif y < 0.9:
                o['inj'] = gen_inj(rng)
            else:
                o['depth'] = rng.randint(3, 45)
        ops.append(o)
        return {'lives': [{'kind': 'api', 'ops': ops}]}

    def judge(self, sc, res, refs):
        lr = res['lives'][0]
        bad = life_problem(lr)
        before = {}
        for op, r in zip(sc['lives'][0]['ops'], lr['results']):
            after = nolog(r['tree'])
            if op['do'] in ('req', 'save') and r['out'] == 'exc':
                tgt = vpath(op.get('path', 'out'))
                ch = [p for p in set(before) | set(after) if before.get(p) != after.get(p)]
                what = brief(op['r']) if op['do'] == 'req' else 'save'
                for p in sorted(ch):
                    if op.get('inj') and in_window(r):
                        continue
                    if op.get('depth') and (p == tgt or (op['do'] == 'req' and op['r']['k'].startswith('glue'))):
                        continue       # the stack may have run out inside the save step
                    bad.append(('touched', '%s failed with %s%s but %s went from %s to %s' % (
                        what, r['exc'], ' (injected at %s)' % r['inj']['at'] if r.get('inj') else '', p, before.get(p), after.get(p))))
            if op['do'] == 'req' and r['out'] in ('deadlock',):
                bad.append(('stuck', brief(op['r'])))
            before = after
        return bad

    def nontrivial(self, sc, res):
        rs = res['lives'][0]['results']
        return bool(rs) and rs[-1]['out'] == 'exc'


class C05(Prop):
    rule = 'one run is a request, a save or a command-line invocation with seeded storage/stdout faults or an injected internal failure; non-trivial: a fault actually fired; distinct = distinct (scenario, history) pairs'
    assumptions = ['write-back errors that the kernel reports to nobody are outside the model: a fault is always visible to the failing call']
    quick, thorough = 9000, 60000

    def gen(self, rng, i):
        cap = rng.choice([15, 40, 40, 150])
        g = Gen(rng, cap)
        x = rng.random()
        sweep = None
        if i % 3:
            x = 1.0
            sweep = sweep_point(rng, i // 3) if i % 3 == 1 else (EVEN[i // 3 % len(EVEN)], None)
        if x < 0.2:       # command line tool
            q = g.glue(cap)
            loud = rng.random() < 0.25
            for _ in range(20 if loud else 0):      # the generator that prints most
                if q['k'] == 'glue_py' and q['ty'] == 'eTz' and glue_inner(q) is not None and (cost(glue_inner(q)) or 0) > 4:
                    break
                q = g.glue(max(cap, 40))
            life = cli_life(rng, q)
            if loud:
                life['faults'] = [{'op': 'stdout', 'err': rng.choice(['EPIPE', 'EPIPE', 'ENOSPC', 'EIO', 'ValueError']), 'n': rng.choice([0, 0, 1, 5]),
                                   'at': rng.choice(['write', 'write', 'flush']), 'sticky': rng.random() < 0.7}]
            elif rng.random() < 0.7:
                life['faults'] = gen_faults(rng)
                if rng.random() < 0.5:
                    for f in life['faults']:
                        if f['op'] in ('open_w', 'write', 'close_w'):
                            f['file'] = doc_name(life['g'])
            else:
                life['inj'] = gen_inj(rng)
            return {'lives': [life], 'flavour': 'bare'}
        if x < 0.4:        # the truncation record
            ops = [dict(gen_trunc(rng), do='save', path='../truncs.json')]
            ops.append(dict(gen_trunc(rng), do='save', path='../truncs.json'))
            ops[-1]['faults' if rng.random() < 0.7 else 'inj'] = None
            if 'faults' in ops[-1]:
                ops[-1]['faults'] = gen_faults(rng)
            else:
                ops[-1]['inj'] = gen_inj(rng)
            ops.append({'do': 'load', 'path': '../truncs.json'})
            return {'lives': [{'kind': 'api', 'ops': ops}]}
        r = g.of_kind(sweep[0], rng.choice([12, 12, 40])) if sweep else g.good(cap)
        d = dp(rng, {'r': r, 'path': 'out'})
        path = d['path']
        ops = []
        if rng.random() < 0.6:
            p = doc_name(r) if r['k'].startswith('glue') else path
            ops.append({'do': 'put', 'path': p, 'recipe': gen_recipe(rng, g, r)})
        o = dict(d, do='req')
        if sweep and sweep[1] is not None:
            o['inj'] = {'at': 'loc', 'frac': sweep[1], 'hit': rng.choice([1, 1, 1, 2, 3]), 'exc': rng.choice(EXCS)}
            if rng.random() < 0.3:       # inside the save step
                o['inj'].update(frac=1.0 - 0.05 * rng.random(), hit=1)
        elif sweep or rng.random() < 0.75:
            o['faults'] = gen_faults(rng)
        else:
            o['inj'] = gen_inj(rng)
        ops.append(o)
        if rng.random() < 0.5:
            ops.append(dict(d, do='req'))      # the caller retries once the fault is gone
        return {'lives': [{'kind': 'api', 'ops': ops}]}

    def judge(self, sc, res, refs):
        lr = res['lives'][0]
        bad = life_problem(lr)
        life = sc['lives'][0]
        if life['kind'] == 'cli':
            if not lr.get('hang'):
                bad += [b for b in judge_cli(life, lr, refs, {}, lr['final'], bool(lr.get('fired'))) if b[0] != 'other-file']
            return bad
        header = {}
        saved = None
        for op, r in zip(life['ops'], lr['results']):
            if op['do'] == 'put':
                header[op['path']] = r.get('has_header')
            if op['do'] == 'req':
                ref = refs[rkey(op['r'])]
                if op['r']['k'] == 'ew' and header.get(op.get('path')):
                    continue            # an existing preamble is kept: C06 decides that case
                if r['out'] == 'ok' and not ref.get('files'):
                    bad.append(('silent-missing', '%s reports success without having written its target' % brief(op['r'])))
                if op.get('faults') or op.get('inj'):
                    if r['out'] in ('deadlock', 'budget'):
                        bad.append(('stuck', '%s never finishes' % brief(op['r'])))
                    elif r['out'] == 'ok':
                        if ref['out'] == 'ok':
                            bad += [('silent-' + c, m) for c, m in check_clean(op, r, ref, r['tree'])]
                        else:
                            bad.append(('silent-outcome', '%s reports success under a fault' % brief(op['r'])))
                else:
                    bad += check_clean(op, r, ref, r['tree'])
            elif op['do'] == 'save' and r['out'] == 'ok':
                saved = valid_op_trunc(op)[1]
            elif op['do'] == 'save':
                saved = None
            elif op['do'] == 'load' and saved is not None:
                if r['out'] != 'ok' or loaded(r) != saved:
                    bad.append(('silent-record', 'save of %s reported success under a fault; load gives %s' % (
                        saved, r.get('ret') or r.get('exc'))))
        return bad

    def nontrivial(self, sc, res):
        return bool(res['lives'][0].get('fired'))


class C06(Prop):
    rule = 'one run is a history of process lives on one disk: leftovers, crashes at seeded disk operations or source lines with torn/lost/zeroed page cache, then a clean regeneration; non-trivial: a crash happened or the disk was not empty; distinct = distinct (scenario, history) pairs'
    assumptions = ['a crash loses at most writes of the crashed life']
    quick, thorough = 7000, 45000

    def gen(self, rng, i):
        cap = rng.choice([15, 40, 40, 150])
        g = Gen(rng, cap)
        x = rng.random()
        if x < 0.08:
            g1 = g.glue(cap)
            l1 = cli_life(rng, g1)
            l1['crash'] = self.crash(rng, 6)
            l2 = cli_life(rng, g1)
            return {'lives': [l1, l2], 'flavour': 'bare'}
        r = even(g, i // 2) if i % 2 else g.good(cap)
        while r['k'].startswith('glue') and glue_inner(r) is None:
            r = g.good(cap)
        path = doc_name(r) if r['k'].startswith('glue') else rng.choice(['out', './out', '../other/x.tex', '/simroot/home/y'])
        q = dp(rng, {'do': 'req', 'r': r, 'path': path})
        path = q['path']
        by = [{'do': 'put', 'path': p, 'recipe': {'raw': 'bystander %s\n' % p * 9}}
              for p in bystanders(rng, path, ['notes.txt', '../truncs.json', '../other/out', 'output.txt', 'temp.txt'])]
        if x < 0.6:
            put = {'do': 'put', 'path': path, 'recipe': gen_recipe(rng, g, r)}
            if rng.random() < 0.6:
                put['mtime'] = rng.choice([0, 1, 1.5e9, 1.7e9, 1.7e9 + 0.01, 1.7e9 + 5, 4e9])
            if rng.random() < 0.2:
                by.append({'do': 'probes', 'r': r, 'path': path, 'recipe': gen_recipe(rng, g, r)})
            lives = [{'kind': 'api', 'ops': by + [put, q] + ([dict(q)] if rng.random() < 0.4 else [])}]
        else:
            lives = []
            pre = list(by)
            if rng.random() < 0.5:
                pre.append({'do': 'put', 'path': path, 'recipe': gen_recipe(rng, g, r)})
            prev = r if rng.random() < 0.7 else g.related(r, cap)
            for c in range(rng.choice([1, 1, 1, 2])):
                o = dict(q, r=prev if not r['k'].startswith('glue') else r)
                if prev['k'] != r['k']:
                    o.pop('dp', None)
                life = {'kind': 'api', 'ops': (pre if c == 0 else []) + [o]}
                if rng.random() < 0.6:
                    life['crash'] = self.crash(rng, 4)
                else:
                    o['inj'] = gen_inj(rng, ['crash'])
                    if rng.random() < 0.5:
                        life['crash'] = dict(self.crash(rng, 4), op=-1)
                lives.append(life)
            ops = [dict(q)]
            if rng.random() < 0.25:
                ops.append(dict(q))
            lives.append({'kind': 'api', 'ops': ops})
        if rng.random() < 0.25:
            for k, l in enumerate(lives):
                l['env'] = {'clock': rng.choice([1.6e9, 1.7e9, 1.7e9 - 86400 * k, 1.7e9 + 86400 * 365 * k])}
        return {'lives': lives}

    def crash(self, rng, n):
        t = rng.random()
        tear = ['keep'] if t < 0.3 else [rng.choice(['lost', 'empty', ['torn', round(rng.random(), 3)], ['torn', round(rng.random(), 3)],
                                                     ['zero', round(rng.random(), 3)]])]
        return {'op': rng.randint(1, n), 'part': rng.choice([None, 0.0, round(rng.random(), 3), 1.0]), 'tear': tear}

    def judge(self, sc, res, refs):
        bad = []
        bystanders = {}
        targets = set()
        before = {}
        header = False
        ewlast = None
        for life, lr in zip(sc['lives'], res['lives']):
            bad += life_problem(lr)
            if lr.get('hang'):
                break
            if life['kind'] == 'cli':
                bad += judge_cli(life, lr, refs, before, lr['final'], bool(life.get('crash')) and not lr['results'])
                before = lr['final']
                continue
            for op, r in zip(life['ops'], lr['results']):
                if op['do'] == 'put':
                    if op['recipe'].get('raw', '').startswith('bystander'):
                        bystanders[vpath(op['path'])] = r['tree'].get(vpath(op['path']))
                    else:
                        header = header or r.get('has_header')
                elif op['do'] == 'req':
                    targets.add(vpath(op['path']))
                    ref = refs[rkey(op['r'])]
                    if op['r']['k'] == 'ew' and header:
                        h = r['tree'].get(vpath(op['path']))
                        if r['out'] != 'ok':
                            bad.append(('outcome', 'ew over a document with preamble: %s' % r.get('exc')))
                        elif ewlast is not None and ewlast != h:
                            bad.append(('content', 'thermal W document changes when regenerated: %s -> %s' % (ewlast, h)))
                        ewlast = h
                    elif not op.get('inj'):
                        bad += check_clean(op, r, ref, r['tree'])
            for p, h in bystanders.items():
                if p not in targets and lr['final'].get(p) != h:
                    bad.append(('bystander', '%s damaged: %s -> %s' % (p, h, lr['final'].get(p))))
            before = lr['final']
        return bad

    def nontrivial(self, sc, res):
        return any(l.get('crashed') for l in res['lives']) or any(o['do'] == 'put' for o in sc['lives'][0].get('ops', ()))


class C07(Prop):
    rule = 'one run is a history of save/load/corrupt/crash steps over several process lives, or a command-line session using the record; non-trivial: always; distinct = distinct (scenario, history) pairs'
    assumptions = ['an acknowledged save is required to survive process crashes, not power loss (the code does not fsync and documents no such promise)', 'records with duplicate keys, booleans or floats are unspecified and not judged']
    quick, thorough = 7000, 40000
    P = '../truncs.json'
    P2 = 'mine.json'

    def gen(self, rng, i):
        x = rng.random()
        if x < 0.13:
            return self.gen_cli(rng)
        if x < 0.2:
            return self.gen_use(rng)
        lives = []
        used = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops = []
            life = {'kind': 'api', 'ops': ops}
            for _ in range(rng.choice([1, 2, 3, 4])):
                y = rng.random()
                if y < 0.45:
                    t = rng.choice(used) if used and rng.random() < 0.3 else gen_trunc(rng, bad=0.25)
                    used.append(t)
                    o = dict(t, do='save', path=self.P if rng.random() < 0.85 else self.P2, content=True)
                    z = rng.random()
                    if z < 0.15:
                        o['faults'] = gen_faults(rng, stdout=False)
                    elif z < 0.3:
                        o['inj'] = gen_inj(rng)
                    ops.append(o)
                elif y < 0.78:
                    o = {'do': 'load', 'path': self.P if rng.random() < 0.85 else self.P2, 'content': True}
                    if rng.random() < 0.3:
                        t = gen_trunc(rng)
                        o['into'] = [t['ty'], t['t']]
                    z = rng.random()
                    if z < 0.1:
                        o['faults'] = [{'op': rng.choice(['read', 'open_r']), 'err': rng.choice(['EIO', 'EACCES'])}]
                    elif z < 0.2:
                        o['faults'] = [{'op': 'read', 'err': 'short', 'sticky': True, 'frac': 0.3}]
                    ops.append(o)
                elif y < 0.93:
                    ops.append({'do': 'corrupt', 'path': self.P, 'then': self.damage(rng)} if rng.random() < 0.9 else
                               {'do': 'delete', 'path': self.P})
                    if used and rng.random() < 0.15:
                        ops.append(dict(rng.choice(used), do='save', path=self.P, content=True))
                    ops.append({'do': 'load', 'path': self.P, 'content': True})
                else:
                    ops.append({'do': 'put', 'path': self.P, 'recipe': {'raw': self.raw(rng)}})
                    ops.append({'do': 'load', 'path': self.P, 'content': True})
            if rng.random() < 0.35:
                c = C06.crash(self, rng, 5)
                life['crash'] = c
            lives.append(life)
        lives.append({'kind': 'api', 'ops': [{'do': 'load', 'path': self.P, 'content': True}]})
        if rng.random() < 0.2:
            for l in lives:
                l['env'] = {'enc': rng.choice(['utf-8', 'latin-1', 'ascii', 'cp1252'])}
        return {'lives': lives}

    def gen_use(self, rng):
        """a record, saved or written by hand with its keys in any order, drives generation in this or a later process"""
        g = Gen(rng, 25)
        r = g.of_kind(rng.choice(sorted(KIND_TYPE)), 25)
        if r['k'] not in KIND_TYPE:
            r = {'k': 'fcc_tex', 't': [1, 1, 1, 1], 'gs': True, 'rf': False}
        ty = KIND_TYPE[r['k']]
        first = {'do': 'save', 'ty': ty, 't': r['t'], 'path': self.P, 'content': True}
        if rng.random() < 0.4:
            items = list(dict_of(ty, r['t']).items())
            rng.shuffle(items)
            first = {'do': 'put', 'path': self.P, 'recipe': {'raw': json.dumps(dict(items), indent=rng.choice([None, 1]))}}
        use = {'do': 'req', 'r': r, 'path': 'out', 'from': self.P}
        load = {'do': 'load', 'path': self.P, 'content': True}
        if rng.random() < 0.5:
            return {'lives': [{'kind': 'api', 'ops': [first, load, use]}]}
        return {'lives': [{'kind': 'api', 'ops': [first]}, {'kind': 'api', 'ops': [use, load]}]}

    def damage(self, rng):
        x = rng.random()
        if x < 0.45:
            return [['torn', round(rng.random(), 3)]]
        if x < 0.55:
            return [['zero', round(rng.random(), 3)]]
        if x < 0.85:
            if rng.random() < 0.3:
                return [['insert', round(rng.random(), 4), rng.choice(['\xff', '\x80', '\0', '\xef\xbb\xbf', ',', '}', '1', 'x'])]]
            return [['flip', round(rng.random(), 4), 1 << rng.randrange(8)]]
        return [['append', rng.choice(['\n', '}', '{}', 'x', ' ', '\0\0\0', '\xff'])]]

    def raw(self, rng):
        """records written by something else, an older version, or a user"""
        ty = rng.choice(['fcc', 'eTz', 'zhz'])
        d = dict_of(ty, [rng.randint(1, MAXIMA[k]) for k in KEYS[ty]])
        x = rng.random()
        k = rng.choice(list(d))
        if x < 0.3:
            d[k] = rng.choice([0, -1, MAXIMA[k] + 1, 100, None, '2', [1], {}])
        elif x < 0.5:
            del d[k]
        elif x < 0.6:
            del d[k]
            d[rng.choice(sorted(MAXIMA))] = 1
        elif x < 0.75:
            d[rng.choice(['extra', 'maximum_T_rank', 'max_h_rank', 'H', 's_taylor_max_order'])] = 1
        elif x < 0.83:
            return rng.choice(['', '{}', '[]', 'null', '3', '"x"', '[1,2,3]', '{"maximum_hamiltonian_rank": 1}', 'NaN'])
        elif x < 0.9:
            y = rng.randrange(10)
            if y == 0:
                return json.dumps(list(d.items()))
            if y == 1:
                return json.dumps([d])
            if y == 2:
                return json.dumps({'truncations': d})
            if y == 3:
                return json.dumps(json.dumps(d))
            if y == 4:
                return json.dumps(d)[:-1] + ',}'
            if y == 5:
                return '// truncations\n' + json.dumps(d)
            if y == 6:
                return str(d)
            if y == 7:
                return '\xef\xbb\xbf' + json.dumps(d)
            if y == 8:
                d[rng.choice([' %s', '%s ', '%s\n']) % k] = d.pop(k)
            else:
                d[rng.choice([k.upper(), k.title(), k.replace('_', '-'), k[:-1]])] = d.pop(k)
        items = list(d.items())
        rng.shuffle(items)
        return json.dumps(dict(items), indent=rng.choice([None, 2]))

    def gen_cli(self, rng):
        g = Gen(rng, 40)
        gl = g.glue(40)
        lives = [cli_life(rng, gl)]
        y = rng.random()
        if y < 0.3:
            lives.append({'kind': 'cli', 'argv': argv_bad(rng)})
        elif y < 0.5:
            o = dict(gen_trunc(rng, bad=1.0))
            v = valid_op_trunc(o)[1]
            if set(v) == set(KEYS[o['ty']]):
                lives.append({'kind': 'cli', 'argv': ['-t'] + [str(v[k]) for k in KEYS[o['ty']]]})
        l2 = cli_life(rng, gl, '../truncs.json')
        lives.append({'kind': 'api', 'ops': [{'do': 'load', 'path': self.P, 'content': True}]})
        if rng.random() < 0.35:       # only damage that cannot turn it into another valid (and possibly huge) request
            x = rng.random()
            how = [['flip']]
            while how[0][0] in ('flip', 'insert'):
                how = self.damage(rng)
            raw = self.raw(rng)
            while valid_record(parse_bytes(raw)[1]) is not False:
                raw = self.raw(rng)
            lives[-1]['ops'].insert(0, {'do': 'corrupt', 'path': self.P, 'then': how} if x < 0.6 else
                                    {'do': 'put', 'path': self.P, 'recipe': {'raw': raw}})
        lives.append(l2)
        return {'lives': lives, 'flavour': 'bare', 'cli': True}

    def judge(self, sc, res, refs):
        if sc.get('cli'):
            return self.judge_cli(sc, res, refs)
        bad = []
        ack = {}             # record -> the acknowledged value (absent: unknown state)
        prev = {}
        for life, lr in zip(sc['lives'], res['lives']):
            bad += life_problem(lr)
            n = 0
            for op, r in zip(life['ops'], lr['results']):
                n += 1
                if op['do'] == 'req':
                    bad += check_clean(op, r, refs[rkey(op['r'])], r['tree'])
                    continue
                rp = vpath(op['path'])
                h, prev_hash = r['tree'].get(rp), prev.get(rp)
                if op['do'] == 'save':
                    v, d = valid_op_trunc(op)
                    fired = (op.get('faults') or op.get('inj'))
                    if r['out'] == 'ok':
                        ack[rp] = d
                        if v is False:
                            bad.append(('accepted', 'save accepted invalid truncations %s' % d))
                    elif r['out'] == 'exc':
                        if v and not fired:
                            bad.append(('outcome', 'save of valid truncations fails with %s' % r['exc']))
                        if v is False and not fired and h != prev_hash:
                            bad.append(('touched', 'a refused save changed the record %s -> %s' % (prev_hash, h)))
                        if h != prev_hash:
                            ack.pop(rp, None)
                    else:
                        bad.append(('stuck', 'save never finishes'))
                elif op['do'] == 'load':
                    bad += self.check_load(op, r, ack.get(rp))
                    if h != prev_hash:
                        bad.append(('touched', 'loading changed the record'))
                else:
                    ack.pop(rp, None)
                for p in (RECORD, vpath(self.P2)):
                    if p != rp and r['tree'].get(p) != prev.get(p):
                        bad.append(('touched', '%s of %s changed the record %s' % (op['do'], rp, p)))
                    prev[p] = r['tree'].get(p)
            if lr.get('crashed'):
                # whatever operation was in flight (or the page cache) may be lost
                cur = life['ops'][n] if n < len(life['ops']) else None
                tear = (life['crash'].get('tear') or ['keep'])[0]
                if cur is None or tear != 'keep':
                    ack = {}
                elif cur['do'] == 'save':
                    ack.pop(vpath(cur['path']), None)
            if lr.get('crashed') or life.get('crash'):
                prev = {p: lr['final'].get(p) for p in (RECORD, vpath(self.P2))}
        return bad

    def check_load(self, op, r, ack):
        faults = op.get('faults')
        text = r.get('content')
        if op.get('into'):
            if r['out'] == 'ok':
                r = dict(r, ret=r['into'])
            elif r['out'] == 'exc' and loaded({'ret': r['into']}) != dict_of(*op['into']):
                return [('partly', 'a load that failed (%s) left the dictionary it was given as %s' % (r['exc'], r['into']))]
        if r['out'] == 'ok':
            d = loaded(r)
            if d is None:
                return [('load', 'load returned %s' % r.get('ret'))]
            if ack is not None and d != ack:
                return [('load', 'saved %s but loaded %s' % (ack, d))]
            if any(kt != 'TruncationsKeys' for _, _, kt, _ in r['ret']['dict']) and ack is not None:
                return [('load', 'loaded keys are not truncation keys: %s' % r['ret'])]
            if text is None:
                return [('accepted', 'load of a missing record returned %s' % d)]
            st, got = parse_bytes(text)
            if st == 'unspecified':
                return []
            v = valid_record(got) if st == 'ok' else False
            if v is False:
                return [('accepted', 'damaged or invalid record accepted: %r -> %s' % (text[:200], d))]
            if v and got != d:
                return [('load', 'record %r loaded as %s' % (text[:200], d))]
            return []
        if r['out'] == 'exc':
            if ack is not None and not (faults and any(f['err'] != 'short' for f in faults)):
                return [('load', 'record of acknowledged save %s does not load: %s' % (ack, r['exc']))]
            return []
        return [('stuck', 'load never finishes')]

    def judge_cli(self, sc, res, refs):
        bad = []
        before = {}
        want = damaged = None       # damaged: None untouched, False invalid, True some valid record
        for life, lr in zip(sc['lives'], res['lives']):
            bad += life_problem(lr)
            if lr.get('hang'):
                return bad
            if life['kind'] == 'cli':
                r = (lr['results'] or [{}])[0]
                if '-p' in life['argv'] and life.get('g') and damaged is not None:
                    if damaged is False:
                        if r.get('code') == 0:
                            bad.append(('accepted', 'driver %s accepted a damaged record' % ' '.join(life['argv'])))
                        ch = [p for p in set(nolog(before)) | set(nolog(lr['final'])) if before.get(p) != lr['final'].get(p)]
                        if ch:
                            bad.append(('touched', 'driver %s rejected a damaged record but changed %s' % (' '.join(life['argv']), sorted(ch))))
                elif '-p' in life['argv'] and life.get('g'):
                    if want is not None and want != dict_of(life['g']['ty'], life['g']['t']):
                        continue      # another accepted invocation replaced the record
                    bad += [b for b in judge_cli(life, lr, refs, before, lr['final'], False) if b[0] in ('exit', 'content', 'stuck')]
                    if before.get(RECORD) != lr['final'].get(RECORD):
                        bad.append(('touched', 'driver -p changed the record'))
                elif life.get('g'):
                    want = dict_of(life['g']['ty'], life['g']['t'])
                elif '-t' in life['argv']:
                    d = argv_trunc(life['argv'])
                    ok = d is not None
                    if not ok and before.get(RECORD) != lr['final'].get(RECORD):
                        bad.append(('touched', 'driver %s was refused but changed the record' % ' '.join(life['argv'])))
                    if ok:
                        want = d
                        if r.get('code') != 0 and before.get(RECORD) == lr['final'].get(RECORD):
                            want = None          # refused before it saved: either value
            else:
                for op, r in zip(life['ops'], lr['results']):
                    if op['do'] != 'load':
                        want, damaged = None, True
                        continue
                    bad += self.check_load(op, r, want)
                    if damaged is not None:
                        st, got = parse_bytes(r.get('content') or '')
                        damaged = None if st == 'unspecified' else False if st != 'ok' or valid_record(got) is False else True
                        if damaged is None:
                            return bad
            before = lr['final']
        return bad


class C08(Prop):
    rule = 'one run is a process with a drawn logging configuration and log faults, then 1-3 requests or one command-line invocation; non-trivial: always; distinct = distinct (scenario, history) pairs'
    assumptions = ["log sinks fail the way the logging module's handlers see failures (emit raises); handlers that themselves raise out of handle() are not installed"]
    quick, thorough = 2000, 20000

    PLAIN = [{'drop_handlers': True}, {'drop_handlers': True, 'handlers': [['null', '', 0, '']]}, {'close_handlers': True},
             {'root_level': 10, 'levels': [['*', 10]]}, {'root_level': 50, 'levels': [['*', 50]]}, {'disable': 50}, {'no_propagate': True},
             {'filter': True}, {'root_level': 1, 'levels': [['*', 1]], 'handlers': [['fail', 'ENOSPC', 0, '']]}, {'raise': False},
             {'root_level': 30}, {'levels': [['*', 30]]}, {'root_level': 10, 'levels': [['*', 0]]}]

    def cfg(self, rng):
        c = {}
        if rng.random() < 0.75:
            lv = rng.choice(LEVELS + [10, 10, 1, 0])
            c['root_level'] = lv
            c['levels'] = [['*', lv]] if rng.random() < 0.6 else [[rng.randint(0, 6), rng.choice(LEVELS)] for _ in range(3)]
        if rng.random() < 0.15:
            c['disable'] = rng.choice([10, 20, 50])
        if rng.random() < 0.3:
            c['raise'] = rng.random() < 0.5
        x = rng.random()
        if x < 0.12:
            c['drop_handlers'] = True
        elif x < 0.2:
            c['close_handlers'] = True
        if rng.random() < 0.6:
            c['handlers'] = []
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(['fail', 'fail', 'fail', 'slow', 'null', 'stderr', 'stdout', 'file', 'memory'])
                c['handlers'].append([k, rng.choice(['ENOSPC', 'EIO', 'EPIPE', 'ValueError']), rng.choice([0, 0, 3, 50]),
                                      rng.choice(['', '', '%(asctime)s %(message)s', '%(process)d %(funcName)s %(message)s'])])
        if rng.random() < 0.1:
            c['no_propagate'] = True
        if rng.random() < 0.08:
            c['filter'] = True
        return c

    def gen(self, rng, i):
        cap = rng.choice([6, 10, 15, 25])
        g = Gen(rng, cap)
        if rng.random() < 0.15:
            life = cli_life(rng, g.glue(cap))
            x = rng.random()
            if x < 0.25:
                life['argv'] += ['-s']
            elif x < 0.6:
                life['argv'] += ['-l', rng.choice(['my.log', '../other/run.log', '/simroot/tmp/z.log'])]
                life['log_names'] = [life['argv'][-1].rsplit('/', 1)[-1]]
            if '-s' not in life['argv'] and rng.random() < 0.8:
                life['faults'] = [{'op': rng.choice(['write', 'write', 'close_w']), 'file': 'log', 'err': rng.choice(['ENOSPC', 'EIO']),
                                   'n': rng.choice([0, 0, 2, 10]), 'sticky': rng.random() < 0.7}]
            return {'lives': [life], 'flavour': 'bare'}
        ops = [{'do': 'log', 'cfg': self.cfg(rng) if rng.random() < 0.6 else rng.choice(self.PLAIN), 'tree': False}]
        r = even(g, i, cap) if rng.random() < 0.6 else g.good(cap) if rng.random() < 0.75 else g.bad()
        for j in range(rng.choice([1, 1, 2, 3])):
            o = {'do': 'req', 'r': r, 'path': 'o%d' % j}
            if rng.random() < 0.3:
                o['faults'] = [{'op': 'write', 'file': 'log', 'err': rng.choice(['ENOSPC', 'EIO']), 'n': rng.choice([0, 2, 9]), 'sticky': True}]
            if rng.random() < 0.1:
                o['faults'] = [{'op': 'stderr', 'err': rng.choice(['EPIPE', 'EIO']), 'sticky': True}]
            ops.append(o)
            if rng.random() < 0.3:
                ops.append({'do': 'log', 'cfg': self.cfg(rng), 'tree': False})
            if rng.random() < 0.5:
                r = g.related(r, cap)
        return {'lives': [{'kind': 'api', 'ops': ops}]}

    def judge(self, sc, res, refs):
        life, lr = sc['lives'][0], res['lives'][0]
        bad = life_problem(lr)
        if life['kind'] == 'cli':
            if not lr.get('hang'):
                bad += [b for b in judge_cli(life, lr, refs, {}, lr['final'], False) if b[0] != 'other-file']
            return bad
        for op, r in zip(life['ops'], lr['results']):
            if op['do'] == 'req':
                bad += check_clean(op, r, refs[rkey(op['r'])], r['tree'])
        return bad


# process-wide settings a caller may have made before it calls (name -> values)
PRE = {'umask': [0o077, 0o002, 0o027], 'recursion_limit': [1500, 3000, 100000], 'gc': ['off', [500, 5, 5]], 'random': [5],
       'warnings': ['error', 'ignore'], 'sigint': ['ignore', 'own'], 'sigterm': ['ignore', 'own'], 'root_level': [10, 30, 40], 'log_disable': [10, 50],
       'raiseExceptions': [False], 'switchinterval': [0.5], 'decimal': [5], 'np_print': [3], 'np_err': ['raise'], 'int_max_str': [0, 1000], 'argv': [['prog', '-x']],
       'sys_path': ['/simroot/lib'], 'stack_size': [1 << 20], 'bytecode': [True], 'level_name': ['TRACE'], 'excepthook': [1],
       'levels': [10, 40], 'propagate': [False], 'tempdir': ['/simroot/tmp'], 'environ': [{'PYTHONWARNINGS': 'error', 'LC_ALL': 'C'}], 'displayhook': [1]}


def gen_pre(rng):
    return {k: rng.choice(PRE[k]) for k in rng.sample(sorted(PRE), rng.choice([0, 2, 5, 12]))}


class C09(Prop):
    rule = 'one run is 1-3 requests (some failing, interrupted or storage-faulted) with the full process state compared before and after each, or one command-line invocation; non-trivial: at least one operation completed; distinct = distinct (scenario, history) pairs'
    assumptions = ['open files are only compared after success, as the property states']
    quick, thorough = 7000, 45000

    def sweep(self, rng, i):
        """one small request failing at a source line (every line has its turn), or with a storage fault"""
        g = Gen(rng, 12)
        kind, frac = sweep_point(rng, i)
        inj = rng.random() < 0.9
        o = dp(rng, {'do': 'req', 'r': g.of_kind(kind, 12) if inj else even(g, i), 'path': 'out', 'state': True})
        if inj:
            o['inj'] = {'at': 'loc', 'frac': frac, 'hit': rng.choice([1, 1, 1, 2, 3]), 'exc': rng.choice(EXCS)}
        else:
            o['faults'] = gen_faults(rng)
        ops = [o]
        if rng.random() < 0.3:
            ops.insert(0, {'do': 'put', 'path': o['path'], 'recipe': gen_recipe(rng, g, o['r'])})
        return {'lives': [{'kind': 'api', 'ops': ops, 'pre': gen_pre(rng)}]}

    def gen(self, rng, i):
        if i % 2:
            return self.sweep(rng, i // 2)
        cap = rng.choice([12, 40, 120])
        g = Gen(rng, cap)
        if rng.random() < 0.1:
            life = cli_life(rng, g.glue(cap)) if rng.random() < 0.7 else {'kind': 'cli', 'argv': argv_bad(rng)}
            if rng.random() < 0.3:
                life['argv'] = life['argv'] + ['-l', 'my.log']
                life['log_names'] = ['my.log']
            if rng.random() < 0.3:
                life['faults'] = gen_faults(rng)
            names = ['notes.txt', 'old.tex', 'temp.txt', '../other/keep', '../notes.json', 'truncs.json', '../other/truncs.json', 'equations.py', 'main.tex']
            if life.get('g'):
                names += [doc_name(x) for x in (g.glue(cap) for _ in range(4))]
            by = [{'do': 'put', 'path': p, 'recipe': {'raw': 'mine %s\n' % p}} for p in sorted(set(rng.sample(names, rng.choice([0, 2, 5]))))]
            return {'lives': [{'kind': 'api', 'fix': True, 'ops': by}, life], 'flavour': 'bare'}
        ops = []
        for p in bystanders(rng, 'out', ['notes.txt', '../truncs.json', 'old.tex', 'temp.txt']):
            ops.append({'do': 'put', 'path': p, 'recipe': {'raw': 'mine\n'}})
        for j in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            if x < 0.08:
                o = dict(gen_trunc(rng, bad=0.3), do='save', path='rec.json')
            elif x < 0.13:
                o = {'do': 'load', 'path': 'rec.json'}
            else:
                o = dp(rng, {'do': 'req', 'r': g.good(cap) if rng.random() < 0.7 else g.bad(), 'path': rng.choice(['out', './o.tex', '../other/o'])})
                if rng.random() < 0.3:
                    ops.append({'do': 'put', 'path': o['path'], 'recipe': gen_recipe(rng, g, o['r'] if not o['r'].get('tmut') else None)})
            y = rng.random()
            if y < 0.3:
                o['inj'] = gen_inj(rng)
            elif y < 0.5:
                o['faults'] = gen_faults(rng)
            elif y < 0.53:
                o['depth'] = rng.randint(5, 40)
            o['state'] = True
            ops.append(o)
        return {'lives': [{'kind': 'api', 'ops': ops, 'pre': gen_pre(rng)}]}

    def judge(self, sc, res, refs):
        life, lr = sc['lives'][-1], res['lives'][-1]
        bad = life_problem(lr)
        if life['kind'] == 'cli':
            if not lr.get('hang'):
                okexp, path, h = cli_expect(life, refs)
                old = res['lives'][0]['final'] if len(res['lives']) > 1 else {}
                new = nolog(lr['final'], life)
                for p in sorted(set(old) | set(new)):
                    if p in (path, RECORD) or is_log(p, life) or old.get(p) == new.get(p):
                        continue
                    if life.get('faults') and not old.get(p) and any(f['op'] in ('rename', 'unlink', 'close_w') for f in life['faults']):
                        continue      # clean-up itself was made to fail
                    bad.append(('effects', 'driver %s changed %s: %s -> %s' % (' '.join(life['argv']), p, old.get(p), new.get(p))))
            return bad
        before = {}
        for op, r in zip(life['ops'], lr['results']):
            after = nolog(r['tree'])
            if op['do'] in ('req', 'save', 'load'):
                what = brief(op['r']) if op['do'] == 'req' else op['do']
                for d in r.get('state_diff', ()):
                    bad.append(('state:' + d.split(':')[0], '%s (%s) left process state changed: %s' % (what, r.get('exc') or r['out'], d)))
                allowed = {vpath(op.get('path', 'out'))}
                if op['do'] == 'load':
                    allowed = set()
                if op['do'] == 'req' and op['r']['k'].startswith('glue'):
                    q = glue_inner(op['r'])
                    allowed = {WORK + doc_name(op['r'])} if q is not None else set()
                for p in sorted(set(before) | set(after)):
                    if p in allowed or before.get(p) == after.get(p):
                        continue
                    if op.get('inj') and in_window(r):
                        continue
                    if op.get('faults') and not before.get(p) and any(f['op'] in ('rename', 'unlink', 'close_w') for f in op['faults']):
                        continue      # clean-up itself was made to fail
                    bad.append(('effects', '%s (%s) changed %s: %s -> %s' % (what, r.get('exc') or r['out'], p, before.get(p), after.get(p))))
                for p in r.get('meta_diff', ()):
                    if p not in allowed and not is_log(p) and before.get(p) == after.get(p) and not (op.get('inj') and in_window(r)):
                        bad.append(('effects', '%s (%s) changed the permissions, time stamp or identity of %s' % (what, r.get('exc') or r['out'], p)))
            before = after
        return bad


class C10(Prop):
    flavour = 'bare'
    rule = 'one run is a session of 1-4 command-line invocations, sequential or 2-3 simultaneous, with kills, faults and refused invocations in between; non-trivial: at least one invocation finished; distinct = distinct (scenario, history) pairs'
    assumptions = ['simultaneous processes interleave at disk operations; each runs alone between two of them', 'documented file names follow README.md']
    quick, thorough = 1800, 10000

    def gen(self, rng, i):
        cap = rng.choice([20, 40, 120])
        g = Gen(rng, cap)
        lives = [{'kind': 'api', 'fix': True,
                  'ops': [{'do': 'put', 'path': p, 'recipe': {'raw': BROKEN[p]}} for p in sorted(BROKEN)]}]
        if rng.random() < 0.2:
            lives[0]['ops'].append({'do': 'put', 'path': '../truncs.json', 'recipe': {'raw': rng.choice(['', '{', 'garbage', '{}', record_text('zhz', [1, 2, 3])])}})
        picked = []

        def one(allow_p=True):
            x = rng.random()
            if x < 0.18:
                return {'kind': 'cli', 'argv': argv_bad(rng)}
            if picked and x < 0.45:
                gl = json.loads(json.dumps(rng.choice(picked)))
                if rng.random() < 0.7:
                    q = g.glue(cap)
                    if q['ty'] == gl['ty']:
                        gl['t'] = q['t']
                if glue_inner(gl) is None or not g.ok_cost(gl, cap):
                    gl = g.glue(cap)
            else:
                gl = g.glue(cap)
            picked.append(gl)
            life = cli_life(rng, gl)
            if rng.random() < pshare and allow_p:
                if rng.random() < 0.5:         # a record that was there all the time
                    name = rng.choice(['', '', './', '../', '../other/', '/simroot/home/']) + 'old%d.json' % len(lives[0]['ops'])
                    put = {'do': 'put', 'path': name, 'recipe': {'raw': record_text(gl['ty'], gl['t'])}}
                    if rng.random() < 0.7:
                        put['mtime'] = rng.choice([1.0, 1.6e9, 1.7e9])
                    lives[0]['ops'].append(put)
                else:
                    name = rng.choice(['', '', '../', '../other/']) + 'rec%d.json' % rng.randint(0, 3)
                    put = {'do': 'put', 'path': name, 'recipe': {'raw': record_text(gl['ty'], gl['t'])}}
                    lives.append({'kind': 'api', 'fix': True, 'ops': [put]})
                life = cli_life(rng, gl, name)
            return spell(rng, life, allow_p)
        pshare = rng.choice([0.15, 0.15, 0.7])
        n = rng.choice([1, 2, 2, 3, 3, 4])
        for j in range(n):
            if rng.random() < 0.3:
                names, mem = set(), []
                for _ in range(rng.choice([2, 2, 3])):
                    l = one(False)
                    nm = doc_name(l['g']) if l.get('g') and glue_inner(l['g']) is not None else None
                    if nm is not None and nm in names:
                        continue
                    names.add(nm)
                    mem.append(l)
                lives.append({'kind': 'group', 'members': mem, 'seed': rng.randrange(1 << 30), 'stay': rng.choice([0.0, 0.3, 0.7])})
                lives.append({'kind': 'api', 'ops': [{'do': 'load', 'path': '../truncs.json', 'content': True}]})
                continue
            l = one()
            if rng.random() < 0.3 and j < n - 1:
                y = rng.random()
                if y < 0.4:
                    l['crash'] = C06.crash(self, rng, 7)
                elif y < 0.7:
                    l['faults'] = gen_faults(rng)
                else:
                    l['inj'] = gen_inj(rng, EXCS + ['crash'])
            lives.append(l)
        return {'lives': lives, 'limit': 120}

    def judge(self, sc, res, refs):
        bad = []
        before = {}
        group = None
        for life, lr in zip(sc['lives'], res['lives']):
            bad += life_problem(lr)
            if lr.get('hang'):
                break
            if life['kind'] == 'cli':
                bad += judge_cli(life, lr, refs, before, lr['final'], bool(lr.get('fired')))
                r = (lr.get('results') or [{}])[0]
                if r.get('code') == 0 and '-t' in life['argv'] and not life.get('faults') and not life.get('inj') \
                        and RECORD not in lr['final']:
                    bad.append(('record', 'driver %s left no truncation record' % ' '.join(life['argv'])))
            elif life['kind'] == 'group':
                after = nolog(lr['final'])
                touched = set()
                for m, mr in zip(life['members'], lr['members']):
                    bad += life_problem(mr)
                    okexp, path, h = cli_expect(m, refs)
                    name = ' '.join(m['argv'])
                    if mr.get('hang') or not mr.get('results'):
                        continue
                    code = mr['results'][0].get('code')
                    if (code == 0) != okexp:
                        bad.append(('exit', 'simultaneous driver %s: exit status %s, an isolated run %s' % (name, code, 'succeeds' if okexp else 'fails')))
                    elif code == 0:
                        touched.add(path)
                        if after.get(path) != h:
                            bad.append(('content', 'simultaneous driver %s: exit status 0 but %s is %s, expected %s' % (name, path, after.get(path), h)))
                for p in sorted(set(nolog(before)) | set(after)):
                    if p not in touched and p != RECORD and before.get(p) != after.get(p):
                        bad.append(('other-file', 'simultaneous drivers changed %s' % p))
                recs = [x for x in (argv_trunc(m['argv']) for m in life['members']) if x]
                group = recs, len(recs) == 0, before.get(RECORD)
            elif life['ops'][0]['do'] == 'load' and group:
                bad += self.after_group(lr, *group)
            if life['kind'] != 'group':
                group = None
            before = lr['final']
        return bad

    def after_group(self, lr, recs, none, old):
        """the record after simultaneous invocations: the values of one of them, or rejected if several wrote it"""
        r = lr['results'][0]
        if none:
            if r['tree'].get(RECORD) != old:
                return [('record', 'simultaneous drivers that save no truncations changed the record')]
            return []
        if r['out'] == 'ok':
            if loaded(r) not in recs:
                return [('record', 'after simultaneous drivers the record says %s, none of %s' % (loaded(r), recs))]
        elif len(recs) == 1:
            return [('record', 'the record of the only driver that saved one is rejected: %s' % r.get('exc'))]
        return []


PROPS = {c.__name__: c() for c in (C02, C03, C04, C05, C06, C07, C08, C09, C10)}
