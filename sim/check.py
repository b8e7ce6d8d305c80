#!/usr/bin/env python3
"""check.py <property> : seeded search over simulated executions.

exit 0  the property held on everything explored
exit 1  VIOLATION property=<id> replay=<path>  (minimised, reproduced)
exit 2  the machinery itself failed
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough), TFSIM_WORKERS, TFSIM_N, TFSIM_WALL."""
import hashlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import pool  # noqa: E402
import props  # noqa: E402
from catalog import rkey  # noqa: E402
from pool import HarnessError  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EVID = os.environ.get('TFSIM_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Refs:
    """the reference model: every request alone in a fresh process on a clean disk"""

    def __init__(self, p):
        self.pool = p
        self.d = {}
        self.time = 0.0

    def scenario(self, r, count):
        name = hashlib.sha1(rkey(r).encode()).hexdigest()
        return {'lives': [{'kind': 'api', 'count': count, 'ops': [{'do': 'req', 'r': r, 'path': 'out'}]}],
                'keep': [name, props.WORK + 'out'], 'limit': 120}

    def need(self, scenarios):
        want = {}
        for sc in scenarios:
            for r, count in props.walk_reqs(sc):
                k = rkey(r)
                have = self.d.get(k)
                if have is not None and (not count or have.get('lines') is not None or have['out'] == 'hang'):
                    continue
                if k not in want or count:
                    want[k] = (r, count)
        t = time.monotonic()
        todo = [self.scenario(r, c) for r, c in want.values()]
        for (k, (r, c)), res in zip(want.items(), self.pool.map(todo, 'api')):
            self.d[k] = self.entry(res, c)
        self.time += time.monotonic() - t

    def entry(self, res, count):
        lr = res['lives'][0]
        if lr.get('hang'):
            return {'out': 'hang', 'lines': 1, 'locs': 1, 'nops': 1, 'files': {}, 'exc': None, 'ret': None}
        if lr.get('error'):
            raise HarnessError('reference run: ' + str(lr['error']))
        x = lr['results'][0]
        files = {}
        for p, h in props.nolog(x['tree']).items():
            files['@' if p == props.WORK + 'out' else p] = h
        return {'out': x['out'], 'exc': x.get('exc'), 'ret': x.get('ret'), 'files': files,
                'lines': x['lines'] if count else None, 'locs': x.get('locs'), 'nops': x['nops'],
                'env': lr['env_reads'], 'probes': lr.get('probes') or []}

    def hang(self, sc):
        return any(self.d[rkey(r)]['out'] == 'hang' for r, _ in props.walk_reqs(sc))


class Stats:
    def __init__(self):
        self.runs = self.lives = self.nontrivial = self.ops = self.lines = 0
        self.simtime = 0.0
        self.fired = {}
        self.histories, self.inter, self.points = set(), set(), set()
        self.samples = []
        self.kinds = {}
        self.skipped = self.unreproduced = 0
        self.switches = 0

    def life(self, lr):
        for m in lr.get('members') or [lr]:
            self.lives += 1
            for k, v in (m.get('fired') or {}).items():
                self.fired[k] = self.fired.get(k, 0) + v
            self.simtime += max(0.0, (m.get('clock') or 0) - m.get('clock0', 1.7e9))
            self.ops += m.get('nops') or 0
            for r in m.get('results', ()):
                if isinstance(r.get('lines'), int):
                    self.lines += r['lines']
                if r.get('inter'):
                    self.inter.add(r['inter'])
                    self.switches += r['switches']
                if r.get('inj'):
                    self.points.add(r['inj']['at'])
        if lr.get('order'):
            self.inter.add(hashlib.sha1(repr(lr['order']).encode()).hexdigest()[:16])
            self.switches += len(lr['order'])

    def add(self, p, sc, res):
        self.runs += 1
        for lr in res['lives']:
            self.life(lr)
        for r, _ in props.walk_reqs(sc):
            self.kinds[r['k']] = self.kinds.get(r['k'], 0) + 1
        if p.nontrivial(sc, res):
            h = history_hash(res)
            h2 = hashlib.sha1((h + json.dumps(sc, sort_keys=True)).encode()).hexdigest()
            if h2 not in self.histories:
                self.histories.add(h2)
                self.nontrivial += 1
                if len(self.samples) < 3:
                    self.samples.append({'scenario': sc, 'history': h})


def history_hash(res):
    """hash of everything a run observed (except log files and stderr: they may name the scratch directory)"""
    def scrub(x):
        if isinstance(x, dict):
            return {k: scrub(v) for k, v in x.items() if k != 'tail' and not (k.startswith('/') and (props.is_log(k) or k.endswith('.log')))}
        if isinstance(x, list):
            return [scrub(v) for v in x]
        return x
    return hashlib.sha1(json.dumps(scrub(res), sort_keys=True).encode()).hexdigest()[:20]


def problem(res):
    for lr in res['lives']:
        for m in lr.get('members') or [lr]:
            if m.get('error'):
                return m['error']
    return None


class Runner:
    def __init__(self, pid, seed):
        self.pid, self.seed = pid, seed
        self.p = props.PROPS[pid]
        self.pool = pool.Pool()
        self.refs = Refs(self.pool)

    def flavour(self, sc):
        return sc.get('flavour') or self.p.flavour

    def make(self, i):
        return self.p.gen(random.Random('%s:%s:%d' % (self.seed, self.pid, i)), i)

    def execute(self, scs, deadline=None, resolve=True):
        self.refs.need(scs)
        if resolve:
            for sc in scs:
                props.resolve(sc, self.refs.d)
        out = [None] * len(scs)
        for fl in ('api', 'bare'):
            idx = [i for i, sc in enumerate(scs) if self.flavour(sc) == fl and not self.refs.hang(sc)]
            if idx:
                for i, r in zip(idx, self.pool.map([scs[i] for i in idx], fl, deadline)):
                    out[i] = r
        return out

    def judge(self, sc, res):
        e = problem(res)
        if e:
            raise HarnessError('simulated process failed: %s\n%s' % (e, json.dumps(sc)[:2000]))
        return self.p.judge(sc, res, self.refs.d)

    def one(self, sc):
        """run one scenario on its own (replay, minimisation)"""
        r = self.execute([sc], resolve=False)[0]
        return r, (self.judge(sc, r) if r is not None else [])

    # ------------------------------------------------------------------------------------------
    def confirm(self, sc, classes):
        sc = json.loads(json.dumps(sc))
        hits = 0
        if any(c == 'stuck' for c in classes):
            sc['limit'] = max(sc.get('limit', 60), 180)
        for _ in range(3):
            r, bad = self.one(sc)
            if r is not None and {c for c, _ in bad} & classes:
                hits += 1
                if hits == 2:
                    return sc
            elif hits == 0 and _ == 1:
                return None
        return sc if hits else None

    def candidates(self, sc):
        def cp():
            return json.loads(json.dumps(sc))
        lives = sc['lives']
        if len(lives) > 1:
            for i in range(len(lives)):
                if not lives[i].get('fix'):
                    c = cp()
                    del c['lives'][i]
                    yield c
        for i, l in enumerate(lives):
            for f in ('crash', 'faults', 'inj', 'env', 'environ', 'junk', 'sched', 'vcwd', 'pre'):
                if l.get(f):
                    c = cp()
                    del c['lives'][i][f]
                    yield c
            for f in l.get('pre') or ():
                c = cp()
                del c['lives'][i]['pre'][f]
                yield c
            if len(l.get('members', ())) > 1:
                for j in range(len(l['members'])):
                    c = cp()
                    del c['lives'][i]['members'][j]
                    yield c
            ops = l.get('ops', ())
            if len(ops) > 1 and not l.get('fix'):
                for j in range(len(ops)):
                    c = cp()
                    del c['lives'][i]['ops'][j]
                    yield c
            for j, o in enumerate(ops):
                for f in ('faults', 'inj', 'depth', 'share', 'mtime'):
                    if o.get(f):
                        c = cp()
                        del c['lives'][i]['ops'][j][f]
                        yield c
                if len(o.get('faults') or ()) > 1:
                    for k in range(len(o['faults'])):
                        c = cp()
                        del c['lives'][i]['ops'][j]['faults'][k]
                        yield c
                if o['do'] == 'par':
                    if len(o['ops']) > 2:
                        for k in range(len(o['ops'])):
                            c = cp()
                            q = c['lives'][i]['ops'][j]
                            del q['ops'][k]
                            if q['sched'].get('plan'):
                                q['sched']['plan'] = [[e[0] - (e[0] > k + 1)] + e[1:] for e in q['sched']['plan'] if e[0] != k + 1]
                            yield c
                    for k in range(len(o['sched'].get('plan') or ())):
                        c = cp()
                        del c['lives'][i]['ops'][j]['sched']['plan'][k]
                        yield c
                if o['do'] == 'put' and len(o['recipe'].get('then') or ()) > 0:
                    c = cp()
                    c['lives'][i]['ops'][j]['recipe']['then'].pop()
                    yield c
                if o['do'] == 'log':
                    for f in list(o['cfg']):
                        c = cp()
                        del c['lives'][i]['ops'][j]['cfg'][f]
                        yield c
        # smaller requests, changed everywhere they occur
        seen = set()
        for r, _ in props.walk_reqs(sc):
            k = rkey(r)
            if k in seen or 't' not in r or sc.get('cli'):
                continue
            seen.add(k)
            for j, v in enumerate(r['t']):
                if isinstance(v, int) and v > 1:
                    q = dict(r, t=r['t'][:j] + [v - 1] + r['t'][j + 1:])
                    c = cp()
                    if subst(c, r, q):
                        yield c

    def minimise(self, sc, classes, wall):
        end = time.monotonic() + wall
        tried = 0
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            batch = list(self.candidates(sc))
            # try in groups of the worker count; take the first (lowest index) that still fails
            step = self.pool.n
            for a in range(0, len(batch), step):
                if time.monotonic() > end:
                    break
                part = batch[a:a + step]
                try:
                    rs = self.execute(part, resolve=False)
                except HarnessError:
                    continue
                tried += len(part)
                for c, r in zip(part, rs):
                    if r is None or problem(r):
                        continue
                    if {k for k, _ in self.p.judge(c, r, self.refs.d)} & classes:
                        sc, progress = c, True
                        break
                if progress:
                    break
        return sc, tried


def subst(node, old, new):
    """replace request `old` by `new` (in place); only where requests are plain"""
    n = 0
    if isinstance(node, dict):
        for k, v in list(node.items()):
            if k in ('r', 'of') and v == old:
                node[k] = json.loads(json.dumps(new))
                n += 1
            else:
                n += subst(v, old, new)
    elif isinstance(node, list):
        for v in node:
            n += subst(v, old, new)
    return n


def known_findings(pid):
    """open findings of this property: list of dicts {property, class, contains, what}"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                d = json.loads(line[len('finding: '):])
                if d['property'] == pid:
                    out.append(d)
    return out


def tree_id():
    h = hashlib.sha1()
    base = '/repo/termfactory'
    for d, ds, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:16]


def write_replay(pid, seed, i, sc, res, bad, extra):
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    path = os.path.join(EVID, 'replays', '%s-%s-%s.json' % (pid, seed, i))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, seed=seed, index=i, violation=[list(b) for b in bad], scenario=sc,
                       history=res, history_hash=history_hash(res), tree=tree_id(), **extra), f, indent=1, sort_keys=True)
    return path


REAL = ['every module of termfactory (generators, truncation record, driver, glue), unmodified, from /repo\'s working tree',
        'CPython: io buffering and text layer, json, argparse, logging, threading bookkeeping, queue',
        'kernel file bytes (scratch tmpfs below the fault layer)']
STUB = ['file-system calls: simulated fault/crash/tear layer over a scratch directory', 'clock, time zone, sleep',
        'random numbers and entropy', 'pid, host, CPU count, locale encoding, directory order, id()',
        'locks and thread start/join: seeded cooperative scheduler', 'stdout/stderr', 'process kill: fork per process life']


def write_evidence(pid, tier, seed, st, wall, p, extra=None, violations=0):
    os.makedirs(EVID, exist_ok=True)
    per_hour = int(st.runs / wall * 3600) if wall else 0
    cov = {
        'evaluations': st.runs, 'distinct_nontrivial': st.nontrivial, 'rule': ' '.join((p.rule or '').split()),
        'samples': st.samples or [{'note': 'no non-trivial case'}],
        'simulated_process_lives': st.lives, 'runs_per_hour': per_hour, 'seeds_per_hour': per_hour,
        'seed_derivation': 'run i uses PRNG seed "%s:%s:<i>"' % (seed, pid),
        'simulated_seconds': round(st.simtime, 1), 'disk_operations': st.ops, 'lines_observed': st.lines,
        'faults_injected': dict(sorted(st.fired.items())), 'distinct_injection_points': len(st.points),
        'distinct_interleavings': len(st.inter), 'context_switches': st.switches,
        'interleaving_measure': 'hash of the sequence (from thread, lines it ran, to thread), or order of disk operations of simultaneous processes',
        'distinct_histories': len(st.histories), 'requests_by_kind': dict(sorted(st.kinds.items())),
        'skipped': st.skipped, 'unreproduced': st.unreproduced,
        'components_real': REAL, 'components_stubbed': STUB, 'code_tree': tree_id(),
    }
    cov.update(extra or {})
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
                   'assumptions': p.assumptions, 'wall_s': round(wall, 2), 'violations': violations}, f, indent=1)


def search(pid, tier, seed, dump=None):
    t0 = time.monotonic()
    R = Runner(pid, seed)
    p = R.p
    n = int(os.environ.get('TFSIM_N', '0')) or (p.quick if tier == 'quick' else p.thorough)
    wall = float(os.environ.get('TFSIM_WALL', '0')) or (200 if tier == 'quick' else 3 * 3600)
    st = Stats()
    known = known_findings(pid)
    seen_known = {}
    found = None
    i = 0
    deadline = t0 + wall
    while i < n and not found and time.monotonic() < deadline:
        step = min(n - i, 240)
        scs = [R.make(j) for j in range(i, i + step)]
        rs = R.execute(scs, deadline)
        for j, (sc, r) in enumerate(zip(scs, rs)):
            if r is None:
                st.skipped += 1
                continue
            st.add(p, sc, r)
            bad = R.judge(sc, r)
            if dump is not None:
                dump.write('%d %s %s\n' % (i + j, history_hash(r), sorted({c for c, _ in bad})))
            new = []
            for b in bad:
                k = [f for f in known if f['class'] == b[0] and f['contains'] in b[1]]
                if k:
                    seen_known[k[0]['what']] = True
                else:
                    new.append(b)
            if new and not found:
                classes = {c for c, _ in new}
                ok = R.confirm(sc, classes)
                if ok is None:
                    st.unreproduced += 1
                    print('note: run %d not reproduced: %s' % (i + j, new[0][1]), file=sys.stderr)
                else:
                    found = (i + j, ok, classes, new)
                    break
        i += step
    for w in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    code = 0
    if found:
        j, sc, classes, new = found
        small, tried = R.minimise(sc, classes, 45 if tier == 'quick' else 300)
        r, bad = R.one(small)
        bad = [b for b in bad if b[0] in classes] or new
        path = write_replay(pid, seed, j, small, r, bad, {'original': sc, 'minimisation_runs': tried})
        for c, m in bad[:5]:
            print('  %s: %s' % (c, m))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        code = 1
    write_evidence(pid, tier, seed, st, time.monotonic() - t0, p,
                   {'reference_requests': len(R.refs.d)}, 1 if found else 0)
    print('%s %s seed=%d runs=%d nontrivial=%d skipped=%d refs=%d (%.0fs) faults=%d wall=%.1fs' % (
        pid, tier, seed, st.runs, st.nontrivial, st.skipped, len(R.refs.d), R.refs.time, sum(st.fired.values()), time.monotonic() - t0))
    R.pool.close()
    return code


def main():
    pid = sys.argv[1]
    dump = open(sys.argv[2], 'w') if len(sys.argv) > 2 else None
    try:
        if pid == 'C01':
            import envcheck
            code = envcheck.search(TIER, SEED, dump)
        else:
            code = search(pid, TIER, SEED, dump)
    except HarnessError as e:
        print('harness error: %s' % e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)


if __name__ == '__main__':
    main()
