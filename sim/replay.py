#!/usr/bin/env python3
"""replay.py <replay file> : re-executes a recorded violation and compares the observed history.

exit 1 + VIOLATION line: the violation reproduces (and whether the history is identical, hash for hash);
exit 0: it does not occur on the current tree."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check  # noqa: E402


def main():
    path = sys.argv[1]
    d = json.load(open(path))
    pid = d['property']
    want = {v[0] for v in d['violation']}
    if pid == 'C01':
        import envcheck
        from pool import Pool
        pool = Pool()
        refs = check.Refs(pool)
        refs.need([{'lives': [{'ops': [{'do': 'req', 'r': d['scenario']['r']}]}]}])
        lab = envcheck.Lab(pool)
        res = lab.once(d['configuration'], d['scenario'])
        v = envcheck.verdict(d['scenario'], res, refs.d)
        bad = [v] if v else []
    else:
        r = check.Runner(pid, d['seed'])
        pool = r.pool
        res, bad = r.one(d['scenario'])
    pool.close()
    same = check.history_hash(res) == d['history_hash']
    tree = check.tree_id() == d['tree']
    for c, m in bad:
        print('  %s: %s' % (c, m))
    print('history %s; code tree %s' % ('identical' if same else 'differs', 'identical' if tree else 'differs'))
    if {c for c, _ in bad} & want:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
