"""Worker process: installs the seams, (flavour api) imports the code under test once, then forks one
child per simulated process life.  A child is the simulated process; only the simulated disk survives it."""
import json
import os
import random
import select
import shutil
import signal
import sys
import time
import weakref

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    import numpy  # noqa: F401  (imported by some generators; keep its import out of the simulation)
except ImportError:
    pass
import seams
import execute
from seams import W, R

weakref.finalize(execute.Life, int).detach()      # its first use registers an exit callback, once per process: not the doing of a request

real_time = time.monotonic
real_unlink, real_mkdir = os.unlink, os.mkdir


def fresh_root(root):
    if R.access(root, os.F_OK):
        _rmtree(root)
    for d in execute.ROOT_DIRS:
        R.mkdir(root + d)


def _rmtree(d):
    with R.scandir(d) as it:
        ents = list(it)
    for e in ents:
        if e.is_dir(follow_symlinks=False):
            _rmtree(d + '/' + e.name)
        else:
            R.unlink(d + '/' + e.name)
    R.rmdir(d)


class Child:
    """one simulated process"""

    def __init__(self, life, root, refs, flavour, tokens=False):
        self.up_r, up_w = os.pipe()
        self.dn_r, self.dn_w = os.pipe()
        self.buf = b''
        self.done = None
        self.pid = os.fork()
        if self.pid:
            R.o_close(up_w)
            R.o_close(self.dn_r)
            return
        # ---- in the child
        try:
            devnull = R.o_open('/dev/null', os.O_RDWR)
            os.dup2(devnull, 0)
            if not os.environ.get('TFSIM_DEBUG'):
                os.dup2(devnull, 1)
            R.o_close(self.up_r)
            R.o_close(self.dn_w)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))     # a runaway request must not take the sandbox along

            def send(msg):
                b = json.dumps(msg).encode() + b'\n'
                while b:
                    n = R.o_write(up_w, b)
                    b = b[n:]

            lf = execute.Life(life, refs)

            def on_crash():
                send(['DONE', lf.summary(crashed=True)])
                R._exit(0)
            W.on_crash = on_crash

            def on_exit(code):
                W.active = False
                d = lf.summary()
                if life['kind'] == 'cli':
                    d['results'].append({'out': 'cli', 'exc': 'exit', 'tail': '', 'code': code & 0xff if isinstance(code, int) else 1, 'tree': execute.tree(), 'nops': W.nops})
                else:
                    d.update(hang=True, dead=True)
                send(['DONE', d])
                R._exit(0)
            W.on_exit = on_exit
            if tokens:
                def token(kind, v):
                    send(['OP', kind, v])
                    if R.o_read(self.dn_r, 1) != b'g':
                        R._exit(3)
                W.token = token
                token('start', '')
            if life['kind'] == 'api' and flavour == 'bare':
                seams.attach(root, seams.ROOTV + '/zlog')
                sys.path.insert(0, life.get('tfdir', seams.TFDIR))
                execute.import_all()
                sys.path.pop(0)
            seams.attach(root)
            send(['DONE', lf.run()])
            R._exit(0)
        except BaseException:
            import traceback
            W.active = False
            try:
                send(['ERR', traceback.format_exc()[-3000:]])
            except BaseException:
                pass
            R._exit(4)

    def recv(self, deadline):
        """next message of this child"""
        while b'\n' not in self.buf:
            left = deadline - real_time()
            if left <= 0:
                return ['HANG']
            r, _, _ = select.select([self.up_r], [], [], min(left, 5))
            if not r:
                continue
            b = R.o_read(self.up_r, 1 << 16)
            if not b:
                return ['DEAD']
            self.buf += b
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def close(self):
        R.o_close(self.up_r)
        R.o_close(self.dn_w)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


def final(msg):
    if msg[0] == 'DONE':
        return msg[1]
    if msg[0] == 'HANG':
        return {'hang': True, 'results': []}
    if msg[0] == 'DEAD':     # the interpreter itself died (stack overflow in C, abort, killed)
        return {'dead': True, 'hang': True, 'results': []}
    return {'error': msg[1] if len(msg) > 1 else msg[0], 'results': []}


def run_life(life, root, refs, flavour, limit):
    c = Child(life, root, refs, flavour)
    try:
        return final(c.recv(real_time() + limit))
    finally:
        c.close()


def run_group(life, root, refs, flavour, limit):
    """several processes at once; who performs the next disk operation is decided by the seed"""
    rng = random.Random('group:%s' % life['seed'])
    deadline = real_time() + limit
    kids = [Child(m, root, refs, flavour, tokens=True) for m in life['members']]
    res = [None] * len(kids)
    order = []
    try:
        for i, c in enumerate(kids):
            m = c.recv(deadline)
            if m[0] != 'OP':
                res[i] = final(m)
        last = None
        while True:
            alive = [i for i in range(len(kids)) if res[i] is None]
            if not alive:
                break
            if last in alive and rng.random() < life.get('stay', 0.3):
                i = last
            else:
                i = alive[rng.randrange(len(alive))]
            last = i
            order.append(i)
            R.o_write(kids[i].dn_w, b'g')
            m = kids[i].recv(deadline)
            if m[0] != 'OP':
                res[i] = final(m)
    finally:
        for c in kids:
            c.close()
    return {'members': res, 'order': order}


def truncate_logs():
    import logging
    for h in logging.root.handlers:
        st = getattr(h, 'stream', None)
        raw = getattr(getattr(st, 'buffer', None), 'raw', None)
        if raw is not None and not raw.closed:
            try:
                R.ftruncate(raw.fileno(), 0)
                os.lseek(raw.fileno(), 0, 0)
            except OSError:
                pass


def run_scenario(sc, root, refs, flavour):
    fresh_root(root)
    out = []
    for life in sc['lives']:
        truncate_logs()
        limit = sc.get('limit', 60)
        if life['kind'] == 'group':
            r = run_group(life, root, refs, flavour, limit)
        else:
            r = run_life(life, root, refs, flavour, limit)
        W.root = root
        r['final'] = execute.tree()
        out.append(r)
        if r.get('error') or r.get('hang'):
            break
    if sc.get('keep'):       # store reference bytes
        name, path = sc['keep']
        src = root + path[len(seams.ROOTV):]
        if R.access(src, os.R_OK):
            with R.open(src, 'rb') as f:
                data = f.read()
            with R.open(refs + '/' + name + '.%d' % R.getpid(), 'wb') as f:
                f.write(data)
            R.rename(refs + '/' + name + '.%d' % R.getpid(), refs + '/' + name)
    return {'lives': out}


def main():
    a = json.loads(sys.argv[1])
    base, refs, flavour = a['base'], a['refs'], a['flavour']
    tfdir = a.get('tfdir', seams.TFDIR)
    seams.PREFIXES = (seams.TFDIR + '/', tfdir + '/')
    chan_in, chan_out = os.dup(0), os.dup(1)
    os.dup2(R.o_open('/dev/null', os.O_RDONLY), 0)
    os.dup2(2, 1)
    zroot = base + '/z'
    sys.pycache_prefix = a['pyc']
    sys.dont_write_bytecode = False
    fresh_root(zroot)
    seams.install()
    if a.get('env'):
        W.configure(a['env'])
    sys.stdout = seams.SimStream('stdout')
    W.on_crash = lambda: R._exit(5)
    if flavour == 'api':
        seams.attach(zroot, seams.ROOTV + '/zlog')
        sys.path.insert(0, tfdir)
        execute.import_all()
        sys.path.pop(0)
        a['import_env'] = sorted(W.env_reads)
    W.active = False
    R.chdir(zroot)
    inp = os.fdopen(chan_in, 'rb')
    R.o_write(chan_out, (json.dumps({'ready': True, 'import_env': a.get('import_env', [])}) + '\n').encode())
    root = base + '/s'
    while True:
        line = inp.readline()
        if not line:
            break
        sc = json.loads(line)
        try:
            res = run_scenario(sc, root, refs, flavour)
        except BaseException:
            import traceback
            res = {'lives': [{'error': traceback.format_exc()[-3000:], 'results': []}]}
        b = json.dumps(res).encode() + b'\n'
        while b:
            n = R.o_write(chan_out, b)
            b = b[n:]


if __name__ == '__main__':
    main()
