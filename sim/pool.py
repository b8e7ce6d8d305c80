"""Parent side: starts workers, hands out scenarios, returns results in scenario order."""
import atexit
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
NW = int(os.environ.get('TFSIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)


class HarnessError(Exception):
    pass


def scratch():
    for d in ('/dev/shm', '/tmp'):
        if os.access(d, os.W_OK):
            b = tempfile.mkdtemp(prefix='tfsim-', dir=d)
            atexit.register(shutil.rmtree, b, True)
            return b
    raise HarnessError('no scratch directory')


_have_setarch = None


def setarch():
    global _have_setarch
    if _have_setarch is None:
        try:
            _have_setarch = subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            _have_setarch = False
    return ['setarch', '-R'] if _have_setarch else []


class Worker:
    def __init__(self, base, name, refs, flavour, hashseed='0', flags=(), environ=None, tfdir=None, env=None):
        self.dir = os.path.join(base, name)
        os.makedirs(self.dir)
        cfg = {'base': self.dir, 'refs': refs, 'flavour': flavour, 'env': env,
               'pyc': os.path.join(base, 'pyc')}
        if tfdir:
            cfg['tfdir'] = tfdir
        e = {'PATH': '/usr/bin:/bin', 'HOME': '/simroot/home', 'TMPDIR': '/simroot/tmp', 'LANG': 'C.UTF-8',
             'USER': 'sim', 'PYTHONHASHSEED': str(hashseed)}
        if environ:
            for k, v in environ.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
        self.log = open(os.path.join(self.dir, 'stderr'), 'w+b')
        self.p = subprocess.Popen(setarch() + [PY] + list(flags) + [os.path.join(HERE, 'zygote.py'), json.dumps(cfg)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=e, cwd=self.dir)
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError('worker did not start: ' + self.tail())
        self.hello = json.loads(line)

    def tail(self):
        self.log.seek(0)
        return self.log.read()[-3000:].decode('utf-8', 'replace')

    def run(self, sc):
        self.p.stdin.write(json.dumps(sc).encode() + b'\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError('worker died: ' + self.tail())
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.log.close()
        shutil.rmtree(self.dir, True)


class Pool:
    def __init__(self, n=None):
        self.base = scratch()
        self.refs = os.path.join(self.base, 'refs')
        os.makedirs(self.refs)
        self.n = n or NW
        self.workers = {}
        self.count = 0
        self.lock = threading.Lock()

    def new_worker(self, flavour, **k):
        with self.lock:
            self.count += 1
            name = 'w%d' % self.count
        return Worker(self.base, name, self.refs, flavour, **k)

    def get(self, flavour):
        if flavour not in self.workers:
            ws = [None] * self.n
            errs = []

            def start(i):
                try:
                    ws[i] = self.new_worker(flavour)
                except Exception as e:
                    errs.append(e)
            # the first one fills the bytecode cache
            start(0)
            ths = [threading.Thread(target=start, args=(i,)) for i in range(1, self.n)]
            [t.start() for t in ths]
            [t.join() for t in ths]
            if errs:
                raise HarnessError('workers: %s' % errs[0])
            self.workers[flavour] = ws
        return self.workers[flavour]

    def map(self, scenarios, flavour='api', deadline=None, on=None):
        """run all; returns list of results (None for those not started before the deadline)"""
        ws = self.get(flavour)
        out = [None] * len(scenarios)
        nxt = iter(range(len(scenarios)))
        errs = []

        def drive(w):
            while not errs:
                with self.lock:
                    i = next(nxt, None)
                if i is None or (deadline is not None and time.monotonic() > deadline):
                    return
                try:
                    out[i] = w.run(scenarios[i])
                    if on is not None and on(i, out[i]):
                        errs.append(None)
                except Exception as e:
                    errs.append(e)
        ths = [threading.Thread(target=drive, args=(w,)) for w in ws]
        [t.start() for t in ths]
        [t.join() for t in ths]
        if errs and errs[0] is not None:
            raise HarnessError(str(errs[0]))
        return out

    def close(self):
        for ws in self.workers.values():
            for w in ws:
                w.close()
        shutil.rmtree(self.base, True)


def die_clean(*a):
    sys.exit(143)


signal.signal(signal.SIGTERM, die_clean)
