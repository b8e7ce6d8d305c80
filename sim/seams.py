"""The seams: every source of nondeterminism and every fault the simulated runs decide.

One `World` object per process holds the whole simulated environment: disk (real bytes on a
scratch tmpfs directory, seen by the code as /simroot, behind an interposed layer that logs, fails,
shortens, tears and crashes operations), clock, random numbers, process identity, environment
variables, standard streams, locks/threads, and the line-level scheduler / fault injector.

Nothing here draws from a real clock or a real random source.  `install()` must run before the code
under test is imported.
"""
import builtins
import errno
import io
import os
import random
import sys
import threading
import time
import _thread
from types import SimpleNamespace

ROOTV = '/simroot'
TFDIR = '/repo/termfactory'

R = SimpleNamespace(   # the real functions
    open=builtins.open, io_open=io.open, id=builtins.id,
    o_open=os.open, o_read=os.read, o_write=os.write, o_close=os.close, fsync=os.fsync,
    fdatasync=os.fdatasync, ftruncate=os.ftruncate, truncate=os.truncate,
    stat=os.stat, lstat=os.lstat, access=os.access, listdir=os.listdir, scandir=os.scandir,
    mkdir=os.mkdir, rmdir=os.rmdir, remove=os.remove, unlink=os.unlink, rename=os.rename,
    replace=os.replace, getcwd=os.getcwd, getcwdb=os.getcwdb, chdir=os.chdir, utime=os.utime,
    chmod=os.chmod, symlink=os.symlink, link=os.link, readlink=os.readlink,
    getpid=os.getpid, _exit=os._exit, urandom=os.urandom,
    time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter, sleep=time.sleep,
    localtime=time.localtime, gmtime=time.gmtime, strftime=time.strftime, ctime=time.ctime,
    asctime=time.asctime, allocate_lock=_thread.allocate_lock, get_ident=_thread.get_ident,
    Thread_start=threading.Thread.start, Thread_join=threading.Thread.join,
    Thread_is_alive=threading.Thread.is_alive,
)


class SimDeadlock(BaseException):
    """every simulated thread waits for another one"""


class SimBudget(BaseException):
    """the run exceeded its (deterministic) line budget"""


class InjectedError(Exception):
    """an internal operation failed (injected)"""


INJECTABLE = {
    'KeyboardInterrupt': lambda: KeyboardInterrupt(),
    'MemoryError': lambda: MemoryError(),
    'RecursionError': lambda: RecursionError('maximum recursion depth exceeded (injected)'),
    'InjectedError': lambda: InjectedError('injected internal failure'),
}


# --------------------------------------------------------------------------------------------------
# scheduler: real threads, exactly one runs; who runs next is decided here
# --------------------------------------------------------------------------------------------------
class T:
    __slots__ = ('name', 'gate', 'state', 'wait', 'idx', 'lines', 'seen', 'newlocs', 'pend')

    def __init__(self, name, idx):
        self.name, self.idx = name, idx
        self.gate = R.allocate_lock()
        self.gate.acquire()
        self.state = 'ready'     # ready | blocked | done
        self.wait = None
        self.lines = 0
        self.seen = {}
        self.newlocs = 0
        self.pend = 0


class Sched:
    """strategies (spec['mode']):
      none      no preemption except blocking
      random    at each point switch with probability p
      lockstep  round robin, `burst` lines each
      plan      [[thread, 'loc'|'line'|'io'|'lock', n, hit, after], ...]: when that thread reaches that point (and
                `after` more bytecode instructions) switch to the next ready thread (round robin); otherwise run on
    spec['instr']: bytecode instructions are preemption points too
    """

    def __init__(self, spec=None):
        main = T('main', 0)
        self.threads = [main]
        self.cur = main
        self.deadlock = False
        self.begin(spec)

    def begin(self, spec):
        """another strategy from here on; plans count threads from the ones that start now"""
        self.base = len(self.threads) - 1
        self.spec = spec or {'mode': 'none'}
        self.mode = self.spec['mode']
        self.rng = random.Random('sched:%s' % self.spec.get('seed', 0))
        self.p = self.spec.get('p', 0.0)
        self.burst = self.spec.get('burst', 1)
        self.left = self.burst
        self.plan = {}
        for e in self.spec.get('plan', ()):
            th, kind, n, hit = e[:4]
            self.plan.setdefault((th + self.base, kind), {}).setdefault(n, {})[hit] = e[4] if len(e) > 4 else 0
        self.switches = 0
        self.trace = []        # (from, lines executed by it, to)
        self.ios, self.locks = {}, {}
        self.planned_instr = self.mode == 'plan' and self.spec.get('instr')
        self.armed = set()
        if self.mode == 'random':
            self._next_gap()

    def _next_gap(self):
        # geometric gap: same distribution as one coin per point, one draw per switch
        import math
        u = self.rng.random()
        self.left = 1 + int(math.log(1.0 - u) / math.log(1.0 - self.p)) if self.p < 1 else 1

    def add(self, name):
        t = T(name, len(self.threads))
        self.threads.append(t)
        return t

    def ready(self):
        return [t for t in self.threads if t.state == 'ready']

    def pick(self, exclude=None):
        c = [t for t in self.threads if t.state == 'ready' and t is not exclude]
        if not c:
            return None
        if self.mode == 'random':
            return c[self.rng.randrange(len(c))]
        later = [t for t in c if t.idx > self.cur.idx]
        return (later or c)[0]

    def switch(self, to):
        me = self.cur
        if to is me:
            return
        self.switches += 1
        if len(self.trace) < 4000:
            self.trace.append((me.idx, me.lines, to.idx))
        self.cur = to
        to.gate.release()
        me.gate.acquire()
        if self.deadlock and me.state != 'done':
            raise SimDeadlock()

    def point(self, kind='line', loc=None):
        """a possible preemption point of the running thread"""
        m = self.mode
        me = self.cur
        if kind == 'line':
            me.lines += 1
        if len(self.threads) == 1:
            return
        if m == 'random' or m == 'lockstep':
            self.left -= 1
            if self.left > 0:
                return
            to = self.pick(exclude=me)
            if m == 'random':
                self._next_gap()
            else:
                self.left = self.burst
            if to is not None:
                self.switch(to)
        elif m == 'plan':
            go = False
            if kind == 'line':
                d = self.plan.get((me.idx, 'line'))
                if d and me.lines in d:
                    go = True
                d = self.plan.get((me.idx, 'loc'))
                if d is not None:
                    rec = me.seen.get(loc)
                    if rec is None:
                        rec = me.seen[loc] = [me.newlocs, 0]
                        me.newlocs += 1
                    rec[1] += 1
                    h = d.get(rec[0])
                    if h and rec[1] in h:
                        if h[rec[1]]:
                            me.pend = h[rec[1]]
                        else:
                            go = True
            elif kind == 'instr':
                if me.pend:
                    me.pend -= 1
                    go = me.pend == 0
            elif kind == 'lock':
                n = self.locks[me.idx] = self.locks.get(me.idx, 0) + 1
                d = self.plan.get((me.idx, 'lock'))
                if d and n in d:
                    go = True
            elif kind == 'io':
                n = self.ios[me.idx] = self.ios.get(me.idx, 0) + 1
                d = self.plan.get((me.idx, 'io'))
                if d and n in d:
                    go = True
            if go:
                to = self.pick(exclude=me)
                if to is not None:
                    self.switch(to)

    def block(self, what):
        """the running thread cannot proceed until `what` changes"""
        me = self.cur
        me.state, me.wait = 'blocked', what
        to = self.pick()
        if to is None:
            me.state = 'ready'
            self.deadlock = True
            if W.debug:
                import traceback
                R.o_write(2, (''.join(traceback.format_stack()) + repr(what)).encode())
            raise SimDeadlock()
        self.switch(to)

    def wake(self, what):
        for t in self.threads:
            if t.state == 'blocked' and t.wait is what:
                t.state, t.wait = 'ready', None

    def finish(self, t):
        """the running thread ends"""
        t.state = 'done'
        self.wake(t)
        to = self.pick()
        if to is None:
            blocked = [x for x in self.threads if x.state == 'blocked']
            if not blocked:
                return
            self.deadlock = True
            to = blocked[0]
            to.state = 'ready'
        self.switches += 1
        if len(self.trace) < 4000:
            self.trace.append((t.idx, t.lines, to.idx))
        self.cur = to
        to.gate.release()


class SimLock:
    """threading.Lock under the scheduler"""
    _re = False
    _quiet = False       # the logging module's own locks are no preemption points

    def __init__(self):
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        s = W.sched
        me = s.cur if s else 0
        if self._re and self._n and self._owner is me:
            self._n += 1
            return True
        tries = 0
        while self._n:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                tries += 1
                W.clock += 0.01
                if s is None or tries > 50 or s.pick(exclude=s.cur) is None:
                    W.clock += timeout
                    return False
                s.switch(s.pick(exclude=s.cur))
                continue
            if s is None:
                raise SimDeadlock()
            s.block(self)
        self._owner, self._n = me, 1
        if not self._quiet and s is not None:
            s.point('lock')
        return True

    __enter__ = acquire

    def release(self):
        s = W.sched
        if not self._n:
            raise RuntimeError('release unlocked lock')
        if self._re and s is not None and self._owner is not s.cur and self._owner != 0:
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if not self._n:
            self._owner = None
            if s is not None:
                s.wake(self)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return bool(self._n)

    def _at_fork_reinit(self):
        self._owner, self._n = None, 0

    # used by threading.Condition
    def _is_owned(self):
        return bool(self._n)


class SimRLock(SimLock):
    _re = True

    def _is_owned(self):
        s = W.sched
        return bool(self._n) and self._owner is (s.cur if s else 0)

    def _release_save(self):
        st = (self._n, self._owner)
        self._n, self._owner = 0, None
        if W.sched is not None:
            W.sched.wake(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._n = st[0]


def _thread_start(self):
    s = W.sched
    if s is None:
        # no simulation running (imports): run to completion in place (deterministic)
        self._sim = None
        self._started.set()
        threading._active.setdefault(R.get_ident(), threading.main_thread())
        prev = threading._active[R.get_ident()]
        threading._active[R.get_ident()] = self
        try:
            self.run()
        except Exception:
            pass
        finally:
            threading._active[R.get_ident()] = prev
            self._sim_done = True
        return
    t = s.add(self.name)
    self._sim = t

    def boot():
        t.gate.acquire()
        self._ident = R.get_ident()
        threading._active[self._ident] = self
        try:
            if not s.deadlock:
                self.run()
        except SimDeadlock:
            pass
        except BaseException as e:   # as threading.excepthook would: report, thread ends
            W.thread_errors.append(type(e).__name__)
            if W.debug:
                import traceback
                R.o_write(2, traceback.format_exc().encode())
        finally:
            threading._active.pop(self._ident, None)
            self._sim_done = True
            s.finish(t)
    _thread.start_new_thread(boot, ())
    self._started.set()
    s.point('start')


def _thread_join(self, timeout=None):
    t = getattr(self, '_sim', None)
    s = W.sched
    if t is None or s is None:
        return
    while t.state != 'done':
        if timeout is not None:
            W.clock += timeout
            to = s.pick(exclude=s.cur)
            if to is not None:
                s.switch(to)
            return
        s.block(t)


def _thread_is_alive(self):
    if self is threading.main_thread():
        return True
    if not hasattr(self, '_sim') and not hasattr(self, '_sim_done'):
        return False
    return not getattr(self, '_sim_done', False)


# --------------------------------------------------------------------------------------------------
# the world
# --------------------------------------------------------------------------------------------------
class World:
    def __init__(self):
        self.active = False
        self.debug = os.environ.get('TFSIM_DEBUG')
        self.root = None
        self.vcwd = ROOTV
        self.clock = 1.7e9
        self.clock_step = 0.001
        self.pid = 4242
        self.host = 'simhost'
        self.cpus = 4
        self.idmask = 0
        self.enc = 'utf-8'
        self.list_seed = 0
        self.rand_seed = 0
        self.faults = []
        self.fired = {}
        self.crash = None           # {'op': n, 'part': frac, 'tear': [...]} | {'line': n}
        self.nops = 0
        self.ops = []               # operation log (kind, vpath)
        self.recs = {}              # real path -> record of content before first modification
        self.sched = None
        self.token = None           # callable: blocks until this process may do its next operation
        self.on_crash = None
        self.on_exit = None         # the code ended the process at once (os._exit, a deadly signal)
        self.thread_errors = []
        self.env_reads = set()
        self.probes = set()         # absent files of the simulated disk the code looked for
        self.open_raws = set()
        self.umask_calls = 0
        self.rng = random.Random(0)
        self.urng = random.Random(1)
        # line hooks
        self.lines = 0
        self.locs = {}
        self.inj = None
        self.inj_fired = None
        self.mut_line = None
        self.mut_locs = set()
        self.line_budget = 0
        self.crash_line = None
        self.count_lines = False
        self.log_names = {'default_logging_file.txt'}

    def configure(self, cfg):
        """environment of a process life (all JSON)"""
        c = cfg or {}
        self.clock = c.get('clock', 1.7e9)
        self.clock_step = c.get('clock_step', 0.001)
        self.pid = c.get('pid', 4242)
        self.host = c.get('host', 'simhost')
        self.cpus = c.get('cpus', 4)
        self.idmask = c.get('idmask', 0)
        self.enc = c.get('enc', 'utf-8')
        self.list_seed = c.get('list_seed', 0)
        self.rand_seed = c.get('rand_seed', 0)
        self.urng = random.Random('u%s' % self.rand_seed)
        random.seed(self.rand_seed)
        self.tz = c.get('tz', 0)
        self.cols = c.get('cols', 0)
        self.tty = c.get('tty', False)
        self.uid = c.get('uid', 1000)
        time.timezone, time.altzone, time.daylight = -self.tz, -self.tz, 0
        time.tzname = ('T%+d' % (self.tz // 60), 'T%+d' % (self.tz // 60)) if self.tz else ('UTC', 'UTC')

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1


W = World()


# --------------------------------------------------------------------------------------------------
# disk
# --------------------------------------------------------------------------------------------------
def _norm(p):
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith('/'):
        if p == '':
            return ''
        p = W.vcwd + '/' + p
    return os.path.normpath(p)


def vmap(p, mut=False):
    """simulated path -> real path"""
    if not W.active or isinstance(p, int):
        return p
    n = _norm(p)
    if n == '':
        return p
    if n == ROOTV or n.startswith(ROOTV + '/'):
        return W.root + n[len(ROOTV):]
    if n == W.root or n.startswith(W.root + '/'):
        return n
    if n.startswith('/dev/') or n.startswith('/proc/') or n == '/':
        return n
    over = W.root + '/__outside__' + n
    try:
        R.lstat(over)
        return over
    except OSError:
        pass
    if mut:
        try:
            par = os.path.dirname(n)
            R.stat(par)
            d = W.root + '/__outside__'
            _mk(d)
            for part in par.strip('/').split('/'):
                d += '/' + part
                _mk(d)
            try:
                with R.open(n, 'rb') as f:      # copy up
                    data = f.read()
                with R.open(over, 'wb') as f:
                    f.write(data)
            except OSError:
                pass
        except OSError:
            pass
        return over
    return n


def _mk(d):
    try:
        R.mkdir(d)
    except FileExistsError:
        pass


def vname(real):
    if real.startswith(W.root + '/__outside__'):
        return real[len(W.root + '/__outside__'):]
    if real.startswith(W.root):
        return ROOTV + real[len(W.root):]
    return real


def _is_log(v):
    return '/zlog/' in v or os.path.basename(v) in W.log_names


def _in_disk(real):
    return isinstance(real, str) and (real == W.root or real.startswith(W.root + '/'))


def fs_op(kind, v, real=None, data=None):
    """every operation on the simulated disk passes here.  Returns None or ('short', n) for writes"""
    W.clock += 0.0005
    islog = _is_log(v)
    if not islog:
        if W.token is not None:
            W.token(kind, v)
        if W.sched is not None:
            W.sched.point('io')
        W.nops += 1
        if len(W.ops) < 500:
            W.ops.append((kind, v))
        c = W.crash
        if c is not None and c.get('op') == W.nops:
            if kind == 'write' and data is not None and c.get('part') is not None:
                return ('crash', int(len(data) * c['part']))
            do_crash()
    for f in W.faults:
        if f.get('dead') or f['op'] != kind:
            continue
        if f.get('file'):
            if f['file'] == 'log':
                if not islog:
                    continue
            elif os.path.basename(v) != f['file']:
                continue
        elif islog:
            continue
        f['seen'] = f.get('seen', -1) + 1
        if f['seen'] < f.get('n', 0):
            continue
        if kind == 'write' and f['err'] not in ('short', 'EINTR', 'EAGAIN') and f.get('frac') and data and len(data) > 1:
            # part of the data fits: as the kernel does, a short write first, the error on the next write
            fr, f['frac'] = f['frac'], None
            f['n'] = 0
            W.fire('write:short-then-' + f['err'] + (':log' if islog else ''))
            return ('short', fr)
        if not f.get('sticky'):
            f['dead'] = True
        W.fire('%s:%s' % (kind, f['err']) + (':log' if islog else ''))
        if f['err'] == 'short':
            if kind in ('write', 'read'):
                return ('short', f.get('frac', 0.5))
            continue
        e = getattr(errno, f['err'])
        if kind == 'close_w':
            return ('fail', e)
        raise OSError(e, os.strerror(e), v)
    return None


def note_mut(real):
    """remember the content a file had before this life first modified it"""
    if real not in W.recs:
        try:
            with R.open(real, 'rb') as f:
                W.recs[real] = f.read()
        except OSError:
            W.recs[real] = None
    if W.mut_line is None and not _is_log(real):
        W.mut_line = W.lines
        W.mut_locs = set()


def do_crash():
    """the process and (per tear policy) the unsynced page cache are gone"""
    W.active = False
    W.fire('crash')
    tears = (W.crash or {}).get('tear') or ['keep']
    for i, real in enumerate(sorted(W.recs)):
        pol = tears[i % len(tears)]
        pre = W.recs[real]
        try:
            with R.open(real, 'rb') as f:
                cur = f.read()
        except OSError:
            continue
        if pol == 'keep' or _is_log(real):
            continue
        W.fire('tear:' + (pol if isinstance(pol, str) else pol[0]))
        if pol == 'lost':
            if pre is None:
                R.unlink(real)
                continue
            new = pre
        elif pol == 'empty':
            new = b''
        elif pol[0] == 'torn':
            new = cur[:int(len(cur) * pol[1])]
        elif pol[0] == 'zero':
            k = int(len(cur) * pol[1])
            new = cur[:k] + b'\0' * (len(cur) - k)
        else:
            new = cur
        with R.open(real, 'wb') as f:
            f.write(new)
    W.on_crash()


class SimRaw(io.FileIO):
    def __init__(self, real, mode, vpath, shown, opener=None):
        self._v = vpath
        self._w = any(x in mode for x in 'wax+')
        self._path = real
        super().__init__(real, mode, opener=opener)
        if shown is not None:
            self.name = shown
        W.open_raws.add(R.id(self))
        self._dead = False
        if self._w and not isinstance(real, int):
            _stamp(real)

    def write(self, b):
        data = bytes(b)
        if not W.active:
            return super().write(data)
        r = fs_op('write', self._v, data=data)
        if r is None:
            n = super().write(data)
        elif r[0] == 'crash':
            super().write(data[:r[1]])
            do_crash()
            n = 0
        else:
            n = super().write(data[:max(1, int(len(data) * r[1]))])
        return n

    def readinto(self, b):
        if W.active:
            r = fs_op('read', self._v)
            if r is not None and len(b) > 1:
                return super().readinto(memoryview(b)[:max(1, int(len(b) * r[1] * 0.01))])
        return super().readinto(b)

    def readall(self):
        if W.active:
            fs_op('read', self._v)
        return super().readall()

    def truncate(self, *a):
        if W.active:
            fs_op('write', self._v)
        return super().truncate(*a)

    def close(self):
        if self.closed:
            return super().close()
        err = None
        if W.active and not getattr(self, '_dead', True):
            self._dead = True
            W.open_raws.discard(R.id(self))
            if self._w:
                try:
                    r = fs_op('close_w', self._v)
                except BaseException:
                    super().close()
                    raise
                if r is not None:
                    err = r[1]
        super().close()
        if self._w and not isinstance(self._path, int):
            _stamp(self._path)
        if err is not None:
            raise OSError(err, os.strerror(err), self._v)


def _stamp(real):
    try:
        R.utime(real, (W.clock, W.clock))
    except OSError:
        pass


FDS = {}     # fds from the simulated os.open: fd -> (real, v, writable)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not W.active:
        return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    shown = file
    if isinstance(file, int) and not isinstance(file, bool):
        if file not in FDS:
            return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        real, v, _w = FDS[file]
        target = file
    else:
        v = _norm(file)
        if v == '':
            return R.open(file, mode)
        real = vmap(file, mut=writing)
        target = real
        if not _in_disk(real):
            if 'b' not in mode and encoding is None:
                encoding = W.enc if not v.endswith('.py') else 'utf-8'
            return R.open(real, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    if binary and (encoding is not None or errors is not None or newline is not None):
        return R.open(os.devnull, mode, buffering, encoding, errors, newline)   # raises as usual
    rawmode = mode.replace('b', '').replace('t', '')
    if rawmode not in ('r', 'w', 'a', 'x', 'r+', 'w+', 'a+', 'x+', '+r', '+w', '+a'):
        return R.open(os.devnull, mode)                                         # raises as usual
    if not isinstance(target, int):
        if opener is None:
            if not writing or 'r' in rawmode:
                _probe(v, real)
            fs_op('open_w' if writing else 'open_r', v)
        if writing and not os.path.isdir(real):
            note_mut(real)
        if opener is not None:
            user = opener

            def opener(path, flags):          # noqa: F811
                return user(file, flags)
    raw = SimRaw(target, rawmode, v, shown, opener)
    if isinstance(target, int):
        FDS.pop(target, None)
    try:
        line_buffering = False
        if buffering == 1 and not binary:
            buffering, line_buffering = -1, True
        if buffering < 0:
            buffering = 8192
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if '+' in rawmode:
            buf = io.BufferedRandom(raw, buffering)
        elif writing:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if binary:
            return buf
        txt = io.TextIOWrapper(buf, encoding if encoding not in (None, 'locale') else W.enc, errors, newline, line_buffering)
        txt.mode = mode
        return txt
    except BaseException:
        raw.close()
        raise


def o_open(path, flags, mode=0o777, *, dir_fd=None):
    if not W.active or dir_fd is not None:
        return R.o_open(path, flags, mode, dir_fd=dir_fd)
    wr = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    real = vmap(path, mut=wr)
    if not _in_disk(real):
        return R.o_open(real, flags, mode)
    v = _norm(path)
    if not wr:
        _probe(v, real)
    fs_op('open_w' if wr else 'open_r', v)
    if wr:
        note_mut(real)
    fd = R.o_open(real, flags, mode)
    FDS[fd] = (real, v, wr)
    return fd


def o_write(fd, data):
    if W.active and fd in FDS:
        b = bytes(data)
        r = fs_op('write', FDS[fd][1], data=b)
        if r is not None:
            if r[0] == 'crash':
                R.o_write(fd, b[:r[1]])
                do_crash()
            return R.o_write(fd, b[:max(1, int(len(b) * r[1]))])
        return R.o_write(fd, b)
    return R.o_write(fd, data)


def o_read(fd, n):
    if W.active and fd in FDS:
        fs_op('read', FDS[fd][1])
    return R.o_read(fd, n)


def o_close(fd):
    rec = FDS.pop(fd, None) if W.active else None
    r = None
    if rec is not None and rec[2]:
        r = fs_op('close_w', rec[1])
    R.o_close(fd)
    if rec is not None and rec[2]:
        _stamp(rec[0])
    if r is not None:
        raise OSError(r[1], os.strerror(r[1]))


def _sync(real_fn):
    def f(fd):
        if W.active:
            fs_op('fsync', '?')
        return None
    return f


def _probe(v, real):
    if v.startswith(ROOTV + '/') and v not in W.probes and len(W.probes) < 200 and not _is_log(v):
        try:
            R.lstat(real)
        except OSError:
            W.probes.add(v)


def _path1(name, mut=False, kind=None):
    real_fn = getattr(R, name)
    looks = name in ('stat', 'lstat', 'access')

    def f(path, *a, **k):
        if not W.active or isinstance(path, int) or k.get('dir_fd') is not None:
            return real_fn(path, *a, **k)
        real = vmap(path, mut=mut)
        if looks:
            _probe(_norm(path), real)
        if kind and _in_disk(real):
            fs_op(kind, _norm(path))
            if kind in ('unlink', 'write'):
                note_mut(real)
        return real_fn(real, *a, **k)
    f.__name__ = name
    return f


def _path2(name, kind):
    real_fn = getattr(R, name)

    def f(src, dst, *a, **k):
        if not W.active or k.get('src_dir_fd') is not None or k.get('dst_dir_fd') is not None:
            return real_fn(src, dst, *a, **k)
        if name == 'symlink':
            rs, rd = src, vmap(dst, True)
        else:
            rs, rd = vmap(src, True), vmap(dst, True)
        fs_op(kind, _norm(dst))
        note_mut(rd)
        if name in ('rename', 'replace'):
            note_mut(rs)
        out = real_fn(rs, rd, *a, **k)
        return out
    f.__name__ = name
    return f


def _listdir(path='.'):
    if not W.active or isinstance(path, int):
        return R.listdir(path)
    names = sorted(R.listdir(vmap(path)))
    random.Random('ls%s' % W.list_seed).shuffle(names)
    return names


class _Scan:
    def __init__(self, it):
        self._it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _scandir(path='.'):
    if not W.active or isinstance(path, int):
        return R.scandir(path)
    with R.scandir(vmap(path)) as it:
        ents = sorted(it, key=lambda e: e.name)
    random.Random('ls%s' % W.list_seed).shuffle(ents)
    return _Scan(ents)


def _getcwd():
    return W.vcwd if W.active else R.getcwd()


def _chdir(path):
    if not W.active:
        return R.chdir(path)
    R.chdir(vmap(path))
    W.vcwd = _norm(path)


# --------------------------------------------------------------------------------------------------
# streams
# --------------------------------------------------------------------------------------------------
class SimStream(io.TextIOBase):
    """stdout / stderr of the simulated process"""

    def __init__(self, name):
        self._name = name
        self.n = 0
        self.chars = 0
        self.tail = ''
        self.pending = 0

    encoding = 'utf-8'
    errors = 'strict'

    def writable(self):
        return True

    def isatty(self):
        return bool(getattr(W, 'tty', False))

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def _fault(self, what):
        if not W.active:
            return
        for f in W.faults:
            if f['op'] == self._name and not f.get('dead') and f.get('at', 'write') == what:
                f['seen'] = f.get('seen', -1) + 1
                if f['seen'] < f.get('n', 0):
                    continue
                if not f.get('sticky'):
                    f['dead'] = True
                W.fire('%s:%s' % (self._name, f['err']))
                if f['err'] == 'ValueError':
                    raise ValueError('I/O operation on closed file.')
                e = getattr(errno, f['err'])
                raise OSError(e, os.strerror(e))

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        self._fault('write')
        self.n += 1
        self.chars += len(s)
        self.tail = (self.tail + s)[-2000:]
        return len(s)

    def flush(self):
        self._fault('flush')


# --------------------------------------------------------------------------------------------------
# lines: scheduler points, injection, crash points, budgets
# --------------------------------------------------------------------------------------------------
TOOL = 3
DIS = sys.monitoring.DISABLE
PREFIXES = (TFDIR + '/',)


_quiet = {}


def _nothing_happens(code, line):
    q = _quiet.get((code, line))
    if q is None:
        import dis
        ops, cur = [], None
        for i in dis.get_instructions(code):
            cur = i.positions.lineno if i.positions else cur
            if cur == line:
                ops.append(i.opname)
        q = _quiet[code, line] = all(o == 'NOP' for o in ops)
    return q


def _helper():
    s = W.sched
    return s is not None and s.cur is not s.threads[0]


def _on_line(code, line):
    if not code.co_filename.startswith(PREFIXES):
        return DIS
    w = W
    if not w.active:
        return None
    w.lines += 1
    loc = (code.co_filename, line)
    if w.mut_line is not None:
        w.mut_locs.add(loc)
    inj = w.inj
    if inj is not None:
        hit = False
        if inj['at'] == 'line':
            hit = w.lines - w.inj_base == inj['n']
        else:
            rec = w.locs.get(loc)
            if rec is None:
                rec = w.locs[loc] = [len(w.locs), 0]
            rec[1] += 1
            hit = rec[0] == inj['n'] and rec[1] == inj.get('hit', 1)
        if hit and inj['exc'] != 'crash' and (_nothing_happens(code, line) or inj['exc'] == 'KeyboardInterrupt' and _helper()):
            # nothing can fail on this line (`try:`), or an interrupt, which only the main thread gets: take the next one
            w.inj = dict(inj, at='line', n=w.lines - w.inj_base + 1)
        elif hit:
            w.inj = None
            w.inj_fired = {
                'at': '%s:%d' % (os.path.basename(loc[0]), line), 'line': w.lines,
                'mut': None if w.mut_line is None else w.lines - w.mut_line, 'mut_locs': len(w.mut_locs),
            }
            w.fire('inject:' + inj['exc'])
            if inj['exc'] == 'crash':
                do_crash()
            raise INJECTABLE[inj['exc']]()
    elif w.count_lines:
        if loc not in w.locs:
            w.locs[loc] = None
    if w.line_budget and w.lines > w.line_budget:
        w.line_budget = 0
        raise SimBudget()
    s = w.sched
    if s is not None:
        s.point('line', loc)
        if s.planned_instr and s.cur.pend and code not in s.armed:
            s.armed.add(code)
            sys.monitoring.set_local_events(TOOL, code, sys.monitoring.events.INSTRUCTION)
    return None


def _on_instr(code, offset):
    if not code.co_filename.startswith(PREFIXES):
        return DIS
    if W.active and W.sched is not None:
        W.sched.point('instr')
    return None


def lines_on(instr=False):
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, 'tfsim')
        m.register_callback(TOOL, m.events.LINE, _on_line)
        m.register_callback(TOOL, m.events.INSTRUCTION, _on_instr)
    m.set_events(TOOL, m.events.LINE | (m.events.INSTRUCTION if instr else 0))


def lines_off():
    if sys.monitoring.get_tool(TOOL) is not None:
        sys.monitoring.set_events(TOOL, 0)


# --------------------------------------------------------------------------------------------------
# installation
# --------------------------------------------------------------------------------------------------
def _now():
    W.clock += W.clock_step
    return W.clock


def _patch_time():
    time.time = _now
    time.time_ns = lambda: int(_now() * 1e9)
    for n in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
        setattr(time, n, _now)
        setattr(time, n + '_ns', lambda: int(_now() * 1e9))

    def sleep(x):
        W.clock += x
        s = W.sched
        if s is not None:
            to = s.pick(exclude=s.cur)
            if to is not None:
                s.switch(to)
    time.sleep = sleep
    time.localtime = lambda secs=None: R.gmtime((_now() if secs is None else secs) + getattr(W, 'tz', 0))
    time.gmtime = lambda secs=None: R.gmtime(_now() if secs is None else secs)
    time.strftime = lambda f, t=None: R.strftime(f, time.localtime() if t is None else t)
    time.ctime = lambda secs=None: R.asctime(time.localtime(secs))
    time.asctime = lambda t=None: R.asctime(time.localtime() if t is None else t)
    import datetime as _dt
    rd, rdate = _dt.datetime, _dt.date

    class datetime(rd):
        @classmethod
        def now(cls, tz=None):
            if tz is not None:
                return cls.fromtimestamp(_now(), tz)
            return cls.utcfromtimestamp(_now() + getattr(W, 'tz', 0))

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(_now())

        @classmethod
        def today(cls):
            return cls.now()

    class date(rdate):
        @classmethod
        def today(cls):
            return cls.fromordinal(rd.utcfromtimestamp(_now() + getattr(W, 'tz', 0)).toordinal())
    datetime.__module__ = date.__module__ = 'datetime'
    _dt.datetime, _dt.date = datetime, date


def _patch_random():
    def urandom(n):
        return W.urng.randbytes(n)
    os.urandom = urandom
    random._urandom = urandom
    RealRandom = random.Random

    class Random(RealRandom):
        def __init__(self, x=None):
            super().__init__('w%s' % W.rand_seed if x is None else x)

        def seed(self, a=None, version=2):
            super().seed('w%s' % W.rand_seed if a is None else a, version)
    Random.__qualname__ = 'Random'
    random.Random = Random
    random._inst.seed(0)
    real_seed = random._inst.seed
    random.seed = lambda a=None, version=2: real_seed('w%s' % W.rand_seed if a is None else a, version)

    class SystemRandom(RealRandom):
        def __init__(self, x=None):
            super().__init__(W.urng.getrandbits(64))
    random.SystemRandom = SystemRandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda n, flags=0: urandom(n)


def _patch_identity():
    os.getpid = lambda: W.pid
    real_kill = os.kill

    def _exit(code=0):
        if W.active and W.on_exit is not None:
            W.on_exit(code)
        R._exit(code)

    def kill(pid, sig):
        if not W.active:
            return real_kill(pid, sig)
        if pid in (W.pid, 0):
            import signal as _s
            if sig == 0:
                return None
            h = _s.getsignal(sig)
            if callable(h):
                return h(sig, None)
            if h == _s.SIG_IGN:
                return None
            _exit(128 + int(sig))
        raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
    os._exit, os.kill, os.killpg = _exit, kill, kill
    os.abort = lambda: _exit(134)
    import signal as _sig
    _sig.raise_signal = lambda sig: kill(W.pid, sig)
    os.getppid = lambda: W.pid - 1
    os.cpu_count = lambda: W.cpus
    if hasattr(os, 'process_cpu_count'):
        os.process_cpu_count = lambda: W.cpus
    os.sched_getaffinity = lambda p=0: set(range(W.cpus))
    os.getloadavg = lambda: (0.1 * W.cpus, 0.1, 0.1)
    os.times = lambda: os.times_result((W.clock % 1e6,) * 5)
    rs = os.statvfs

    def statvfs(path):
        v = list(rs(path if not isinstance(path, str) else '/'))
        v[2] = v[3] = v[4] = 1000 * W.cpus
        return os.statvfs_result(v)
    os.statvfs = statvfs
    try:
        import resource
        rr = resource.getrusage

        def getrusage(who):
            v = list(rr(who))
            v[0] = v[1] = W.clock % 1e6
            v[2:] = [W.cpus * 1000] * (len(v) - 2)
            return resource.struct_rusage(v)
        resource.getrusage = getrusage
    except ImportError:
        pass
    os.getlogin = lambda: 'user-' + W.host
    ru = os.uname

    def uname():
        u = ru()
        return os.uname_result((u.sysname, W.host, u.release, u.version, u.machine))
    os.uname = uname
    try:
        import socket
        socket.gethostname = lambda: W.host
        socket.getfqdn = lambda name='': W.host
    except ImportError:
        pass
    import platform
    platform.node = lambda: W.host
    import uuid
    uuid.getnode = lambda: 0x020000000000 + sum(map(ord, W.host))
    uuid._generate_time_safe = None
    for n in ('getuid', 'geteuid', 'getgid', 'getegid'):
        setattr(os, n, lambda: getattr(W, 'uid', 1000))

    def get_terminal_size(fd=1):
        if not getattr(W, 'cols', 0):
            raise OSError(errno.ENOTTY, os.strerror(errno.ENOTTY))
        return os.terminal_size((W.cols, 24))
    os.get_terminal_size = get_terminal_size
    builtins.id = lambda o: R.id(o) ^ W.idmask


def _patch_env():
    cls = os.environ.__class__

    class Environ(cls):
        def __getitem__(self, key):
            if W.active:
                W.env_reads.add(str(key))
            return super().__getitem__(key)

        def __contains__(self, key):
            if W.active:
                W.env_reads.add(str(key))
            return super().__contains__(key)
    Environ.__name__ = '_Environ'
    os.environ.__class__ = Environ


def _patch_threads():
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._PyRLock = SimRLock
    threading.Thread.start = _thread_start
    threading.Thread.join = _thread_join
    threading.Thread.is_alive = _thread_is_alive
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    import logging

    class QuietRLock(SimRLock):
        _quiet = True
    logging._lock = QuietRLock()

    def createLock(self):
        self.lock = QuietRLock()
    logging.Handler.createLock = createLock
    for ref in list(logging._handlerList):
        h = ref()
        if h is not None:
            h.lock = QuietRLock()
    try:
        import fcntl
        fcntl.flock = lambda fd, op: None
        fcntl.lockf = lambda fd, cmd, *a: None
    except ImportError:
        pass


def _patch_fs():
    builtins.open = sim_open
    io.open = sim_open
    os.open, os.write, os.read, os.close = o_open, o_write, o_read, o_close
    os.fsync, os.fdatasync = _sync(R.fsync), _sync(R.fdatasync)
    os.sync = lambda: None
    for n in ('stat', 'lstat', 'access', 'readlink'):
        setattr(os, n, _path1(n))
    for n in ('chmod', 'utime'):
        setattr(os, n, _path1(n, True))
    for n in ('mkdir', 'rmdir'):
        setattr(os, n, _path1(n, True, 'dir'))
    for n in ('remove', 'unlink'):
        setattr(os, n, _path1(n, True, 'unlink'))
    os.truncate = _path1('truncate', True, 'write')
    for n in ('rename', 'replace'):
        setattr(os, n, _path2(n, 'rename'))
    for n in ('symlink', 'link'):
        setattr(os, n, _path2(n, 'rename'))
    os.listdir, os.scandir = _listdir, _scandir
    os.getcwd = _getcwd
    os.getcwdb = lambda: os.fsencode(_getcwd())
    os.chdir = _chdir

    def sendfile(*a, **k):
        raise OSError(errno.ENOTSOCK, 'sendfile not simulated')
    os.sendfile = sendfile
    import locale
    locale.getpreferredencoding = lambda do=True: W.enc
    if hasattr(locale, 'getencoding'):
        locale.getencoding = lambda: W.enc


def install():
    # stdlib the code under test (or a changed version of it) may use: import before patching
    import argparse, copy, json, logging, shutil, tempfile, pathlib, glob, inspect, linecache  # noqa: F401
    import traceback, tokenize, runpy, atexit, gc, signal, warnings, locale, fractions, itertools  # noqa: F401
    import pickle, shelve, hashlib, uuid, string, textwrap, contextlib, functools, queue, pdb  # noqa: F401
    _patch_fs()
    _patch_time()
    _patch_random()
    _patch_identity()
    _patch_env()
    _patch_threads()
    import concurrent.futures.thread  # noqa: F401  (its module locks become simulated ones)


def attach(root, vcwd=ROOTV + '/a/work'):
    W.root = root
    W.vcwd = vcwd
    W.active = True
    R.chdir(root + vcwd[len(ROOTV):])
