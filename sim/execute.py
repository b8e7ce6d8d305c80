"""Runs one process life of a scenario: a list of operations against the real code, inside the seams."""
import copy
import gc
import hashlib
import json
import logging
import os
import random
import signal
import sys
import threading
import warnings

import seams
from seams import W, R, ROOTV, T as _T  # noqa: F401

KEYS = {
    'zhz': ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 'omega_max_order'],
    'fcc': ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 's_taylor_max_order', 'omega_max_order'],
    'eTz': ['maximum_hamiltonian_rank', 'maximum_coupled_cluster_rank', 'maximum_T_rank', 'eT_taylor_max_order',
            'omega_max_order'],
}
MAXIMA = {'maximum_hamiltonian_rank': 6, 'maximum_coupled_cluster_rank': 6, 's_taylor_max_order': 6,
          'omega_max_order': 6, 'maximum_T_rank': 1, 'eT_taylor_max_order': 8}
KIND_TYPE = {'fcc_tex': 'fcc', 'fcc_py': 'fcc', 'zhz_tex': 'zhz', 'eT_tex': 'eTz', 'eT_py': 'eTz'}
MODULES = ['truncation_keys', 'truncations', 'latex_full_cc', 'latex_zhz', 'latex_eT_zhz', 'latex_w_equations',
           'code_full_cc', 'code_eT_zhz', 'code_residual_equations', 'code_w_equations', 'code_dt_equations',
           '_glue_']


def import_all():
    import importlib
    for m in MODULES:
        importlib.import_module(m)


def mod(name):
    import importlib
    return importlib.import_module(name)


def rkey(r):
    return json.dumps(r, sort_keys=True, separators=(',', ':'))


def make_trunc(ty, v, tmut=None):
    tk = mod('truncation_keys').TruncationsKeys
    d = {tk(k): x for k, x in zip(KEYS[ty], v)}
    for m in tmut or ():
        if m[0] == 'drop':
            d.pop(tk(m[1]), None)
        elif m[0] == 'set':
            d[tk(m[1])] = m[2]
        elif m[0] == 'extra':
            d[m[1]] = m[2]
        elif m[0] == 'clear':
            d.clear()
    return d


def caller_dict(ty, r, shared, reuse, given=None):
    """the truncation dictionary the caller passes: new, kept from an equal request, or one object it keeps refilling"""
    if given is not None:
        return given
    t = make_trunc(ty, r['t'], r.get('tmut'))
    if reuse is not None:
        own = reuse.setdefault('refill', {})
        own.clear()
        own.update(t)
        return own
    if shared is not None:
        return shared.setdefault(json.dumps([ty, r['t'], r.get('tmut')]), t)
    return t


def call_request(r, path, shared, reuse=None, given=None):
    """-> (callable, list of (caller-owned object, deep copy))"""
    k = r['k']
    if k in KIND_TYPE:
        t = caller_dict(KIND_TYPE[k], r, shared, reuse, given)
        kw = {'only_ground_state': r.get('gs', True), 'remove_f_terms': r.get('rf', False), 'path': path}
        if 'side' in r:
            kw['lhs_rhs'] = r['side']
        f = {
            'fcc_tex': ('latex_full_cc', 'generate_full_cc_latex'), 'fcc_py': ('code_full_cc', 'generate_full_cc_python'),
            'zhz_tex': ('latex_zhz', 'generate_z_t_symmetric_latex'),
            'eT_tex': ('latex_eT_zhz', 'generate_eT_z_t_symmetric_latex'),
            'eT_py': ('code_eT_zhz', 'generate_eT_zhz_python'),
        }[k]
        fn = getattr(mod(f[0]), f[1])
        owned = [(t, list(t.items())), (kw, list(kw.items()))]
        return (lambda: fn(t, **kw)), owned
    if k in ('glue_tex', 'glue_py'):
        t = caller_dict(r['ty'], r, shared, reuse, given)
        kw = dict(r.get('kw', {}))
        fn = getattr(mod('_glue_'), {'glue_tex': '_generate_latex', 'glue_py': '_generate_python'}[k])
        return (lambda: fn(t, **kw)), [(t, list(t.items())), (kw, list(kw.items()))]
    f = {
        'gw': ('latex_w_equations', 'ground_state_w_equations_latex'),
        'ew': ('latex_w_equations', 'excited_state_w_equations_latex'),
        'w': ('code_w_equations', 'generate_w_operator_equations_file'),
        'dt': ('code_dt_equations', 'generate_dt_amplitude_equations_file'),
        'res': ('code_residual_equations', 'generate_residual_equations_file'),
    }[k]
    fn = getattr(mod(f[0]), f[1])
    a = [r['n'], r['h']] if k == 'res' else [r['n']]
    if path is not None:       # else: the documented default target
        a.append(path)
    return (lambda: fn(*a)), []


# --------------------------------------------------------------------------------------------------
ROOT_DIRS = ('', '/a', '/a/work', '/a/other', '/tmp', '/home', '/zlog')


def tree():
    """content of the simulated disk: path -> [sha1, size]; directories that were not there at first end in '/'"""
    out = {}
    for d, dirs, files in _walk(W.root):
        rel = d[len(W.root):]
        if rel.startswith('/__outside__'):
            rel = rel[len('/__outside__'):]
            try:
                R.stat(rel or '/')
            except OSError:
                out[rel + '/'] = ['dir', 0]
        elif rel not in ROOT_DIRS:
            out[seams.vname(d) + '/'] = ['dir', 0]
        for f in files:
            p = d + '/' + f
            try:
                with R.open(p, 'rb') as fp:
                    b = fp.read()
            except OSError:
                out[seams.vname(p)] = ['?', 0]
                continue
            out[seams.vname(p)] = [hashlib.sha1(b).hexdigest()[:16], len(b)]
    return out


def meta():
    """what a file is besides its content: kind, permissions, time of last change (compared within one life only)"""
    out = {}
    for d, dirs, files in _walk(W.root):
        for f in files:
            try:
                st = R.lstat(d + '/' + f)
                out[seams.vname(d + '/' + f)] = (st.st_mode, st.st_mtime_ns, st.st_ino)
            except OSError:
                pass
        try:
            out[seams.vname(d) + '/'] = R.lstat(d).st_mode
        except OSError:
            pass
    return out


def _walk(d):
    dirs, files = [], []
    with R.scandir(d) as it:
        for e in it:
            (dirs if e.is_dir(follow_symlinks=False) else files).append(e.name)
    yield d, dirs, files
    for x in sorted(dirs):
        yield from _walk(d + '/' + x)


def _loggers():
    m = logging.root.manager.loggerDict
    return {n: lg for n, lg in m.items() if isinstance(lg, logging.Logger)}


def state_before():
    import atexit
    import builtins
    import locale
    s = {
        'cwd': W.vcwd, 'real_cwd': R.getcwd(), 'environ': dict(os.environ._data),
        'stdout': R.id(sys.stdout), 'stderr': R.id(sys.stderr), 'stdin': R.id(sys.stdin),
        '__stdout__': R.id(sys.__stdout__), 'recursion_limit': sys.getrecursionlimit(),
        'root_level': logging.root.level, 'log_disable': logging.root.manager.disable,
        'root_handlers': [(R.id(h), h.level) for h in logging.root.handlers],
        'root_filters': len(logging.root.filters),
        'raiseExceptions': logging.raiseExceptions,
        'signals': {int(n): R.id(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP,
                                                                signal.SIGALRM, signal.SIGPIPE, signal.SIGUSR1)},
        'alarm': signal.getitimer(signal.ITIMER_REAL)[0],
        'random': hash(random.getstate()), 'gc': (gc.isenabled(), gc.get_threshold()),
        'warnings': [str(x) for x in warnings.filters], 'sys.path': list(sys.path), 'argv': list(sys.argv),
        'trace': (R.id(sys.gettrace()), R.id(sys.getprofile())), 'excepthook': R.id(sys.excepthook),
        'displayhook': R.id(sys.displayhook), 'atexit': atexit._ncallbacks(),
        'switchinterval': sys.getswitchinterval(), 'locale': locale.setlocale(locale.LC_ALL),
        'meta_path': len(sys.meta_path), 'path_hooks': len(sys.path_hooks),
        'builtins': {k: R.id(v) for k, v in vars(builtins).items() if k != '_'},
        'int_max_str': sys.get_int_max_str_digits(), 'bytecode': sys.dont_write_bytecode,
        'nice': os.getpriority(os.PRIO_PROCESS, 0),
        'umask': _umask(),
    }
    np = sys.modules.get('numpy')
    if np is not None:
        s['np_print'] = repr(np.get_printoptions())
        s['np_err'] = repr(np.geterr())
    import decimal
    import resource
    import tempfile
    if np is not None:
        try:
            s['np_random'] = hash(np.random.get_state()[1].tobytes())
        except Exception:
            pass
    s['decimal'] = repr(decimal.getcontext())
    s['rlimits'] = [resource.getrlimit(getattr(resource, n)) for n in ('RLIMIT_STACK', 'RLIMIT_AS', 'RLIMIT_NOFILE', 'RLIMIT_CORE', 'RLIMIT_FSIZE')]
    s['tempdir'] = repr(tempfile.tempdir)
    s['hooks'] = [R.id(x) for x in (sys.unraisablehook, threading.excepthook, sys.breakpointhook, logging.getLogRecordFactory(),
                                    logging.getLoggerClass(), logging.lastResort, warnings.showwarning)]
    s['stack_size'] = _stack_size()
    import faulthandler
    import tracemalloc
    s['tracemalloc'] = tracemalloc.is_tracing()
    s['faulthandler'] = faulthandler.is_enabled()
    s['coroutine'] = (sys.get_coroutine_origin_tracking_depth(), R.id(sys.get_asyncgen_hooks().firstiter))
    s['thread_hooks'] = (R.id(threading.gettrace()), R.id(threading.getprofile()))
    s['monitoring'] = [sys.monitoring.get_tool(i) for i in range(6) if i != seams.TOOL]
    s['asyncgen'] = (len(gc.callbacks), gc.get_freeze_count(), gc.get_debug())
    s['level_names'] = sorted(logging.getLevelNamesMapping().items())
    import socket
    s['socket'] = socket.getdefaulttimeout()
    s['captured'] = R.id(warnings.showwarning)
    s['stdlib'] = {'%s.%s' % (m.__name__, n): R.id(v) for m in (os, sys, logging, random, gc, signal, threading, tempfile, json, copy, hashlib)
                   for n, v in list(vars(m).items()) if not n.startswith('_') and (isinstance(v, type) or callable(v))}
    for n in ('itertools', 'io', 'time', 'math', 'string', 're', 'functools', 'operator', 'collections', 'shutil', 'pathlib', 'fractions', 'argparse'):
        m = sys.modules.get(n)
        if m is not None:
            s['stdlib'].update({'%s.%s' % (n, k): R.id(v) for k, v in list(vars(m).items()) if not k.startswith('_') and (isinstance(v, type) or callable(v))})
    s['streams'] = [(getattr(f, 'encoding', None), getattr(f, 'errors', None), getattr(f, 'line_buffering', None)) for f in (sys.stdout, sys.stderr)]
    s['linesep'] = (os.linesep, os.sep)
    s['threads'] = len([t for t in threading.enumerate()])
    s['_loggers'] = {n: (lg.level, lg.propagate, lg.disabled, [R.id(h) for h in lg.handlers]) for n, lg in _loggers().items()}
    s['open_raws'] = len(W.open_raws)
    s['sim_fds'] = len(seams.FDS)
    return s


def apply_pre(pre):
    """process-wide settings the caller made before its first request"""
    import decimal
    import tempfile
    np = sys.modules.get('numpy')
    for k, v in pre.items():
        if k == 'umask':
            os.umask(v)
        elif k == 'recursion_limit':
            sys.setrecursionlimit(v)
        elif k == 'gc':
            gc.disable() if v == 'off' else gc.set_threshold(*v)
        elif k == 'random':
            random.seed(v)
        elif k == 'warnings':
            warnings.simplefilter(v)
        elif k in ('sigint', 'sigterm'):
            signal.signal(signal.SIGINT if k == 'sigint' else signal.SIGTERM, signal.SIG_IGN if v == 'ignore' else (lambda *a: None))
        elif k == 'root_level':
            logging.root.setLevel(v)
        elif k == 'log_disable':
            logging.disable(v)
        elif k == 'raiseExceptions':
            logging.raiseExceptions = v
        elif k == 'switchinterval':
            sys.setswitchinterval(v)
        elif k == 'decimal':
            decimal.getcontext().prec = v
        elif k == 'np_print':
            np and np.set_printoptions(precision=v)
        elif k == 'np_err':
            np and np.seterr(all=v)
        elif k == 'int_max_str':
            sys.set_int_max_str_digits(v)
        elif k == 'argv':
            sys.argv[:] = v
        elif k == 'sys_path':
            sys.path.append(v)
        elif k == 'stack_size':
            threading.stack_size(v)
        elif k == 'bytecode':
            sys.dont_write_bytecode = v
        elif k == 'level_name':
            logging.addLevelName(5, v)
        elif k == 'excepthook':
            sys.excepthook = lambda *a: None
        elif k == 'displayhook':
            sys.displayhook = lambda *a: None
        elif k == 'levels':
            for lg in _loggers().values():
                lg.setLevel(v)
        elif k == 'propagate':
            for lg in _loggers().values():
                lg.propagate = v
        elif k == 'tempdir':
            tempfile.tempdir = v
        elif k == 'environ':
            os.environ.update(v)


def _stack_size():
    n = threading.stack_size()       # asking resets it
    threading.stack_size(n)
    return n


def _umask():
    u = os.umask(0)
    os.umask(u)
    return u


def state_diff(a, b, success):
    out = []
    for k in a:
        if k == '_loggers':
            for n, v in a[k].items():
                if b[k].get(n) != v:
                    out.append('logger:' + n)
            continue
        if k == 'tempdir' and a[k] == 'None':
            continue           # the tempfile module remembers the default it found
        if k in ('open_raws', 'sim_fds') and (not success or b[k] <= a[k]):
            continue
        if k == 'threads' and b[k] <= a[k]:
            continue
        if a[k] != b[k]:
            if k == 'stdlib':
                d = sorted(x for x in a[k] if a[k][x] != b[k].get(x))
                if d:
                    out.append(k + ':' + ','.join(d)[:200])
            elif k == 'environ' or k == 'builtins':
                d = sorted(str(x) for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x))
                out.append(k + ':' + ','.join(d)[:200])
            else:
                out.append(k)
    return out


# --------------------------------------------------------------------------------------------------
class FailStream:
    """a log sink that fails"""

    def __init__(self, err, after):
        self.err, self.after, self.n = err, after, 0

    def write(self, s):
        self.n += 1
        if self.n > self.after:
            W.fire('logsink:' + self.err)
            if self.err == 'ValueError':
                raise ValueError('I/O operation on closed file.')
            import errno
            e = getattr(errno, self.err)
            raise OSError(e, os.strerror(e))
        return len(s)

    def flush(self):
        pass


class SlowStream:
    def __init__(self):
        self.n = 0

    def write(self, s):
        W.clock += 5.0
        W.fire('logsink:slow')
        return len(s)

    def flush(self):
        W.clock += 1.0


def apply_log(cfg):
    """the user's logging configuration"""
    names = sorted(n for n in _loggers() if not n.startswith(('concurrent', 'asyncio', 'matplotlib', 'numpy')))
    if 'root_level' in cfg:
        logging.root.setLevel(cfg['root_level'])
    if 'levels' in cfg:            # [[index or '*', level]]
        for which, lv in cfg['levels']:
            for i, n in enumerate(names):
                if which == '*' or which == i:
                    logging.getLogger(n).setLevel(lv)
    if cfg.get('disable'):
        logging.disable(cfg['disable'])
    if 'raise' in cfg:
        logging.raiseExceptions = cfg['raise']
    if cfg.get('drop_handlers'):
        for h in list(logging.root.handlers):
            logging.root.removeHandler(h)
    if cfg.get('close_handlers'):
        for h in list(logging.root.handlers):
            h.close()
    for h in cfg.get('handlers', ()):
        kind = h[0]
        if kind == 'fail':
            x = logging.StreamHandler(FailStream(h[1], h[2]))
        elif kind == 'slow':
            x = logging.StreamHandler(SlowStream())
        elif kind == 'null':
            x = logging.NullHandler()
        elif kind == 'stderr':
            x = logging.StreamHandler(sys.stderr)
        elif kind == 'stdout':
            x = logging.StreamHandler(sys.stdout)
        elif kind == 'file':
            x = logging.FileHandler(ROOTV + '/zlog/extra_log.txt', mode='w')
        elif kind == 'memory':
            import logging.handlers as lh
            x = lh.MemoryHandler(10, target=logging.StreamHandler(FailStream('ENOSPC', 3)))
        else:
            raise AssertionError(kind)
        if len(h) > 3 and h[3]:
            x.setFormatter(logging.Formatter(h[3]))
        logging.root.addHandler(x)
    if cfg.get('no_propagate'):
        for n in names:
            logging.getLogger(n).propagate = False
    if cfg.get('filter'):
        logging.root.addFilter(lambda rec: False)
        for n in names:
            logging.getLogger(n).addFilter(lambda rec: False)


def exc_name(e):
    for c in type(e).__mro__:
        if c.__module__ == 'builtins' or c is seams.InjectedError or c in (seams.SimDeadlock, seams.SimBudget) \
                or c.__name__ == 'JSONDecodeError':
            return c.__name__
    return type(e).__name__


def ret_of(v):
    if v is None:
        return None
    if isinstance(v, str):
        return 'str:' + hashlib.sha1(v.encode('utf-8', 'surrogateescape')).hexdigest()[:16]
    if isinstance(v, dict):
        return {'dict': sorted([str(getattr(k, 'value', k)), x if isinstance(x, (int, float, str, bool)) or x is None else repr(x),
                                type(k).__name__, type(x).__name__] for k, x in v.items())}
    return type(v).__name__


def _deep(n, f):
    return f() if n <= 0 else _deep(n - 1, f)


class Life:
    def __init__(self, life, refs_dir):
        self.life = life
        self.refs_dir = refs_dir
        self.shared = {}
        self.results = []
        self.objs = {}

    def fail_result(self, e):
        return {'out': 'exc', 'exc': exc_name(e)}

    # ----- single operations
    def prepare(self, op):
        """-> callable, owned objects"""
        do = op['do']
        if do == 'req' and op.get('from'):      # truncations taken from a record
            fn, r = mod('truncations').load_trunc_from_JSON, op['r']
            return (lambda: call_request(r, op['path'], None, None, fn(op['from']))[0]()), []
        if do == 'req':
            return call_request(op['r'], None if op.get('dp') else op.get('path', 'out'), self.shared if op.get('share') is True else None,
                                self.objs if op.get('share') == 'refill' else None)
        if do == 'save':
            d = make_trunc(op['ty'], op['t'], op.get('tmut'))
            fn = mod('truncations').save_trunc_to_JSON
            return (lambda: fn(op['path'], d)), [(d, list(d.items()))]
        if do == 'load':
            fn = mod('truncations').load_trunc_from_JSON
            if op.get('into'):       # into a dictionary the caller already has
                d = make_trunc(*op['into'])
                op['_into'] = d
                return (lambda: fn(op['path'], d) and None), []
            return (lambda: fn(op['path'])), []
        raise AssertionError(do)

    def simple(self, op):
        f, owned = self.prepare(op)
        if op.get('depth'):
            inner = f
            base = 0
            fr = sys._getframe()
            while fr is not None:
                base, fr = base + 1, fr.f_back
            old = sys.getrecursionlimit()

            def f():
                sys.setrecursionlimit(base + op['depth'] + 12)
                try:
                    return inner()
                finally:
                    sys.setrecursionlimit(old)
        res = {}
        try:
            res['ret'] = ret_of(f())
            res['out'] = 'ok'
        except seams.SimDeadlock as e:
            res = {'out': 'deadlock', 'exc': exc_name(e)}
        except seams.SimBudget as e:
            res = {'out': 'budget', 'exc': exc_name(e)}
        except BaseException as e:
            res = self.fail_result(e)
            if op.get('trace'):
                import traceback
                res['tb'] = traceback.format_exc()[-1500:]
            e = None
        if '_into' in op:
            res['into'] = ret_of(op.pop('_into'))
        if any(list(o.items()) != c for o, c in owned):
            res['args_changed'] = True
        return res

    def run_op(self, op):
        do = op['do']
        if do == 'put':
            data = self.recipe(op['recipe'])
            real = seams.vmap(op['path'], True)
            with R.open(real, 'wb') as f:
                f.write(data)
            if 'mtime' in op:
                R.utime(real, (op['mtime'], op['mtime']))
            res = {'out': 'put', 'size': len(data), 'has_header': b'\\begin{document}' in data}
        elif do == 'probes':       # files the code looks for, left there by somebody
            data = self.recipe(op['recipe'])
            for q in op.get('paths', ()):
                real = seams.vmap(q, True)
                try:
                    if not R.access(real, os.F_OK):
                        with R.open(real, 'wb') as f:
                            f.write(data)
                        W.fire('planted-file')
                except OSError:
                    pass
            res = {'out': 'put'}
        elif do == 'corrupt':
            res = self.corrupt(op)
        elif do == 'delete':
            try:
                R.unlink(seams.vmap(op['path'], True))
            except OSError:
                pass
            res = {'out': 'put'}
        elif do == 'log':
            apply_log(op['cfg'])
            res = {'out': 'put'}
        elif do == 'par':
            res = self.par(op)
        else:
            W.faults = copy.deepcopy(op.get('faults') or [])
            W.inj = copy.deepcopy(op.get('inj'))
            W.inj_base = W.lines
            W.inj_fired = None
            W.locs = {}
            W.mut_line, W.mut_locs = None, set()
            W.line_budget = (W.lines + op['budget']) if op.get('budget') else 0
            l0 = W.lines
            n0 = W.nops
            pre = state_before() if op.get('state') else None
            pre_meta = meta() if pre is not None else None
            res = self.simple(op)
            W.inj = None
            W.line_budget = 0
            res['lines'] = W.lines - l0
            res['nops'] = W.nops - n0
            if W.count_lines:
                res['locs'] = len(W.locs)
            if W.inj_fired:
                res['inj'] = W.inj_fired
            if pre is not None:
                if res['out'] == 'exc':
                    gc.collect()
                d = state_diff(pre, state_before(), res['out'] == 'ok')
                if d:
                    res['state_diff'] = d
                now = meta()
                d = sorted(p for p in pre_meta if p in now and now[p] != pre_meta[p])
                if d:
                    res['meta_diff'] = d
            W.faults = []
        if op.get('tree', True):
            res['tree'] = tree()
        if op.get('content'):
            try:
                with R.open(seams.vmap(op['path']), 'rb') as f:
                    res['content'] = f.read(100000).decode('latin-1')
            except OSError:
                res['content'] = None
        return res

    def par(self, op):
        out = [None] * len(op['ops'])
        prepared = [self.prepare(o) for o in op['ops']]
        W.line_budget = op.get('budget', 0) and W.lines + op['budget']
        s = W.sched
        s.begin(op['sched'])

        def runner(i):
            f, owned = prepared[i]
            try:
                r = {'ret': ret_of(f()), 'out': 'ok'}
            except seams.SimDeadlock:
                r = {'out': 'deadlock'}
            except seams.SimBudget:
                r = {'out': 'budget'}
            except BaseException as e:
                r = self.fail_result(e)
                e = None
            if any(list(o.items()) != c for o, c in owned):
                r['args_changed'] = True
            out[i] = r
        seams.lines_on(bool(op['sched'].get('instr')) and not s.planned_instr)
        ths = []
        try:
            for i in range(len(op['ops'])):
                th = threading.Thread(target=runner, args=(i,), name='caller-%d' % i)
                ths.append(th)
                th.start()
            for th in ths:
                th.join()
        except seams.SimDeadlock:
            pass
        finally:
            if not op.get('keep_lines'):
                seams.lines_off()
        W.line_budget = 0
        h = hashlib.sha1(repr(s.trace).encode()).hexdigest()[:16]
        lines, trace, switches = [t.lines for t in s.threads[s.base + 1:]], s.trace[:60], s.switches
        s.begin(self.life.get('sched'))
        return {'out': 'par', 'threads': out, 'switches': switches, 'inter': h, 'deadlock': s.deadlock,
                'lines': lines, 'trace': trace}

    def recipe(self, rc):
        """bytes left at a path by some earlier (crashed, older, foreign...) activity"""
        if 'raw' in rc:
            data = rc['raw'].encode('latin-1')
        elif 'of' in rc:
            name = hashlib.sha1(rkey(rc['of']).encode()).hexdigest()
            try:
                with R.open(self.refs_dir + '/' + name, 'rb') as f:
                    data = f.read()
            except OSError:
                data = b'nothing'
        else:
            data = b''
        for m in rc.get('then', ()):
            if m[0] == 'torn':
                data = data[:int(len(data) * m[1])]
            elif m[0] == 'lines':        # torn at the end of a line, a paragraph, the preamble
                mark = m[2].encode()
                ends = [k + len(mark) for k in range(len(data)) if data.startswith(mark, k)] or [0]
                data = data[:ends[int(len(ends) * m[1])]]
            elif m[0] == 'zero':
                k = int(len(data) * m[1])
                data = data[:k] + b'\0' * (len(data) - k)
            elif m[0] == 'flip':
                if data:
                    k = int(len(data) * m[1]) % len(data)
                    data = data[:k] + bytes([data[k] ^ m[2]]) + data[k + 1:]
            elif m[0] == 'insert':
                k = int(len(data) * m[1])
                data = data[:k] + m[2].encode('latin-1') + data[k:]
            elif m[0] == 'append':
                data += m[1].encode('latin-1')
            elif m[0] == 'double':
                data = data + data
            elif m[0] == 'case':
                data = data.upper() if m[1] < 0.3 else data.lower() if m[1] < 0.6 else data.swapcase()
            elif m[0] == 'crlf':
                data = data.replace(b'\n', b'\r\n')
            elif m[0] == 'rewrap':
                data = data.replace(b'    ', b'\t') if m[1] < 0.3 else data.replace(b' ', b'  ') if m[1] < 0.6 else data.replace(b'\n', b' \n')
            elif m[0] == 'swap_lines':
                ls = data.split(b'\n')
                if len(ls) > 2:
                    k = int((len(ls) - 1) * m[1])
                    ls[k], ls[k + 1] = ls[k + 1], ls[k]
                data = b'\n'.join(ls)
            elif m[0] == 'drop_line':
                ls = data.split(b'\n')
                if len(ls) > 1:
                    del ls[int(len(ls) * m[1]) % len(ls)]
                data = b'\n'.join(ls)
            elif m[0] == 'dup_line':
                ls = data.split(b'\n')
                k = int(len(ls) * m[1]) % len(ls)
                ls.insert(k, ls[k])
                data = b'\n'.join(ls)
        return data

    def corrupt(self, op):
        real = seams.vmap(op['path'], True)
        try:
            with R.open(real, 'rb') as f:
                data = f.read()
        except OSError:
            return {'out': 'put', 'absent': True}
        new = self.recipe({'raw': data.decode('latin-1'), 'then': op['then']})
        with R.open(real, 'wb') as f:
            f.write(new)
        return {'out': 'put', 'content': new.decode('latin-1')}

    # ----- command line tool
    def cli(self):
        import atexit
        import runpy
        import traceback
        W.faults = copy.deepcopy(self.life.get('faults') or [])
        W.inj = copy.deepcopy(self.life.get('inj'))
        W.inj_base = 0
        sys.argv = ['driver.py'] + list(self.life['argv'])
        tfdir = self.life.get('tfdir', seams.TFDIR)
        sys.path.insert(0, tfdir)
        code = 0
        exc = None
        try:
            runpy.run_path(tfdir + '/driver.py', run_name='__main__')
        except SystemExit as e:
            code = 0 if e.code is None else e.code & 0xff if isinstance(e.code, int) else 1
            exc = 'SystemExit'
        except (seams.SimDeadlock, seams.SimBudget) as e:
            return {'out': 'deadlock', 'exc': exc_name(e), 'tree': tree()}
        except KeyboardInterrupt:
            code, exc = 130, 'KeyboardInterrupt'
        except BaseException as e:
            code, exc = 1, exc_name(e)
            tb = traceback.format_exc()
            try:
                sys.stderr.write(tb)
            except Exception:
                pass
            if self.life.get('trace'):
                print(tb, file=sys.__stderr__)
        W.inj = None
        try:               # the interpreter waits for threads before it exits
            for f in reversed(threading._threading_atexits):
                f()
            for th in threading.enumerate():
                if th is not threading.main_thread() and not th.daemon:
                    th.join()
        except (seams.SimDeadlock, seams.SimBudget) as e:
            return {'out': 'deadlock', 'exc': exc_name(e), 'tree': tree()}
        except BaseException:
            pass
        try:
            atexit._run_exitfuncs()
        except BaseException:
            pass
        gc.collect()
        try:
            if sys.stdout is not None:
                sys.stdout.flush()
        except BaseException:
            code = 120
        res = {'out': 'cli', 'code': code, 'exc': exc, 'nops': W.nops, 'ops': W.ops[:80],
               'tail': getattr(sys.stderr, 'tail', '')[-300:]}
        if W.count_lines:
            res['lines'], res['locs'] = W.lines, len(W.locs)
        if W.inj_fired:
            res['inj'] = W.inj_fired
        if self.life.get('tree', True):
            res['tree'] = tree()
        return res

    def run(self):
        life = self.life
        W.configure(life.get('env'))
        if life.get('environ'):
            for k, v in life['environ'].items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
        sys.stdout, sys.stderr = seams.SimStream('stdout'), seams.SimStream('stderr')
        if life.get('no_stdout'):
            sys.stdout = None
        W.crash = life.get('crash')
        W.nops = 0
        W.ops = []
        W.recs = {}
        W.fired = {}
        W.env_reads = set()
        W.probes = set()
        W.thread_errors = []
        W.lines = 0
        W.count_lines = bool(life.get('count'))
        W.log_names = set(life.get('log_names') or ['default_logging_file.txt'])
        if life.get('junk'):
            # shift heap addresses deterministically
            rng = random.Random(life['junk'])
            self.objs['junk'] = [bytearray(rng.randrange(16, 4000)) for _ in range(rng.randrange(1, 300))]
        if life.get('lines') or life.get('count') or (life.get('sched') or {}).get('lines') or any(o.get('inj') or o.get('budget') for o in life.get('ops', ())) \
                or life.get('inj'):
            seams.lines_on()
        W.sched = seams.Sched(life.get('sched'))
        out = self.results
        if life['kind'] == 'cli':
            out.append(self.cli())
        else:
            if life.get('vcwd'):
                seams._chdir(life['vcwd'])
            if life.get('pre'):
                apply_pre(life['pre'])
            for op in life['ops']:
                out.append(self.run_op(op))
                if out[-1]['out'] in ('deadlock', 'budget') or out[-1].get('deadlock'):
                    break
        seams.lines_off()
        return self.summary()

    def summary(self, crashed=False):
        d = {'results': self.results, 'fired': W.fired, 'env_reads': sorted(W.env_reads), 'probes': sorted(W.probes), 'nops': W.nops,
             'clock': round(W.clock, 3)}
        if crashed:
            d['crashed'] = True
            d['ops'] = W.ops[:80]
            d['tree'] = tree()
        return d
