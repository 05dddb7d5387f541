"""One simulated run: N ranks executing the real elphmod in one process."""

import ast
import builtins
import gc
import io
import operator
import os
import pickle
import random
import sys
import threading
import time as real_time
import types
import zlib

import numpy as np
import numpy.fft # loaded lazily

from . import fs as simfs
from . import mpl
from . import mpi as simmpi
from .kernel import (HarnessError, Kernel, Policy, Replay, SimAbort, Violation)

REPO = os.environ.get('ELPHMOD_REPO', '/repo')


# ------------------------------------------------------------ compiled program


class Rewrite(ast.NodeTransformer):
    """Route set displays and ndarray.tofile through simulator."""

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__sim_set__', ast.Load()),
            [ast.Tuple(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.copy_location(ast.GeneratorExp(node.elt, node.generators),
            node)
        return ast.copy_location(ast.Call(ast.Name('__sim_set__', ast.Load()),
            [gen], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'tofile':
            return ast.copy_location(ast.Call(ast.Name('__sim_tofile__',
                ast.Load()), [node.func.value] + node.args, node.keywords),
                node)
        return node

    def visit_AugAssign(self, node):
        """Let updates of shared memory read, compute and write separately."""
        self.generic_visit(node)
        target = node.target
        op = ast.Constant(type(node.op).__name__)

        def call(*args):
            return ast.Call(ast.Name('__sim_update__', ast.Load()),
                list(args), [])

        if isinstance(target, ast.Name):
            new = ast.Assign([target], call(op,
                ast.Name(target.id, ast.Load()), node.value))
        elif isinstance(target, ast.Attribute):
            new = ast.Expr(call(op, target.value, node.value,
                ast.Constant(target.attr), ast.Constant(True)))
        else:
            new = ast.Expr(call(op, target.value, node.value,
                index_object(target.slice), ast.Constant(False)))
        return ast.copy_location(new, node)


def index_object(node):
    """Turn content of square brackets into ordinary expression."""
    if isinstance(node, ast.Slice):
        return ast.Call(ast.Name('__sim_slice__', ast.Load()),
            [x or ast.Constant(None) for x in (node.lower, node.upper,
                node.step)], [])
    if isinstance(node, ast.Tuple):
        return ast.Tuple([ast.Starred(index_object(x.value), ast.Load())
            if isinstance(x, ast.Starred) else index_object(x)
            for x in node.elts], ast.Load())
    return node


OPERATORS = {name: (getattr(operator, 'i' + short), getattr(operator, full))
    for name, short, full in [('Add', 'add', 'add'), ('Sub', 'sub', 'sub'),
        ('Mult', 'mul', 'mul'), ('MatMult', 'matmul', 'matmul'),
        ('Div', 'truediv', 'truediv'), ('Mod', 'mod', 'mod'),
        ('Pow', 'pow', 'pow'), ('LShift', 'lshift', 'lshift'),
        ('RShift', 'rshift', 'rshift'), ('BitOr', 'or', 'or_'),
        ('BitXor', 'xor', 'xor'), ('BitAnd', 'and', 'and_'),
        ('FloorDiv', 'floordiv', 'floordiv')]}


class Program:
    """Sources of package, compiled once per process."""

    def __init__(self, root=None):
        self.root = os.path.join(root or REPO, 'elphmod')
        self.codes = {}
        self.packages = set()
        self.error = None
        for base, dirs, files in os.walk(self.root):
            dirs[:] = [d for d in dirs if d != '__pycache__']
            for name in sorted(files):
                if not name.endswith('.py'):
                    continue
                path = os.path.join(base, name)
                rel = os.path.relpath(path, os.path.dirname(self.root))[:-3]
                mod = rel.replace(os.sep, '.')
                if mod.endswith('.__init__'):
                    mod = mod[:-9]
                    self.packages.add(mod)
                with open(path) as f:
                    source = f.read()
                tree = Rewrite().visit(ast.parse(source, path))
                ast.fix_missing_locations(tree)
                self.codes[mod] = compile(tree, '/elphmod/' + os.path.relpath(
                    path, self.root), 'exec', dont_inherit=True)


_program = None


def program():
    global _program
    if _program is None:
        _program = Program()
    return _program


# ---------------------------------------------------------------- line events

_active = None
TOOL = 3
_monitoring = False


def _on_line(code, line):
    k = _active
    if not code.co_filename.startswith('/elphmod/'):
        return sys.monitoring.DISABLE
    if k is not None:
        k.line_tick()


def lines(on):
    global _monitoring
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, 'sim')
        m.register_callback(TOOL, m.events.LINE, _on_line)
    if on != _monitoring:
        if on:
            m.restart_events()
            m.set_events(TOOL, m.events.LINE)
        else:
            m.set_events(TOOL, 0)
        _monitoring = on


# --------------------------------------------------------- hidden process state


def has_text(x):
    if isinstance(x, (str, bytes)):
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(has_text(y) for y in x)
    return isinstance(x, (float, int, complex, np.generic)) is False


def make_set(rng, base=set):
    class Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, base)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, base)

    class SimSet(base, metaclass=Meta):
        """Set whose iteration order differs between processes."""

        def __iter__(self):
            items = list(base.__iter__(self))
            if len(items) > 1 and any(has_text(x) for x in items):
                items.sort(key=repr)
                rng.shuffle(items)
            return iter(items)

        def pop(self):
            for x in self:
                self.remove(x)
                return x
            raise KeyError('pop from an empty set')

        def __repr__(self):
            return base.__repr__(base(self))

        def __reduce__(self):
            return base, (list(self),)

    def wrap(name):
        method = getattr(base, name)

        def wrapped(self, *args):
            out = method(self, *args)
            return out if out is NotImplemented else SimSet(out)
        wrapped.__name__ = name
        return wrapped

    for name in ('__or__', '__and__', '__sub__', '__xor__', '__ror__',
            '__rand__', '__rsub__', '__rxor__', 'union', 'intersection',
            'difference', 'symmetric_difference', 'copy'):
        setattr(SimSet, name, wrap(name))

    SimSet.__name__ = SimSet.__qualname__ = base.__name__
    return SimSet


def fill(a, mode, rng):
    """Fill memory nobody has initialized."""
    a = a.view(np.ndarray) if type(a) is not np.ndarray else a
    if a.dtype.hasobject or not a.size:
        return
    kind = a.dtype.kind
    if mode == 'zero':
        a[...] = np.zeros((), a.dtype)
    elif kind in 'fc':
        value = dict(nan=np.nan, big=1.234567e+77, small=0.0137)[mode]
        a[...] = value
    elif kind in 'iu':
        info = np.iinfo(a.dtype)
        a[...] = dict(nan=info.max - 7, big=info.max // 3, small=1)[mode]
    elif kind == 'b':
        a[...] = rng.random() < 0.5
    elif kind in 'SU':
        a[...] = 'junk'


def junk_bytes(n, mode):
    raw = np.empty(n + 64, dtype=np.uint8)
    off = -raw.ctypes.data % 64
    a = raw[off:off + n]
    m = n // 8 * 8
    if mode == 'zero':
        a[:] = 0
    else:
        value = dict(nan=np.nan, big=1.234567e+77, small=0.0137)[mode]
        a[:m].view(float)[:] = value
        a[m:] = 171
    return a


# ------------------------------------------------------------------------ world


class Out(io.TextIOBase):
    encoding = 'utf-8'

    def __init__(self, world, rank, err=False):
        self.world = world
        self.rank = rank
        self.err = err

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        w = self.world
        k = w.kernel
        if s and k.current is not None and k.aborting is None \
                and k.current.thread is threading.current_thread():
            k.yield_point('out')
        (w.err if self.err else w.out).append((self.rank, s))
        return len(s)

    def flush(self):
        pass


DEFAULT = dict(n=1, nodes=None, shared=True, mpi=True, policy='seq', seed=0,
    eager='never', junk='zero', order='fixed', preempt=0, hash='same',
    clock='same', deviations=None, fault=None, timeout=60.0, argv=['sim'])


class World:
    def __init__(self, config, filesystem=None):
        c = self.config = dict(DEFAULT, **config)
        n = c['n']
        seed = c['seed']
        self.n = n
        self.stats = {}
        self.calls = {}
        self.groups = 0
        self.windows = []
        self.out = []
        self.err = []
        self.nodes = c['nodes'] or [0] * n
        self.shared_supported = c['shared']
        if c['deviations'] is not None:
            policy = Replay(c['deviations'])
        else:
            policy = Policy(c['policy'], random.Random('%s/policy' % seed), n)
        pre = random.Random('%s/preempt' % seed) if c['preempt'] else None
        self.kernel = Kernel(n, policy, pre, c['timeout'])
        self.kernel.preempt_mean = c['preempt']
        self.fs = filesystem or simfs.SimFS()
        self.fs.world = self
        self.nio = simfs.NumpyIO(self.fs)
        self.world_group = simmpi.Group(self, range(n), 'W')
        self.self_groups = [simmpi.Group(self, [r], 'S%d' % r)
            for r in range(n)]
        self.rank_random = [random.Random('%s/rank%d' % (seed, r)) for r in
            range(n)]
        self.hash_random = [random.Random('%s/hash%s' % (seed,
            r if c['hash'] == 'differ' else '')) for r in range(n)]
        self.junk_random = random.Random('%s/junk' % seed)
        self.now = 1.7e9
        cr = random.Random('%s/clock' % seed)
        if c['clock'] == 'differ':
            self.skew = [cr.uniform(-3e7, 3e7) for r in range(n)]
            self.drift = [cr.uniform(0.5, 2.0) for r in range(n)]
        else:
            self.skew = [0.0] * n
            self.drift = [1.0] * n
        self.clock_random = cr
        self.jumps = 0
        self.modules = [None] * n
        self.started = self.now

    # --------------------------------------------------- services for simulator

    def _coin(self, *key):
        return zlib.crc32(('%s/%s' % (self.config['seed'], '/'.join(map(str,
            key)))).encode()) / 2.0 ** 32

    def eager(self, group, n):
        mode = self.config['eager']
        if mode == 'never':
            return False
        if mode == 'always':
            return True
        return self._coin('eager', group, n) < 0.5

    def order(self, size, group, n):
        order = list(range(size))
        if self.config['order'] == 'random':
            random.Random('%s/order/%s/%s' % (self.config['seed'], group,
                n)).shuffle(order)
        return order

    def count(self, kind):
        self.calls[kind] = self.calls.get(kind, 0) + 1
        self.now += 1e-5

    def bump(self, what, by=1):
        self.stats[what] = self.stats.get(what, 0) + by

    def dumps(self, obj):
        return pickle.dumps(obj, protocol=4)

    def loads(self, data):
        return pickle.loads(data)

    def window(self, size):
        a = junk_bytes(size, self.config['junk'])
        if size and self.n > 1:
            self.windows.append((a.ctypes.data, a.ctypes.data + size, a))
        return a

    def shared(self, a):
        """Is this part of a shared-memory window?"""
        if not self.windows or not isinstance(a, np.ndarray) or not a.size:
            return False
        start = a.__array_interface__['data'][0]
        return any(w[0] <= start < w[1] for w in self.windows)

    def update(self, op, target, value, key=None, attribute=None):
        """Evaluate augmented assignment; updates of memory are not atomic."""
        inplace, plain = OPERATORS[op]
        if attribute is None:
            old = target
        elif attribute:
            old = getattr(target, key)
        else:
            old = target[key]
            if not isinstance(old, np.ndarray) and self.shared(target):
                new = inplace(old, value) # scalar
                self.interrupt()
                target[key] = new
                return
        if self.shared(old):
            new = old.copy()
            new = inplace(new, value)
            self.interrupt()
            old[...] = new
            new = old
        else:
            new = inplace(old, value)
        if attribute is None:
            return new
        if attribute:
            setattr(target, key, new)
        else:
            target[key] = new

    def interrupt(self):
        k = self.kernel
        self.bump('updates of shared memory')
        if k.current is not None and k.aborting is None \
                and k.current.thread is threading.current_thread():
            k.yield_point('update')

    def clock(self, rank):
        self.bump('clock reads')
        self.now += 1e-6
        if self.config['clock'] == 'differ':
            if self.clock_random.random() < 0.1:
                self.skew[rank] += self.clock_random.choice([-3600.0, 86400.0,
                    -0.5, 7.0])
                self.jumps += 1
        t = self.started + (self.now - self.started) * self.drift[rank]
        return t + self.skew[rank]

    # ----------------------------------------------------------- rank start-up

    def _numpy(self, rank):
        w = self
        mode = self.config['junk']
        jr = self.junk_random
        m = types.ModuleType('numpy')
        m.__dict__.update({k: v for k, v in vars(np).items()
            if not (k.startswith('__') and k not in ('__version__',
                '__all__'))})
        m.__path__ = []

        def empty(shape, dtype=float, order='C', **kw):
            a = np.empty(shape, dtype, order, **kw)
            fill(a, mode, jr)
            return a

        def empty_like(prototype, *args, **kw):
            a = np.empty_like(prototype, *args, **kw)
            fill(a, mode, jr)
            return a

        class Meta(type):
            def __instancecheck__(cls, obj):
                if cls is ndarray:
                    return isinstance(obj, np.ndarray)
                return type.__instancecheck__(cls, obj)

            def __subclasscheck__(cls, sub):
                if cls is ndarray:
                    return issubclass(sub, np.ndarray)
                return type.__subclasscheck__(cls, sub)

        class ndarray(np.ndarray, metaclass=Meta):
            def __new__(cls, shape, dtype=float, buffer=None, offset=0,
                    strides=None, order=None):
                base = np.ndarray if cls is ndarray else cls
                a = np.ndarray.__new__(base, shape, dtype, buffer, offset,
                    strides, order)
                if buffer is None:
                    fill(a, mode, jr)
                return a

        ndarray.__module__ = 'numpy'
        m.empty = empty
        m.empty_like = empty_like
        m.ndarray = ndarray
        io_ = self.nio
        for name in ('load', 'save', 'savez', 'savez_compressed', 'loadtxt',
                'genfromtxt', 'savetxt', 'fromfile', 'memmap'):
            setattr(m, name, getattr(io_, name))

        r = types.ModuleType('numpy.random')
        seed = zlib.crc32(('%s/np%s' % (self.config['seed'], rank)).encode())
        state = np.random.RandomState(seed)
        r.__dict__.update(vars(np.random))
        for name in dir(state):
            if not name.startswith('_'):
                setattr(r, name, getattr(state, name))
        r.random = r.ranf = r.sample = state.random_sample

        def default_rng(seed=None):
            if seed is None:
                seed = state.randint(2 ** 31)
            return np.random.default_rng(seed)

        def RandomState(seed=None):
            if seed is None:
                seed = state.randint(2 ** 31)
            return np.random.RandomState(seed)

        r.default_rng = default_rng
        r.RandomState = RandomState
        r.seed = state.seed
        m.random = r
        return m

    def _time(self, rank):
        w = self
        m = types.ModuleType('time')
        m.time = m.perf_counter = m.monotonic = m.process_time = \
            lambda: w.clock(rank)
        m.time_ns = m.perf_counter_ns = m.monotonic_ns = \
            lambda: int(w.clock(rank) * 1e9)

        def sleep(seconds):
            w.now += seconds
            w.kernel.yield_point('sleep')

        def past(f):
            def g(t=None):
                return f(w.clock(rank) if t is None else t)
            return g

        m.sleep = sleep
        m.gmtime = m.localtime = past(real_time.gmtime)
        m.ctime = past(lambda t: real_time.asctime(real_time.gmtime(t)))
        m.asctime = lambda t=None: real_time.asctime(t or m.gmtime())
        m.strftime = lambda f, t=None: real_time.strftime(f, t or m.gmtime())
        m.struct_time = real_time.struct_time
        m.strptime = real_time.strptime
        m.mktime = real_time.mktime
        m.timezone = 0
        return m

    def _sys(self, rank):
        m = types.ModuleType('sys')
        m.__dict__.update({k: v for k, v in vars(sys).items()
            if not k.startswith('__')})
        m.stdout = m.__stdout__ = Out(self, rank)
        m.stderr = m.__stderr__ = Out(self, rank, True)
        m.argv = list(self.config['argv'])
        m.modules = self.modules[rank]
        return m

    def _environment(self, rank):
        """Namespace of built-ins and stand-in modules for one rank."""
        fs = self.fs
        program_ = program()
        mods = self.modules[rank] = {}
        hr = self.hash_random[rank]
        SimSet = make_set(hr)
        SimFrozen = make_set(hr, frozenset)
        standins = {}
        standins['numpy'] = self._numpy(rank)
        standins['time'] = self._time(rank)
        standins['sys'] = sys_ = self._sys(rank)
        standins['os'] = simfs.os_module(fs, self, rank)
        standins['os.path'] = standins['posixpath'] = standins['os'].path
        standins['glob'] = simfs.glob_module(fs, self, rank)
        standins['shutil'] = simfs.shutil_module(fs, self, rank)
        standins['xml'] = types.ModuleType('xml')
        standins['xml'].etree = types.ModuleType('xml.etree')
        standins['xml.etree'] = standins['xml'].etree
        standins['xml.etree.ElementTree'] = standins['xml'].etree.ElementTree \
            = simfs.xml_module(fs)
        io_ = types.ModuleType('io')
        io_.__dict__.update(vars(io))
        io_.open = fs.open
        standins['io'] = io_
        rnd = types.ModuleType('random')
        rnd.__dict__.update(vars(random))
        rr = self.rank_random[rank]
        for name in dir(rr):
            if not name.startswith('_') and callable(getattr(rr, name)):
                setattr(rnd, name, getattr(rr, name))
        standins['random'] = rnd
        standins['tempfile'] = simfs.tempfile_module(fs, self, rank,
            standins['os'])
        standins['pathlib'] = simfs.pathlib_module(fs, self, rank,
            standins['os'])
        standins.update(mpl.modules())
        blocked = {'subprocess', 'socket', 'multiprocessing', 'ctypes',
            'signal', 'mmap'}

        if self.config['mpi']:
            package = types.ModuleType('mpi4py')
            package.__path__ = []
            package.MPI = simmpi.interface(self, rank)
            standins['mpi4py'] = package
            standins['mpi4py.MPI'] = package.MPI

        space = dict(vars(builtins))

        def prepare(m):
            m.__builtins__ = space
            m.__sim_set__ = SimSet
            m.__sim_tofile__ = self.nio.tofile
            m.__sim_update__ = self.update
            m.__sim_slice__ = slice

        def script(tree, path):
            """Execute program that uses package; return its variables."""
            tree = ast.fix_missing_locations(Rewrite().visit(tree))
            m = types.ModuleType('__main__')
            prepare(m)
            exec(compile(tree, '/elphmod/' + path, 'exec',
                dont_inherit=True), m.__dict__)
            return m.__dict__

        def load(name):
            if name in mods:
                return mods[name]
            if name not in program_.codes:
                raise ModuleNotFoundError('No module named %r' % name,
                    name=name)
            parent, _, child = name.rpartition('.')
            if parent:
                load(parent)
                if name in mods:
                    return mods[name]
            m = types.ModuleType(name)
            m.__file__ = '/sim/' + name.replace('.', '/') + '.py'
            prepare(m)
            if name in program_.packages:
                m.__path__ = []
                m.__package__ = name
            else:
                m.__package__ = parent
            mods[name] = m
            sys.modules[name] = m
            try:
                exec(program_.codes[name], m.__dict__)
            except BaseException:
                mods.pop(name, None)
                raise
            if parent:
                setattr(mods[parent], child, m)
            return m

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                pkg = globals.get('__package__') or ''
                for _ in range(level - 1):
                    pkg = pkg.rpartition('.')[0]
                name = pkg + ('.' + name if name else '')
            top = name.partition('.')[0]
            if top == 'elphmod':
                m = load(name)
                if fromlist:
                    for f in fromlist:
                        if not hasattr(m, f) and name + '.' + f \
                                in program_.codes:
                            load(name + '.' + f)
                    return m
                return mods[top]
            if top == 'mpi4py' and 'mpi4py' not in standins:
                raise ModuleNotFoundError("No module named 'mpi4py'",
                    name='mpi4py')
            if name in standins:
                return standins[name] if fromlist else standins[top]
            if top in blocked:
                raise HarnessError('module %s is not simulated' % top)
            if top == 'numpy' and not fromlist:
                builtins.__import__(name)
                return standins['numpy']
            if top == 'matplotlib':
                raise HarnessError('module %s is not simulated' % name)
            return builtins.__import__(name, None, None, fromlist, 0)

        def print_(*args, sep=' ', end='\n', file=None, flush=False):
            if file is None:
                file = sys_.stdout
            text = (' ' if sep is None else sep).join(map(str, args)) + (
                '\n' if end is None else end)
            file.write(text)

        space['__import__'] = imp
        space['open'] = fs.open
        space['print'] = print_
        space['set'] = SimSet
        space['frozenset'] = SimFrozen
        salt = '%s/%s' % (self.config['seed'], rank
            if self.config['hash'] == 'differ' else '')

        def hash_(x):
            return zlib.crc32((salt + repr(x)).encode()) if has_text(x) \
                else hash(x)

        space['hash'] = hash_

        def exit_(code=None):
            raise SystemExit(code)

        space['exit'] = space['quit'] = exit_
        load.script = script
        load.standins = standins
        return load

    # -------------------------------------------------------------------- run

    def run(self, body):
        """Execute body(rank, elphmod) on all ranks."""
        global _active
        program()
        self.loaders = {}

        def main(r):
            load = self.loaders[r.index] = self._environment(r.index)
            r.on_resume = lambda: sys.modules.update(self.modules[r.index])
            E = load('elphmod')
            return body(r.index, E)

        lines(bool(self.config['preempt']))
        _active = self.kernel
        try:
            self.kernel.run(main)
        finally:
            _active = None
            self.fs.world = None
            self.fs.frozen = False
        return self

    @property
    def outcomes(self):
        return [r.outcome for r in self.kernel.ranks]

    def harness_error(self):
        for o in self.outcomes:
            if o is not None and o[0] == 'exc' and isinstance(o[1],
                    HarnessError):
                return '%s at %s' % (o[1], o[2])
        return None

    def text(self, rank=0):
        return ''.join(s for r, s in self.out if r == rank)
