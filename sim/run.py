"""Cases, their execution under a configuration, and the generic oracles."""

import hashlib
import json
import random
import re
import time
import types
import zlib

import numpy as np

from .fs import SimFS
from .kernel import HarnessError, Violation, describe
from .world import World


class Skip(Exception):
    """Case does not apply to this configuration."""


class Entry:
    __slots__ = ('value', 'refs', 'raw', 'root', 'tol', 'compare')


def freeze(value):
    """Independent copy of value using plain types."""
    if value is None or isinstance(value, (bool, int, float, complex, str,
            bytes)):
        return value
    if hasattr(value, 'toarray'):
        return np.array(value.toarray())
    if isinstance(value, np.generic):
        return value.item() if value.dtype.kind in 'biufcSU' else value
    if isinstance(value, np.ndarray):
        return np.array(value.view(np.ndarray) if type(value) is not np.ndarray
            else value, copy=True, subok=False)
    if isinstance(value, (list, tuple, range, map, zip)):
        return [freeze(v) for v in value]
    if isinstance(value, dict):
        return {k: freeze(v) for k, v in value.items()}
    if isinstance(value, (set, frozenset)):
        return sorted((freeze(v) for v in value), key=repr)
    if hasattr(value, '__array__'):
        return np.array(value)
    if hasattr(value, 'dtype') and hasattr(value, 'name'):
        return str(value)
    raise HarnessError('cannot record %r' % type(value))


def arrays(value, out=None):
    """All arrays within value (by reference)."""
    out = [] if out is None else out
    if isinstance(value, np.ndarray):
        out.append(value)
    elif isinstance(value, (list, tuple)):
        for v in value:
            arrays(v, out)
    elif isinstance(value, dict):
        for v in value.values():
            arrays(v, out)
    return out


class Guarded:
    """Module whose functions must leave the arrays they are given alone."""

    # documented to work in place:
    inplace = 'divide_by_mass', 'asr', 'zasr', 'complete', 'colorbar'

    def __init__(self, module):
        object.__setattr__(self, '_module', module)

    def __getattr__(self, name):
        value = getattr(self._module, name)
        if not isinstance(value, types.FunctionType) or name in self.inplace \
                or value.__dict__:
            return value # smearing functions have attributes

        def guarded(*args, **kwargs):
            given = arrays(list(args)) + arrays(kwargs)
            before = [np.array(a, copy=True, subok=False) for a in given]
            out = value(*args, **kwargs)
            for a, b in zip(given, before):
                d = differ(np.array(a, copy=True, subok=False), b, 0.0, name)
                if d:
                    raise Violation('argument', 'argument changed by %s' % d)
            return out

        return guarded

    def __setattr__(self, name, value):
        setattr(self._module, name, value)


class GuardedPackage:
    def __init__(self, package):
        self._package = package

    def __getattr__(self, name):
        value = getattr(self._package, name)
        if isinstance(value, types.ModuleType):
            value = Guarded(value)
            setattr(self, name, value)
        return value


class Context:
    """What a scenario running on one rank gets to see."""

    def __init__(self, env, world, rank, E, p, size, extra):
        self.env = env
        self.world = world
        self.rank = rank
        self.size = size
        self.E = GuardedPackage(E)
        self.p = p
        self.kept = {}
        self.extra = extra or {}
        self.fs = world.fs

    @property
    def reference(self):
        return self.size == 1

    def package(self, name):
        return self.world.loaders[self.rank](name)

    def rng(self, *labels):
        """Same random numbers on every rank."""
        seed = zlib.crc32(('/'.join(map(str, (self.p.get('seed', 0),)
            + labels))).encode())
        return np.random.default_rng(seed)

    def keep(self, name, value, root=False, stable=True, canon=None, tol=None,
            compare=True):
        """Record result as seen right now.

        Without `compare`, it only has to agree among ranks.
        """
        if name in self.kept:
            raise HarnessError('result %s recorded twice' % name)
        e = Entry()
        raw = freeze(value)
        e.value = raw if canon is None else freeze(canon(raw))
        e.refs = arrays(value) if stable else []
        e.raw = [freeze(a) for a in e.refs]
        e.root = root
        e.tol = tol
        e.compare = compare
        self.kept[name] = e
        return value


def differ(a, b, tol, path='', types=False):
    """First difference of two frozen values or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None:
            return '%s: %s instead of %s' % (path, brief(a), brief(b))
        try:
            a, b = np.asarray(a), np.asarray(b)
        except ValueError:
            return '%s: %s instead of %s' % (path, brief(a), brief(b))
        if a.shape != b.shape:
            return '%s: shape %s instead of %s' % (path, a.shape, b.shape)
        if a.dtype.kind in 'SUO' or b.dtype.kind in 'SUO':
            return None if np.array_equal(a, b) else '%s: %s instead of %s' % (
                path, brief(a), brief(b))
        if not a.size:
            return None
        if types and a.dtype != b.dtype:
            return '%s: type %s instead of %s' % (path, a.dtype, b.dtype)
        if a.dtype.kind in 'biu' and b.dtype.kind in 'biu':
            bad = a != b
        else:
            a = a.astype(complex)
            b = b.astype(complex)
            with np.errstate(all='ignore'):
                fin = abs(b[np.isfinite(b)])
                scale = fin.max() if fin.size else 0.0
                bad = ~(abs(a - b) <= tol * scale + 1e-12)
            same = (np.isnan(a) & np.isnan(b)) | (a == b)
            bad &= ~same
        if not bad.any():
            return None
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return '%s[%s]: %s instead of %s (%d of %d values differ)' % (path,
            ','.join(map(str, i)), num(a[i]), num(b[i]), bad.sum(), bad.size)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d instead of %d items' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, tol, '%s[%d]' % (path, i), types)
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(repr, a)) != sorted(map(repr, b)):
            return '%s: keys %s instead of %s' % (path, sorted(map(repr, a)),
                sorted(map(repr, b)))
        for k in a:
            d = differ(a[k], b[k], tol, '%s[%r]' % (path, k), types)
            if d:
                return d
        return None
    num_types = (bool, int, float, complex)
    if isinstance(a, num_types) and isinstance(b, num_types):
        if a == b or (a != a and b != b):
            return None
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return '%s: %r instead of %r' % (path, a, b)
        if abs(a - b) <= tol * abs(b) + 1e-12:
            return None
        return '%s: %s instead of %s' % (path, num(a), num(b))
    if type(a) is type(b) and a == b:
        return None
    return '%s: %s instead of %s' % (path, brief(a), brief(b))


def num(x):
    if isinstance(x, (complex, np.complexfloating)) and x.imag == 0:
        x = x.real
    try:
        return '%.6g' % x
    except TypeError:
        return repr(complex(x)) if isinstance(x, (complex,
            np.complexfloating)) else repr(x)


def brief(x):
    s = repr(x)
    s = re.sub(r'\s+', ' ', s)
    return s if len(s) < 80 else s[:77] + '...'


def loudness(p):
    """Level of verbosity: silent, messages, or also progress bars."""
    return p.get('verbosity', 0) and (1, 3, 3)[p.get('seed', 0) % 3]


def bars(text):
    """Split output into completed widths of progress bars and messages."""
    done, lines, width = [], [], None
    for line in text.split('\n'):
        if re.match(r'^_+ [^_].* _+$', line) and len(line) >= 60:
            width = len(line)
            done.append([line.strip(' _'), width, 0])
            continue
        if width is not None:
            rest = re.sub(r'(?<![\w =])=+', lambda x: '\0' * len(x.group()),
                line)
            done[-1][2] += rest.count('\0')
            line = rest.replace('\0', '')
        line = line.split('\r')[-1]
        if line.strip():
            lines.append(' '.join(re.sub(r'[-+]?(\d+(\.\d*)?([eE][-+]?\d+)?'
                r'|\bnan\b|\binf\b)', '#', line).split()))
    return done, lines


class Run:
    """One finished world."""

    def __init__(self, world, contexts):
        self.world = world
        self.contexts = contexts
        self.n = world.n
        self.fs = world.fs
        self.out = list(world.out)

    @property
    def outcomes(self):
        return self.world.outcomes

    def ok(self):
        return all(o is not None and o[0] == 'ok' for o in self.outcomes)

    def get(self, name, rank=0):
        return self.contexts[rank].kept[name].value

    def text(self, rank=0):
        return self.world.text(rank)


class Env:
    """Executes the worlds of one evaluation of a case."""

    cache = {}

    def __init__(self, config, deviations=None, trace=False):
        self.config = dict(config)
        self.deviations = deviations
        self.recorded = []
        self.digests = []
        self.totals = {}
        self.calls = {}
        self.seconds = 0.0
        self.runs = 0
        self.events = 0
        self.switches = 0
        self.faults = {}
        self.traces = [] if trace else None
        self.rng = random.Random('%s/env' % config['seed'])

    def fault(self, kind, by=1):
        self.faults[kind] = self.faults.get(kind, 0) + by

    def run(self, case, p, body=None, files=None, fs=None, extra=None,
            check=True, setup=None, **over):
        config = dict(self.config)
        config.update(over)
        index = self.runs
        self.runs += 1
        config['seed'] = '%s/%d' % (config['seed'], index)
        if self.deviations is not None:
            config['deviations'] = self.deviations[index] \
                if index < len(self.deviations) else {}
        return self._run(case, p, config, body, files, fs, extra, check, setup)

    def _run(self, case, p, config, body, files, fs, extra, check, setup,
            count=True):
        if fs is None:
            fs = SimFS(case.files(p) if files is None else files)
        world = World(config, fs)
        start = len(fs.log)
        if self.traces is not None and count:
            world.kernel.log = []
        if setup is not None:
            setup(world)
        contexts = [None] * world.n
        body = body or case.run

        def main(rank, E):
            E.misc.verbosity = loudness(p)
            c = contexts[rank] = Context(self, world, rank, E, p, world.n,
                extra)
            return body(c, p)

        world.run(main)
        err = world.harness_error()
        if err:
            raise HarnessError(err)
        k = world.kernel
        if count:
            self.recorded.append(dict(k.deviations))
            self.digests.append(k.digest)
            self.events += k.events
            self.switches += k.switches
            self.seconds += world.now - world.started
            for key, v in world.stats.items():
                self.totals[key] = self.totals.get(key, 0) + v
            for key, v in world.calls.items():
                self.calls[key] = self.calls.get(key, 0) + v
            self.totals['line preemption points'] = self.totals.get(
                'line preemption points', 0) + k.lines
            self.totals['scheduling decisions'] = self.totals.get(
                'scheduling decisions', 0) + k.decisions
            self.totals['file operations'] = self.totals.get(
                'file operations', 0) + fs.ops
            if world.jumps:
                self.fault('clock jump', world.jumps)
            if self.traces is not None:
                self.traces.append(k.log)
        run = Run(world, contexts)
        if check:
            self.passed(run)
            if not case.shared_files:
                self.writers(fs.log[start:])
        return run

    def writers(self, log):
        """Each file is written by one process only."""
        who = {}
        for rank, op, path, size in log:
            if op == 'write' and who.setdefault(path, rank) != rank:
                raise Violation('writers', '%s written by processes %s and %s'
                    % (path, who[path], rank))

    def reference(self, case, p, body=None, extra=None, key=None, **over):
        """Same on a single process without MPI library (cached)."""
        config = dict(n=1, nodes=[0], mpi=False, policy='seq', seed='ref',
            eager='never', junk='zero', order='fixed', preempt=0, hash='same',
            clock='same', shared=True)
        config.update(over)
        key = (case.name, json.dumps(p, sort_keys=True), key)
        if key not in Env.cache:
            if len(Env.cache) > 64:
                Env.cache.clear()
            try:
                run = self._run(case, p, config, body, None, None, extra,
                    True, None, count=False)
            except Violation as v:
                Env.cache[key] = v
            else:
                Env.cache[key] = run
        run = Env.cache[key]
        if isinstance(run, Violation):
            raise Violation('single-process', 'on a single process: '
                + run.message, run.where)
        return run

    # ---------------------------------------------------------------- oracles

    def passed(self, run):
        """All ranks have to arrive at the end."""
        k = run.world.kernel
        for r, o in enumerate(run.outcomes):
            if o is not None and o[0] == 'exc' and not isinstance(o[1],
                    (Violation, HarnessError)):
                raise Violation('exception', 'rank %d of %d: %s at %s' % (r,
                    run.n, clean(describe(o)), o[2]), o[2])
            if o is not None and o[0] == 'exc' and isinstance(o[1], Violation):
                raise Violation(o[1].kind, 'rank %d of %d: %s' % (r, run.n,
                    o[1].message), o[1].where)
        if k.violation is not None:
            raise k.violation
        for r, o in enumerate(run.outcomes):
            if o is None or o[0] != 'ok':
                raise Violation('exit', 'rank %d of %d ends with %s; output: '
                    '%r' % (r, run.n, describe(o), run.text(0)[-200:]))

    def progress(self, run, p):
        """Progress bars: first process only, one by one, complete."""
        for r in range(run.n):
            done, lines = bars(run.text(r))
            if not done:
                continue
            if r or not p.get('verbosity'):
                raise Violation('output', 'rank %d of %d shows progress of %r'
                    ' (verbosity %d)' % (r, run.n, done[0][0], loudness(p)))
            for title, width, now in done:
                if now != width:
                    raise Violation('output', 'rank %d of %d: bar %r of width '
                        '%d ends at %d' % (r, run.n, title, width, now))

    def messages(self, run, ref, repeats=False):
        """No message is printed more often than on a single process.

        With `repeats`, e.g., for iterative algorithms, the number is ignored
        on the first process.
        """
        left = bars(ref.text(0))[1]
        for r in range(run.n):
            for line in bars(run.text(r))[1]:
                if re.search('shared memory|processors', line, re.I):
                    continue
                if line not in left or r and repeats:
                    raise Violation('output', 'rank %d of %d prints %r, %s' % (
                        r, run.n, line, 'more often than a single process'
                        if line in bars(ref.text(0))[1]
                        else 'unlike a single process'))
                if not repeats:
                    left.remove(line)

    def stable(self, run):
        """Results must not change after they have been handed over."""
        for r, c in enumerate(run.contexts):
            for name, e in c.kept.items():
                for a, b in zip(e.refs, e.raw):
                    d = differ(freeze(a), b, 0.0, name)
                    if d:
                        raise Violation('unstable', 'rank %d of %d: value '
                            'changed after it had been handed over: %s' % (r,
                            run.n, d))

    def compare(self, run, ref, tol=1e-8, names=None):
        expected = ref.contexts[0].kept
        for r, c in enumerate(run.contexts):
            for name, e in expected.items():
                if names is not None and name not in names:
                    continue
                if e.root and r != 0:
                    continue
                if name not in c.kept:
                    raise Violation('missing', 'rank %d of %d: no result for '
                        '%s' % (r, run.n, name))
                if not e.compare:
                    d = differ(c.kept[name].value,
                        run.contexts[0].kept[name].value, 1e-9, name, True)
                    if d:
                        raise Violation('disagree', 'rank %d of %d: %s on '
                            'rank 0' % (r, run.n, d))
                    continue
                d = differ(c.kept[name].value, e.value, e.tol or tol, name,
                    True)
                if d:
                    raise Violation('value', 'rank %d of %d: %s on a single '
                        'process' % (r, run.n, d))

    def equal(self, what, a, b, tol=1e-7):
        d = differ(freeze(a), freeze(b), tol, what)
        if d:
            raise Violation('oracle', d)

    def true(self, condition, message):
        if not condition:
            raise Violation('oracle', message)

    def loaded(self, run, name, allowed, sure, tol=1e-8):
        """All ranks that obtained something obtained the same valid state."""
        got = [(r, c.kept[name].value) for r, c in enumerate(run.contexts)
            if c is not None and name in c.kept]
        if sure and len(got) < run.n:
            return
        which = set()
        for r, value in got:
            found = [j for j, x in enumerate(allowed) if differ(value,
                freeze(x), tol, name, True) is None]
            if not found:
                raise Violation('damaged', 'rank %d of %d: %s' % (r, run.n,
                    differ(value, freeze(allowed[-1]), tol, name, True)))
            which.add(found[0])
        if len(which) > 1:
            raise Violation('disagree', 'processes obtain different states')
        for r, o in enumerate(run.outcomes):
            if o is not None and o[0] == 'exc' and isinstance(o[1], Violation):
                raise o[1]

    def agree(self, run, tol=1e-9):
        """All ranks hold the same values."""
        first = run.contexts[0].kept
        for r, c in enumerate(run.contexts):
            for name, e in first.items():
                if e.root:
                    continue
                if name not in c.kept:
                    raise Violation('missing', 'rank %d of %d: no result for '
                        '%s' % (r, run.n, name))
                d = differ(c.kept[name].value, e.value, tol, name, True)
                if d:
                    raise Violation('disagree', 'rank %d of %d: %s on rank 0'
                        % (r, run.n, d))


def clean(text):
    return re.sub(r'0x[0-9a-f]+', '0x..', re.sub(r'\s+', ' ', text))[:300]


class Case:
    name = None
    tol = 1e-8
    nmax = 8
    weight = 1
    compare = True
    shared_files = False    # may be written by several processes

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6))

    def large(self, rng, p):
        """Enlarge generated input."""

    def draw(self, rng):
        """Generate input, sometimes large."""
        p = self.gen(rng)
        if rng.random() < 0.04:
            self.large(rng, p)
        return p

    def files(self, p):
        return {}

    def run(self, c, p):
        raise NotImplementedError

    repeats = False

    def config(self, rng, config, p):
        """Adapt configuration to case."""
        return config

    def check(self, env, p, run, ref):
        pass

    def execute(self, env, p):
        ref = env.reference(self, p) if self.compare else None
        run = env.run(self, p)
        if ref is not None:
            env.compare(run, ref, self.tol)
        else:
            env.agree(run)
        env.stable(run)
        self.check(env, p, run, ref)
        env.progress(run, p)
        if ref is not None:
            env.progress(ref, p)
            env.messages(run, ref, self.repeats)


REGISTRY = {}


def register(*props, **options):
    """Class decorator: case belongs to properties."""
    def decorate(cls):
        case = cls()
        case.name = case.name or cls.__name__
        case.props = props
        for k, v in options.items():
            setattr(case, k, v)
        if case.name in REGISTRY:
            raise HarnessError('case %s defined twice' % case.name)
        REGISTRY[case.name] = case
        return cls
    return decorate


# ---------------------------------------------------------------- configuration


def gen_nodes(rng, n):
    kind = rng.choice(['one', 'one', 'each', 'blocks', 'blocks', 'robin',
        'random', 'random'])
    if kind == 'one' or n == 1:
        return [0] * n
    if kind == 'each':
        return list(range(n))
    m = rng.randrange(2, max(3, n))
    if kind == 'blocks':
        cuts = sorted(rng.randrange(1, n) for _ in range(m - 1))
        return [sum(r >= c for c in cuts) for r in range(n)]
    if kind == 'robin':
        return [r % m for r in range(n)]
    return [rng.randrange(m) for r in range(n)]


def gen_config(rng, case, p, profile):
    nmax = min(case.nmax, profile.get('nmax', 8))
    nmin = min(profile.get('nmin', 2), nmax)
    weights = [1, 3, 4, 3, 2, 1.5, 1, 1]
    options = list(range(nmin, nmax + 1))
    n = rng.choices(options, [weights[i - 1] for i in options])[0]
    if nmax == 8 and rng.random() < 0.02:
        n = rng.randrange(9, 14)
    c = dict(n=n, mpi=True, seed=rng.randrange(10 ** 9))
    c['nodes'] = gen_nodes(rng, n)
    c['shared'] = rng.random() >= profile.get('unsupported', 0.1)
    c['policy'] = rng.choices(['random', 'prio', 'stall', 'rr', 'seq'],
        [4, 2, 3, 0.5, 0.5])[0]
    c['eager'] = rng.choices(['mixed', 'always', 'never'], [5, 3, 2])[0]
    c['junk'] = rng.choices(['nan', 'big', 'small'], [5, 2, 3])[0]
    c['order'] = rng.choices(['random', 'fixed'], [3, 1])[0]
    c['preempt'] = rng.choice([3, 10, 40, 200]) if rng.random() \
        < profile.get('preempt', 0.5) else 0
    c['hash'] = rng.choices(['differ', 'same'], [4, 1])[0]
    c['clock'] = rng.choices(['differ', 'same'], [4, 1])[0]
    return case.config(rng, c, p)


# ------------------------------------------------------------------- evaluation


class Outcome:
    def __init__(self, env, violation=None, harness=None, skipped=False):
        self.env = env
        self.violation = violation
        self.harness = harness
        self.skipped = skipped

    def signature(self):
        return None if self.violation is None else self.violation.kind

    def digest(self):
        h = hashlib.blake2b(digest_size=12)
        for d in self.env.digests:
            h.update(d.encode())
        return h.hexdigest()


def evaluate(case, p, config, deviations=None, trace=False):
    env = Env(config, deviations, trace)
    try:
        with np.errstate(all='ignore'):
            case.execute(env, p)
    except Violation as v:
        return Outcome(env, v)
    except HarnessError as e:
        return Outcome(env, harness='HarnessError: %s' % e)
    except Skip:
        return Outcome(env, skipped=True)
    return Outcome(env)


# ----------------------------------------------------------------- minimisation

SLOW = 'makes no progress within'


def simpler(config):
    """Simpler configurations, most drastic first."""
    n = config['n']
    if config.get('n'):
        for m in range(2, n):
            yield dict(config, n=m, nodes=config['nodes'][:m]), 'n'
        for m in range(2, n):
            yield dict(config, n=m, nodes=[0] * m), 'n'
    if len(set(config['nodes'])) > 1:
        yield dict(config, nodes=[0] * n), 'nodes'
        if n > 2:
            yield dict(config, nodes=[min(x, 1) for x in config['nodes']]), \
                'nodes'
    for key, value in [('preempt', 0), ('policy', 'seq'), ('policy', 'rr'),
            ('hash', 'same'), ('clock', 'same'), ('order', 'fixed'),
            ('eager', 'never'), ('eager', 'always'), ('junk', 'nan')]:
        if config[key] != value:
            yield dict(config, **{key: value}), key


def minimise(case, p, config, violation, budget=200, seconds=60):
    """Smaller configuration and schedule with the same kind of violation."""
    kind = violation.kind
    start = time.monotonic()
    spent = 0
    tried = set()

    def attempt(cfg, dev=None):
        nonlocal spent
        spent += 1
        out = evaluate(case, p, cfg, dev)
        return out if out.violation is not None \
            and out.violation.kind == kind else None

    def late():
        return time.monotonic() - start > seconds

    best = attempt(config)
    if best is None:
        return config, None, None, spent

    progress = True
    while progress and spent < budget // 2 and not late():
        progress = False
        for cfg, what in simpler(config):
            key = json.dumps(cfg, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            out = attempt(cfg)
            if out is not None:
                config, best = cfg, out
                progress = True
                break
            if spent >= budget // 2 or late():
                break

    # schedule: keep as few deviations from default order as possible

    full = best.env.recorded
    flat = [(w, step, r) for w, d in enumerate(full) for step, r in d.items()]

    def build(items):
        out = [{} for _ in full]
        for w, step, r in items:
            out[w][step] = r
        return out

    first = attempt(config, build(flat))
    if first is None:
        return config, None, best, spent
    current, best = flat, first

    empty = attempt(config, build([]))
    if empty is not None:
        current, best = [], empty
    size = max(1, len(current) // 2)
    while current and spent < budget and not late():
        reduced = False
        for i in range(0, len(current), size):
            cand = current[:i] + current[i + size:]
            out = attempt(config, build(cand))
            if out is not None:
                # decisions after a removed one shift: keep what was used
                current, best = cand, out
                reduced = True
                break
            if spent >= budget or late():
                break
        if not reduced:
            if size == 1:
                break
            size = max(1, size // 2)
    return config, build(current), best, spent
