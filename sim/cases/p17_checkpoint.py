"""Saving and loading simulations under crashes and I/O faults."""

import copy
import pickle
import random

import numpy as np

from .. import faults, models
from ..fs import SimFS
from ..run import Case, differ, freeze, gen_nodes, register
from ..kernel import HarnessError, Violation
from .p09_driver import build, gen_driver, model


# ways of saving to fail while the simulation goes on
FAILING = 'full', 'eio', 'memory', 'interrupt', 'unpicklable'
FAILURES = OSError, MemoryError, KeyboardInterrupt, pickle.PicklingError


class Unpicklable:
    """Function that cannot be saved, as those defined interactively."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.f, name)

    def __reduce__(self):
        raise pickle.PicklingError('this function cannot be saved')


def small(rng):
    p = gen_driver(rng, ['dense', 'dense', 'super', 'sparse', 'option'])
    p.update(nat=1, d=rng.choice([1, 1, 2]))
    p['nq'] = [rng.choice([1, 2])] + [1] * (p['d'] - 1)
    p['nk'] = [2] * p['d']
    if rng.random() < 0.25:
        # photoexcitation
        p.update(nel=2, n=2, f='two', nx=0.2, form='dense')
    return p


def driver_of(c, p, **kw):
    if p['f'] == 'two':
        kw.update(f=c.E.occupations.two_fermi_dirac, nx=p['nx'])
    return build(c, p, **kw)


def observe(driver, u=None):
    """State as given, forces for it, everything after diagonalization."""
    first = [driver.u.copy(), driver.jacobian(show=False), driver.hessian()]
    # search for chemical potential depends on initial guess
    driver.mu = None
    E = driver.free_energy(show=False)
    last = [E, driver.jacobian(show=False), driver.hessian(
        gamma_only=False), driver.mu, driver.density(), model(
        driver.electrons(rydberg=True))]
    if not driver.sparse:
        last.append(driver.elph.g(0.3, 0.2, k1=0.5, k2=0.7))
        last.append(driver.elph.g(0.3, 0.2, k1=0.1))
    return first + last


def other_size(env, nmax=4):
    rng = random.Random('%s/second' % env.config['seed'])
    n = rng.randrange(1, nmax + 1)
    return dict(n=n, nodes=gen_nodes(rng, n), mpi=n > 1 or rng.random() < 0.7)


@register('P17', 'P18', 'P23', weight=2)
class Checkpoint(Case):
    """Save, possibly crash, and load on any number of processes."""

    compare = False
    nmax = 4

    def gen(self, rng):
        p = small(rng)
        p.update(versions=rng.choice([1, 2, 3]), fault=rng.choice(['none',
            'none', 'kill', 'power', 'unordered', 'full', 'short', 'eio',
            'eio-read', 'lost', 'memory', 'interrupt', 'unpicklable']), at=rng.random(), bufsize=rng.choice([64,
            512, 8192]), names=rng.random() < 0.7, rescue=rng.choice([None,
            'other', 'same']), retry=rng.random() < 0.5)
        return p

    def rescue(self, p):
        if p['rescue'] == 'other':
            return 'rescue'
        return 'checkpoint' if p['names'] else 'checkpoint%d' % (
            p['versions'] - 1)

    def first(self, c, p):
        """Simulation that is saved again and again."""
        driver = driver_of(c, p)
        c.keep('size', len(driver.u))
        for j in range(p['versions']):
            u = 0.2 * c.rng('u', j).standard_normal(driver.u.size)
            driver.mu = None
            driver.free_energy(u, show=False)
            c.keep('version %d' % j, observe(driver), stable=False)
            c.E.MPI.comm.Barrier()
            if c.rank == 0:
                c.env.marks.append((j, c.fs.ops))
            name = 'checkpoint' if p['names'] else 'checkpoint%d' % j
            f = driver.f
            if c.extra.get('unpicklable') == j:
                driver.f = Unpicklable(f)
                if c.rank == 0:
                    c.env.fault('object that cannot be saved')
            try:
                driver.save(name)
            except FAILURES:
                c.env.failed.append((j, c.rank))
            else:
                if c.rank == 0:
                    c.env.saved.append(j)
            driver.f = f
            c.E.MPI.comm.Barrier()
            if c.rank == 0:
                c.env.marks.append((j, c.fs.ops))
            # saving must not have any effect, even if it fails
            d = differ(freeze(observe(driver)), c.kept['version %d' % j].value,
                1e-6, 'observables')
            if d:
                raise Violation('changed', 'rank %d: saving changed running '
                    'simulation: %s' % (c.rank, d))
            c.keep('future %d' % j, self.future(c, driver), stable=False)
        if p['rescue'] and c.extra.get('failing'):
            # space has been freed: try again
            c.E.MPI.comm.Barrier()
            c.fs.fault = None
            c.E.MPI.comm.Barrier()
            driver.save(self.rescue(p))

    def future(self, c, driver):
        """Where the simulation would go from here."""
        driver = copy.copy(driver)
        u = 0.2 * c.rng('future').standard_normal(driver.u.size)
        driver.mu = None
        driver.free_energy(u, show=False)
        return observe(driver)

    def retry(self, c, p):
        """New simulation that uses the same file names after a crash."""
        driver = driver_of(c, p)
        u = 0.2 * c.rng('retry').standard_normal(driver.u.size)
        driver.mu = None
        driver.free_energy(u, show=False)
        c.keep('new', observe(driver), stable=False)
        for name in c.extra['names']:
            driver.save(name)
            c.E.MPI.comm.Barrier()
            c.env.equal('rank %d: %s saved after crash' % (c.rank, name),
                observe(c.E.md.Driver.load(name)), c.kept['new'].value, 1e-6)

    def second(self, c, p):
        driver = c.E.md.Driver.load(c.extra['name'])
        c.keep('loaded u', driver.u, stable=False)
        c.keep('loaded', observe(driver), stable=False)
        if p['versions'] > 1:
            # a restored simulation can be saved and restored, too
            driver.save('again')
            c.E.MPI.comm.Barrier()
            c.keep('again', observe(c.E.md.Driver.load('again')))
        c.keep('future', self.future(c, driver), stable=False)
        if not driver.sparse:
            # other methods of the model still work
            g = driver.elph.g(0.3, 0.2, k1=0.5, k2=0.7)
            if p['versions'] % 2:
                driver.elph.standardize()
                c.env.equal('rank %d: standardized coupling of loaded '
                    'simulation' % c.rank, driver.elph.g(0.3, 0.2, k1=0.5,
                    k2=0.7), g)
            else:
                driver.elph.asr(report=False)
                g = driver.elph.g(0.3, 0.2, k1=0.5, comm=c.E.MPI.I)
                c.env.equal('rank %d: coupling of loaded simulation with sum '
                    'rule' % c.rank, g, c.E.MPI.comm.bcast(g))

    def execute(self, env, p):
        rng = random.Random('%s/faults' % env.config['seed'])
        kind = p['fault']

        def start(setup=None, **kw):
            env.marks, env.saved, env.failed = [], [], []
            fs = SimFS()
            fs.bufsize = p['bufsize']
            return env.run(self, p, body=self.first, fs=fs, setup=setup, **kw)

        run = start()
        env.stable(run)
        for j, (a, b) in enumerate(zip(env.marks[::2], env.marks[1::2])):
            ops = {}
            for r, op, path, size in run.fs.log[a[1]:b[1]]:
                if op == 'write':
                    ops.setdefault(r, 0)
            if len(ops) > 1:
                raise Violation('writers', 'checkpoint written by processes '
                    '%s' % sorted(ops))
        versions = [run.get('version %d' % j) for j in range(p['versions'])]
        env.future = [run.get('future %d' % j) for j in range(p['versions'])]
        complete = list(range(p['versions']))
        log = run.fs.log
        spans = [(a[1], b[1]) for a, b in zip(env.marks[::2], env.marks[1::2])]
        ops = [i for a, b in spans for i in range(a, b)]
        exact = True
        images = None
        if kind in ('kill', 'power', 'unordered'):
            i = ops[int(p['at'] * len(ops))]
            run = start(faults.crash_at(i, env), check=False)
            images = run.fs.after_crash(kind, rng)
            env.fault('loss of recent writes (%s)' % kind,
                int(kind != 'kill'))
            exact = False
            complete = list(env.saved)
        elif kind == 'lost':
            # power failure some time after everything has been saved
            images = run.fs.after_crash(rng.choice(['power', 'unordered']),
                rng)
            env.fault('loss of recent writes')
            exact = False
        elif kind in FAILING:
            inside = [x for x in ops if log[x][1] == 'write']
            extra = dict(failing=True)
            if kind == 'full':
                total = sum(log[x][3] for x in inside)
                fault = faults.disk_full(int(p['at'] * total), env,
                    lambda path: path.startswith('checkpoint'))
            elif kind == 'unpicklable':
                fault = None
                extra['unpicklable'] = int(p['at'] * p['versions'])
            else:
                fault = faults.io_error(int(p['at'] * len(inside)), 'write',
                    env, lambda path: path.startswith('checkpoint'),
                    dict(memory=MemoryError, interrupt=KeyboardInterrupt).get(
                        kind))
            run = start(fault, extra=extra)
            env.true(env.failed, 'failed saving (%s) reported success' % kind)
            env.true(kind == 'unpicklable' or all(r == 0 for j, r in
                env.failed), 'processes %s report writing errors' % env.failed)
            complete = list(env.saved)
            images = run.fs.image()
            exact = False
            if p['rescue']:
                self.load(env, p, self.rescue(p), images, versions[-1:], True)
        elif kind == 'short':
            run = start(faults.short(rng, env))
        if images is None:
            images = run.fs.image()

        if p['retry'] and kind in ('kill', 'power', 'unordered') + FAILING:
            again = SimFS(images)
            again.bufsize = p['bufsize']
            env.run(self, p, body=self.retry, fs=again, extra=dict(names=
                ['checkpoint'] if p['names'] else ['checkpoint%d' % j
                    for j in range(p['versions'])]), **other_size(env))

        setup = None
        if kind == 'short':
            setup = faults.short(rng, env)
        elif kind == 'eio-read':
            setup = faults.io_error(rng.randrange(4), 'read', env)
            exact = False
        for j in range(p['versions']):
            if p['names']:
                if j:
                    break
                name = 'checkpoint'
                allowed = versions[-1:] if exact else versions
            else:
                name = 'checkpoint%d' % j
                allowed = versions[j:j + 1]
            # what had been completed before a process crash is not lost
            sure = exact or kind == 'kill' and not p['names'] \
                and j in complete
            self.load(env, p, name, images, allowed, sure, setup)

    def load(self, env, p, name, images, allowed, sure, setup=None):
        run = env.run(self, p, body=self.second, fs=SimFS(images),
            check=False, extra=dict(name=name), setup=setup,
            **other_size(env))
        if sure:
            env.passed(run)
        env.loaded(run, 'loaded u', [x[0] for x in allowed], sure, 0.0)
        env.loaded(run, 'loaded', allowed, sure)
        env.loaded(run, 'future', env.future, sure)
        if sure:
            env.loaded(run, 'again', allowed, False)


@register('P21', 'P09')
class TwoDrivers(Case):
    """Simulations on the same model do not influence each other."""

    tol = 2e-6
    nmax = 4

    def gen(self, rng):
        p = small(rng)
        if rng.random() < 0.4:
            p.update(nel=2, n=2, f='two', nx=0.2, form='dense')
        p['steps'] = rng.choice([1, 2])
        return p

    def run(self, c, p):
        E = c.E
        elph, g = models.elph(c, 'md', p['nel'], p['nat'], p['d'],
            shared_memory=p['elph_shared'], divide_mass=False,
            real=p['form'] != 'dense' or p['real'], density=0.5)
        elph.el.rydberg = True
        elph.el.data *= 0.3
        kw = dict(elph=elph)
        if p['f'] == 'two':
            kw['f'] = E.occupations.two_fermi_dirac
        A = build(c, p, nx=p.get('nx', 0.0), **kw)
        u = 0.2 * c.rng('A').standard_normal(A.u.size)
        A.free_energy(u.copy(), show=False)
        before = [A.jacobian(show=False), A.hessian(), A.density(), A.u.copy()]
        B = build(c, p, nx=0.5 if p['f'] == 'two' else 0.0, **kw)
        for i in range(p['steps']):
            v = 0.2 * c.rng('B', i).standard_normal(B.u.size)
            B.free_energy(v, show=False)
            c.keep('B %d' % i, [B.jacobian(show=False), B.hessian()])
            if i % 2:
                B.superconductivity()
        after = [A.jacobian(show=False), A.hessian(), A.density(), A.u.copy()]
        c.env.equal('rank %d: driver after use of other driver' % c.rank,
            after, before, 1e-9)
        c.keep('A', after)


def draw(rng):
    """Any object that may be buffered."""
    kind = rng.integers(5)
    if kind == 0:
        return dict(name='x' * int(rng.integers(1, 9)), e=rng.random((3, 4)))
    if kind == 1:
        return [rng.random(int(rng.integers(1, 500))), int(rng.integers(9))]
    if kind == 2:
        return rng.random((int(rng.integers(1, 20)), 5)) + 1j
    if kind == 3:
        return 'text %d' % rng.integers(99)
    return [None, 3.5, dict(a=[1, 2, dict(b=rng.random(3))])]


@register('P17', 'P18', 'P13', 'P15', 'P23')
class Buffers(Case):
    """Objects buffered in files."""

    compare = False

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), objects=rng.choice([1, 2, 3]),
            fault=rng.choice(['none', 'none', 'kill', 'power', 'unordered',
            'missing', 'truncated', 'eio-read', 'short', 'full']),
            at=rng.random(), bufsize=rng.choice([16, 64, 512]),
            null=rng.random() < 0.2, private=rng.random() < 0.4)

    def first(self, c, p):
        E = c.E
        B = E.MPI.Buffer(None if p['null'] else 'buffer')
        c.keep('absent', B.get())
        rng = c.rng('objects')
        for i in range(p['objects']):
            obj = draw(rng)
            c.keep('object %d' % i, obj)
            try:
                B.set(obj)
            except OSError:
                c.env.failed.append(c.rank)
            E.MPI.comm.Barrier()
            if not c.extra.get('fault'):
                got = B.get()
                c.env.equal('rank %d: buffered object' % c.rank, got,
                    None if p['null'] else obj, 0.0)
            E.MPI.comm.Barrier()
        if c.extra.get('fault'):
            # space has been freed: try again
            c.fs.fault = None
            E.MPI.comm.Barrier()
            self.again(c, p, B)

    def again(self, c, p, B=None):
        """Set and get after failure."""
        if B is None:
            B = c.E.MPI.Buffer('buffer')
        obj = draw(c.rng('again'))
        B.set(obj)
        c.E.MPI.comm.Barrier()
        c.env.equal('rank %d: object buffered after failure' % c.rank,
            B.get(), obj, 0.0)

    def second(self, c, p):
        B = c.E.MPI.Buffer('buffer')
        got = B.get()
        c.keep('loaded', got)
        if p['fault'] == 'none':
            c.env.equal('object read again', B.get(), got, 0.0)

    def execute(self, env, p):
        rng = random.Random('%s/faults' % env.config['seed'])

        def start(**kw):
            env.failed = []
            fs = SimFS()
            fs.bufsize = p['bufsize']
            if p['private']:
                fs.visible = lambda rank, path: rank == 0
            return env.run(self, p, body=self.first, fs=fs, **kw)

        run = start()
        env.agree(run)
        env.true(run.get('absent') is None, 'content of missing buffer is %r'
            % run.get('absent'))
        objs = [run.get('object %d' % i) for i in range(p['objects'])]
        if p['null']:
            env.true(not run.fs.files, 'files %s written without buffer name'
                % sorted(run.fs.files))
            return
        ops = [i for i, x in enumerate(run.fs.log) if x[1] in ('open',
            'write', 'truncate', 'rename')]
        image = run.fs.image()
        allowed, sure, setup = objs[-1:], True, None
        if p['fault'] in ('kill', 'power', 'unordered'):
            run = start(setup=faults.crash_at(ops[int(p['at'] * len(ops))],
                env), check=False)
            image = run.fs.after_crash(p['fault'], rng)
            allowed, sure = objs + [None], False
            fs = SimFS(image)
            fs.bufsize = p['bufsize']
            if p['private']:
                fs.visible = lambda rank, path: rank == 0
            env.run(self, p, body=self.again, fs=fs, **other_size(env, 6))
        elif p['fault'] == 'full':
            total = sum(x[3] for x in run.fs.log if x[1] == 'write')
            run = start(setup=faults.disk_full(int(p['at'] * total), env),
                extra=dict(fault=True))
            env.true(env.failed and not any(env.failed), 'no space left, but '
                'errors reported by %s' % env.failed)
            image = run.fs.image()
            allowed, sure = None, True
        elif p['fault'] == 'missing':
            image = {}
            allowed = [None]
        elif p['fault'] == 'truncated':
            env.fault('truncated file')
            image = {k: v[:int(p['at'] * len(v))] for k, v in image.items()}
            sure = False
        elif p['fault'] == 'eio-read':
            setup = faults.io_error(rng.randrange(2), 'read', env)
            sure = False
        elif p['fault'] == 'short':
            setup = faults.short(rng, env)
        fs = SimFS(image)
        if p['private']:
            fs.visible = lambda rank, path: rank == 0
        run = env.run(self, p, body=self.second, fs=fs, check=False,
            setup=setup, **other_size(env, 6))
        if sure:
            env.passed(run)
        if allowed is None:
            allowed = [draw(run.contexts[0].rng('again'))]
        env.loaded(run, 'loaded', allowed, sure, 0.0)
