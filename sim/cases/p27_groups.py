"""Different work in different groups, shared memory, and dense drivers."""

import io

import numpy as np

from .. import models
from ..fs import SimFS
from ..run import Case, register
from .p05_coupling import brute, build as build_coupling
from .p07_diagrams import cplx, energies
from .p09_driver import build as build_driver, model
from .p10_images import Map

GROUP_OPS = ['distribute', 'matrix', 'matrix', 'shared', 'shared', 'Shared',
    'load', 'load', 'info', 'g', 'g', 'g', 'Pi', 'dd', 'kubo', 'fan', 'color',
    'xsf', 'cube']


def npy(x):
    f = io.BytesIO()
    np.save(f, x)
    return f.getvalue()


def txt(x):
    f = io.BytesIO()
    np.savetxt(f, x)
    return f.getvalue()


def table(seed, i):
    g = np.random.default_rng([seed, i])
    return g.standard_normal((g.integers(2, 5), g.integers(2, 4))).round(6)


@register('P14', 'P13', 'P12', 'P23', 'P21', weight=2)
class GroupWork(Case):
    """Groups of processes run different sequences of operations."""

    compare = False

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), nel=rng.choice([1, 2]), nat=1,
            d=rng.choice([1, 2]), density=0.3, shared=rng.random() < 0.5,
            lr=False, lr2d=False, L=None, Q=False, divide=True,
            degenerate=False, nk=[2], nbnd=2, nph=1,
            colors=[rng.randrange(3) for _ in range(16)],
            reverse=rng.random() < 0.3, private=rng.random() < 0.5,
            ops=[[[rng.choice(GROUP_OPS), rng.randrange(10 ** 6)]
            for _ in range(rng.choice([0, 1, 2, 4]))] for _ in range(3)],
            again=rng.random() < 0.3)

    def files(self, p):
        out = {}
        for i in range(3):
            out['t%d.npy' % i] = npy(np.asarray(table(p['seed'], i),
                order='CF'[i % 2]))
            out['t%d.txt' % i] = txt(table(p['seed'], i))
        out['x.cube'] = ('\n\n1 0.0 0.1 0.2\n2 1.0 0.0 0.0\n1 0.0 1.0 0.0\n'
            '3 0.0 0.0 1.0\n6 6.0 0.0 0.0 0.5\n1.0 2.0 3.0\n4.0 5.0 6.0\n'
            ).encode()
        return out

    def run(self, c, p):
        M = c.E.MPI
        color = p['colors'][c.rank]
        group = M.comm.Split(color, key=-c.rank if p['reverse'] else c.rank)
        m, g = build_coupling(c, p)
        todo = p['ops'][color] * (2 if p['again'] else 1)
        for i, (op, seed) in enumerate(todo):
            rng = c.rng('group', op, seed)
            what = 'rank %d of %d (rank %d of group of %d): %s' % (c.rank,
                M.comm.size, group.rank, group.size, op)
            if op == 'g':
                self.coupling(c, p, m, group, rng, what)
            else:
                getattr(self, op)(c, p, group, rng, what)
        x = M.distribute(17)
        c.env.true(x.sum() == 17 and len(x) == M.comm.size,
            'rank %d: %s' % (c.rank, x))
        return 'done'

    def distribute(self, c, p, group, rng, what):
        n = int(rng.integers(20))
        sizes, bounds = c.E.MPI.distribute(n, bounds=True, comm=group)
        c.env.true(len(sizes) == group.size and sizes.sum() == n
            and np.array_equal(np.diff(bounds), sizes), '%s: %s, %s' % (what,
            sizes, bounds))

    def matrix(self, c, p, group, rng, what):
        n = int(rng.integers(1, 6))
        col, row = c.E.MPI.matrix(n, comm=group)
        me = group.rank
        c.env.equal(what, col.allgather(me), [r for r in range(group.size)
            if r % n == me % n])
        c.env.equal(what, row.allgather(me), [r for r in range(group.size)
            if r // n == me // n])

    def shared(self, c, p, group, rng, what):
        shape = tuple(rng.integers(0, 4, 2))
        dtype = [float, complex, int][rng.integers(3)]
        want = rng.integers(-9, 9, shape).astype(dtype)
        node, images, x = c.E.MPI.shared_array(shape, dtype=dtype,
            shared_memory=bool(rng.integers(4)), comm=group)
        c.env.true((group.rank == 0) == (node.rank == images.rank == 0),
            '%s: rank %d on node, %d among nodes' % (what, node.rank,
            images.rank))
        if group.rank == 0:
            x[...] = want
        if node.rank == 0:
            images.Bcast(x)
        group.Barrier()
        c.env.equal(what, x, want, 0.0)
        self.handed(c, x)

    def Shared(self, c, p, group, rng, what):
        shape = tuple(rng.integers(0, 4, 2))
        want = rng.standard_normal(shape)
        x = c.E.MPI.SharedArray(shape, shared_memory=bool(rng.integers(4)),
            comm=group)
        if group.rank == 0:
            x[...] = want
        x.Bcast()
        c.env.equal(what, np.array(x), want, 0.0)
        self.handed(c, x)
        y = 2 * x
        c.env.true(y.node is x.node and y.images is x.images,
            '%s: derived array has other groups' % what)

    def handed(self, c, x):
        """Array must not change any more."""
        c.keep('handed %d' % len(c.kept), x, root=True)

    def load(self, c, p, group, rng, what):
        i = int(rng.integers(4))
        text = bool(rng.integers(2))
        name = 't%d.%s' % (i, 'txt' if text else 'npy')
        x = c.E.MPI.load(name, shared_memory=bool(rng.integers(2)), txt=text,
            comm=group)
        want = np.empty(0) if i == 3 else table(p['seed'], i)
        c.env.equal('%s %s' % (what, name), x, want, 1e-9)
        self.handed(c, x)

    def info(self, c, p, group, rng, what):
        c.E.MPI.info('message %d' % rng.integers(1000), comm=group)

    def coupling(self, c, p, m, group, rng, what):
        q, k = (models.kpoints(rng, 2, p['d'])[rng.integers(2)]
            for _ in range(2))
        args = [0.0] * 6
        args[:p['d']] = q
        args[3:3 + p['d']] = k
        kw = dict(elbnd=bool(rng.integers(2)), phbnd=bool(rng.integers(2)))
        broadcast = bool(rng.integers(3))
        x = m.g(*args, comm=group, broadcast=broadcast, **kw)
        if not broadcast and group.rank:
            c.env.true(x is None, '%s: coupling not wanted' % what)
            return
        want = brute(m, q, k)
        if kw['elbnd']:
            Uk = np.linalg.eigh(m.el.H(*args[3:]))[1]
            Ukq = np.linalg.eigh(m.el.H(*np.add(args[3:], args[:3])))[1]
            want = np.einsum('am,xab,bn->xmn', Ukq.conj(), want, Uk)
        if kw['phbnd']:
            u = np.linalg.eigh(m.ph.D(*args[:3]))[1]
            want = np.einsum('xab,xu->uab', want, u)
        if True in kw.values():
            x, want = abs(x), abs(want) # phases are arbitrary
        c.env.equal('%s %s' % (what, kw), x, want, 1e-6)

    def same(self, c, group, what, function, *args, **kwargs):
        got = function(*args, comm=group, **kwargs)
        want = function(*args, comm=c.E.MPI.I, **kwargs)
        c.env.equal(what, got, want, 1e-7)

    def Pi(self, c, p, group, rng, what):
        e = energies(c, p)
        n = int(rng.integers(1, 5))
        self.same(c, group, what, c.E.diagrams.phonon_self_energy,
            np.pi * rng.integers(0, 2, (n, 1)), e, g2=rng.random((n, 1, 2, 2,
            2)), kT=0.1, fluctuations=bool(rng.integers(2)))

    def dd(self, c, p, group, rng, what):
        e = energies(c, p)
        n = int(rng.integers(1, 5))
        self.same(c, group, what, c.E.diagrams.double_fermi_surface_average,
            np.pi * rng.integers(0, 2, (n, 1)), e, rng.random((n, 1, 2, 2,
            2)), kT=0.1)

    def kubo(self, c, p, group, rng, what):
        n = int(rng.integers(1, 5))
        omega = np.linspace(-1, 1, 2 * n + 1)
        self.same(c, group, what, c.E.diagrams.green_kubo_conductivity,
            rng.standard_normal((2, 2, 1)), rng.random((2, 2, 2 * n + 1)),
            omega, kT=0.1, dc_only=bool(rng.integers(2)))

    def fan(self, c, p, group, rng, what):
        n = int(rng.integers(1, 5))
        self.same(c, group, what, c.E.diagrams.fan_migdal_self_energy,
            np.pi * rng.integers(0, 2, (n, 1)), energies(c, p),
            0.1 + rng.random((2, 1)), rng.random((2, 1, n, 2, 2)),
            np.linspace(-1, 1, 3) + 0.05j, kT=0.1)

    def color(self, c, p, group, rng, what):
        data = rng.standard_normal((int(rng.integers(1, 4)), 2))
        got = c.E.plot.color(data, Map(), minimum=-2.0, maximum=2.0,
            comm=group)
        want = c.E.plot.color(data, Map(), minimum=-2.0, maximum=2.0,
            comm=c.E.MPI.I)
        c.env.equal(what, got, want)

    def xsf(self, c, p, group, rng, what):
        W = rng.standard_normal((2, 1, 3)).round(5)
        name = 'group%d_%d.xsf' % (p['colors'][c.rank], len(c.kept))
        head = bool(rng.integers(2))
        c.keep(name, None, root=True)
        c.E.misc.write_xsf(name, np.zeros(3), np.eye(3), ['C'],
            np.zeros((1, 3)), W.shape if head else W, only_header=head,
            comm=group)
        *_, got = c.E.misc.read_xsf(name, only_header=head, comm=group)
        c.env.equal(what, tuple(got) if head else got, W.shape if head else W,
            1e-4)

    def cube(self, c, p, group, rng, what):
        r0, a, X, tau, data = c.E.misc.read_cube('x.cube', comm=group)
        c.env.equal(what, data, np.arange(1.0, 7.0).reshape((2, 1, 3)))

    def config(self, rng, config, p):
        if rng.random() < 0.2:
            config['shared'] = False
        return config

    def execute(self, env, p):
        fs = SimFS(self.files(p))
        if p['private']:
            # groups read files with their first process only
            lead = {}
            ranks = range(env.config['n'])
            for r in reversed(ranks) if p['reverse'] else ranks:
                lead.setdefault(p['colors'][r], r)
            fs.visible = lambda rank, path: (rank in lead.values()
                or 'elph' in path)
        run = env.run(self, p, fs=fs)
        env.stable(run)


@register('P12', 'P13', 'P23')
class SharedHelpers(Case):
    """Data in shared memory used right after it has been handed over."""

    compare = False

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), ops=[[rng.choice(['grid',
            'array', 'array', 'load']), rng.random() < 0.8,
            rng.randrange(10 ** 6)] for _ in range(rng.choice([1, 2, 3]))])

    def files(self, p):
        return {'t%d.npy' % i: npy(np.asarray(table(p['seed'], i),
            order='CF'[i])) for i in range(2)}

    def run(self, c, p):
        M = c.E.MPI
        for i, (op, shared, seed) in enumerate(p['ops']):
            rng = c.rng(op, seed)
            if op == 'grid':
                shape = tuple(rng.integers(1, 4, 3))
                r0 = rng.standard_normal(3)
                a = rng.standard_normal((3, 3))
                x = c.E.misc.real_space_grid(shape, r0, a,
                    shared_memory=shared)
                f = [np.linspace(0, 1, n) for n in shape]
                want = r0 + np.einsum('nijk,nx->ijkx', np.array(np.meshgrid(
                    *f, indexing='ij')), a)
            elif op == 'array':
                shape = tuple(rng.integers(0, 4, 2))
                want = rng.standard_normal(shape)
                x = M.SharedArray(shape, shared_memory=shared)
                if M.comm.rank == 0:
                    x[...] = want
                x.Bcast()
            else:
                n = int(rng.integers(2))
                x = M.load('t%d.npy' % n, shared_memory=shared)
                want = table(p['seed'], n)
            c.env.equal('rank %d of %d: %s' % (c.rank, M.comm.size, op),
                np.array(x), want, 1e-9)
            c.keep('%s %d' % (op, i), np.asarray(x))


@register('P09', 'P12', 'P13')
class DenseDynamics(Case):
    """Repeated calculations with couplings stored in shared memory."""

    repeats = True
    tol = 2e-6

    def gen(self, rng):
        nq = rng.choice([[1], [1], [2], [3], [4], [3], [2, 2]])
        return dict(seed=rng.randrange(10 ** 6), d=len(nq), nel=1, nat=1,
            nq=nq, nk=[2 * x for x in nq] if nq == [1] else nq, kT=0.2, f='fd', n=1.0, unscreen=rng.random() < 0.3,
            shared=rng.random() < 0.9, elph_shared=rng.random() < 0.5,
            real=False, form='dense', verbosity=0, ops=[rng.choice(['full',
            'full', 'gamma', 'super', 'super', 'phonons'])
            for _ in range(rng.choice([1, 2, 3, 4]))])

    def config(self, rng, config, p):
        if rng.random() < 0.5:
            # several processes on other nodes, too
            config['n'] = n = rng.choice([4, 4, 5, 6])
            m = rng.choice([1, 2, 2])
            config['nodes'] = [int(r >= m) for r in range(n)]
            config['shared'] = True
        return config

    def run(self, c, p):
        driver = build_driver(c, p)
        for i, op in enumerate(p['ops']):
            name = '%d %s' % (i, op)
            if op == 'full':
                c.keep(name, driver.hessian(gamma_only=False))
            elif op == 'gamma':
                c.keep(name, driver.hessian())
            elif op == 'phonons':
                c.keep(name, model(driver.phonons()))
            else:
                *x, w = driver.superconductivity()
                c.keep(name, [*x, w * abs(w)], tol=1e-5)
