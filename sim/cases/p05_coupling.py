"""Electron-phonon coupling at points, on meshes, in bases and supercells."""

import numpy as np

from .. import models
from ..run import Case, register
from .p04_cells import draw_cell, full_cell


def brute(m, q, k):
    """Coupling from present content of model, without its methods."""
    q = np.array(list(q) + [0] * (3 - len(q)))
    k = np.array(list(k) + [0] * (3 - len(k)))
    data = np.array(m.data)
    g = np.einsum('gxkab,g,k->xab', data, np.exp(1j * np.dot(m.Rg, q)),
        np.exp(1j * np.dot(m.Rk, k)))
    if m.ph.lr:
        for a in range(g.shape[1]):
            g[:, a, a] += m.g_lr(*q)
    return g


def gen_model(rng, **over):
    d = rng.choice([1, 2, 2, 2, 3])
    p = dict(seed=rng.randrange(10 ** 6), d=d, nel=rng.choice([1, 2, 2, 3]),
        nat=rng.choice([1, 1, 2]), density=rng.choice([0.05, 0.3, 0.7])
        if d < 3 else 0.02, shared=rng.random() < 0.5,
        lr=d > 1 and rng.random() < 0.3, divide=rng.random() < 0.7,
        degenerate=rng.random() < 0.4, verbosity=rng.choice([0, 0, 1]))
    p['lr2d'] = p['lr'] and d == 2 and rng.random() < 0.7
    p['L'] = 3.0 if p['lr2d'] and rng.random() < 0.5 else None
    p['Q'] = p['lr'] and rng.random() < 0.3
    p.update(over)
    return p


def build(c, p, **kw):
    if p['lr']:
        kw.update(lr=True, lr2d=p['lr2d'], L=p['L'], Q=p['Q'])
    return models.elph(c, nel=p['nel'], nat=p['nat'], dims=p['d'],
        shared_memory=p['shared'], density=p['density'],
        divide_mass=p['divide'], degenerate=p['degenerate'], **kw)


@register('P05', 'P12', 'P13', 'P15', 'P20', 'P23', 'P24', 'P22')
class CouplingPoints(Case):
    """Coupling for single wave vectors."""

    def gen(self, rng):
        p = gen_model(rng)
        p.update(calls=[dict(elbnd=rng.random() < 0.3, phbnd=rng.random()
            < 0.3, broadcast=rng.random() < 0.7, q=rng.randrange(3),
            k=rng.randrange(3)) for _ in range(rng.choice([1, 2, 4]))])
        return p

    def run(self, c, p):
        m, g = build(c, p)
        q = models.kpoints(c.rng('q'), 3, p['d'])
        k = models.kpoints(c.rng('k'), 3, p['d'])
        c.keep('data', m.data)
        if c.rank == 0:
            c.env.probe = g, q, k
        for i, o in enumerate(p['calls']):
            args = [0.0] * 6
            args[:p['d']] = q[o['q']]
            args[3:3 + p['d']] = k[o['k']]
            x = m.g(*args, elbnd=o['elbnd'], phbnd=o['phbnd'],
                broadcast=o['broadcast'])
            if o['broadcast']:
                c.keep('g%d' % i, abs(x) if o['elbnd'] or o['phbnd'] else x)
            else:
                c.keep('g%d' % i, x if x is None or not (o['elbnd']
                    or o['phbnd']) else abs(x), root=True)
        R = c.rng('R').integers(-2, 3, 6)
        c.keep('gR', m.gR(*R))
        c.keep('d', m.decay_epmate() + m.decay_epmatp())

    def check(self, env, p, run, ref):
        g, q, k = env.probe
        for i, o in enumerate(p['calls']):
            for r in range(run.n):
                if not o['broadcast'] and r:
                    env.true(run.get('g%d' % i, r) is None,
                        'rank %d: coupling not wanted there' % r)
                elif not (o['elbnd'] or o['phbnd'] or p['lr']):
                    env.equal('rank %d of %d: coupling' % (r, run.n),
                        run.get('g%d' % i, r), models.coupling_fourier(g,
                        q[o['q']], k[o['k']]))


@register('P21', 'P05', 'P14', 'P13', 'P22')
class CouplingHistory(Case):
    """Arbitrary sequence of evaluations and changes of model."""

    def gen(self, rng):
        p = gen_model(rng)
        p['density'] = min(p['density'], 0.3)
        ops = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            ops.append([rng.choice(['eval', 'eval', 'eval', 'self', 'groups',
                'groups', 'sample', 'standardize', 'symmetrize', 'asr', 'asr',
                'supercell', 'q2r', 'eval']),
                rng.randrange(10 ** 6)])
        ops.append(['eval', 5])
        if rng.random() < 0.5:
            # reuse data of only wave vector before and after change of model
            ops = [[rng.choice(['eval', 'eval', 'self', 'groups', 'sample']),
                rng.randrange(10 ** 6)], [rng.choice(['standardize',
                'symmetrize', 'symmetrize', 'asr', 'q2r']),
                rng.randrange(10 ** 6)]] * rng.choice([1, 2])
            ops.append([rng.choice(['eval', 'self', 'self', 'groups']),
                rng.randrange(10 ** 6)])
            p['nq'] = 1
        p['ops'] = ops
        p['near'] = rng.choice([0, 0, 0, 1e-3, 1e-5, 1e-6])
        return p

    def run(self, c, p):
        MPI = c.E.MPI
        m, g = build(c, p)
        d = p['d']
        qs = models.kpoints(c.rng('q'), 2, d)[:p.get('nq', 2)]
        ks = models.kpoints(c.rng('k'), 2, d)
        if p['near']:
            # almost the same point is another point
            qs[1:] = qs[0] + p['near']

        def evaluate(i, what, rng, comm, **kw):
            # few different points such that cached data are encountered
            q = qs[rng.integers(len(qs))]
            k = ks[rng.integers(2)]
            args = [0.0] * 6
            args[:d] = q
            args[3:3 + d] = k
            got = m.g(*args, comm=comm, **kw)
            c.keep('%s %d' % (what, i), got, root=what != 'eval')
            want = brute(m, q, k)
            c.keep('want %s %d' % (what, i), want, root=what != 'eval')

        for i, (op, seed) in enumerate(p['ops']):
            rng = c.rng(i, op, seed)
            if op in ('standardize', 'symmetrize', 'asr', 'q2r'):
                # nobody may still be using data to be changed
                MPI.comm.Barrier()
            if op == 'eval':
                evaluate(i, 'eval', rng, MPI.comm)
            elif op == 'self':
                mine = c.rng(i, seed, c.rank)
                for j in range(int(mine.integers(1 if 'nq' in p else 0, 3))):
                    evaluate(10 * i + j, 'self', mine, MPI.I)
            elif op == 'groups':
                color = rng.integers(3, size=16)[c.rank]
                group = MPI.comm.Split(int(color), key=c.rank)
                mine = c.rng(i, seed, color)
                for j in range(int(mine.integers(1 if 'nq' in p else 0, 3))):
                    evaluate(10 * i + j, 'groups', mine, group)
            elif op == 'sample':
                m.sample(qs, (2,) * d)
            elif op == 'standardize':
                m.standardize(eps=0.01 * rng.random())
            elif op == 'symmetrize':
                m.symmetrize()
            elif op == 'asr':
                m.asr(report=bool(rng.integers(2)))
            elif op == 'supercell':
                before = np.array(m.data)
                m.supercell(*[2] + [1] * (d - 1))
                c.env.equal('rank %d: model after mapping to supercell'
                    % c.rank, np.array(m.data), before, 0.0)
            elif op == 'q2r':
                # same lattice vectors may be reused by new model
                nq = (2,) * d
                x = rng.standard_normal((2 ** d, m.ph.size, *nq, m.el.size,
                    m.el.size)) + 0j
                r = models.positions(rng, m.ph.a, m.el.size)
                c.E.elph.q2r(m, nq, nq, x, r, shared_memory=p['shared'])
            if op in ('standardize', 'symmetrize', 'asr', 'q2r'):
                c.keep('model %d' % i, [m.Rg, m.Rk, m.data], stable=False,
                    canon=lambda x: models.canon_g(*x))

    def check(self, env, p, run, ref):
        for r in range(run.n):
            kept = run.contexts[r].kept
            for name in kept:
                if name.startswith('want '):
                    env.equal('rank %d of %d: coupling %s' % (r, run.n,
                        name[5:]), kept[name[5:]].value, kept[name].value)

@register('P05', 'P02', 'P12', 'P13', 'P20', 'P21', 'P22', 'P23', 'P24',
    weight=2)
class CouplingSample(Case):
    """Coupling sampled on meshes and transformed between bases."""

    def gen(self, rng):
        p = gen_model(rng)
        p['density'] = min(p['density'], 0.3)
        p.update(nq=rng.choice([1, 2, 3, 3, 4, 6]), nk=[rng.choice([1, 2, 3])
            for _ in range(p['d'])], U=rng.choice([None, None, 1, 2]),
            u=rng.choice([None, None, 1, 2, 3]), squared=rng.random() < 0.4,
            broadcast=rng.random() < 0.7, share=rng.random() < 0.6,
            what=rng.choice(['sample', 'sample', 'sample', 'transform']),
            wait=rng.random() < 0.3)
        if p['what'] == 'transform':
            p['d'] = 2
            p['nk'] = [p['nk'][0]] * 2
            p['lr'] = False
        return p

    def run(self, c, p):
        m, g = build(c, p)
        d = p['d']
        nk = np.array(p['nk'])
        rng = c.rng('q')
        iq = np.array([rng.integers(nk) for _ in range(p['nq'])])
        q = iq * 2 * np.pi / nk
        q = [tuple(x) for x in q]
        U = u = None
        if p['U'] is not None:
            U = c.rng('U').standard_normal((*nk, p['nel'], p['U'])) + 1j \
                * c.rng('U2').standard_normal((*nk, p['nel'], p['U']))
        if p['u'] is not None:
            u = c.rng('u').standard_normal((len(q), 3 * p['nat'], p['u'])) \
                + 1j * c.rng('u2').standard_normal((len(q), 3 * p['nat'],
                p['u']))
        if c.rank == 0:
            c.env.probe = g, q, iq, U, u
        kw = dict(U=U, u=u, squared=p['squared'], broadcast=p['broadcast'],
            shared_memory=p['share'])
        if p['what'] == 'sample':
            nkarg = tuple(p['nk'])
            if U is not None and p['seed'] % 2:
                nkarg = None
            elif len(set(p['nk'])) == 1 and p['seed'] % 3:
                nkarg = p['nk'][0]
            out = m.sample(q, nkarg, **kw)
        else:
            x = np.array([[[models.coupling_fourier(g, y, (2 * np.pi * i
                / nk[0], 2 * np.pi * j / nk[1])) for j in range(nk[1])]
                for i in range(nk[0])] for y in q])
            x = np.ascontiguousarray(np.moveaxis(x, 3, 1))
            out = c.E.elph.transform(x, q, int(nk[0]), **kw)
        c.keep('g', out, root=not p['broadcast'], stable=p['broadcast']
            or c.rank == 0)

    def check(self, env, p, run, ref):
        g, q, iq, U, u = env.probe
        if not p['broadcast']:
            for r in range(1, run.n):
                x = run.get('g', r)
                env.true(x is None or np.size(x) == 0,
                    'rank %d: placeholder has shape %s' % (r, np.shape(x)))
        if p['lr']:
            return
        nk = p['nk']
        want = []
        for n, x in enumerate(q):
            w = []
            for i in np.ndindex(*nk):
                y = models.coupling_fourier(g, x, 2 * np.pi * np.array(i)
                    / nk)
                if U is not None:
                    kq = tuple((np.array(i) + iq[n]) % nk)
                    y = np.array([U[kq].conj().T.dot(z).dot(U[i]) for z in y])
                if u is not None:
                    y = np.tensordot(u[n].T, y, 1)
                w.append(abs(y) ** 2 if p['squared'] else y)
            w = np.moveaxis(np.array(w), 0, 1)
            want.append(w.reshape((w.shape[0], *nk, *w.shape[2:])))
        want = np.array(want)
        for r in range(run.n if p['broadcast'] else 1):
            env.equal('rank %d of %d: sampled coupling' % (r, run.n),
                run.get('g', r), want)


@register('P03', 'P05', 'P12', 'P13', 'P20', 'P23', 'P22')
class CouplingMesh(Case):
    """Interpolation of coupling given on meshes."""

    def gen(self, rng):
        p = gen_model(rng)
        p['density'] = 0.02
        p.update(nq=[rng.choice([1, 2, 2, 3]) for _ in range(p['d'])],
            share=rng.random() < 0.5, mass=rng.random() < 0.5,
            then=rng.choice(['none', 'none', 'standardize', 'symmetrize',
            'short', 'short', 'charges']), g0=rng.random() < 0.5)
        if p['then'] in ('short', 'charges') and rng.random() < 0.5:
            # long-range part subtracted on one process
            p.update(d=2, lr=True, lr2d=rng.random() < 0.7, share=True)
            p.update(L=3.0 if p['lr2d'] and p['L'] else None, nq=[2, 2],
                then='charges')
        p['nk'] = [x * rng.choice([1, 1, 2]) for x in p['nq']]
        if p['d'] == 3:
            p['nk'] = p['nq']
            p['nat'] = 1
            p['nel'] = min(2, p['nel'])
        return p

    def run(self, c, p):
        m, g = build(c, p)
        d = p['d']
        nq, nk = p['nq'], p['nk']
        rng = c.rng('mesh')
        size = m.ph.size
        # coupling on meshes fulfilling symmetry is not required
        x = rng.standard_normal((*nq, size, *nk, p['nel'], p['nel'])) + 1j \
            * rng.standard_normal((*nq, size, *nk, p['nel'], p['nel']))
        r = models.positions(rng, m.ph.a, p['nel'])
        m.ph.nq = tuple(nq) + (1,) * (3 - d)
        m.el.nk = tuple(nk) + (1,) * (3 - d)
        y = x.reshape((int(np.prod(nq)), size, *nk, p['nel'], p['nel']))
        c.E.elph.q2r(m, nq, nk, y if p['seed'] % 2 else x, r,
            divide_mass=p['mass'], shared_memory=p['share'])
        c.keep('x', x)
        c.keep('model', [m.Rg, m.Rk, m.data], stable=False,
            canon=lambda x: models.canon_g(*x))

        def mesh():
            out = []
            for i in np.ndindex(*nq):
                for j in np.ndindex(*nk):
                    q = np.zeros(3)
                    k = np.zeros(3)
                    q[:d] = 2 * np.pi * np.array(i) / nq
                    k[:d] = 2 * np.pi * np.array(j) / nk
                    out.append(m.g(*q, *k))
            out = np.array(out).reshape((*nq, *nk, size, p['nel'], p['nel']))
            return np.moveaxis(out, 2 * d, d)

        def long_range():
            out = []
            for i in np.ndindex(*nq):
                q = np.zeros(3)
                q[:d] = 2 * np.pi * np.array(i) / nq
                out.append(m.g_lr(*q))
            return np.array(out).reshape((*nq, size))

        c.keep('g', mesh())
        c.keep('lr', long_range() if m.ph.lr else None)
        if m.ph.lr:
            c.keep('M', m.ph.M)
        if p['then'] in ('standardize', 'symmetrize'):
            getattr(m, p['then'])()
            c.keep('after', mesh())
        elif p['then'] in ('short', 'charges'):
            m.ph.sample_orig()
            m.sample_orig(shared_memory=p['share'])
            g0 = mesh()
            c.keep('g0', m.g0)
            if m.ph.lr and p['then'] == 'charges':
                m.ph.Z = m.ph.Z * 1.3
                m.ph.update_short_range()
            m.g()
            m.update_short_range(shared_memory=p['share'])
            c.keep('point', [m.g(), brute(m, (0,), (0,))])
            c.keep('short', [m.Rg, m.Rk, m.data], canon=lambda x:
                models.canon_g(*x))
            c.keep('same', g0)
            c.keep('after', mesh())
        c.keep('M', m.ph.M) if not m.ph.lr else None
        c.keep('divide', [m.divide_mass, p['mass']])

    def check(self, env, p, run, ref):
        for r in range(run.n):
            who = 'rank %d of %d: ' % (r, run.n)
            x = run.get('x', r)
            M = np.sqrt(np.repeat(run.get('M', r), 3))
            d = p['d']
            model, mesh = run.get('divide', r)
            if mesh and not model:
                f = M
            elif model and not mesh:
                f = 1 / M
            else:
                f = np.ones_like(M)
            want = x * f[(slice(None),) + (None,) * (d + 2)]
            if run.get('lr', r) is not None:
                lr = run.get('lr', r)
                for a in range(p['nel']):
                    want[..., a, a] += lr[(...,) + (None,) * d]
            env.equal(who + 'coupling on original meshes', run.get('g', r),
                want)
            if p['then'] == 'standardize':
                env.equal(who + 'coupling after standardization',
                    run.get('after', r), want)
            elif p['then'] in ('short', 'charges'):
                env.equal(who + 'coupling right after update',
                    *run.get('point', r))
                env.equal(who + 'coupling after updating short-range part',
                    run.get('after', r), run.get('same', r))


@register('P06', 'P12', 'P13', 'P20', 'P23', 'P22', weight=2)
class CouplingSupercell(Case):
    """Coupling mapped to supercell in dense, shared and sparse form."""

    def gen(self, rng):
        p = gen_model(rng)
        p['nel'] = min(p['nel'], 2)
        p['density'] = rng.choice([0.03, 0.1, 0.3]) if p['d'] < 3 else 0.01
        p.update(N=draw_cell(rng, p['d'], 3), form=rng.choice(['dense',
            'shared', 'shared', 'sparse']), again=rng.random() < 0.15,
            standard=rng.choice([None, None, 'standardize', 'symmetrize']))
        p['real'] = p['form'] == 'sparse'
        return p

    def run(self, c, p):
        m, g = build(c, p, real=p['real'])
        if p['standard']:
            getattr(m, p['standard'])()
        # content of model to be mapped
        c.keep('model', [m.Rg, m.Rk, np.array(m.data)], canon=lambda x:
            models.canon_g(*x), stable=False)
        c.keep('raw', [m.Rg, m.Rk, np.array(m.data)], root=True)
        shared = p['form'] == 'shared'
        if p['form'] == 'sparse':
            M = m.supercell(*p['N'], sparse=True)
            dense = m.supercell(*p['N'])
            c.keep('gs', [x.toarray() for x in M.gs], stable=False)
            c.keep('g', dense.g().real)
        else:
            M = m.supercell(*p['N'], shared_memory=shared)
            first = [M.Rg, M.Rk, np.array(M.data)]
            c.keep('super', [M.Rg, M.Rk, M.data], canon=lambda x:
                models.canon_g(*x))
            c.keep('cells', M.cells)
            q = models.kpoints(c.rng('q'), 1, 3)[0]
            k = models.kpoints(c.rng('k'), 1, 3)[0]
            c.keep('g', M.g(*q, *k))
            if p['again']:
                X = M.supercell(*[2] + [1] * (p['d'] - 1),
                    shared_memory=shared)
                c.keep('again', [X.Rg, X.Rk, X.data], canon=lambda x:
                    models.canon_g(*x))
        c.keep('after', [m.Rg, m.Rk, np.array(m.data)], root=True)

    def check(self, env, p, run, ref):
        env.equal('original model', run.get('after'), run.get('raw'), 0.0)
        for r in range(run.n):
            who = 'rank %d of %d: ' % (r, run.n)
            if p['form'] == 'sparse':
                env.equal(who + 'sparse coupling', np.array(run.get('gs', r)),
                    run.get('g', r))
                continue
            R, data = run.get('model', r)
            cells = run.get('cells', r)
            N = full_cell(p['N'])
            inv = np.linalg.inv(N)

            def locate(R):
                for i, x in enumerate(cells):
                    n = (np.array(R) - x).dot(inv)
                    if np.allclose(n, np.round(n)):
                        return tuple(int(round(y)) for y in n), i

            nph, nel = 3 * p['nat'], p['nel']
            want = {}
            for x, m in zip(R, data):
                for i in range(len(cells)):
                    G, X = locate(x[:3] + cells[i])
                    K, B = locate(x[3:] + cells[i])
                    if G + K not in want:
                        want[G + K] = np.zeros((nph * len(cells), nel
                            * len(cells), nel * len(cells)), dtype=complex)
                    want[G + K][X * nph:(X + 1) * nph, i * nel:(i + 1) * nel,
                        B * nel:(B + 1) * nel] += m
            keys = sorted(want)
            env.equal(who + 'supercell', run.get('super', r), [np.array(keys),
                np.array([want[x] for x in keys])])


@register('P05', 'P03', 'P12', 'P13', 'P20', 'P21', 'P22')
class CouplingStandard(Case):
    """Standardized and corrected coupling."""

    def gen(self, rng):
        p = gen_model(rng)
        p['density'] = rng.choice([0.05, 0.3]) if p['d'] < 3 else 0.02
        p.update(op=rng.choice(['standardize', 'symmetrize', 'asr', 'clear']),
            eps=rng.choice([0.0, 0.05, 0.4]), twice=rng.random() < 0.3,
            sym=rng.random() < 0.5, symmetric=rng.random() < 0.5)
        return p

    def run(self, c, p):
        m, g = build(c, p, symmetric=p['symmetric'])
        c.keep('before', [m.Rg, m.Rk, np.array(m.data)], stable=False)
        c.E.MPI.comm.Barrier()
        for i in range(1 + p['twice']):
            if p['op'] == 'standardize':
                m.standardize(eps=p['eps'], symmetrize=p['sym'])
            elif p['op'] == 'symmetrize':
                m.symmetrize()
            elif p['op'] == 'asr':
                m.asr(report=False)
            else:
                m.clear()
                break
        c.keep('after', [m.Rg, m.Rk, m.data])
        if p['op'] != 'clear':
            q = models.kpoints(c.rng('q'), 1, 3)[0]
            k = models.kpoints(c.rng('k'), 1, 3)[0]
            c.keep('g', m.g(*q, *k))

    def check(self, env, p, run, ref):
        if p['twice'] or p['op'] == 'clear':
            return
        for r in range(run.n):
            who = 'rank %d of %d: ' % (r, run.n)
            Rg, Rk, data = run.get('before', r)
            got = run.get('after', r)
            if p['op'] == 'asr':
                total = got[2].reshape((len(Rg) * p['nat'], -1)).sum(axis=0)
                env.equal(who + 'shape', got[2].shape, data.shape)
                env.true(abs(total).max() <= 1e-9 * abs(data).max(),
                    who + 'acoustic sum is %g' % abs(total).max())
                continue
            data = data.copy()
            if p['op'] == 'standardize' and p['eps']:
                data[abs(data) < p['eps'] * abs(data).max()] = 0
            want = {}
            sym = p['op'] == 'symmetrize' or p['sym']
            for i, a in enumerate(Rg):
                for j, b in enumerate(Rk):
                    x = data[i, :, j]
                    R = tuple(map(int, a)) + tuple(map(int, b))
                    S = tuple(map(int, a - b)) + tuple(map(int, -b))
                    if sym:
                        want[R] = want.get(R, 0) + x / 2
                        want[S] = want.get(S, 0) + x.swapaxes(1, 2).conj() / 2
                    else:
                        want[R] = want.get(R, 0) + x
            keys = sorted(x for x in want if np.any(abs(want[x]) > 1e-14))
            env.equal(who + 'standardized coupling', models.canon_g(*got), [
                np.array(keys).reshape((-1, 6)), np.array([want[x]
                for x in keys])])
