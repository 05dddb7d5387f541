"""Supercells, unit cells, reordered and shifted bases."""

import numpy as np

from .. import models
from ..run import Case, register


def canon(x):
    return models.canon_R(*x)


def draw_cell(rng, d, maximum=4, compact=False):
    """Supercell vectors, possibly skewed or left-handed."""
    while True:
        N = draw_vectors(rng, d, maximum)
        if not compact:
            return N
        # sums over reciprocal lattice vectors are truncated based on lengths
        # of reciprocal primitive vectors, accurate only if nearly orthogonal
        G = full_cell(N)
        G = G.dot(G.T)
        if all(2 * abs(G[i, j]) <= min(G[i, i], G[j, j]) for i in range(3)
                for j in range(i)):
            return N


def draw_vectors(rng, d, maximum):
    while True:
        kind = rng.choice(['diag', 'diag', 'skew', 'skew', 'swap'])
        if kind == 'diag':
            N = [rng.choice([1, 1, 2, 2, 3]) if x < d else 1
                for x in range(3)]
            if np.prod(N) <= maximum:
                return N
            continue
        N = np.eye(3, dtype=int)
        for x in range(d):
            for y in range(d):
                N[x, y] = rng.choice([-1, 0, 0, 1, 1, 2])
        if kind == 'swap':
            i, j = (0, 1) if d > 1 else (0, 0)
            N[[i, j]] = N[[j, i]]
        det = int(round(np.linalg.det(N)))
        if 1 <= abs(det) <= maximum:
            return N.tolist()


def full_cell(N):
    return np.array([x if hasattr(x, '__len__') else [x * (i == j)
        for j in range(3)] for i, x in enumerate(N)])


def folded(N, k):
    """All wave vectors of unit cell equivalent to k in supercell N."""
    N = full_cell(N)
    det = abs(int(round(np.linalg.det(N))))
    inv = np.linalg.inv(N)
    found = []
    reach = range(-det - 1, det + 2)
    for g in np.ndindex(len(reach), len(reach), len(reach)):
        f = inv.dot([reach[i] for i in g])
        f = (f + 1e-9) % 1.0 - 1e-9
        if not any(np.allclose(f, h) for h in found):
            found.append(f)
            if len(found) == det:
                break
    return [k + 2 * np.pi * f for f in found]


def near(k):
    """Equivalent wave vector close to origin."""
    return (np.asarray(k) + np.pi) % (2 * np.pi) - np.pi


class CellCase(Case):
    """Chain of operations on localized model."""

    def draw_ops(self, rng, names, d):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            op = rng.choice(names)
            ops.append([op, rng.randrange(10 ** 6), rng.random() < 0.5])
            if op == 'unit_cell':
                break
        return ops

    def points(self, c, d):
        k = np.zeros((2, 3))
        k[:, :d] = c.rng('k').random((2, d)) * 6
        return k


def spectrum(f, k):
    return np.array([np.linalg.eigvals(f(x)) for x in k])


def same_spectrum(env, what, a, b):
    """Compare eigenvalues in spite of round-off affecting their order."""
    a, b = np.sort_complex(np.round(np.ravel(a), 9)), np.sort_complex(
        np.round(np.ravel(b), 9))
    env.equal(what, np.array([a.sum(), (a ** 2).sum(), (a ** 3).sum()]),
        np.array([b.sum(), (b ** 2).sum(), (b ** 3).sum()]), 1e-6)
    env.equal(what, np.sort(a.real), np.sort(b.real), 1e-5)


def snapshot(m):
    out = {}
    for name in ('R', 'data', 'M', 'r', 'a', 'Z', 'Q', 'size', 'nat', 'lr',
            'eps', 'L', 'atom_order', 'z', 'q', 'D0_lr', 'cells', 'N'):
        x = getattr(m, name, None)
        if isinstance(x, np.ndarray):
            x = None if x.dtype == object else x.copy()
        elif x is not None:
            x = list(x) if hasattr(x, '__len__') else x
        out[name] = x
    return out


@register('P04', 'P13', 'P20', 'P21', 'P22')
class ElectronCells(CellCase):
    """Transformed tight-binding models."""

    def gen(self, rng):
        d = rng.choice([1, 2, 2, 2, 3])
        return dict(seed=rng.randrange(10 ** 6), d=d, size=rng.choice([1, 2,
            3]), N=draw_cell(rng, d), kind=rng.choice(['el', 'el', 'elel']),
            op=rng.choice(['supercell', 'supercell', 'unit', 'unit2', 'order',
            'shift', 'standardize', 'sparse', 'clear']),
            symmetrize=rng.random() < 0.5, eps=rng.choice([0.0, 0.05, 0.3]),
            S=[rng.choice([-1, 0, 1, 2]) if x < d else 0 for x in range(3)],
            verbosity=rng.choice([0, 0, 1]))

    def run(self, c, p):
        rng = c.rng('ops')
        if p['kind'] == 'el':
            m, t = models.el(c, size=p['size'], dims=p['d'],
                real=p['op'] == 'sparse')
            name = 'H'
        else:
            m, t = models.elel(c, size=p['size'], dims=p['d'])
            name = 'W'
        op = p['op']
        if p['kind'] == 'elel' and op not in ('supercell', 'standardize'):
            op = 'supercell'
        k = self.points(c, p['d'])
        f0 = getattr(m, name)
        H0 = np.array([f0(*x) for x in k])
        if c.rank == 0:
            c.env.probe = t, k, op
        if op in ('supercell', 'unit', 'unit2'):
            before = snapshot(m)
            M = m.supercell(*p['N'])
            c.keep('unchanged', before)
            c.keep('after', snapshot(m))
            c.keep('super', [M.R, M.data], canon=canon)
            c.keep('cells', M.cells)
            c.keep('size', M.size)
            c.keep('H', np.array([getattr(M, name)(*x) for x in k]))
            if op == 'unit2':
                M.standardize()
            if op.startswith('unit'):
                u = M.unit_cell()
                c.keep('unit', [u.R, u.data], canon=canon)
                c.keep('unit size', u.size)
                c.keep('h', np.array([u.H(*x) for x in k]))
        elif op == 'sparse':
            M = m.supercell(*p['N'], sparse=True)
            c.keep('Hs', M.Hs)
            D = m.supercell(*p['N'])
            c.keep('dense', D.H().real)
        elif op == 'order':
            order = [int(x) for x in rng.permutation(p['size'])]
            m.order_orbitals(*order)
            c.keep('order', order)
            c.keep('H', np.array([m.H(*x) for x in k]))
        elif op == 'shift':
            s = slice(0, 1 + int(rng.integers(p['size'])))
            m.shift_orbitals(s, tuple(p['S']))
            c.keep('s', list(range(p['size']))[s])
            c.keep('R', m.R)
            c.keep('H', np.array([m.H(*x) for x in k]))
        elif op == 'standardize':
            # repeated lattice vectors and vanishing matrices
            w = rng.random(len(m.R))[:, None, None]
            m.data = np.concatenate((m.data * w, m.data * (1 - w),
                0 * m.data[:1]))
            m.R = np.concatenate((m.R, m.R, [[7, 0, 0]]))
            order = rng.permutation(len(m.R))
            m.R, m.data = m.R[order], m.data[order]
            kw = {}
            if p['kind'] == 'el':
                kw['symmetrize'] = p['symmetrize']
            c.keep('raw', m.data, stable=False)
            c.keep('rawR', m.R, stable=False)
            if p['symmetrize'] and p['kind'] == 'el' and not p['eps']:
                m.symmetrize()
            else:
                m.standardize(eps=p['eps'], **kw)
            c.keep('R', m.R)
            c.keep('data', m.data)
        elif op == 'clear':
            m.clear()
            c.keep('R', m.R)
            c.keep('data', m.data)

    def check(self, env, p, run, ref):
        t, k, op = env.probe
        n = p['size']
        H0 = [models.fourier(t, x) for x in k]
        for r in range(run.n):
            who = 'rank %d of %d: ' % (r, run.n)
            if op in ('supercell', 'unit', 'unit2'):
                env.equal(who + 'original model', run.get('after', r),
                    run.get('unchanged', r), 0.0)
                N = full_cell(p['N'])
                cells = run.get('cells', r)
                env.equal(who + 'number of cells', len(cells), abs(int(round(
                    np.linalg.det(N)))))
                env.equal(who + 'size', run.get('size', r), n * len(cells))
                H = run.get('H', r)
                for i, x in enumerate(k):
                    want = np.concatenate([np.linalg.eigvals(models.fourier(t,
                        y)) for y in folded(p['N'], np.linalg.solve(N, x))])
                    same_spectrum(env, who + 'spectrum of supercell',
                        np.linalg.eigvals(H[i]), want)
                if op != 'supercell':
                    env.equal(who + 'Hamiltonian of recovered unit cell',
                        run.get('h', r), np.array(H0))
                    env.equal(who + 'size', run.get('unit size', r), n)
            elif op == 'sparse':
                env.equal(who + 'sparse Hamiltonian', run.get('Hs', r),
                    run.get('dense', r))
            elif op == 'order':
                o = run.get('order', r)
                env.equal(who + 'reordered Hamiltonian', run.get('H', r),
                    np.array(H0)[:, o][:, :, o])
            elif op == 'shift':
                s = run.get('s', r)
                for i, x in enumerate(k):
                    u = np.ones(n, dtype=complex)
                    u[s] = np.exp(-1j * np.dot(x, p['S']))
                    env.equal(who + 'shifted Hamiltonian', run.get('H', r)[i],
                        u.conj()[:, None] * H0[i] * u)
            elif op == 'standardize':
                data = run.get('raw', r).copy()
                data[abs(data) < p['eps'] * abs(data).max()] = 0.0
                want = {}
                for R, x in zip(run.get('rawR', r), data):
                    R = tuple(int(y) for y in R)
                    want[R] = want.get(R, 0) + x
                if p['kind'] == 'el' and p['symmetrize']:
                    want = {R: (want.get(R, 0 * x) + want.get(tuple(-y
                        for y in R), 0 * x).conj().T) / 2 for S, x in
                        want.items() for R in (S, tuple(-y for y in S))}
                got = run.get('R', r)
                env.true(sorted(map(tuple, got.tolist())) == got.tolist() or
                    sorted(got.tolist()) == got.tolist(), who + 'lattice '
                    'vectors unsorted')
                env.true(len(set(map(tuple, got.tolist()))) == len(got), who
                    + 'repeated lattice vectors')
                env.true(np.all(np.any(run.get('data', r) != 0, axis=(1, 2))),
                    who + 'vanishing matrices left')
                keys = sorted(want)
                a = models.canon_R(np.array(keys), np.array([want[R]
                    for R in keys]))
                b = models.canon_R(got, run.get('data', r))
                env.equal(who + 'standardized model', b, a)
            elif op == 'clear':
                env.equal(who + 'cleared', [run.get('R', r).shape, run.get(
                    'data', r).shape], [(0, 3), (0, n, n)])


@register('P04', 'P13', 'P20', 'P21', 'P22')
class PhononCells(CellCase):
    """Transformed mass-spring models."""

    def gen(self, rng):
        d = rng.choice([1, 2, 2, 2, 3])
        lr = d > 1 and rng.random() < 0.35
        return dict(seed=rng.randrange(10 ** 6), d=d, nat=rng.choice([1, 2]),
            N=draw_cell(rng, d, 3, lr), lr=lr, lr2d=lr and d == 2
            and rng.random() < 0.7, L=rng.choice([None, 3.0]),
            Q=rng.random() < 0.3, divide=rng.random() < 0.7,
            op=rng.choice(['supercell', 'supercell', 'unit', 'unit', 'unit2',
            'order', 'shift', 'standardize', 'sparse', 'sumrule', 'clear']),
            symmetrize=rng.random() < 0.5, eps=rng.choice([0.0, 0.05, 0.3]),
            S=[rng.choice([-1, 0, 1, 2]) if x < d else 0 for x in range(3)],
            verbosity=rng.choice([0, 0, 1]))

    def run(self, c, p):
        rng = c.rng('ops')
        kw = {}
        if p['lr']:
            kw = dict(lr=True, lr2d=p['lr2d'], Q=p['Q'], L=p['L']
                if p['lr2d'] else None)
        m, t = models.ph(c, nat=p['nat'], dims=p['d'],
            divide_mass=p['divide'], **kw)
        op = p['op']
        k = self.points(c, p['d'])
        if p['lr']:
            k = near(k)
        D0 = np.array([m.D(*x) for x in k])
        c.keep('D0', D0)
        if c.rank == 0:
            c.env.probe = t, k
        if op in ('supercell', 'unit', 'unit2'):
            before = snapshot(m)
            M = m.supercell(*p['N'])
            c.keep('unchanged', before)
            c.keep('after', snapshot(m))
            c.keep('super', [M.R, M.data], canon=canon)
            c.keep('geometry', [M.cells, M.size, M.nat, M.a, M.r, M.M,
                M.atom_order, M.Z])
            c.keep('D', np.array([M.D(*x) for x in k]))
            N = full_cell(p['N'])
            # long-range sums converge fastest close to origin
            fold = np.array([[m.D(*near(y)) for y in folded(p['N'],
                np.linalg.solve(N, x))] for x in k])
            c.keep('folded', fold)
            if op == 'unit2':
                M.standardize()
            if op.startswith('unit'):
                before = snapshot(M)
                u = M.unit_cell()
                c.keep('unchanged2', before)
                c.keep('after2', snapshot(M))
                c.keep('unit', [u.R, u.data], canon=canon)
                c.keep('unit geometry', [u.size, u.nat, u.a, u.r, u.M,
                    u.atom_order])
                c.keep('geometry0', [m.size, m.nat, m.a, m.r, m.M,
                    m.atom_order])
                c.keep('d', np.array([u.D(*x) for x in k]))
        elif op == 'sparse':
            M = m.supercell(*p['N'], sparse=True)
            c.keep('Ds', M.Ds)
            c.keep('dense', m.supercell(*p['N']).D().real)
        elif op == 'order':
            order = [int(x) for x in rng.permutation(p['nat'])]
            m.order_atoms(*order)
            c.keep('order', [3 * i + x for i in order for x in range(3)])
            c.keep('geometry', [m.r, m.M, m.atom_order, m.Z])
            c.keep('D', np.array([m.D(*x) for x in k]))
        elif op == 'shift':
            s = slice(0, 1 + int(rng.integers(p['nat'])))
            m.shift_atoms(s, tuple(p['S']))
            c.keep('s', list(range(p['nat']))[s])
            c.keep('R', m.R)
            c.keep('geometry', [m.r])
            c.keep('D', np.array([m.D(*x) for x in k]))
        elif op == 'standardize':
            w = rng.random(len(m.R))[:, None, None]
            m.data = np.concatenate((m.data * w, m.data * (1 - w),
                0 * m.data[:1]))
            m.R = np.concatenate((m.R, m.R, [[7, 0, 0]]))
            order = rng.permutation(len(m.R))
            m.R, m.data = m.R[order], m.data[order]
            c.keep('raw', m.data, stable=False)
            c.keep('rawR', m.R, stable=False)
            if p['symmetrize'] and not p['eps']:
                m.symmetrize()
            else:
                m.standardize(eps=p['eps'], symmetrize=p['symmetrize'])
            c.keep('R', m.R)
            c.keep('data', m.data)
        elif op == 'sumrule':
            c.E.ph.sum_rule_correction(m, asr=True, rsr=p['symmetrize'],
                report=bool(p['verbosity']))
            c.keep('D', np.array([m.D(*x) for x in k]))
            c.keep('data', m.data)
        elif op == 'clear':
            m.clear()
            c.keep('R', m.R)
            c.keep('data', m.data)

    def check(self, env, p, run, ref):
        t, k = env.probe
        op = p['op']
        n = 3 * p['nat']
        for r in range(run.n):
            who = 'rank %d of %d: ' % (r, run.n)
            D0 = run.get('D0', r)
            if not p['lr']:
                env.equal(who + 'dynamical matrix', D0, np.array([
                    models.fourier(t, x) for x in k]))
            if op in ('supercell', 'unit', 'unit2'):
                env.equal(who + 'original model', run.get('after', r),
                    run.get('unchanged', r), 0.0)
                N = full_cell(p['N'])
                cells, size, nat = run.get('geometry', r)[:3]
                env.equal(who + 'number of cells', len(cells), abs(int(round(
                    np.linalg.det(N)))))
                env.equal(who + 'size', size, n * len(cells))
                D = run.get('D', r)
                F = run.get('folded', r)
                for i, x in enumerate(k):
                    a = np.sort(np.linalg.eigvalsh(D[i]))
                    b = np.sort(np.linalg.eigvalsh(F[i]).ravel())
                    # cutoffs of long-range sums depend on cell
                    env.equal(who + 'spectrum of supercell', a, b, 2e-4
                        if p['lr'] else 1e-6)
                if op != 'supercell':
                    env.equal(who + 'supercell', run.get('after2', r),
                        run.get('unchanged2', r), 0.0)
                    env.equal(who + 'geometry of recovered unit cell',
                        run.get('unit geometry', r), run.get('geometry0', r))
                    env.equal(who + 'dynamical matrix of recovered unit cell',
                        run.get('d', r), D0)
            elif op == 'sparse':
                env.equal(who + 'sparse dynamical matrix', run.get('Ds', r),
                    run.get('dense', r))
            elif op == 'order':
                o = run.get('order', r)
                env.equal(who + 'reordered dynamical matrix', run.get('D', r),
                    D0[:, o][:, :, o])
            elif op == 'shift':
                s = run.get('s', r)
                if p['lr']:
                    continue
                for i, x in enumerate(k):
                    u = np.ones((p['nat'], 3), dtype=complex)
                    u[s] = np.exp(-1j * np.dot(x, p['S']))
                    u = u.ravel()
                    env.equal(who + 'shifted dynamical matrix', run.get('D',
                        r)[i], u.conj()[:, None] * D0[i] * u)
            elif op == 'standardize':
                data = run.get('raw', r).copy()
                data[abs(data) < p['eps'] * abs(data).max()] = 0.0
                want = {}
                for R, x in zip(run.get('rawR', r), data):
                    R = tuple(int(y) for y in R)
                    want[R] = want.get(R, 0) + x
                if p['symmetrize']:
                    want = {R: (want.get(R, 0 * x) + want.get(tuple(-y
                        for y in R), 0 * x).T) / 2 for S, x in
                        want.items() for R in (S, tuple(-y for y in S))}
                keys = sorted(want)
                a = models.canon_R(np.array(keys), np.array([want[R]
                    for R in keys]))
                b = models.canon_R(run.get('R', r), run.get('data', r))
                env.equal(who + 'standardized model', b, a)
