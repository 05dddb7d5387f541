"""Models interpolated from uniform meshes."""

import numpy as np

from .. import models
from ..run import Case, register

RY = 13.605693122994


def canon(x):
    return models.canon_R(*x)


def full_mesh(n):
    return [2 * np.pi * np.array(i) / n for i in np.ndindex(*n)]


def draw_mesh(rng):
    d = rng.choice([1, 2, 2, 2, 3])
    return [rng.choice([1, 2, 3, 3, 4] if d < 3 else [1, 2, 2, 3])
        for _ in range(d)]


def evaluate(f, mesh, shape):
    out = np.array([f(*k) for k in full_mesh(mesh)])
    return out.reshape(*mesh, *shape)


@register('P03', 'P12', 'P13', 'P20', 'P22')
class ElectronMesh(Case):
    """Hamiltonian on mesh to hopping."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), mesh=draw_mesh(rng),
            size=rng.choice([1, 2, 3]), fft=rng.random() < 0.8,
            ry_model=rng.random() < 0.3, ry_input=rng.random() < 0.3,
            symmetrize=rng.random() < 0.5, eps=rng.choice([0.0, 0.0, 1e-9]),
            same=rng.random() < 0.3, ndegen=rng.random() < 0.85,
            verbosity=rng.choice([0, 0, 1]))

    def large(self, rng, p):
        p['mesh'] = rng.choice([[7], [5, 6], [4, 4, 3]])

    def run(self, c, p):
        E = c.E
        rng = c.rng('mesh')
        mesh, size = p['mesh'], p['size']
        H = rng.standard_normal((*mesh, size, size)) \
            + 1j * rng.standard_normal((*mesh, size, size))
        H = H + H.conj().swapaxes(-1, -2)
        at = models.lattice(rng, len(mesh))
        r = np.zeros((size, 3)) if p['same'] else models.positions(rng, at,
            size)
        m = E.el.Model(rydberg=p['ry_model'])
        m.divide_ndegen = p['ndegen']
        if p['fft']:
            E.el.k2r(m, H.copy(), at, r, rydberg=p['ry_input'])
        else:
            axes = tuple(range(len(mesh)))
            t = np.fft.ifftn(H.conj(), axes=axes).conj()
            t = t.reshape(mesh + [1] * (3 - len(mesh)) + [size, size])
            E.el.k2r(m, t, at, r, fft=False, rydberg=p['ry_input'])
        c.keep('model', [m.R, m.data], canon=canon)
        c.keep('nk', m.nk)
        factor = (RY if p['ry_input'] else 1) / (RY if p['ry_model'] else 1)
        if c.rank == 0:
            c.env.probe = H * factor
        c.keep('H', evaluate(m.H, mesh, (size, size)))
        m.standardize(eps=p['eps'], symmetrize=p['symmetrize'])
        c.keep('R', m.R)
        c.keep('data', m.data)
        c.keep('H2', evaluate(m.H, mesh, (size, size)))

    def check(self, env, p, run, ref):
        if not p['ndegen']:
            return
        for r in range(run.n):
            for name in 'H', 'H2':
                env.equal('rank %d of %d: %s on original mesh' % (r, run.n,
                    name), run.get(name, r), env.probe, 1e-6)


@register('P03', 'P13', 'P20', 'P22')
class InteractionMesh(Case):
    """Interaction on mesh to lattice."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), mesh=draw_mesh(rng),
            size=rng.choice([1, 2, 3]), fft=rng.random() < 0.7)

    def run(self, c, p):
        rng = c.rng('mesh')
        mesh, size = p['mesh'], p['size']
        W = rng.standard_normal((*mesh, size, size)) \
            + 1j * rng.standard_normal((*mesh, size, size))
        at = models.lattice(rng, len(mesh))
        r = models.positions(rng, at, size)
        m = c.E.elel.Model()
        if p['fft']:
            c.E.elel.q2r(m, W.copy(), at, r)
        else:
            axes = tuple(range(len(mesh)))
            t = np.fft.ifftn(W.conj(), axes=axes).conj()
            t = t.reshape(mesh + [1] * (3 - len(mesh)) + [size, size])
            c.E.elel.q2r(m, t, at, r, fft=False)
        c.keep('model', [m.R, m.data], canon=canon)
        if c.rank == 0:
            c.env.probe = W
        c.keep('W', evaluate(m.W, mesh, (size, size)))
        m.standardize()
        c.keep('R', m.R)
        c.keep('data', m.data)
        c.keep('W2', evaluate(m.W, mesh, (size, size)))

    def check(self, env, p, run, ref):
        for r in range(run.n):
            for name in 'W', 'W2':
                env.equal('rank %d of %d: %s on original mesh' % (r, run.n,
                    name), run.get(name, r), env.probe, 1e-6)


@register('P03', 'P13', 'P16', 'P20', 'P22')
class PhononMesh(Case):
    """Dynamical matrix on mesh to force constants."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), mesh=draw_mesh(rng),
            nat=rng.choice([1, 1, 2]), divide_model=rng.random() < 0.7,
            divide_input=rng.random() < 0.7, lr=rng.random() < 0.3,
            lr2d=rng.random() < 0.5, L=rng.random() < 0.3, Q=rng.random() < 0.3,
            correct=rng.choice([None, None, None, 'asr_simple', 'asr', 'rsr',
            'both']), symmetrize=rng.random() < 0.4,
            verbosity=rng.choice([0, 0, 1]), nq=rng.choice([None, 'tuple']),
            flfrc=rng.random() < 0.4)

    def run(self, c, p):
        E = c.E
        mesh, nat = p['mesh'], p['nat']
        m, D = models.ph(c, nat=nat, dims=len(mesh), reach=1,
            divide_mass=p['divide_model'], nq=mesh + [1] * (3 - len(mesh)))
        s = np.repeat(np.sqrt(m.M), 3)
        s = s[:, None] * s[None, :]
        full = np.array([models.fourier(D, k) for k in full_mesh(mesh)])
        want = full.reshape(*mesh, 3 * nat, 3 * nat)
        D_in = want.copy()
        if p['divide_input'] and not p['divide_model']:
            D_in /= s
        if p['divide_model'] and not p['divide_input']:
            D_in *= s
        kw = {}
        if p['correct'] == 'asr_simple':
            kw['apply_asr_simple'] = True
        elif p['correct'] is not None:
            kw['apply_asr'] = p['correct'] in ('asr', 'both')
            kw['apply_rsr'] = p['correct'] in ('rsr', 'both')
        if p['nq']:
            kw['nq'] = tuple(mesh)
        if p['flfrc']:
            kw['flfrc'] = 'ifc'
        m.R = m.data = None
        E.ph.q2r(m, D_full=D_in, divide_mass=p['divide_input'], **kw)
        c.keep('model', [m.R, m.data], canon=canon)
        c.keep('nq', m.nq)
        c.keep('l', [m.R, m.l], canon=canon)
        if c.rank == 0:
            c.env.probe = want
        c.keep('D', evaluate(m.D, mesh, (3 * nat, 3 * nat)))
        if p['flfrc']:
            c.fs.visible = lambda rank, path: rank == 0
            read = E.ph.Model('ifc', divide_mass=p['divide_model'])
            c.keep('file', [read.R, read.data], canon=canon)
            c.keep('mesh of file', read.nq)
            c.keep('geometry of file', [read.M, read.a, read.r,
                read.atom_order])
            c.keep('D3', evaluate(read.D, mesh, (3 * nat, 3 * nat)))
        m.standardize(symmetrize=p['symmetrize'])
        c.keep('R', m.R)
        c.keep('data', m.data)
        c.keep('D2', evaluate(m.D, mesh, (3 * nat, 3 * nat)))

    def check(self, env, p, run, ref):
        for r in range(run.n if p['flfrc'] else 0):
            env.equal('rank %d of %d: file on original mesh' % (r, run.n),
                run.get('D3', r), env.probe, 1e-6)
        if p['correct'] in ('rsr', 'both'):
            return
        for r in range(run.n):
            for name in 'D', 'D2':
                env.equal('rank %d of %d: %s on original mesh' % (r, run.n,
                    name), run.get(name, r), env.probe, 1e-6)


@register('P03', 'P13', 'P20', 'P21', 'P22')
class PhononLongRange(Case):
    """Short-range part updated after change of long-range part."""

    def gen(self, rng):
        d = rng.choice([2, 2, 3])
        return dict(seed=rng.randrange(10 ** 6), mesh=[rng.choice([1, 2, 3])
            for _ in range(d)], nat=rng.choice([1, 2]),
            divide=rng.random() < 0.7, lr2d=d == 2 and rng.random() < 0.7,
            L=rng.choice([None, 3.0]), Q=rng.random() < 0.4,
            perp=rng.random() < 0.6, change=rng.choice(['Z', 'Q', 'L', 'eps',
            None]), twice=rng.random() < 0.4)

    def run(self, c, p):
        mesh, nat = p['mesh'], p['nat']
        if p['L'] and not p['lr2d']:
            p = dict(p, L=None)
        m, D = models.ph(c, nat=nat, dims=len(mesh), divide_mass=p['divide'],
            lr=True, lr2d=p['lr2d'], L=p['L'], Q=p['Q'], nq=mesh + [1] * (3
            - len(mesh)))
        m.perp = p['perp']
        m.sample_orig()
        c.keep('D0', m.D0)
        c.keep('q0', m.q0)
        if p['twice']:
            # previous values must not matter
            keep = m.Z, m.Q, m.eps
            D0 = np.array(m.D0)
            m.Z = 0.8 * m.Z
            m.update_short_range()
            cost = m.sum_force_constants()
            data = np.array(m.data)
            m.update_short_range()
            c.env.equal('rank %d: force constants updated again' % c.rank,
                np.array(m.data), data)
            c.keep('cost', [cost, m.sum_force_constants()])
            c.env.equal('rank %d: original dynamical matrices' % c.rank,
                np.array(m.D0), D0, 0.0)
            m.Z, m.Q, m.eps = keep
        if p['change'] == 'Z':
            m.Z = 1.3 * m.Z
        elif p['change'] == 'Q' and m.Q is not None:
            m.Q = 0.7 * m.Q
        elif p['change'] == 'L' and m.L is not None:
            m.L = 4.0
        elif p['change'] == 'eps':
            m.eps = m.eps * 1.1
        m.update_short_range()
        c.keep('model', [m.R, m.data], canon=canon)
        c.keep('D', np.array([m.D(*q) for q in m.q0]))
        c.keep('lr', np.array([m.D_lr(*q) for q in m.q0]))
        q = c.rng('q').random((3, 3))
        c.keep('Dq', np.array([m.D(*x) for x in q]))
        m.standardize()
        c.keep('D2', np.array([m.D(*q) for q in m.q0]))

    def check(self, env, p, run, ref):
        # only the part with real force constants can be represented
        lr = run.get('lr')
        S = run.get('D0') - lr
        S = S.reshape(*p['mesh'], *S.shape[1:])
        T = S.copy()
        for i in np.ndindex(*p['mesh']):
            T[i] = (S[i] + S[tuple(-np.array(i))].conj()) / 2
        want = lr + T.reshape(lr.shape)
        for r in range(run.n):
            for name in 'D', 'D2':
                env.equal('rank %d of %d: %s on original mesh' % (r, run.n,
                    name), run.get(name, r), want, 1e-6)


@register('P03', 'P13', 'P20', 'P22')
class PhononWedge(Case):
    """Dynamical matrix in irreducible wedge to force constants."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), nq=rng.choice([1, 2, 3, 4, 5,
            6]), divide=rng.random() < 0.5)

    def run(self, c, p):
        E = c.E
        rng = c.rng('wedge')
        a = 5.0 + rng.random()
        at = np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0],
            [0, 0, 15.0]])
        D = {(0, 0, 0): np.zeros((3, 3))}
        for shell in models.SHELLS[60]:
            x = 0.1 * (0.5 + rng.random(3))
            for i, j in shell + [(-i, -j) for i, j in shell]:
                R = np.dot([i, j, 0], at)
                R /= np.linalg.norm(R)
                m = x[0] * np.outer(R, R) + x[1] * np.eye(3)
                m[2, 2] += x[2]
                D[i, j, 0] = -m
                D[0, 0, 0] = D[0, 0, 0] + m
        m = E.ph.Model(amass=[30.0 * models.URY], at=at, tau=np.zeros((1, 3)),
            atom_order=['A'], lr=False, divide_mass=p['divide'])
        if p['divide']:
            D = {R: x / m.M[0] for R, x in D.items()}
        nq = p['nq']
        q = sorted(E.bravais.irreducibles(nq))
        q = [(2 * np.pi * x / nq, 2 * np.pi * y / nq) for x, y in q]
        D_irr = np.array([models.fourier(D, x) for x in q])
        E.ph.q2r(m, D_irr, q, nq, divide_mass=p['divide'])
        c.keep('model', [m.R, m.data], canon=canon)
        if c.rank == 0:
            c.env.probe = np.array([models.fourier(D, x) for x in full_mesh(
                [nq, nq])]).reshape(nq, nq, 3, 3)
        c.keep('D', evaluate(m.D, [nq, nq], (3, 3)))
        m.standardize()
        c.keep('D2', evaluate(m.D, [nq, nq], (3, 3)))

    def check(self, env, p, run, ref):
        for r in range(run.n):
            for name in 'D', 'D2':
                env.equal('rank %d of %d: %s on original mesh' % (r, run.n,
                    name), run.get(name, r), env.probe, 1e-6)
