"""Coulomb interaction."""

import numpy as np

from .. import models
from ..run import Case, register


@register('P11', 'P13', 'P23', 'P24', 'P12', 'P22', weight=2)
class BandCoulomb(Case):
    """Interaction within single band."""

    nmax = 6

    def gen(self, rng):
        no = rng.choice([1, 2])
        nq = rng.choice([1, 2, 2])
        return dict(seed=rng.randrange(10 ** 6), no=no, nq=nq,
            nqC=nq * rng.choice([1, 1, 2]), nk=nq * rng.choice([1, 1, 2])
            if nq < 2 else nq, band=rng.randrange(no), dd=rng.random() < 0.4,
            share=rng.random() < 0.5, status=rng.random() < 0.3,
            bad=rng.random() < 0.08)

    def large(self, rng, p):
        p.update(nq=3, nqC=3, nk=3)

    def run(self, c, p):
        no, nqC = p['no'], p['nqC']
        m, t = models.el(c, size=no)
        rng = c.rng('U')
        s = nqC, nqC, no, no, no, no
        U = rng.standard_normal(s) + 1j * rng.standard_normal(s)
        nq = nqC + 1 if p['bad'] else p['nq']
        V = c.E.elel.orbital2band(U, m.H, nq, p['nk'], p['band'], p['status'],
            p['share'], p['dd'])
        if p['bad']:
            c.env.true(V is None, 'result for incompatible meshes')
            return
        if not p['share'] and c.rank:
            c.env.true(V is None, 'rank %d: result on process not entitled to '
                'it: %r' % (c.rank, type(V)))
        c.keep('V', V, root=not p['share'])
        psi = c.E.dispersion.dispersion_full_nosym(m.H, p['nk'], vectors=True,
            gauge=True)[1][:, :, :, p['band']]
        if V is not None:
            c.keep('psi', psi.copy(), root=True, compare=False)
            c.keep('Q', sorted(c.E.bravais.irreducibles(nq)), root=True)
            c.extra['U'] = U

    def check(self, env, p, run, ref):
        text = [run.text(r) for r in range(run.n)]
        env.true(not any(text[1:]), 'output from processes other than the '
            'first: %r' % text)
        if p['bad']:
            env.true('mesh' in text[0], 'no message')
            return
        V = run.get('V')
        psi = run.get('psi')
        U = run.contexts[0].extra['U']
        nk, nq = p['nk'], p['nq']
        step = p['nqC'] // nq
        if p['dd']:
            U = np.einsum('xyaabb->xyab', U)
            n = np.arange(p['no'])
            full = np.zeros((*U.shape[:2], *[p['no']] * 4), dtype=complex)
            for a in n:
                for b in n:
                    full[:, :, a, a, b, b] = U[:, :, a, b]
            U = full
        want = []
        for q1, q2 in run.get('Q'):
            # wave vectors k + q
            s = np.roll(psi, (-(q1 * nk // nq), -(q2 * nk // nq)), (0, 1))
            want.append(np.einsum('abcd,xyb,xya,XYc,XYd->xyXY', U[q1 * step,
                q2 * step], psi.conj(), s, psi, s.conj()))
        env.equal('interaction in band basis', V, np.array(want))


@register('P11', 'P13', 'P15', 'P16', 'P20', 'P21', 'P23', weight=2)
class CoulombModel(Case):
    """Localized interaction from files of VASP or RESPACK."""

    nmax = 6

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), no=rng.choice([1, 2, 3]),
            nq=rng.choice([1, 2, 3, [2], [2, 3], [2, 1, 2]]),
            source=rng.choice(['uijkl', 'uijkl', 'correction', 'Wmat',
            'plain']), N=[rng.choice([1, 1, 2]), rng.choice([1, 2, [1, 2, 0]]),
            1], at=rng.random() < 0.6, angle=rng.choice([60, 90, 120]),
            eps=rng.choice([0.0, 0.1]), gap=rng.random() < 0.3)

    def mesh(self, p):
        nq = p['nq']
        return tuple(nq + [1] * (3 - len(nq))) if isinstance(nq, list) \
            else (nq, nq, 1)

    def tensor(self, p, label):
        g = np.random.default_rng([p['seed'], label])
        s = *self.mesh(p), *[p['no']] * 4
        x = (g.standard_normal(s) + 1j * g.standard_normal(s)).round(8)
        # interaction of real-space densities
        n = np.arange(p['no'])
        for q in np.ndindex(*s[:3]):
            o = tuple(-np.array(q) % s[:3])
            d = x[q][n[:, None], n[:, None], n, n]
            x[o][n[:, None], n[:, None], n, n] = d.conj()
            if o == q:
                x[q][n[:, None], n[:, None], n, n] = d.real
        if p['gap']:
            x[abs(x) < 0.5] = 0.0
        return x

    def dd(self, p, label):
        return np.einsum('xyzaabb->xyzab', self.tensor(p, label))

    def files(self, p):
        n = self.mesh(p)
        if p['source'] in ('Wmat', 'plain'):
            g = np.random.default_rng([p['seed'], 9])
            W = self.real_space(p)
            rows = ['# W', '# R', '# i']
            for R in np.ndindex(*n):
                if not W[R].any():
                    continue
                rows.append('%12d%12d%12d' % R)
                for i in np.ndindex(p['no'], p['no']):
                    rows.append('%5d%4d%20.10f%20.10f' % (i[0] + 1, i[1] + 1,
                        W[R][i].real, W[R][i].imag))
                rows.append('')
            return {'W': '\n'.join(rows) + '\n'}
        out = {}
        for j, name in enumerate(['u', 'full', 'redu']):
            x = self.tensor(p, j)
            rows = ['some header']
            for i in np.ndindex(*x.shape):
                if x[i] == 0.0:
                    continue
                q = [a / b for a, b in zip(i, n)]
                a, b, c, d = i[3:]
                rows.append('%.8f %.8f %.8f %d %d %d %d %.8f %.8f' % (*q,
                    b + 1, a + 1, d + 1, c + 1, x[i].real, x[i].imag))
            out[name] = '\n'.join(rows) + '\n'
            if p['source'] == 'uijkl':
                break
        return out

    def real_space(self, p):
        g = np.random.default_rng([p['seed'], 9])
        W = g.standard_normal((*self.mesh(p), p['no'], p['no'])).round(8)
        if p['gap']:
            # lattice vectors missing in file
            W[1:][g.random(W[1:].shape[:3]) < 0.4] = 0.0
        return W

    def run(self, c, p):
        E = c.E
        n = self.mesh(p)
        rng = c.rng('geometry')
        kw = dict(angle=p['angle'])
        if p['at']:
            kw['a'] = models.lattice(rng, 3 if n[2] > 1 else 2)
            kw['r'] = rng.random((p['no'], 3)).dot(kw['a'])
        if p['source'] in ('Wmat', 'plain'):
            m = E.elel.Model(Wmat='W', **kw, nq=p['nq'] if p['source']
                == 'Wmat' else None)
        else:
            if p['source'] == 'correction':
                kw.update(vijkl_full='full', vijkl_redu='redu')
            m = E.elel.Model('u', nq=p['nq'], no=p['no'], **kw)
        c.keep('model', [m.R, m.data], stable=False,
            canon=lambda x: models.canon_R(*x))
        c.keep('size', m.size)
        q = [2 * np.pi * np.array(i) / n for i in np.ndindex(*n)]
        c.keep('W', np.array([m.W(*x) for x in q]))
        M = m.supercell(*[tuple(x) if isinstance(x, list) else x
            for x in p['N']])
        c.keep('super', [M.R, M.data], canon=lambda x: models.canon_R(*x))
        c.keep('cells', [M.cells, M.size])
        k = rng.random(3) * 6
        a = np.eye(3, dtype=int)
        for i, x in enumerate(p['N']):
            a[i] = x if isinstance(x, list) else x * a[i]
        # uniform part of supercell at same wave vector
        w = M.W(*a.dot(k))
        phase = np.exp(1j * np.array(M.cells).dot(k))
        w = np.einsum('iajb,i,j->ab', w.reshape((len(phase), m.size,
            len(phase), m.size)), phase.conj(), phase) / len(phase)
        c.env.equal('rank %d: supercell' % c.rank, w, m.W(*k))
        before = m.W(*k)
        m.standardize(eps=p['eps'])
        c.keep('standardized', [m.R, m.data])
        if not p['eps']:
            c.env.equal('rank %d: standardized' % c.rank, m.W(*k), before)
        for R in [(0, 0, 0), (1, 0, 0), (7, 7, 7)][:3 * len(m.R)]:
            found = np.flatnonzero((m.R == R).all(axis=1))
            c.env.equal('rank %d: element' % c.rank, m.WR(*R), m.data[
                found[0]] if len(found) else np.zeros((m.size, m.size)), 0.0)

    def check(self, env, p, run, ref):
        n = self.mesh(p)
        if p['source'] in ('Wmat', 'plain'):
            W = self.real_space(p)
            want = np.prod(n) * np.fft.ifftn(W, axes=(0, 1, 2))
        else:
            want = self.dd(p, 0)
            if p['source'] == 'correction':
                want = want + self.dd(p, 1) - self.dd(p, 2)
        want = want.reshape((-1, p['no'], p['no']))
        for r in range(run.n):
            env.equal('rank %d of %d: interaction' % (r, run.n), run.get('W',
                r), want, 1e-6)
