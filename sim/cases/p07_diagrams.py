"""Self-energies, conductivities, and spectral functions."""

import numpy as np

from .. import models
from ..run import Case, register


def cplx(rng, shape, real=False):
    x = rng.standard_normal(shape)
    return x if real else x + 1j * rng.standard_normal(shape)


def draw_q(c, p, label='q'):
    nk = np.array(p['nk'])
    rng = c.rng(label)
    iq = np.array([rng.integers(nk) for _ in range(p['nq'])])
    if p.get('gamma'):
        iq[...] = 0
    return iq * 2 * np.pi / nk, iq


def energies(c, p, label='e'):
    rng = c.rng(label)
    e = rng.standard_normal((*p['nk'], p['nbnd'])) * 0.5
    if p.get('flat'):
        # degenerate energies, also at Fermi level
        e = np.round(e * 4) / 4
    return e


@register('P07', 'P13', 'P14', 'P20', 'P21', 'P23', 'P22', weight=2)
class PhononSelfEnergy(Case):
    """Phonon self-energy with all options on any group of processes."""

    def gen(self, rng):
        d = rng.choice([1, 2, 2, 3])
        mode = rng.choice(['none', 'g2', 'g2', 'g', 'g', 'gG'])
        p = dict(seed=rng.randrange(10 ** 6), d=d, nk=[rng.choice([1, 2, 3])
            for _ in range(d)], nq=rng.choice([1, 2, 3, 4, 7]),
            nbnd=rng.choice([1, 2]), nph=rng.choice([1, 2, 3]), mode=mode,
            flat=rng.random() < 0.3, gamma=rng.random() < 0.15,
            kT=rng.choice([0.1, 0.3]), occupations=rng.choice(['fd', 'fd',
            'gauss', 'mv']), fluctuations=rng.random() < 0.4,
            omega=rng.choice([None, None, 'complex', 'array']),
            Delta=rng.choice([None, None, None, 0.4]),
            Delta_diff=rng.random() < 0.5, diagonal=rng.random() < 0.2,
            symmetrize=rng.random() < 0.7, U=rng.random() < 0.2,
            group=rng.choice(['all', 'all', 'self', 'groups']),
            real=rng.random() < 0.3, real2=rng.random() < 0.5,
            eps=rng.choice([None, None, None, 0.0, 0.05]), verbosity=rng.choice([0, 0, 1]))
        return p

    def large(self, rng, p):
        p['nq'] = rng.choice([15, 30])

    def run(self, c, p):
        MPI = c.E.MPI
        comm = MPI.comm
        label = ''
        if p['group'] == 'self':
            comm = MPI.I
            label = c.rank
        elif p['group'] == 'groups':
            label = int(c.rng('color').integers(3, size=16)[c.rank])
            comm = comm.Split(label, key=c.rank)
        q, iq = draw_q(c, p, 'q%s' % label)
        if p['group'] != 'all' and c.rng('few%s' % label).random() < 0.5:
            q, iq = q[:1], iq[:1]
        e = energies(c, p, 'e')
        shape = (len(q), p['nph'], *p['nk'], p['nbnd'], p['nbnd'])
        kw = dict(kT=p['kT'], occupations=p['occupations'],
            fluctuations=p['fluctuations'], comm=comm)
        rng = c.rng('g%s' % label)
        a = b = None
        if p['mode'] == 'g2':
            a = cplx(rng, shape, True)
            kw['g2'] = a
        elif p['mode'] in ('g', 'gG'):
            a = b = cplx(rng, shape, p['real'])
            kw['g'] = a
            if p['mode'] == 'gG':
                b = cplx(rng, shape, p['real2'])
                kw['G'] = b
                kw['symmetrize'] = p['symmetrize']
            kw['diagonal'] = p['diagonal']
            if p['U']:
                kw['U'] = 0.3 * np.ones((p['nbnd'], p['nbnd']))
        if p['omega'] == 'complex':
            kw['omega'] = 0.3 + 0.05j
        elif p['omega'] == 'array':
            kw['omega'] = np.array([0.1, 0.2, 0.5]) + 0.05j
        if p['Delta'] is not None:
            kw.update(Delta=p['Delta'], Delta_diff=p['Delta_diff'])
        if p['eps'] is not None:
            kw['eps'] = p['eps']
        out = c.E.diagrams.phonon_self_energy(q, e, **kw)
        if p['group'] == 'all':
            c.keep('Pi', out)
        else:
            c.keep('own', out, root=True)
        f = c.E.occupations.smearing(p['occupations'])
        c.keep('input', [iq, e, a, b, f(e / p['kT']), -f.delta(e / p['kT'])
            / p['kT']], root=p['group'] != 'all')

    def check(self, env, p, run, ref):
        if p['Delta'] is not None or p['U'] and p['mode'] in ('g', 'gG'):
            return
        nk = p['nk']
        omega = dict(complex=[0.3 + 0.05j], array=np.array([0.1, 0.2, 0.5])
            + 0.05j).get(p['omega'], [0])
        for r in range(run.n):
            iq, e, a, b, f, d = run.get('input', r)
            got = run.get('Pi' if p['group'] == 'all' else 'own', r)
            Pi_k = None
            if p['fluctuations']:
                got, Pi_k = got
            nph = p['nph'] if p['mode'] != 'none' else 1
            mat = p['mode'] in ('g', 'gG')
            want = np.zeros((len(iq), nph, nph, len(omega)) if mat else
                (len(iq), nph, len(omega)), dtype=complex)
            full = np.zeros((*want.shape, *nk, p['nbnd'], p['nbnd']),
                dtype=complex)
            for i, Q in enumerate(iq):
                for k in np.ndindex(*nk):
                    kq = tuple((np.array(k) + Q) % nk)
                    for m in range(p['nbnd']):
                        for n in range(p['nbnd']):
                            de = e[k][n] - e[kq][m]
                            df = f[k][n] - f[kq][m]
                            at = (slice(None),) + k + (m, n)
                            if p['omega']:
                                x = np.array([df / (de + w) for w in omega])
                            elif abs(de) > (1e-10 if p['eps'] is None
                                    else p['eps']):
                                x = np.array([df / de])
                            else:
                                x = np.array([d[k][n]])
                            if p['mode'] == 'none':
                                y = np.ones(1)
                            elif not mat:
                                y = a[i][at]
                            else:
                                g, G = a[i][at], b[i][at]
                                y = np.outer(g.conj(), G)
                                if p['mode'] == 'gG' and p['symmetrize']:
                                    y = (y + np.outer(G.conj(), g)) / 2
                                if p['diagonal']:
                                    y = np.diag(np.diag(y))
                            z = np.multiply.outer(y, x)
                            full[(i, Ellipsis) + k + (m, n)] = 2 * z
                            want[i] += 2 / np.prod(nk) * z
            if not p['omega'] or p['omega'] == 'complex':
                want = want[..., 0]
                full = full[(Ellipsis, 0) + (slice(None),) * (len(nk) + 2)]
            who = 'rank %d of %d: phonon self-energy' % (r, run.n)
            env.equal(who, got, want, 1e-6)
            if Pi_k is not None:
                env.equal(who + ' (integrand)', Pi_k, full, 1e-6)


@register('P07', 'P13', 'P14', 'P20', 'P21', 'P23', 'P22')
class OtherDiagrams(Case):
    """Fermi-surface averages, electron self-energies, conductivities."""

    def gen(self, rng):
        d = rng.choice([1, 2, 2, 3])
        what = rng.choice(['dd', 'dd', 'fan', 'fan', 'kubo', 'kubo', 'sigma2',
            'band', 'orbital', 'Pi_g', 'spectral', 'spectral'])
        p = dict(seed=rng.randrange(10 ** 6), d=2 if what == 'sigma2' else d,
            nk=[rng.choice([1, 2, 3]) for _ in range(d)], nq=rng.choice([1, 2,
            3, 4, 7]), nbnd=rng.choice([1, 2]), nph=rng.choice([1, 2, 3]),
            what=what, kT=rng.choice([0.1, 0.3]), group=rng.choice(['all',
            'all', 'self', 'groups']), dd=rng.random() < 0.5,
            real=rng.random() < 0.5, g2=rng.random() < 0.8, occupations=
            rng.choice(['fd', 'gauss']), dc=rng.random() < 0.2,
            nw=rng.choice([1, 2, 3, 5, 8]), verbosity=rng.choice([0, 0, 1]))
        if what == 'sigma2':
            p['nk'] = [p['nk'][0]] * 2
            p['nbnd'] = 1
        if what not in ('dd', 'fan', 'kubo'):
            p['group'] = 'all'
        return p

    def large(self, rng, p):
        p.update(nq=rng.choice([15, 30]), nw=rng.choice([17, 40]))

    def run(self, c, p):
        MPI = c.E.MPI
        diagrams = c.E.diagrams
        comm = MPI.comm
        label = ''
        if p['group'] == 'self':
            comm = MPI.I
            label = c.rank
        elif p['group'] == 'groups':
            label = int(c.rng('color').integers(3, size=16)[c.rank])
            comm = comm.Split(label, key=c.rank)
        q, iq = draw_q(c, p, 'q%s' % label)
        if p['group'] != 'all' and c.rng('few%s' % label).random() < 0.5:
            q, iq = q[:1], iq[:1]
        e = energies(c, p)
        nk, nb, nph = p['nk'], p['nbnd'], p['nph']
        rng = c.rng('data%s' % label)
        f = c.E.occupations.smearing(p['occupations'])
        kw = dict(kT=p['kT'], occupations=p['occupations'])
        what = p['what']
        if what == 'dd':
            g2 = cplx(rng, (len(q), nph, *nk, nb, nb), p['real']) \
                if p['g2'] else None
            out = diagrams.double_fermi_surface_average(q, e, g2, comm=comm,
                **kw)
            data = [iq, f.delta(e / p['kT']) / p['kT'], g2]
        elif what == 'fan':
            w = 0.1 + rng.random((*nk, nph))
            g2 = rng.random((*nk, nph, len(q), nb, nb))
            omega = np.linspace(-1, 1, p['nw']) + 0.05j
            out = diagrams.fan_migdal_self_energy(q, e, w, g2, omega,
                comm=comm, **kw)
            data = [iq, e, f(e / p['kT']), w, 1 / (np.exp(w / p['kT']) - 1),
                g2, omega]
        elif what == 'kubo':
            v = rng.standard_normal((*nk, nb, p['d']))
            n = int(rng.integers(1, 5))
            omega = np.linspace(-1, 1, 2 * n + 1)
            A = rng.random((*nk, nb, len(omega)))
            out = diagrams.green_kubo_conductivity(v, A, omega,
                dc_only=p['dc'], comm=comm, **kw)
            data = [v, A, omega, f(omega / p['kT']), f.delta(omega / p['kT'])
                / p['kT']]
        elif what == 'sigma2':
            g2 = cplx(rng, (len(q), nph, *nk), p['real'])
            out = diagrams.phonon_self_energy2(q, e[..., 0], g2, kT=p['kT'],
                nmats=20)
            data = None
        elif what in ('band', 'orbital', 'Pi_g'):
            norb = nb
            U = cplx(rng, (*nk, norb, nb))
            U = np.linalg.qr(U)[0] if norb == nb else U
            n = len(q)
            W = cplx(rng, (n, norb, norb) if p['dd'] else (n, norb, norb,
                norb, norb))
            g = cplx(rng, (n, nph, *nk, nb, nb))
            if what == 'band':
                out = diagrams.renormalize_coupling_band(q, e, g, W, U,
                    status=False, **kw)
            elif what == 'orbital' and p['dd']:
                out = diagrams.renormalize_coupling_orbital(q, e, g, W, U,
                    status=False, **kw)
            else:
                out = diagrams.Pi_g(q, e, g, U, dd=p['dd'], status=False,
                    **kw)
            data = None
        elif what == 'spectral':
            n = len(q)
            omega = np.linspace(0.1, 1, p['nw'])
            D = cplx(rng, (n, nph, nph))
            D = D + D.swapaxes(1, 2).conj()
            D = D[..., None] + 0.1 * cplx(rng, (n, nph, nph, len(omega)))
            out = c.E.ph.spectral_function(D, omega, 0.05)
            data = [D, omega]
        c.keep('own' if p['group'] != 'all' else 'out', out, root=p['group']
            != 'all')
        c.keep('data', data, root=p['group'] != 'all')

    def check(self, env, p, run, ref):
        nk = p['nk']
        what = p['what']
        for r in range(run.n):
            got = run.get('out' if p['group'] == 'all' else 'own', r)
            data = run.get('data', r)
            who = 'rank %d of %d: %s' % (r, run.n, what)
            if what == 'dd':
                iq, d, g2 = data
                enum = np.zeros((len(iq), p['nph'] if g2 is not None else 1),
                    dtype=complex)
                deno = np.zeros(len(iq))
                for i, Q in enumerate(iq):
                    for k in np.ndindex(*nk):
                        kq = tuple((np.array(k) + Q) % nk)
                        dd = np.outer(d[kq], d[k])
                        deno[i] += dd.sum()
                        enum[i] += dd.sum() if g2 is None else np.sum(dd
                            * g2[i][(slice(None),) + k], axis=(1, 2))
                env.equal(who, got, [enum, deno])
            elif what == 'fan':
                iq, e, f, w, N, g2, omega = data
                want = np.zeros((len(iq), p['nbnd'], len(omega)),
                    dtype=complex)
                for i, K in enumerate(iq):
                    for k in np.ndindex(*nk):
                        kq = tuple((np.array(k) + K) % nk)
                        for nu in range(p['nph']):
                            for m in range(p['nbnd']):
                                for n in range(p['nbnd']):
                                    want[i, n] += g2[k][nu, i, m, n] * ((
                                        f[kq][m] + N[k][nu]) / (omega
                                        - e[kq][m] + w[k][nu]) + (1
                                        - f[kq][m] + N[k][nu]) / (omega
                                        - e[kq][m] - w[k][nu])) / np.prod(nk)
                env.equal(who, got, want)
            elif what == 'kubo':
                v, A, omega, f, d = data
                v = v.reshape((-1, p['d']))
                A = A.reshape((-1, len(omega)))
                w = omega[1] - omega[0]
                n = len(omega) // 2
                want = np.zeros((len(omega), p['d'], p['d']))
                for i in range(len(omega)):
                    for j in range(len(omega)):
                        l = j + i - n
                        if 0 <= l < len(omega):
                            x = d[j] if i == n else (f[j] - f[l]) / omega[i]
                            want[i] += x * np.einsum('kx,ky,k->xy', v, v,
                                A[:, j] * A[:, l])
                want *= 4 * np.pi * w / np.prod(nk)
                if p['dc']:
                    env.true(np.shape(got) == (p['d'], p['d']), who + ': '
                        'shape %s' % (np.shape(got),))
                else:
                    env.equal(who, got, want)
            elif what == 'spectral':
                D, omega = data
                want = np.array([2 * w / np.pi * np.trace(np.linalg.inv(
                    D[..., i] - (w + 0.05j) ** 2 * np.eye(p['nph'])).imag,
                    axis1=1, axis2=2) for i, w in enumerate(omega)])
                env.equal(who, got, want)
