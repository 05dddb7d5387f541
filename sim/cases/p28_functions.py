"""Functions every process calls on its own."""

import random

import numpy as np

from .. import models
from ..run import Case, register

SMEARING = ['fd', 'gauss', 'mv', 'mp', 'lorentz', 'heaviside', 'double', 'two',
    'matsubara']


def smear(c, name):
    o = c.E.occupations
    return dict(double=o.double_fermi_dirac, two=o.two_fermi_dirac,
        matsubara=o.fermi_dirac_matsubara).get(name, name)


@register('P07', 'P20', 'P21', 'P13', 'P23', weight=0.7)
class Responses(Case):
    """Functions of q or energies, evaluated in different order everywhere."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), nk=rng.choice([[2], [3], [4],
            [2, 2], [3, 3], [3, 3], [2, 2, 2], [4, 2]]), size=rng.choice([1,
            2, 3]), f=rng.choice(['fd', 'fd', 'gauss', 'mv', 'lorentz',
            'double']), kT=rng.choice([0.02, 0.1, 0.5]), flat=rng.random()
            < 0.4, cRPA=rng.random() < 0.5, subset=rng.random() < 0.3,
            steps=rng.choice([3, 6, 10]))

    def data(self, c, p):
        g = c.rng('data')
        d = len(p['nk'])
        H = models.hopping(g, p['size'], d)
        e, U = [], []
        for k in np.ndindex(*p['nk']):
            x, y = np.linalg.eigh(models.fourier(H, 2 * np.pi * np.array(
                k + (0,) * (3 - d)) / (p['nk'] + [1] * (3 - d))))
            e.append(x)
            U.append(y)
        e = np.reshape(e, (*p['nk'], -1))
        U = np.reshape(U, (*p['nk'], p['size'], p['size']))
        if p['flat']:
            # degenerate states
            e = np.round(e, 0)
        if p['subset'] and p['size'] > 1:
            e, U = e[..., 1:].copy(), U[..., 1:].copy()
        return e, U, g.random(e.shape) < 0.6

    def want(self, c, p, kind, args, e, U, sub, q):
        """Straightforward evaluation."""
        kT = p['kT']
        f = c.E.occupations.smearing(smear(c, p['f']))
        d = len(p['nk'])
        axes = tuple(range(d))
        if kind == 'chi2':
            e = e[..., 0]
            nu = (2 * np.arange(5) + 1) * np.pi * kT
            D = -2j * 0.3 * np.arctan(2.0 / nu)
            G = 1 / (1j * nu[:, None, None] - e - D[:, None, None])
            Gq = np.roll(G, [-x for x in q], (1, 2))
            return (4 * kT / e.size * (G * Gq).sum() - 1 / (2 * kT) + 4 * kT
                * (1 / nu ** 2).sum())
        if kind == 'chi':
            e = e[..., 0]
            if not any(q):
                return -2 / e.size * f.delta(e / kT).sum() / kT
            eq = np.roll(e, [-x for x in q], axes)
            df = f(eq / kT) - f(e / kT)
            return 2 / e.size * (df * (eq - e) / ((eq - e) ** 2 + 1e-20)).sum()
        eq, Uq, sq = (np.roll(x, [-y for y in q], axes) for x in (e, U, sub))
        out = np.zeros((U.shape[-2], U.shape[-2]), complex)
        for k in np.ndindex(*p['nk']):
            for m in range(e.shape[-1]):
                for n in range(e.shape[-1]):
                    if p['cRPA'] and sq[k][m] and sub[k][n]:
                        continue
                    de = eq[k][m] - e[k][n]
                    x = (f(np.array(eq[k][m] / kT)) - f(np.array(e[k][n]
                        / kT))) / de if abs(de) > 1e-10 else -f.delta(np.array(
                        e[k][n] / kT)) / kT
                    v = Uq[k][:, m].conj() * U[k][:, n]
                    out = out + x * np.outer(v.conj(), v)
        return 2 / np.prod(p['nk']) * out

    def run(self, c, p):
        e, U, sub = self.data(c, p)
        nk = np.array(p['nk'])
        f = smear(c, p['f'])
        D = c.E.diagrams
        given = [x.copy() for x in (e, U, sub)]

        def make(kind):
            if kind == 'chi':
                return D.susceptibility(e[..., 0], p['kT'], occupations=f)
            if kind == 'chi2':
                return D.susceptibility2(e[..., 0], p['kT'], nmats=5,
                    hyb_height=0.3)
            return D.polarization(e, U, p['kT'], subspace=sub if p['cRPA']
                else None, occupations=f)

        kinds = ['Pi']
        if len(nk) == 2 and nk[0] == nk[1]:
            kinds += ['chi', 'chi2']
        funs = {k: make(k) for k in kinds}

        def value(kind, i):
            q = list(np.unravel_index(i, nk))
            shift = 2 * np.pi * np.array(q) / nk
            return funs[kind](*shift), [int(x) for x in q]

        # different everywhere
        r = random.Random('%s/%s' % (p['seed'], c.rank))
        for step in range(p['steps']):
            kind = r.choice(kinds)
            x, q = value(kind, r.randrange(np.prod(nk)))
            c.env.equal('rank %d of %d: %s(%s)' % (c.rank, c.size, kind, q), x,
                self.want(c, p, kind, q, e, U, sub, q), 1e-6)
            if r.random() < 0.2:
                funs[kind] = make(kind)
            if r.random() < 0.3 and c.size > 1:
                c.world.kernel.yield_point('user')
        for kind in kinds:
            c.keep(kind, [value(kind, i)[0] for i in range(np.prod(nk))])
        c.env.equal('arguments of response functions', [e, U, sub], given, 0.0)
        return 'done'


@register('P20', 'P21', 'P07', 'P23', weight=0.5)
class Occupations(Case):
    """Smearing functions, chemical potentials and energies."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), f=rng.choice(SMEARING),
            n=rng.random(), shape=rng.choice([[2, 3], [4, 1], [3, 2, 2]]),
            kT=rng.choice([0.1, 0.3, 1.0]), zeros=rng.random() < 0.3)

    def run(self, c, p):
        g = c.rng('occupations')
        f = c.E.occupations.smearing(smear(c, p['f']))
        x = 4 * g.standard_normal(p['shape'])
        if p['zeros']:
            x.flat[::2] = 0.0
        given = x.copy()
        for name in ('step', 'delta', 'delta_prime', 'entropy'):
            fun = f if name == 'step' else getattr(f, name, None)
            if fun is None:
                continue
            y = fun(x)
            c.keep(name, y)
            c.env.equal('arguments of %s (%s)' % (p['f'], name), x, given, 0.0)
            z = [fun(x.flat[i:i + 1].copy())[0] for i in range(x.size)]
            c.env.equal('%s (%s)' % (p['f'], name), np.nan_to_num(np.ravel(y),
                posinf=1e9, neginf=-1e9), np.nan_to_num(z, posinf=1e9,
                neginf=-1e9), 1e-9)
        e = 2 * g.standard_normal(p['shape'])
        given = e.copy()
        if p['f'] in ('fd', 'gauss', 'matsubara'):
            n, kT = (0.2 + 1.6 * p['n']) * e.shape[-1], p['kT']
            mu = c.E.occupations.find_Fermi_level(n, e, kT, f)
            c.keep('mu', mu)
            got = 2 * f((e - mu) / kT).sum() / (e.size / e.shape[-1])
            c.env.true(abs(got - n) < 1e-4, 'rank %d of %d: %g instead of %g '
                'electrons' % (c.rank, c.size, got, n))
        if hasattr(f, 'entropy') and p['f'] != 'heaviside':
            c.keep('Omega', c.E.diagrams.grand_potential(e, p['kT'], f))
        c.env.equal('energies', e, given, 0.0)
        return 'done'


HELPERS = ['path', 'GMKG', 'BZ', 'coordinates', 'wigner', 'mesh', 'complete',
    'compline', 'rectify', 'arrange', 'adjust', 'bar', 'polarization',
    'triangle', 'first', 'group', 'differential', 'stack', 'supercell',
    'Fourier', 'split', 'index', 'minimum']


@register('P20', 'P23', 'P10', weight=0.7)
class Helpers(Case):
    """Everything else without communication."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), n=rng.choice([1, 2, 3, 4, 6]),
            ops=rng.sample(HELPERS, rng.choice([1, 3, 6])), angle=rng.choice([
            60, 90, 120]), flag=rng.random() < 0.5, other=rng.random() < 0.5)

    def run(self, c, p):
        for op in p['ops']:
            g = c.rng(op)
            c.keep(op, getattr(self, op)(c, p, g))
        return 'done'

    def path(self, c, p, g):
        ibrav = [1, 2, 3, 4, 6, 7, 8, 9, 12, -12, -3, -9][p['seed'] % 12]
        points = [x for x in [['G', [0.5, 0, 0]], [[0, 0, 0.5], 'G', [0.1, 0.2,
            0.3]], ['G', 'G'], [[0.2, 0.2, 0], [0.5, 0.5, 0.5], 'G']][int(
            g.integers(4))]]
        kw = dict(a=3.0, b=4.0, c=5.0, cosbc=0.1, cosac=0.1, cosab=0.1)
        out = c.E.bravais.path(points, ibrav=ibrav, N=3 * p['n'], qe=p['flag'],
            moveG=0.1 if p['other'] and points[0] != points[1] else 0, **kw)
        return list(out)

    def GMKG(self, c, p, g):
        return list(c.E.bravais.GMKG(6 * p['n'], corner_indices=True,
            mesh=p['flag'], angle=[60, 120][p['seed'] % 2], straight=p[
            'other']))

    def BZ(self, c, p, g):
        return c.E.bravais.BZ(p['angle'], 30.0 * p['flag'])

    def coordinates(self, c, p, g):
        a = models.lattice(g, 3)
        x = g.random((p['n'], 3))
        y = c.E.bravais.crystal_to_cartesian(x, *a)
        c.env.equal('Cartesian coordinates', y, x.dot(a), 1e-9)
        z = c.E.bravais.cartesian_to_crystal(y, *a)
        c.env.equal('crystal coordinates', z, x, 1e-9)
        w = c.E.bravais.crystal_to_cartesian(x[:, :2], a[0, :2], a[1, :2])
        c.env.equal('coordinates in plane', w, x[:, :2].dot(a[:2, :2]), 1e-9)
        return [y, z, w]

    def wigner(self, c, p, g):
        R, d, l = c.E.bravais.wigner_2d(p['n'], p['angle'], *(g.random(2)
            if p['flag'] else (0.0, 0.0)), epsilon=1e-9)
        c.env.true(abs(sum(1 / np.array(d)) - p['n'] ** 2) < 1e-9,
            'weights of Wigner-Seitz cell do not sum up to number of points')
        return [list(map(list, R)), list(d), list(l)]

    def minimum(self, c, p, g):
        x0, y0, a = g.standard_normal(3)
        x = np.arange(3) + g.random()
        x1 = c.E.misc.minimum(*x, *(a * (x - x0) ** 2 + y0))
        c.env.equal('extremum of parabola', x1, x0, 1e-6)
        return float(x1)

    def mesh(self, c, p, g):
        return [c.E.bravais.mesh(p['n'], 2, flat=p['flag']),
            c.E.bravais.mesh(p['n'])]

    def complete(self, c, p, g):
        n, angle = p['n'], p['angle']
        data = np.empty((n, n))
        data[...] = np.nan
        done = sorted(c.E.bravais.irreducibles(n, angle))
        for i, k in enumerate(done):
            data[k] = i
        c.E.bravais.complete(data, angle)
        c.env.true(not np.isnan(data).any(), 'mesh is not completed')
        return [list(map(list, done)), data, [sorted(map(list,
            c.E.bravais.images(*k, n, angle))) for k in done]]

    def compline(self, c, p, g):
        n = p['n'] + 1
        x, y = np.arange(n) * 1.0, g.random(n)
        w = g.random((n, 2, 2))
        return c.E.plot.compline(x, y, w, center=p['flag'])

    def rectify(self, c, p, g):
        image = g.random((3 + p['n'], 4))
        return c.E.plot.rectify(image, 0.6, 0.7, (0.1, 0.1), (0.7, 0.15), (0.2,
            0.8), (0.8, 0.9), angle=90)

    def arrange(self, c, p, g):
        x = list(g.random((p['n'] * 2, 2, 3)))
        return c.E.plot.arrange(x, columns=p['n'] if p['flag'] else None)

    def adjust(self, c, p, g):
        image = g.random((3, 7, 3) if p['flag'] else (3, 7))
        return c.E.plot.adjust_pixels(image, [0, 2, 6], [0.5, 1.0, 2.5],
            width=5 + p['n'], height=4 if p['other'] else None)

    def bar(self, c, p, g):
        image = g.random((10, 12))
        c.E.plot.colorbar(image, 0.1, 0.1, 0.2, 0.5)
        return image

    def polarization(self, c, p, g):
        e = g.standard_normal((p['n'], 3, 3))
        q = g.random((p['n'], 2))
        q[0] = 0.0
        return c.E.ph.polarization(e, q, [60, 120][p['seed'] % 2])

    def triangle(self, c, p, g):
        nk = [3, 3][:1 + p['flag']]
        e = g.standard_normal((*nk, 2)).round(int(g.integers(2)))
        x = [g.standard_normal((*nk, 2, 2)) + 1j * g.standard_normal((*nk, 2,
            2)) for _ in range(3)]
        q, Q = (2 * np.pi / 3 * g.integers(0, 3, len(nk)) for _ in range(2))
        out = c.E.diagrams.triangle(q, Q, e, *x, kT=0.3, eps=1e-9,
            fluctuations=p['other'])
        return list(out) if isinstance(out, tuple) else out

    def first(self, c, p, g):
        e = g.standard_normal((3, 2, 2))
        x = g.standard_normal((3, 3, 2, 2, 2))
        U = np.linalg.qr(g.standard_normal((3, 2, 2, 2)))[0]
        return c.E.diagrams.first_order(e, x, 0.3, U if p['flag'] else None)

    def group(self, c, p, g):
        x = g.integers(0, 2, (p['n'] + 1, 2)).round(3) * 1.0
        out = c.E.misc.group(x)
        c.env.true(sorted(i for y in out for i in y) == list(range(len(x))),
            'groups do not contain every point once')
        return [list(map(int, y)) for y in out]

    def differential(self, c, p, g):
        return c.E.misc.differential(np.sort(g.random(p['n'] + 2)))

    def stack(self, c, p, g):
        x = list(g.random((p['n'] + 1, 2)) * 10)
        return c.E.bravais.stack(*[float(y[0]) for y in x], period=3.0)

    def supercell(self, c, p, g):
        out = c.E.bravais.supercell(*[int(x) for x in g.integers(1, 4, 3)])
        return [out[0], *map(list, out[1]), list(map(list, out[2]))]

    def Fourier(self, c, p, g):
        data = g.random((3, 3))
        f = c.E.bravais.Fourier_interpolation(data, angle=p['angle'])
        return [f(*x) for x in g.random((p['n'], 2))]

    def split(self, c, p, g):
        return list(c.E.misc.split('A-{x, y}-{1, 2}, B', sd=','))

    def index(self, c, p, g):
        R = g.integers(-2, 3, (p['n'] + 3, 3))
        return [c.E.misc.vector_index(R, tuple(R[-1])),
            c.E.misc.vector_index(R, (7, 7, 7)) is None]
