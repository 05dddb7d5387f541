"""Tetrahedron methods and McMillan's formula."""

import numpy as np

from .. import models
from ..run import Case, register


def mesh(c, p, label, positive=False):
    rng = c.rng(label)
    n = p['n']
    x = rng.standard_normal((n, n))
    if p['kind'] == 'discrete':
        x = np.round(x * 2) / 2
    elif p['kind'] == 'flat':
        x[...] = 0.5
        if n > 1:
            x[rng.integers(n), rng.integers(n)] = 1.0
    elif p['kind'] == 'band':
        k = 2 * np.pi * np.arange(n) / n
        x = np.add.outer(np.cos(k), np.cos(k)) + np.cos(np.subtract.outer(k,
            k))
    return abs(x) if positive else x


def points(c, p, x):
    rng = c.rng('E')
    out = [float(rng.uniform(x.min(), x.max()))]
    out.append(float(x.ravel()[rng.integers(x.size)]))
    out.append(float(x.max()))
    out.append(float(x.min()) - 1.0)
    return out


def canon_dict(d):
    """Intersections in order independent of processes."""
    return d


def segments(contours):
    out = set()
    for line in contours:
        line = np.round(np.asarray(line) * 1e6).astype(int)
        for a, b in zip(line[:-1], line[1:]):
            out.add(tuple(sorted((tuple(a.tolist()), tuple(b.tolist())))))
    return np.array(sorted(out), dtype=int).reshape((-1, 4))


def close(a):
    """Intersections as sorted table."""
    rows = sorted(([round(float(x), 5) + 0.0 for x in key], w)
        for key, w in a)
    return [np.array([r[0] for r in rows]), np.array([r[1] for r in rows])]


@register('P08', 'P13', 'P20', 'P21', 'P23', weight=2)
class Tetrahedra(Case):
    """Densities of states, intersections, and isolines."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), n=rng.choice([1, 2, 2, 3, 4,
            6]), kind=rng.choice(['random', 'random', 'discrete', 'discrete',
            'flat', 'band']), what=rng.choice(['dos', 'dos', 'a2F', 'dd',
            'dd', 'iso', 'iso']), window=rng.random() < 0.4,
            f=rng.random() < 0.6, verbosity=rng.choice([0, 0, 1]))

    def large(self, rng, p):
        p['n'] = rng.choice([8, 9, 12])

    def run(self, c, p):
        x = mesh(c, p, 'x')
        E = points(c, p, x)
        dos = c.E.dos
        kw = {}
        if p['window']:
            kw = dict(minimum=E[0] - 0.1, maximum=E[0] + 0.1)
            E = [E[0]]
        c.keep('x', x)
        c.keep('E', E)
        if p['what'] == 'dos':
            f = dos.hexDOS(x, **kw)
            c.keep('dos', f(E))
            c.keep('one', float(f(E[0])))
        elif p['what'] == 'a2F':
            g = mesh(c, dict(p, kind='random'), 'g', True)
            f = dos.hexa2F(x, g, **kw)
            c.keep('a2F', f(E))
        elif p['what'] == 'dd':
            y = mesh(c, p, 'y')
            g = mesh(c, dict(p, kind='random'), 'g') if p['f'] else None
            f = dos.double_delta(x, y, g)
            for i, z in enumerate(E[:2]):
                d = f(z)
                c.keep('dd%d' % i, close(d.items()))
        else:
            f = dos.isoline(x)
            for i, z in enumerate(E):
                c.keep('iso%d' % i, segments(f(z)))

    def check(self, env, p, run, ref):
        x = run.get('x')
        n = p['n']
        if p['what'] == 'dos' and p['kind'] == 'random' and n > 1:
            E = run.get('E')[0]
            total = 0.0
            for i in range(n):
                for j in range(n):
                    for t in ([(i, j), (i + 1, j), (i, j + 1)], [(i + 1,
                            j + 1), (i + 1, j), (i, j + 1)]):
                        A, B, C = sorted(x[a % n, b % n] for a, b in t)
                        if A < E < B:
                            total += (E - A) / (B - A) / (C - A)
                        elif B < E < C:
                            total += (C - E) / (C - A) / (C - B)
            for r in range(run.n):
                env.equal('rank %d of %d: density of states' % (r, run.n),
                    float(np.ravel(run.get('one', r))[0]), total / n ** 2)
        if p['what'] == 'iso' and not p['window']:
            for r in range(run.n):
                env.true(len(run.get('iso3', r)) == 0, 'isoline below minimum')


@register('P08', 'P07', 'P13', 'P20', 'P23')
class Superconductivity(Case):
    """Parameters of McMillan's formula."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), nq=rng.choice([1, 2, 3, 4]),
            mult=rng.choice([1, 1, 2]), nel=rng.choice([1, 2]),
            nph=rng.choice([1, 3]), tetra=rng.random() < 0.5,
            correct=rng.random() < 0.5, soft=rng.random() < 0.3,
            kind='random', verbosity=rng.choice([0, 0, 1]))

    def large(self, rng, p):
        p.update(nq=rng.choice([5, 6]), mult=1, tetra=False)

    def run(self, c, p):
        nk = p['nq'] * p['mult']
        if p['tetra'] and nk > 4:
            nk = p['nq']
        rng = c.rng('data')
        e = rng.standard_normal((nk, nk, p['nel'])) * 0.5
        if c.rank == 0:
            c.E.bravais.irreducibles(p['nq'])
        nQ = len(c.E.bravais.irreducibles(p['nq']))
        w2 = 0.01 + rng.random((nQ, p['nph']))
        if p['soft']:
            w2[0, 0] = -0.01
        g2 = rng.random((nQ, p['nph'], nk, nk, p['nel'], p['nel']))
        before = [e.copy(), w2.copy(), g2.copy()]
        out = c.E.eliashberg.McMillan(p['nq'], e, w2, g2, tetra=p['tetra'],
            kT=0.2, correct=p['correct'])
        c.keep('out', [float(x) for x in out])
        c.keep('input', [e, w2, g2])
        c.keep('before', before)

    def check(self, env, p, run, ref):
        for r in range(run.n):
            env.equal('rank %d of %d: input changed' % (r, run.n),
                run.get('input', r), run.get('before', r), 0.0)
