"""Band structures and sampled quantities."""

import numpy as np

from .. import models
from ..run import Case, register


def draw_k(c, p):
    rng = c.rng('k')
    shape, d = p['shape'], p['d']
    if p['line']:
        n = int(np.prod(shape))
        x = np.linspace(0, 1, n)[:, None]
        k = x * (0.3 + rng.random(d)) * np.pi + 0.1 * rng.random(d)
        return k.reshape(*shape, d)
    return 2 * np.pi * (rng.random((*shape, d)) * 2 - 0.5)


def matrix(c, p):
    """Function of k to be diagonalized and the same from first principles."""
    if p['matrix'] == 'ph':
        m, D = models.ph(c, nat=p['size'], dims=p['d'], L=None)
        return m.D, lambda k: models.fourier(D, k)
    m, t = models.el(c, size=p['size'], dims=p['d'])
    if p['hermitian']:
        return m.H, lambda k: models.fourier(t, k)
    rng = c.rng('non-hermitian')
    A = rng.standard_normal((p['size'], p['size']))

    def H(*k):
        return m.H(*k) + 0.3j * A

    return H, lambda k: models.fourier(t, k) + 0.3j * A


def gen_dispersion(rng, **over):
    d = rng.choice([1, 2, 2, 3])
    shape = rng.choice([[1], [2], [3], [5], [7], [rng.randrange(8, 20)],
        [2, 2], [3, 2], [1, 4]])
    p = dict(seed=rng.randrange(10 ** 6), d=d, shape=shape,
        size=rng.choice([1, 1, 2, 2, 3, 4]), matrix=rng.choice(['el', 'el',
        'ph']), line=rng.random() < 0.6, vectors=rng.random() < 0.6,
        gauge=rng.random() < 0.3, order=rng.random() < 0.5,
        hermitian=rng.random() < 0.8, broadcast=True,
        shared_memory=rng.random() < 0.5, rotate=False,
        order_kwargs=rng.choice([{}, {}, dict(by_mean=False), dict(dv=2.0),
        dict(eps=1e-3)]), verbosity=rng.choice([0, 0, 1]))
    if p['matrix'] == 'ph':
        p['size'] = min(p['size'], 2)
        p['hermitian'] = True
        if d >= 2 and rng.random() < 0.4:
            p['rotate'] = p['vectors'] = True
    if not p['order']:
        p['order_kwargs'] = {}
    p.update(over)
    return p


def options(p):
    return dict(vectors=p['vectors'], gauge=p['gauge'], order=p['order'],
        hermitian=p['hermitian'], broadcast=p['broadcast'],
        shared_memory=p['shared_memory'], rotate=p['rotate'],
        **p['order_kwargs'])


def keep_all(c, p, out, root=False):
    names = ['v'] + ['V'] * p['vectors'] + ['o'] * p['order']
    if len(names) == 1:
        out = [out]
    for name, x in zip(names, out):
        c.keep(name, x, root=root, stable=not root or c.rank == 0)


def check_eigen(env, p, run, f, k, ranks, tol=1e-7):
    """Compare with independent diagonalization."""
    for r in ranks:
        v = run.get('v', r)
        V = run.get('V', r) if p['vectors'] else None
        for i in np.ndindex(*p['shape']):
            H = f(k[i])
            who = 'rank %d of %d: point %s' % (r, run.n, i)
            if p['hermitian']:
                want = np.linalg.eigvalsh(H)
                got = v[i]
            else:
                want = np.sort_complex(np.linalg.eigvals(H))
                got = v[i]
            srt = np.sort(got) if p['order'] else got
            if p['hermitian'] or len(want) == 1:
                env.equal('%s: eigenvalues' % who, srt, want, tol)
            if V is not None and not p['rotate']:
                env.equal('%s: H V - V diag(v)' % who, np.dot(H, V[i])
                    - V[i] * got, np.zeros(H.shape), tol)
                env.equal('%s: norm of eigenvectors' % who,
                    np.linalg.norm(V[i], axis=0), np.ones(len(H)), 1e-6)
            if p['order']:
                o = run.get('o', r)[i]
                env.true(sorted(o) == list(range(len(H))), '%s: band order %s '
                    'is no permutation' % (who, o))
                if p['hermitian']:
                    env.equal('%s: eigenvalues in band order' % who, got,
                        want[o], tol)


@register('P02', 'P12', 'P13', 'P20', 'P22', 'P23', weight=2)
class Dispersion(Case):
    """Diagonalization at arbitrary points."""

    def gen(self, rng):
        return gen_dispersion(rng)

    def large(self, rng, p):
        p['shape'] = rng.choice([[rng.randrange(20, 150)], [9, 8]])

    def run(self, c, p):
        H, f = matrix(c, p)
        k = draw_k(c, p)
        if c.rank == 0:
            c.env.probe = f, k
        mine = k if c.rank == 0 or p['seed'] % 2 else None
        out = c.E.dispersion.dispersion(H, mine, **options(p))
        keep_all(c, p, out)

    def check(self, env, p, run, ref):
        f, k = env.probe
        check_eigen(env, p, run, f, k, [run.n - 1])


@register('P24', 'P13')
class DispersionRoot(Case):
    """Diagonalization without broadcasting."""

    def gen(self, rng):
        return gen_dispersion(rng, broadcast=False)

    def large(self, rng, p):
        p['shape'] = rng.choice([[rng.randrange(20, 150)], [9, 8]])

    def run(self, c, p):
        H, f = matrix(c, p)
        k = draw_k(c, p)
        if c.rank == 0:
            c.env.probe = f, k
        out = c.E.dispersion.dispersion(H, k, **options(p))
        keep_all(c, p, out, root=True)

    def check(self, env, p, run, ref):
        f, k = env.probe
        check_eigen(env, p, run, f, k, [0])
        for r in range(1, run.n):
            for name in run.contexts[r].kept:
                x = run.get(name, r)
                env.true(x is None or np.size(x) == 0, 'rank %d of %d: '
                    'placeholder for %s has shape %s' % (r, run.n, name,
                    np.shape(x)))


def gen_full(rng, **over):
    p = dict(seed=rng.randrange(10 ** 6), angle=rng.choice([60, 60, 90, 120]),
        nk=rng.choice([1, 2, 3, 4, 5, 6, 6, 8]), size=rng.choice([1, 2, 3]),
        vectors=rng.random() < 0.4, gauge=rng.random() < 0.2,
        order=rng.random() < 0.5, hermitian=rng.random() < 0.85,
        broadcast=True, shared_memory=rng.random() < 0.5, rotate=False,
        order_kwargs=rng.choice([{}, {}, dict(dv=3.0), dict(eps=1e-3)]),
        verbosity=rng.choice([0, 0, 1]), nosym=rng.random() < 0.45,
        aniso=rng.random() < 0.3)
    if not p['order']:
        p['order_kwargs'] = {}
    p.update(over)
    if p['nosym'] and rng.random() < 0.4:
        # order imposed on shared data after diagonalization
        p.update(order=True, shared_memory=True, size=rng.choice([2, 3]),
            nk=max(2, p['nk']), verbosity=0)
    p['shape'] = [p['nk'], p['nk']]
    if p['nosym'] and not p['order'] and p['aniso']:
        p['shape'] = [p['nk'], 1 + p['nk'] // 2]
    return p


def run_full(c, p):
    m, t = models.symmetric(c, size=p['size'], angle=p['angle'])
    if c.rank == 0:
        k = np.empty((*p['shape'], 2))
        for i in np.ndindex(*p['shape']):
            k[i] = 2 * np.pi * np.array(i) / p['shape']
        c.env.probe = (lambda k: models.fourier(t, k)), k
    args = options(p)
    if p['nosym']:
        size = p['shape'] if p['shape'][0] != p['shape'][1] else p['nk']
        return c.E.dispersion.dispersion_full_nosym(m.H, size,
            angle=p['angle'], **args)
    return c.E.dispersion.dispersion_full(m.H, p['nk'], angle=p['angle'],
        **args)


@register('P02', 'P12', 'P13', 'P20')
class DispersionMesh(Case):
    """Diagonalization on uniform meshes with and without symmetry."""

    def gen(self, rng):
        return gen_full(rng)

    def large(self, rng, p):
        p['nk'] = rng.choice([9, 10, 12])
        p['shape'] = [p['nk'], p['nk']]

    def run(self, c, p):
        keep_all(c, p, run_full(c, p))

    def check(self, env, p, run, ref):
        f, k = env.probe
        q = dict(p)
        if not p['nosym'] or p['order']:
            q['vectors'] = False     # vectors from irreducible wedge
            q['order'] = False
            v = run.get('v', run.n - 1)
            for i in np.ndindex(*p['shape']):
                want = np.linalg.eigvalsh(f(k[i]))
                env.equal('rank %d of %d: energies at %s' % (run.n - 1, run.n,
                    i), np.sort(v[i].real), want)
                if p['order']:
                    o = run.get('o', run.n - 1)[i]
                    env.equal('rank %d of %d: ordered energies at %s'
                        % (run.n - 1, run.n, i), v[i].real, want[o])
        elif p['hermitian']:
            check_eigen(env, q, run, f, k, [run.n - 1])


@register('P24', 'P13')
class DispersionMeshRoot(Case):
    """Diagonalization on uniform meshes without broadcasting."""

    def gen(self, rng):
        return gen_full(rng, broadcast=False)

    def large(self, rng, p):
        p['nk'] = rng.choice([9, 10, 12])
        p['shape'] = [p['nk'], p['nk']]

    def run(self, c, p):
        keep_all(c, p, run_full(c, p), root=True)

    def check(self, env, p, run, ref):
        for r in range(1, run.n):
            for name in run.contexts[r].kept:
                x = run.get(name, r)
                env.true(x is None or np.size(x) == 0, 'rank %d of %d: '
                    'placeholder for %s has shape %s' % (r, run.n, name,
                    np.shape(x)))


@register('P02', 'P13', 'P20', 'P21', 'P22')
class Sample(Case):
    """Functions sampled on paths and meshes."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), d=rng.choice([1, 2, 3]),
            shape=rng.choice([[1], [2], [3], [8], [11], [2, 3], [2, 2, 2]]),
            what=rng.choice(['H', 'D', 'v', 'scalar', 'real', 'kw']),
            size=rng.choice([1, 2, 3]), verbosity=rng.choice([0, 0, 1]))

    def large(self, rng, p):
        p['shape'] = rng.choice([[rng.randrange(50, 300)], [12, 11]])

    def run(self, c, p):
        k = c.rng('k').random((*p['shape'], p['d'])) * 7 - 2
        kw = {}
        if p['what'] == 'D':
            m, t = models.ph(c, nat=p['size'], dims=p['d'])
            f = m.D
        elif p['what'] in ('H', 'v'):
            m, t = models.el(c, size=p['size'], dims=p['d'])
            f = getattr(m, p['what'])
        elif p['what'] == 'kw':
            m, t = models.el(c, size=p['size'], dims=p['d'])

            def f(*k, scale=1.0):
                return m.H(*k) * scale
            kw['scale'] = 2.5
        elif p['what'] == 'scalar':
            def f(*k):
                return np.array(np.cos(k).sum() if k else 0.0)
        else:
            def f(*k):
                x = list(k) + [0.0] * (p['d'] - len(k))
                return np.array([x, np.square(x)])
        out = c.E.dispersion.sample(f, k, **kw)
        c.keep('x', out)
        want = np.empty(out.shape, dtype=out.dtype)
        for i in np.ndindex(*p['shape']):
            if p['what'] == 'D' or p['what'] == 'H':
                want[i] = models.fourier(t, k[i])
            else:
                want[i] = f(*k[i], **kw)
        c.keep('want', want)

    def check(self, env, p, run, ref):
        for r in range(run.n):
            env.equal('rank %d of %d: sampled' % (r, run.n), run.get('x', r),
                run.get('want', r))


@register('P02', 'P13', 'P20')
class Unfold(Case):
    """Unfolding weights and mappings of eigenvectors."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), size=rng.choice([1, 2]),
            N=rng.choice([[2, 1], [1, 2], [2, 2], [3, 1]]),
            nk=rng.choice([1, 2, 3, 5, 9]), blocks=rng.random() < 0.4,
            verbosity=rng.choice([0, 0, 1]))

    def large(self, rng, p):
        p['nk'] = rng.randrange(20, 60)

    def run(self, c, p):
        E = c.E
        m, t = models.el(c, size=p['size'])
        M = m.supercell(*p['N'])
        k = c.rng('k').random((p['nk'], 2)) * 6
        K = k * p['N']
        e, u = E.dispersion.dispersion(m.H, k, vectors=True)
        e2, U = E.dispersion.dispersion(M.H, K, vectors=True)
        R = np.array(M.cells)[:, :2]
        kw = {}
        if p['blocks']:
            n = p['size']
            kw = dict(blocks0=[slice(n)] * len(R),
                blocks=[slice(i * n, i * n + n) for i in range(len(R))])
        w = E.dispersion.unfolding_weights(k, R, u, U, **kw)
        c.keep('w', w)
        if c.rank == 0:
            c.env.probe = e, e2
        perm = np.array([np.random.RandomState(p['seed'] + i).permutation(
            U.shape[-1]) for i in range(p['nk'])])
        V = np.array([U[i][:, perm[i]] for i in range(p['nk'])])
        c.keep('map', E.dispersion.map_dispersions(V, U))
        c.keep('perm', perm)
        c.keep('order', E.dispersion.band_order(e2, U))

    def check(self, env, p, run, ref):
        e, e2 = env.probe
        for r in range(run.n):
            who = 'rank %d of %d: ' % (r, run.n)
            w = run.get('w', r)
            env.true(w.min() > -1e-9, who + 'negative weights')
            env.equal(who + 'sum of weights', w.sum(axis=1),
                np.full(len(w), p['size']), 1e-6)
            for i in range(len(w)):
                for j in range(w.shape[1]):
                    if w[i, j] > 1e-4:
                        env.true(abs(e[i] - e2[i, j]).min() < 1e-6, who
                            + 'weight %g at energy of other wave vector'
                            % w[i, j])
            env.equal(who + 'mapping', run.get('map', r), run.get('perm', r))
