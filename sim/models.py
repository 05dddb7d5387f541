"""Random models and files, built from first principles (no code under test).

All of them are deterministic functions of the case parameters, such that every
rank and the reference obtain the same input.
"""

import numpy as np

RY = 13.605693122994
URY = 1822.888486192 / 2.0


def lattice(rng, dims=2, kind=None):
    """Right-handed Bravais lattice (rows)."""
    kind = kind or ['hex', 'rect', 'oblique'][rng.integers(3)]
    a = 4.0 + 2.0 * rng.random()
    c = 15.0 + 5 * rng.random() if dims < 3 else 5.0 + 2.0 * rng.random()
    if kind == 'hex':
        at = np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]])
    elif kind == 'rect':
        b = a * (1.1 + 0.3 * rng.random()) if dims > 1 else c
        at = np.diag([a, b, c])
    else:
        b = a * (1.1 + 0.3 * rng.random()) if dims > 1 else c
        phi = np.radians(70 + 15 * rng.random())
        at = np.array([[a, 0, 0], [b * np.cos(phi), b * np.sin(phi), 0],
            [0, 0, c]])
    return at


def vectors(dims, reach=1):
    r = range(-reach, reach + 1)
    z = [0]
    return [(i, j, k) for i in r for j in (r if dims > 1 else z)
        for k in (r if dims > 2 else z)]


def half(dims, reach=1):
    """Representatives of pairs R, -R."""
    return [R for R in vectors(dims, reach) if R > (0, 0, 0)]


def hopping(rng, size, dims=2, reach=1, density=0.8, real=False):
    """Dictionary R -> matrix with data[-R] = data[R]^dagger."""
    def matrix():
        m = rng.standard_normal((size, size))
        if not real:
            m = m + 1j * rng.standard_normal((size, size))
        return m

    m = matrix()
    t = {(0, 0, 0): 0.3 * (m + m.conj().T) + np.diag(np.arange(size) * 1.3)}
    chosen = [R for R in half(dims, reach) if rng.random() < density]
    for x in range(dims):
        e = tuple(int(i == x) for i in range(3))
        if e not in chosen:
            chosen.append(e)
    for R in chosen:
        m = 0.4 * matrix() / np.sum(np.square(R))
        t[R] = m
        t[tuple(-x for x in R)] = m.conj().T
    return t


def fourier(t, k):
    """H(k) = sum_R t[R] exp(ikR), written as plain loop."""
    k = tuple(k) + (0,) * (3 - len(tuple(k)))
    H = 0
    for R, m in t.items():
        H = H + m * np.exp(1j * (R[0] * k[0] + R[1] * k[1] + R[2] * k[2]))
    return np.array(H, dtype=complex)


def arrays(t, rng=None):
    keys = sorted(t)
    if rng is not None:
        rng.shuffle(keys)
        keys = [tuple(int(x) for x in k) for k in keys]
    return np.array(keys, dtype=int), np.array([t[k] for k in keys])


def positions(rng, at, n):
    """Distinct basis positions."""
    base = (np.arange(n)[:, None] + 0.5) / n
    f = np.hstack([base, 0.2 + 0.5 * rng.random((n, 1)), np.zeros((n, 1))])
    f += 0.1 * rng.random((n, 3)) * [1, 1, 0]
    return f.dot(at)


def el(c, label='el', size=2, dims=2, reach=1, real=False, nk=None,
        shuffle=True):
    """Tight-binding model."""
    rng = c.rng(label)
    t = hopping(rng, size, dims, reach, real=real)
    m = c.E.el.Model()
    m.R, m.data = arrays(t, rng if shuffle else None)
    m.data = m.data.astype(complex)
    m.size = size
    m.nk = tuple(nk) if nk is not None else tuple(2 if x < dims else 1
        for x in range(3))
    return m, t


def force_constants(rng, nat, dims=2, reach=1, stable=True):
    """Real, symmetric, obeying acoustic sum rule, positive (springs)."""
    size = 3 * nat
    C = {}

    def add(R, i, j, m):
        if R not in C:
            C[R] = np.zeros((size, size))
        C[R][3 * i:3 * i + 3, 3 * j:3 * j + 3] += m

    for R in vectors(dims, reach):
        for i in range(nat):
            for j in range(nat):
                key = (R, i, j)
                if R < (0, 0, 0) or R == (0, 0, 0) and i >= j:
                    continue
                d = sum(x * x for x in R) + 0.3
                b = rng.standard_normal((3, 3)) * 0.4
                m = (b.dot(b.T) + 0.3 * np.eye(3)) * 0.05 / d
                add(R, i, j, -m)
                add(tuple(-x for x in R), j, i, -m.T)
                add((0, 0, 0), i, i, m)
                add((0, 0, 0), j, j, m)
    return C


def ph(c, label='ph', nat=2, dims=2, reach=1, divide_mass=True, lr=False,
        nq=None, Q=False, at=None, shuffle=True, lr2d=None, L=None,
        species=None):
    """Mass-spring model."""
    E = c.E
    rng = c.rng(label)
    C = force_constants(rng, nat, dims, reach)
    if at is None:
        at = lattice(rng, dims)
    tau = positions(rng, at, nat)
    M = (10.0 + 40.0 * rng.random(nat)) * URY
    names = species or ['A', 'B', 'C', 'D', 'E'][:nat]
    options = {}
    if lr:
        eps = np.diag(3.0 + rng.random(3))
        eps += 0.1 * (lambda x: x + x.T)(rng.standard_normal((3, 3)))
        Z = rng.standard_normal((nat, 3, 3)) * 0.3
        for i in range(nat):
            Z[i] += np.eye(3) * (1.5 if i % 2 else -1.5)
        Z -= Z.mean(axis=0)
        options.update(epsil=eps, zeu=Z, lr2d=bool(lr2d), alph=0.4
            if lr2d else 0.12)
        if Q:
            q = rng.standard_normal((nat, 3, 3, 3)) * 0.5
            options['Q'] = q + q.swapaxes(2, 3)
        if L is not None:
            options['L'] = L
    m = E.ph.Model(amass=list(M), at=at, tau=tau, atom_order=list(names),
        divide_mass=divide_mass, lr=lr, **options)
    D = {}
    for R, x in C.items():
        x = x.copy()
        if divide_mass:
            s = np.repeat(1.0 / np.sqrt(M), 3)
            x = x * s[:, None] * s[None, :]
        D[R] = x
    m.R, m.data = arrays(D, rng if shuffle else None)
    m.nq = tuple(nq) if nq is not None else tuple(2 * reach + 1 if x < dims
        else 1 for x in range(3))
    m.M = np.array(m.M)
    return m, D


def coupling(rng, nph, nel, dims=2, real=False, reach=1, density=0.7,
        symmetric=True):
    """Dictionary (Rg, Rk) -> array (nph, nel, nel), symmetrized.

    g[Rg, Rk] = g[Rg - Rk, -Rk]^dagger
    """
    g = {}

    def add(Rg, Rk, m):
        key = Rg, Rk
        if key in g:
            g[key] = g[key] + m
        else:
            g[key] = m

    Rs = vectors(dims, reach)
    for Rg in Rs:
        for Rk in Rs:
            if rng.random() > density:
                continue
            m = rng.standard_normal((nph, nel, nel))
            if not real:
                m = m + 1j * rng.standard_normal((nph, nel, nel))
            m = 0.01 * m / (1.0 + np.sum(np.square(Rg))
                + np.sum(np.square(Rk)))
            add(Rg, Rk, m)
            if not symmetric:
                continue
            add(tuple(x - y for x, y in zip(Rg, Rk)), tuple(-y for y in Rk),
                m.conj().swapaxes(1, 2))
    if not g:
        return coupling(rng, nph, nel, dims, real, 0, 1.0, symmetric)
    return g


def elph(c, label='elph', nel=2, nat=1, dims=2, shared_memory=False, lr=False,
        divide_mass=True, real=False, density=0.7, at=None, degenerate=False,
        prefix=None, symmetric=True, **kwargs):
    """Localized coupling, read from files written here."""
    E = c.E
    rng = c.rng(label)
    e, t = el(c, label + '/el', nel, dims, real=real)
    p, D = ph(c, label + '/ph', nat, dims, divide_mass=divide_mass, lr=lr,
        at=at, **kwargs)
    g = coupling(rng, p.size, nel, dims, real, density=density,
        symmetric=symmetric)
    prefix = prefix or label.replace('/', '_')
    if c.rank == 0:
        for name, data in elph_files(g, p.M if divide_mass else None,
                prefix, rng if degenerate else None).items():
            c.fs.files[name] = bytearray(data)
    m = E.elph.Model(prefix + '.epmatwp', prefix + '.wigner', el=e, ph=p,
        divide_mass=divide_mass, shared_memory=shared_memory)
    return m, g


def elph_files(g, M=None, prefix='elph', rng=None):
    """Coupling in format of EPW; possibly with degenerate lattice vectors."""
    Rgs = sorted({k[0] for k in g})
    Rks = sorted({k[1] for k in g} | {(0, 0, 0)})
    nph, nel, nel = next(iter(g.values())).shape
    dense = np.zeros((len(Rgs), nph, len(Rks), nel, nel), dtype=complex)
    for (Rg, Rk), x in g.items():
        dense[Rgs.index(Rg), :, Rks.index(Rk)] = x
    dk = np.ones(len(Rks), dtype=int)
    dg = np.ones(len(Rgs), dtype=int)
    if rng is not None:
        dk[:] = rng.integers(1, 4, len(dk))
        dg[:] = rng.integers(1, 4, len(dg))
    dense *= dg[:, None, None, None, None] * dk[None, None, :, None, None]
    if M is not None:
        dense *= np.repeat(np.sqrt(M), 3)[None, :, None, None, None]
    lines = ['%d 0 %d 1 1' % (len(Rks), len(Rgs))]
    for Rs, ds in (Rks, dk), (Rgs, dg):
        for R, d in zip(Rs, ds):
            lines.append('%d %d %d' % R)
            lines.append('%d' % d)
    return {prefix + '.wigner': ('\n'.join(lines) + '\n').encode(),
        prefix + '.epmatwp': np.ascontiguousarray(dense.swapaxes(3, 4))
        .tobytes()}


def coupling_fourier(g, q, k):
    q = tuple(q) + (0,) * (3 - len(tuple(q)))
    k = tuple(k) + (0,) * (3 - len(tuple(k)))
    total = 0
    for (Rg, Rk), x in g.items():
        total = total + x * np.exp(1j * (np.dot(Rg, q) + np.dot(Rk, k)))
    return total


def elel(c, label='elel', size=2, dims=2):
    rng = c.rng(label)
    t = hopping(rng, size, dims)
    m = c.E.elel.Model()
    m.R, m.data = arrays(t, rng)
    m.data = m.data.astype(complex)
    m.size = size
    return m, t


def kpoints(rng, n, dims=2):
    return 2 * np.pi * (rng.random((n, dims)) * 2 - 0.5)


def canon_R(R, data):
    """Lattice vectors and data in sorted order; duplicates summed."""
    d = {}
    for r, x in zip(np.array(R), np.array(data)):
        key = tuple(int(i) for i in r)
        d[key] = d[key] + x if key in d else x.copy()
    keys = sorted(k for k in d if np.any(abs(d[k]) > 1e-14))
    return (np.array(keys, dtype=int).reshape((-1, 3)),
        np.array([d[k] for k in keys]))


def canon_g(Rg, Rk, data):
    g = {}
    for i, a in enumerate(np.array(Rg)):
        for j, b in enumerate(np.array(Rk)):
            key = tuple(int(x) for x in a) + tuple(int(x) for x in b)
            if np.any(abs(data[i, :, j]) > 1e-14):
                g[key] = g.get(key, 0) + np.array(data[i, :, j])
    keys = sorted(g)
    return (np.array(keys, dtype=int).reshape((-1, 6)),
        np.array([g[k] for k in keys]))


SHELLS = {
    60: [[(1, 0), (0, 1), (1, 1)], [(1, 2), (2, 1), (1, -1)]],
    120: [[(1, 0), (0, 1), (1, -1)], [(1, 1), (2, -1), (1, -2)]],
    90: [[(1, 0), (0, 1)], [(1, 1), (1, -1)]],
    }


def symmetric(c, label='sym', size=2, angle=60):
    """Tight-binding model with full symmetry of reciprocal lattice angle."""
    rng = c.rng(label)
    t = {}

    def draw():
        m = rng.standard_normal((size, size))
        return (0.2 * (m + m.T)).astype(complex)

    t[0, 0, 0] = draw() + np.diag(np.arange(size) * 1.7)
    for shell in SHELLS[angle]:
        m = draw()
        for i, j in shell:
            t[i, j, 0] = m
            t[-i, -j, 0] = m
    m = c.E.el.Model()
    m.R, m.data = arrays(t, rng)
    m.size = size
    m.nk = (2, 2, 1)
    return m, t
