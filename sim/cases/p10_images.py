"""Images of the Brillouin zone and resampled data."""

import numpy as np

from ..run import Case, loudness, register


def wave(p, i, k1, k2):
    """Some periodic function of continuous mesh indices."""
    n = p['nk']
    g = np.random.default_rng([p['seed'], 10, i])
    a, b, c = g.standard_normal(3)
    k1, k2 = 2 * np.pi * k1 / n, 2 * np.pi * k2 / n
    return a * np.cos(k1 + b) + c * np.sin(k2) + np.cos(k1 - k2)


def vectors(angle, angle0=0.0):
    a = np.radians([angle0, angle0 + angle])
    return np.array([np.cos(a), np.sin(a)]).T


def centers(low, high, resolution):
    n = int(round(resolution * (high - low)))
    return low + (high - low) * (np.arange(n) + 0.5) / n


class ImageCase(Case):
    def window(self, rng):
        x = rng.choice([0.4, 0.6, 1.0])
        y = rng.choice([0.4, 0.5, 1.0])
        return dict(seed=rng.randrange(10 ** 6), nk=rng.choice([1, 2, 3, 4]),
            box=[rng.choice([-x, 0.0]), x, rng.choice([-y, 0.1]), y],
            resolution=rng.choice([2, 3, 4, 6]), angle=rng.choice([60, 90,
            120]), how=rng.choice(['linear', 'linear', 'Fourier', 'own']),
            broadcast=rng.random() < 0.6, verbosity=rng.choice([0, 0, 1]))

    def method(self, c, p, count):
        """Interpolation routine to be used and the data to be passed."""
        i = np.arange(p['nk'])
        n = p['nk'], p['nk']
        data = np.array([wave(p, j, *np.meshgrid(i, i, indexing='ij'))
            for j in range(count)]).reshape((count, *n))
        if p['how'] == 'own':
            data[:] = np.arange(count)[:, None, None]

            def own(data, angle=60):
                j = int(data.flat[0])
                return lambda k1, k2: wave(p, j, k1, k2)
            return data, own
        return data, getattr(c.E.bravais, '%s_interpolation' % p['how'])

    def show(self, c, p, name, image, points=None):
        if points is not None:
            c.keep('points', points)
        if not p['broadcast'] and c.rank:
            c.env.true(image is None, 'rank %d: image on process not entitled '
                'to it: %r' % (c.rank, type(image)))
        c.keep(name, image, root=not p['broadcast'])
        c.E.misc.verbosity = 0


@register('P10', 'P13', 'P24', 'P23', 'P22')
class Plot(ImageCase):
    """Function on section of reciprocal plane."""

    def gen(self, rng):
        p = self.window(rng)
        p['return_k'] = rng.random() < 0.4
        return p

    def large(self, rng, p):
        p['resolution'] = rng.choice([12, 20])

    def run(self, c, p):
        c.E.misc.verbosity = loudness(p)
        data, method = self.method(c, p, 1)
        out = c.E.plot.plot(data[0], *p['box'], p['resolution'], method,
            p['angle'], p['return_k'], p['broadcast'])
        *k, image = out if p['return_k'] else [out]
        self.show(c, p, 'image', image, k)

    def check(self, env, p, run, ref):
        if p['how'] != 'own':
            return
        kx = centers(*p['box'][:2], p['resolution'])
        ky = centers(*p['box'][2:], p['resolution'])[::-1]
        a = vectors(180 - p['angle'])
        k = np.array(np.meshgrid(kx, ky)).transpose(1, 2, 0).dot(a.T)
        want = wave(p, 0, *(p['nk'] * k.transpose(2, 0, 1)))
        for r in range(run.n if p['broadcast'] else 1):
            env.equal('rank %d of %d: image' % (r, run.n), run.get('image', r),
                want)
            if p['return_k']:
                env.equal('points', run.get('points', r), [kx, ky])


@register('P10', 'P13', 'P24', 'P23')
class DoublePlot(ImageCase):
    """Brillouin zone made of Brillouin zones."""

    def gen(self, rng):
        p = self.window(rng)
        p['nq'] = rng.choice([1, 2, 3])
        p['part'] = rng.random() < 0.5
        p['outside'] = rng.choice([0.0, -7.0])
        p['outlines'] = rng.random() < 0.3
        return p

    def large(self, rng, p):
        p['resolution'] = rng.choice([10, 16])

    def points(self, p):
        n = p['nq']
        q = [[i, j] for i in range(-n, n + 1) for j in range(-n, n + 1)]
        if p['part']:
            g = np.random.default_rng([p['seed'], 11])
            q = [q[i] for i in sorted(g.permutation(len(q))[:len(q) // 2])]
        return q

    def run(self, c, p):
        c.E.misc.verbosity = loudness(p)
        q = self.points(p)
        data, method = self.method(c, p, len(q))
        out = c.E.plot.double_plot(data, 2 * np.pi * np.array(q) / p['nq'],
            p['nq'], *p['box'], p['resolution'], method, p['angle'],
            p['outside'], p['outlines'], p['broadcast'])
        image, lines = out if p['outlines'] else (out, None)
        self.show(c, p, 'image', image, lines)

    def check(self, env, p, run, ref):
        if p['how'] != 'own':
            return
        q = np.array(self.points(p))
        kx = centers(*p['box'][:2], p['resolution'])
        ky = centers(*p['box'][2:], p['resolution'])[::-1]
        a = vectors(180 - p['angle'])
        images = [run.get('image', r) for r in range(run.n if p['broadcast']
            else 1)]
        env.equal('shape', images[0].shape, (len(ky), len(kx)))
        # shortest reciprocal vectors according to angle
        metric = a.dot(a.T)
        metric = np.linalg.inv(metric)
        every = np.array([[i, j] for i in range(-9, 10)
            for j in range(-9, 10)])
        for i, y in enumerate(ky):
            for j, x in enumerate(kx):
                k = a.dot([x, y]) * p['nq']
                d = every - k
                d = np.einsum('ni,ij,nj->n', d, metric, d)
                first, second = np.argsort(d)[:2]
                if d[second] - d[first] < 1e-6:
                    continue
                found = np.flatnonzero((q == every[first]).all(axis=1))
                want = wave(p, found[0], *(p['nk'] * k)) if len(found) \
                    else p['outside']
                for r, image in enumerate(images):
                    env.equal('rank %d of %d: pixel %d, %d' % (r, run.n, i,
                        j), image[i, j], want)


@register('P10', 'P13', 'P24', 'P23', 'P22')
class ZonePlot(ImageCase):
    """Brillouin zone, possibly made of wedges."""

    def gen(self, rng):
        p = self.window(rng)
        p.update(points=rng.choice([1, 2, 3, 5, 7]), angle0=rng.choice([0, 0,
            30, 15]), wedges=rng.choice([0, 0, 1, 2, 3]), even=rng.random()
            < 0.3, outside=rng.choice([0.0, -7.0]), complex=rng.random() < 0.2,
            return_k=rng.random() < 0.4)
        if p['complex']:
            p['how'] = 'linear'
        return p

    def large(self, rng, p):
        p['points'] = rng.choice([12, 25])

    def run(self, c, p):
        c.E.misc.verbosity = loudness(p)
        data, method = self.method(c, p, max(1, p['wedges']))
        if p['how'] == 'own':
            # called without angle
            inner = method
            method = lambda data: np.vectorize(inner(data), otypes=[float])
        if p['complex']:
            data = data * (1 + 2j)
        out = c.E.plot.toBZ(data if p['wedges'] else data[0], p['points'],
            method, p['angle'], p['angle0'], p['outside'], p['return_k'],
            even=p['even'], broadcast=p['broadcast'])
        *k, image = out if p['return_k'] else [out]
        self.show(c, p, 'image', image, k)
        only = c.E.plot.toBZ(points=p['points'], angle=p['angle'],
            angle0=p['angle0'], even=p['even'], return_only_k=True)
        c.keep('k', list(only))
        if p['return_k']:
            c.env.equal('sampling', list(only), k)

    def check(self, env, p, run, ref):
        _, _, kx, ky = run.get('k')
        for r in range(run.n if p['broadcast'] else 1):
            image = run.get('image', r)
            env.equal('shape', image.shape, (len(ky), len(kx)))
            if p['how'] != 'own':
                continue
            a = vectors(p['angle'], p['angle0'])
            b = np.linalg.inv(a).T
            every = np.array([[i, j] for i in range(-2, 3)
                for j in range(-2, 3)]).dot(b)
            n = max(1, p['wedges'])
            for i, y in enumerate(ky):
                for j, x in enumerate(kx):
                    # closer to the origin than to any reciprocal vector?
                    d = ((every - [x, y]) ** 2).sum(axis=1)
                    d = np.delete(d, 12) - d[12]
                    if abs(d.min()) < 1e-6:
                        continue
                    if d.min() < 0:
                        want = p['outside']
                    else:
                        phi = (np.arctan2(y, x) - np.radians(p['angle0'])) \
                            % (2 * np.pi) * n / (2 * np.pi)
                        if abs(phi - round(phi)) < 1e-6:
                            continue
                        want = wave(p, int(phi), *(p['nk'] * a.dot([x, y])))
                    env.equal('rank %d of %d: pixel %d, %d' % (r, run.n, i,
                        j), image[i, j], want)


class Color:
    def __init__(self, x):
        self.x = x

    def RGB(self):
        return 255 * self.x, 10.0, 255 * (1 - self.x) ** 2


class Map:
    """Stand-in for color map of StoryLines."""

    def __init__(self):
        self.x = [0.0, '0.5', 1.0]

    def __call__(self, x):
        return Color(x)


@register('P10', 'P13', 'P14', 'P23')
class Colorize(Case):
    """Colored images, by all processes or by groups."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), shape=[rng.choice([1, 2, 3,
            5]), rng.choice([1, 2, 4])], groups=rng.choice([0, 0, 1, 2, 3]),
            limits=rng.random() < 0.5, verbosity=rng.choice([0, 0, 1]))

    def large(self, rng, p):
        p['shape'] = [rng.choice([20, 33]), rng.choice([7, 16])]

    def run(self, c, p):
        c.E.misc.verbosity = loudness(p)
        comm = c.E.MPI.comm
        g = c.rank % p['groups'] if p['groups'] else 0
        kw = {}
        if p['groups']:
            kw['comm'] = comm.Split(g, c.rank)
        for i in range(1 + g):
            data = c.rng('data', i).standard_normal(p['shape'])
            if p['limits']:
                kw.update(minimum=-0.5, maximum=1.5)
            elif data.size == 1:
                kw.update(minimum=data.min() - 1, maximum=data.max() + 1)
            cmap = Map()
            image = c.E.plot.color(data, cmap, **kw)
            low = kw.get('minimum', data.min())
            high = kw.get('maximum', data.max())
            x = np.clip((data - low) / (high - low), 0, 1)
            c.env.equal('rank %d: image %d' % (c.rank, i), image, np.stack((
                255 * x, 0 * x + 10, 255 * (1 - x) ** 2), axis=-1))
            c.env.equal('color map', cmap.x[1], (0.5 - low) / (high - low))
            if not i:
                c.keep('image', image)
        c.E.misc.verbosity = 0


@register('P10', 'P02', 'P13', 'P21', 'P23', weight=2)
class Resize(Case):
    """Data on other mesh."""

    def gen(self, rng):
        d = rng.choice([1, 2, 2])
        p = dict(seed=rng.randrange(10 ** 6), d=d, old=[rng.choice([1, 2, 3,
            4]) for _ in range(d)], new=[rng.choice([1, 2, 3, 4, 6])
            for _ in range(d)], angle=rng.choice([60, 90, 120]),
            extra=[rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 0, 1,
            2]))], period=rng.choice([None, None, 2.0]), periodic=rng.random()
            < 0.7, kind=rng.choice(['float', 'float', 'complex', 'polar']))
        if p['kind'] == 'complex':
            p['period'] = None
        if p['kind'] == 'polar':
            p['period'] = None
        if not p['periodic']:
            p['new'] = [max(2, n) for n in p['new']]
        axes = list(range(d + len(p['extra'])))
        rng.shuffle(axes)
        p['axes'] = axes[:d]
        return p

    def large(self, rng, p):
        p['new'] = [rng.choice([9, 14, 20]) for _ in p['new']]

    def run(self, c, p):
        rng = c.rng('data')
        front = rng.standard_normal((*p['old'], *p['extra']))
        if p['kind'] in ('complex', 'polar'):
            front = front + 1j * rng.standard_normal(front.shape)
        n = front.ndim
        order = p['axes'] + [i for i in range(n) if i not in p['axes']]
        data = np.transpose(front, np.argsort(order))
        kw = dict(angle=p['angle'], period=p['period'], polar=p['kind']
            == 'polar', periodic=p['periodic'])
        if p['d'] == 1:
            new = c.E.bravais.resize(data, p['new'][0], axes=p['axes'][0],
                **kw)
        else:
            new = c.E.bravais.resize(data, tuple(p['new']), axes=tuple(
                p['axes']), **kw)
        c.keep('data', data)
        c.keep('new', new)
        c.env.equal('shape', np.transpose(new, order).shape, (*p['new'],
            *p['extra']))
        # points of both meshes
        new = np.transpose(new, order)
        for i in np.ndindex(*p['new']):
            if p['periodic']:
                x = [a * b / m for a, b, m in zip(i, p['old'], p['new'])]
            else:
                x = [a * (b - 1) / (m - 1) for a, b, m in zip(i, p['old'],
                    p['new'])]
            j = tuple(int(round(y)) for y in x)
            if not np.allclose(j, x):
                continue
            a, b = new[i], front[j]
            if p['period']:
                d = (a - b) / p['period']
                a, b = d - np.round(d), 0 * d
            c.env.equal('rank %d: common point %s' % (c.rank, i), a, b)
