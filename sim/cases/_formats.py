"""File formats: how to write, read and what to expect, from first principles.

Formats with `write` are written by the code under test, those with `make` by
the code in this module, which returns files and expected content.
"""

import zlib

import numpy as np

from .. import models

RY = 13.605693122994
CMM1 = 0.00012398419843320028


def rng(p, *labels):
    return np.random.default_rng([p['seed'], zlib.crc32('/'.join(map(str,
        labels)).encode())])


def lines(*rows):
    return ''.join(r + '\n' for r in rows)


class Format:
    collective = True   # opened on first process only
    root = False        # content available on first process only
    tol = 2e-6
    write = None
    make = None
    weight = 1
    empty = False       # unreadable files may count as empty

    def gen(self, r):
        return {}

    def read(self, c, p):
        raise NotImplementedError

    def expected(self, c, p):
        return None


FORMATS = {}


def form(cls):
    FORMATS[cls.__name__] = cls()
    return cls


# -------------------------------------------------------------- electrons


def sizes(r):
    return dict(size=r.choice([1, 2, 3]), dims=r.choice([1, 2, 2, 3]))


def hop(p, label='t'):
    return models.hopping(rng(p, label), p['size'], p['dims'])


@form
class hrdat(Format):
    """Tight-binding model to and from file of Wannier90."""

    weight = 2

    def gen(self, r):
        return dict(sizes(r), rydberg=r.random() < 0.4, back=r.random() < 0.4,
            short=r.random() < 0.4)

    def write(self, c, p):
        m, t = models.el(c, 't', p['size'], p['dims'])
        m.rydberg = p['rydberg']
        if p['rydberg']:
            m.data /= RY
        m.to_hrdat('x')

    def read(self, c, p):
        m = c.E.el.Model('x_hr.dat' if p['short'] else 'x',
            rydberg=p['back'])
        R, data = models.canon_R(m.R, m.data)
        return [R, data * (RY if p['back'] else 1.0), m.size, m.nk]

    def expected(self, c, p):
        m, t = models.el(c, 't', p['size'], p['dims'])
        R, data = models.canon_R(m.R, m.data.round(6))
        nk = [2 * max([1] + [S[x] for S in map(tuple, m.R) if all(S[y] == 0
            for y in range(3) if y != x)]) for x in range(3)]
        return [R, data, p['size'], nk]


@form
class hrdat_raw(Format):
    def gen(self, r):
        return dict(sizes(r), divide=r.random() < 0.5, flat=r.random() < 0.3)

    def data(self, c, p):
        R, H = models.arrays(hop(p), rng(p, 'order'))
        return R, H, rng(p, 'deg').integers(1, 5, len(R))

    def write(self, c, p):
        R, H, deg = self.data(c, p)
        if c.rank == 0:
            c.E.el.write_hrdat('x', R[:, :2] if p['flat'] and p['dims'] < 3
                else R, H, deg)

    def read(self, c, p):
        return list(models.canon_R(*c.E.el.read_hrdat('x', p['divide'])))

    def expected(self, c, p):
        R, H, deg = self.data(c, p)
        H = H.round(6)
        if p['divide']:
            H = H / deg[:, None, None]
        return list(models.canon_R(R, H))


@form
class tbdat(Format):
    """Hamiltonian in other format of Wannier90, if regular one is missing."""

    def gen(self, r):
        return dict(sizes(r), divide=r.random() < 0.5)

    def make(self, p):
        R, H = models.arrays(hop(p), rng(p, 'order'))
        deg = rng(p, 'deg').integers(1, 5, len(R))
        rows = [' written on 1Jan2024 at 12:00:00']
        rows += ['%12.7f %12.7f %12.7f' % tuple(x) for x in np.eye(3) * 3]
        rows += ['%12d' % p['size'], '%12d' % len(R)]
        for i in range(0, len(R), 15):
            rows.append(''.join('%5d' % d for d in deg[i:i + 15]))
        for r, h in zip(R, H):
            rows += ['', '%5d%5d%5d' % tuple(r)]
            for b in range(p['size']):
                for a in range(p['size']):
                    rows.append('%5d%5d   %18.10E%18.10E' % (a + 1, b + 1,
                        h[a, b].real, h[a, b].imag))
        if p['divide']:
            H = H / deg[:, None, None]
        return {'x_tb.dat': lines(*rows)}, list(models.canon_R(R, H))

    def read(self, c, p):
        return list(models.canon_R(*c.E.el.read_hrdat('x', p['divide'])))


def hrdat_rows(R, H, deg):
    size = H.shape[-1]
    rows = [' written on 1Jan2024 at 12:00:00', '%12d' % size,
        '%12d' % len(R)]
    for i in range(0, len(R), 15):
        rows.append(''.join('%5d' % d for d in deg[i:i + 15]))
    for r, h in zip(R, H):
        for b in range(size):
            for a in range(size):
                rows.append(('%5d' * 5 + '%12.6f%12.6f') % (*r, a + 1, b + 1,
                    h[a, b].real, h[a, b].imag))
    return rows


@form
class wsvec(Format):
    """Hopping distributed among equivalent lattice vectors."""

    weight = 2

    def gen(self, r):
        return sizes(r)

    def make(self, p):
        g = rng(p, 'w')
        R, H = models.arrays(hop(p), rng(p, 'order'))
        H = H.round(6)
        deg = g.integers(1, 3, len(R))
        rows = ['## written on 1Jan2024 with use_ws_distance=.true.']
        const = {}
        for r, h, d in zip(R, H, deg):
            for a in range(p['size']):
                for b in range(p['size']):
                    n = int(g.integers(1, 4))
                    T = [(0, 0, 0), (2, 0, 0), (0, -2, 1)][:n]
                    rows += ['%5d%5d%5d%5d%5d' % (*r, a + 1, b + 1),
                        '%5d' % n] + ['%5d%5d%5d' % x for x in T]
                    for x in T:
                        key = tuple(int(y) + z for y, z in zip(r, x))
                        const.setdefault(key, np.zeros(h.shape, complex))
                        const[key][a, b] += h[a, b] / d / n
        return {'x_hr.dat': lines(*hrdat_rows(R, H, deg)), 'x_wsvec.dat':
            lines(*rows)}, list(models.canon_R(*models.arrays(const)))

    def read(self, c, p):
        m = c.E.el.Model('x')
        return list(models.canon_R(m.R, m.data))


@form
class bands(Format):
    def gen(self, r):
        return dict(nk=r.choice([1, 2, 5, 12]), n=r.choice([1, 3, 10, 11, 21]),
            cols=r.choice([1, 4, 10]), fmt=r.choice(['%8.3f', '%12.6f',
            '%.5f']))

    def data(self, p):
        g = rng(p, 'b')
        return (g.standard_normal((p['nk'], 3)).round(6),
            (10 * g.standard_normal((p['n'], p['nk']))).round(3))

    def write(self, c, p):
        c.E.el.write_bands('bands.dat', *self.data(p), fmt=p['fmt'],
            cols=p['cols'])

    def read(self, c, p):
        return list(c.E.el.read_bands('bands.dat'))

    def expected(self, c, p):
        k, e = self.data(p)
        x = [0.0]
        for a, b in zip(k, k[1:]):
            x.append(x[-1] + np.linalg.norm(b - a))
        return [k, np.array(x), e]


@form
class bands_plot(Format):
    collective = False

    def make(self, p):
        g = rng(p, 'b')
        n, nk = 3, 4
        x = np.cumsum(g.random(nk)).round(4)
        e = g.standard_normal((n, nk)).round(4)
        return {'x.gnu': '\n'.join(''.join('%10.4f%10.4f\n' % z
            for z in zip(x, y)) for y in e)}, [x, e.T]

    def read(self, c, p):
        return list(c.E.el.read_bands_plot('x.gnu', 3))


@form
class symmetry_points(Format):
    collective = False

    def make(self, p):
        x = rng(p, 'x').random(4).round(4)
        return {'bands.out': lines('', *['     high-symmetry point:  0.0000 '
            '0.5000 0.0000   x coordinate  %8.4f' % y for y in x], 'end')}, \
            list(x)

    def read(self, c, p):
        return c.E.el.read_symmetry_points('bands.out')


@form
class projections(Format):
    def gen(self, r):
        return dict(order=r.random() < 0.3, squared=r.random() < 0.6,
            fermi=r.random() < 0.5, other=r.random() < 0.5, old=r.random()
            < 0.4)

    def make(self, p):
        g = rng(p, 'p')
        nk, n, no = 3, 2, 3
        k = g.random((nk, 3)).round(6)
        e = np.sort(g.standard_normal((nk, n)).round(6))
        c = 0.4 * (g.standard_normal((nk, no, n)) + 1j * g.standard_normal((nk,
            no, n)))
        c = c.round(6)
        mu = 0.125
        if p['old']:
            rows = ['<Root>', '<NUMBER_OF_BANDS type="integer">', '%d' % n,
                '</NUMBER_OF_BANDS>', '<NUMBER_OF_K-POINTS type="integer">',
                '%d' % nk, '<NUMBER_OF_ATOMIC_WFC type="x">', '%d' % no,
                '<FERMI_ENERGY type="real">', '%.6f' % mu,
                '<K-POINTS type="real">']
            rows += ['%.6f %.6f %.6f' % tuple(x) for x in k]
            for ik in range(nk):
                rows += ['<EIG type="real">'] + ['%.6f' % x for x in e[ik]]
            for ik in range(nk):
                for a in range(no):
                    rows += ['<ATMWFC.%d type="complex">' % (a + 1)]
                    rows += ['%.6f,%.6f' % (z.real, z.imag)
                        for z in c[ik, a]]
            rows += ['</Root>']
        else:
            rows = ['<?xml version="1.0"?>', '<HEADER NUMBER_OF_BANDS="%d" '
                'NUMBER_OF_K-POINTS="%d" NUMBER_OF_SPIN_COMPONENTS="1" '
                'NUMBER_OF_ATOMIC_WFC="%d" NUMBER_OF_ELECTRONS="3.0" '
                'FERMI_ENERGY="%.6f"/>' % (n, nk, no, mu), '<EIGENSTATES>']
            for ik in range(nk):
                rows += ['<K-POINT Weight="0.1">', '%.6f %.6f %.6f'
                    % tuple(k[ik]), '</K-POINT>', '<E>']
                rows += [' '.join('%.6f' % x for x in e[ik]), '</E>',
                    '<PROJS>']
                for a in range(no):
                    rows += ['<ATOMIC_WFC index="%d" spin="1">' % (a + 1)]
                    rows += ['%.6f %.6f' % (z.real, z.imag)
                        for z in c[ik, a]]
                    rows += ['</ATOMIC_WFC>']
                rows += ['</PROJS>']
            rows += ['</EIGENSTATES>']
        if p['order']:
            return {'a.xml': lines(*rows)}, None
        x = [0.0]
        for a, b in zip(k, k[1:]):
            x.append(x[-1] + np.linalg.norm(b - a))
        c = c.swapaxes(1, 2)
        if p['old'] or p['squared']:
            c = abs(c) ** 2
            if p['other'] and not p['old']:
                c = np.dstack([c, 1 - c.sum(axis=2)])
        return {'a.xml': lines(*rows)}, [np.array(x), k, e - mu * p['fermi'],
            c]

    def read(self, c, p):
        kw = dict(order=p['order'], from_fermi=p['fermi'])
        if p['old']:
            return list(c.E.el.read_atomic_projections_old('a.xml', **kw))
        return list(c.E.el.read_atomic_projections('a.xml', squared=
            p['squared'], other=p['other'] and p['squared'], **kw))


@form
class projwfc(Format):
    def make(self, p):
        g = rng(p, 'o')
        rows, names = ['     Atomic states used for projection',
            '     (read from pseudopotential files):', ''], []
        l_names = ['s'], ['pz', 'px', 'py'], ['dz2', 'dxz', 'dyz', 'dx2-y2',
            'dxy']
        n = 0
        for i, X in enumerate(['Ta', 'S', 'S']):
            for l in sorted(set(int(x) for x in g.integers(0, 3, 2))):
                for m in range(2 * l + 1):
                    n += 1
                    rows.append('     state #%4d: atom %3d (%-3s), wfc %2d '
                        '(l=%d m=%2d)' % (n, i + 1, X, l + 1, l, m + 1))
                    names.append([X, '%d%s' % (l + 1, l_names[l][m])])
        out = []
        for X, o in names:
            same = [j for j, y in enumerate(names) if y == [X, o]]
            out.append('%s-%s' % (X, o) if len(same) == 1 else None)
        count = {}
        for j, (X, o) in enumerate(names):
            if out[j] is None:
                count[X, o] = count.get((X, o), 0) + 1
                out[j] = '%s%d-%s' % (X, count[X, o], o)
        return {'p.out': lines('', *rows, '', 'end')}, out + ['X-x']

    def read(self, c, p):
        return c.E.el.read_projwfc_out('p.out')


def pwo(p, nk=2, n=3):
    g = rng(p, 'pwo')
    e = np.sort(g.standard_normal((nk, n)).round(4))
    w = (np.ones(nk) * 2 / nk).round(7)
    k = g.random((nk, 3)).round(7)
    x = dict(e=e, k=k, w=w, mu=0.0625, E=-12.345678, Ne=4.0, kT=0.02)
    rows = ['', '     number of electrons       =         %.2f' % x['Ne'],
        '     number of Kohn-Sham states=          %d' % n,
        '     number of k points=   %d  Fermi-Dirac smearing, width (Ry)=  '
        '%.4f' % (nk, x['kT']), '                       cart. coord. in '
        'units 2pi/alat']
    for i in range(nk):
        rows.append('        k(%5d) = (%12.7f%12.7f%12.7f), wk =%12.7f'
            % (i + 1, *k[i], w[i]))
    rows += ['', '     End of self-consistent calculation']
    for i in range(nk):
        rows += ['', '          k =%7.4f%7.4f%7.4f (   100 PWs)   bands '
            '(ev):' % tuple(k[i]), '', '  ' + ''.join('%9.4f' % y
            for y in e[i])]
    rows += ['']
    if p['metal']:
        rows += ['     the Fermi energy is  %10.4f ev' % x['mu']]
    elif p.get('gap'):
        rows += ['     highest occupied, lowest unoccupied level (ev): '
            '%10.4f%10.4f' % (x['mu'] - 0.5, x['mu'] + 0.5)]
    else:
        rows += ['     highest occupied level (ev): %10.4f' % x['mu']]
    rows += ['', '!    total energy              =  %17.8f Ry' % x['E']]
    for name, value in [('one-electron', 1.5), ('hartree', 2.5), ('xc', -3.25),
            ('ewald', -4.125)]:
        rows.append('     %s contribution = %17.8f Ry' % (name, value))
    rows.append('     smearing contrib. (-TS)   = %17.8f Ry' % -0.01)
    return {'pw.out': lines(*rows)}, x


@form
class Fermi_level(Format):
    def gen(self, r):
        return dict(metal=r.random() < 0.6)

    def make(self, p):
        files, x = pwo(p)
        return files, x['mu']

    def read(self, c, p):
        return c.E.el.read_Fermi_level('pw.out')


@form
class pw_output(Format):
    def gen(self, r):
        return dict(metal=r.random() < 0.5, gap=r.random() < 0.5)

    def make(self, p):
        files, x = pwo(p)
        return files, [x['e'] - x['mu'] if p['metal'] or p['gap'] else x['e'],
            x['Ne'], x['E'] * RY]

    def read(self, c, p):
        return list(c.E.el.read_pwo('pw.out'))


@form
class energies(Format):
    def gen(self, r):
        return dict(metal=True)

    def make(self, p):
        files, x = pwo(p)
        return files, {'one-electron': '1.50000000', 'hartree': '2.50000000',
            'xc': '-3.25000000', 'ewald': '-4.12500000',
            'smearing': '-0.01000000', 'total': '-12.34567800'}

    def read(self, c, p):
        return c.E.el.read_energy_contributions_scf_out('pw.out')


@form
class eps_nk(Format):
    collective = False

    def gen(self, r):
        return dict(metal=True)

    def make(self, p):
        files, x = pwo(p)
        f = 1 / (1 + np.exp((x['e'] - x['mu']) / (x['kT'] * RY)))
        return files, [x['e'], np.hstack([x['k'], x['w'][:, None]]), f,
            'Fermi-Dirac', x['mu'], x['kT'] * RY]

    def read(self, c, p):
        return list(c.E.el.read_eps_nk_from_qe_pwo('pw.out'))


@form
class eig(Format):
    collective = False

    def make(self, p):
        e = rng(p, 'e').standard_normal((3, 4)).round(6)
        return {'x.eig': lines(*['%5d%5d%18.12f' % (n + 1, k + 1, e[n, k])
            for k in range(4) for n in range(3)])}, e

    def read(self, c, p):
        return c.E.el.read_wannier90_eig_file('x', 3, 4)


@form
class decay(Format):
    collective = False

    def make(self, p):
        x = rng(p, 'e').random((5, 2)).round(6)
        return {'decay.H': lines(' # R [Ang]   max |H| [Ry] at R',
            *['%12.6f %12.6f' % tuple(y) for y in x])}, [x[:, 0], x[:, 1]]

    def read(self, c, p):
        return list(c.E.el.read_decayH('decay.H'))


@form
class pp_density(Format):
    collective = False

    def make(self, p):
        rho = rng(p, 'rho').random(20).round(6)
        rows = ['', '5 2 2 5 2 2 1 1', '0 8.0 0.0 1.5 0.0 0.0 0.0'.replace('0 ',
            '1 ', 1), '0.0 4.0 30.0 0', '1 H 1.00', '1 0.0 0.0 0.0 1']
        rows += [' '.join('%.6f' % x for x in rho[i:i + 5])
            for i in range(0, 20, 5)]
        return {'rho': lines(*rows)}, None

    def read(self, c, p):
        return list(c.E.el.read_pp_density('rho'))


def binary(*items):
    return b''.join(np.asarray(x).astype(d).tobytes() for x, d in items)


@form
class rhoG(Format):
    collective = False

    def make(self, p):
        g = rng(p, 'rho')
        n = 4
        mill = g.integers(-3, 4, (n, 3))
        rho = g.standard_normal(n) + 1j * g.standard_normal(n)
        i, d = np.int32, np.float64
        return {'rho': binary(([12, 0, n, 1, 12, 72], i), (np.eye(3), d),
            ([72, 12 * n], i), (mill, i), ([12 * n, 16 * n], i),
            (rho, np.complex128), ([16 * n], i))}, [rho, mill.astype(float), n,
            (4.0 / 0.529177210903) ** 3, mill]

    def read(self, c, p):
        rho, g, n, vol, mill = c.E.el.read_rhoG_density('rho', 1, a=4.0)
        return [rho, g, int(n), float(vol), mill]


@form
class wfc(Format):
    collective = False

    def make(self, p):
        g = rng(p, 'wfc')
        n, nb = 3, 2
        mill = g.integers(-3, 4, (n, 3))
        evc = g.standard_normal((nb, n)) + 1j * g.standard_normal((nb, n))
        i, d = np.int32, np.float64
        data = [([44, 1], i), (g.random(3), d), ([1, 0], i), (1.0, d),
            ([44, 16, n, n, 1, nb, 16, 72], i), (np.eye(3), d), ([72, 12 * n],
            i), (mill, i), ([12 * n], i)]
        for x in evc:
            data += [([16 * n], i), (x, np.complex128), ([16 * n], i)]
        return {'wfc.dat': binary(*data)}, [evc, n, mill]

    def read(self, c, p):
        out = c.E.el.read_wfc('wfc.dat', 1, a=4.0)
        return [out[0], int(out[1]), out[-1]]


@form
class POSCAR(Format):
    collective = False

    def make(self, p):
        g = rng(p, 'x')
        t = g.random((3, 3)).round(6)
        A, B = g.random((2, 3)).round(6), g.random((1, 3)).round(6)
        row = lambda x: '%.6f %.6f %.6f' % tuple(x)
        return {'POSCAR': lines('title', '1.0', *map(row, t), 'Ta S', '2 1',
            'Selective', 'Direct', *[row(x) + ' T T T' for x in A],
            *[row(x) + ' T T T' for x in B])}, [*t, dict(Ta=A, S=B)]

    def read(self, c, p):
        return list(c.E.bravais.readPOSCAR('POSCAR'))


# --------------------------------------------------------------- vibrations


def phonons(c, p):
    return models.ph(c, 'ph', p['nat'], p['dims'], divide_mass=p['mass'],
        lr=p.get('lr', False), lr2d=p.get('dims', 3) < 3, shuffle=True,
        species=p.get('species'), nq=p.get('nq'))


@form
class flfrc(Format):
    """Mass-spring model."""

    weight = 3

    def gen(self, r):
        nat = r.choice([1, 1, 2])
        p = dict(nat=nat, dims=r.choice([1, 2, 2, 3] if nat < 2 else [1, 2]),
            mass=r.random() < 0.6, back=r.random() < 0.6, lr=r.random() < 0.3)
        if nat > 1 and not p['lr'] and r.random() < 0.5:
            p['species'] = ['A', 'A']
            p['isotopes'] = r.random() < 0.5
        if r.random() < 0.4:
            # several lattice vectors are equivalent
            p['nq'] = [r.choice([1, 2, 2, 3]) if x < p['dims'] else 1
                for x in range(3)]
        return p

    def model(self, c, p):
        m, D = phonons(c, p)
        if p.get('species') and not p.get('isotopes'):
            # same element, same mass
            if p['mass']:
                s = np.sqrt(np.repeat(m.M, 3))
                m.data *= s[:, None] * s
            m.M[1] = m.M[0]
            if p['mass']:
                m.data /= m.M[0]
        return m

    def write(self, c, p):
        self.model(c, p).to_flfrc('ifc')

    def content(self, c, p, m):
        s = np.ones(3 * p['nat'])
        if m.divide_mass:
            s = np.sqrt(np.repeat(m.M, 3))
        D = [m.D(*(2 * np.pi * np.array(q) / m.nq)) * s[:, None] * s
            for q in np.ndindex(*m.nq)]
        return [np.array(D), m.nq, m.a, m.r, m.atom_order, np.array(m.M), m.eps, m.Z,
            float(m.alpha), m.lr]

    def read(self, c, p):
        kw = dict(lr2d=p['dims'] < 3) if p['lr'] else {}
        return self.content(c, p, c.E.ph.Model('ifc', lr=p['lr'],
            divide_mass=p['back'], **kw))

    def expected(self, c, p):
        return self.content(c, p, self.model(c, p))


@form
class flfrc_raw(Format):
    """Force constants or dynamical matrices as such."""

    collective = False
    weight = 2

    def gen(self, r):
        return dict(nat=r.choice([1, 2]), nq=[r.choice([1, 2, 3])
            for _ in range(3)], dyn=r.random() < 0.5, lr=r.random() < 0.6,
            alph=r.random() < 0.5)

    def data(self, p):
        g = rng(p, 'f')
        nat = p['nat']
        at = models.lattice(g, 3)
        tau = g.random((nat, 3)).dot(at)
        if p['dyn']:
            n = 3 * nat
            q = g.random((p['nq'][0], 3))
            D = g.standard_normal((len(q), n, n)) + 1j * g.standard_normal((
                len(q), n, n))
            phid = q, D
        else:
            phid = g.standard_normal((nat, nat, *p['nq'], 3, 3))
        out = [phid, 1e4 * (1 + g.random(nat)), at, tau, ['Ta', 'S'][:nat]]
        if p['lr']:
            out += [0.5 if p['alph'] and not p['dyn'] else None,
                g.standard_normal((3, 3)), g.standard_normal((nat, 3, 3))]
        return out

    def write(self, c, p):
        if c.rank == 0:
            c.E.ph.write_flfrc('ifc', *self.data(p))

    def read(self, c, p):
        return list(c.E.ph.read_flfrc('ifc'))

    def expected(self, c, p):
        out = self.data(p)
        return out + [None] * (8 - len(out))


def element(tag, text, **attrs):
    return '<%s%s>%s</%s>' % (tag, ''.join(' %s="%s"' % x
        for x in attrs.items()), text, tag)


def numbers(x):
    return '\n' + '\n'.join(repr(float(y)) for y in np.ravel(x)) + '\n'


@form
class flfrc_xml(Format):
    collective = False

    def gen(self, r):
        p = flfrc_raw.gen(self, r)
        p['broken'] = r.choice(['', '', 'end', 'case'])
        p['cell'] = r.choice([0, 4])
        return p

    def make(self, p):
        phid, M, at, tau, order, *rest = flfrc_raw.data(self, dict(p, alph=
            True))
        alph, eps, Z = rest or [None] * 3
        nat = p['nat']
        a = np.linalg.norm(at[0])
        if p['cell'] == 4:
            at = np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0,
                2.5 * a]])
        rows = ['<?xml version="1.0"?>', '<Root>', '<GEOMETRY_INFO>',
            element('NUMBER_OF_TYPES', nat), element('NUMBER_OF_ATOMS', nat),
            element('BRAVAIS_LATTICE_INDEX', p['cell']), element(
            'CELL_DIMENSIONS', '%r 0.0 %r 0.0 0.0 0.0' % (float(a), 2.5)),
            element('AT', numbers(at / a))]
        for i in range(nat):
            rows += [element('TYPE_NAME.%d' % (i + 1), order[i]),
                element('MASS.%d' % (i + 1), repr(float(M[i] / models.URY)))]
        for i in range(nat):
            rows.append('<ATOM.%d SPECIES="%s" INDEX="%d" TAU="%s"/>' % (i + 1,
                order[i], i + 1, ' '.join(repr(float(x)) for x in tau[i] / a)))
        if p['dyn']:
            rows.append(element('NUMBER_OF_Q', len(phid[0])))
        rows += ['</GEOMETRY_INFO>', '<DIELECTRIC_PROPERTIES>']
        if eps is not None:
            rows += [element('EPSILON', numbers(eps)), '<ZSTAR>']
            rows += [element('Z_AT_.%d' % (i + 1), numbers(z))
                for i, z in enumerate(Z)]
            rows += ['</ZSTAR>']
        rows += ['</DIELECTRIC_PROPERTIES>']
        if p['dyn']:
            alph = None
            for iq, (q, D) in enumerate(zip(*phid)):
                rows += ['<DYNAMICAL_MAT_.%d>' % (iq + 1), element('Q_POINT',
                    numbers(q * a / (2 * np.pi)))]
                for i in range(nat):
                    for j in range(nat):
                        x = D[3 * i:3 * i + 3, 3 * j:3 * j + 3].T
                        rows.append(element('PHI.%d.%d' % (i + 1, j + 1),
                            numbers(np.ravel([x.real, x.imag], order='F'))
                            if False else numbers(np.array([x.real.ravel(),
                            x.imag.ravel()]).T)))
                rows += ['</DYNAMICAL_MAT_.%d>' % (iq + 1)]
        else:
            rows += ['<INTERATOMIC_FORCE_CONSTANTS>', element(
                'MESH_NQ1_NQ2_NQ3', '%d %d %d' % tuple(p['nq']))]
            if alph is not None:
                rows.append(element('alpha_ewald', alph))
            for i in range(nat):
                for j in range(nat):
                    for m in np.ndindex(*p['nq'][::-1]):
                        m = m[::-1]
                        tag = 's_s1_m1_m2_m3.%d.%d.%d.%d.%d' % (i + 1, j + 1,
                            m[0] + 1, m[1] + 1, m[2] + 1)
                        rows.append(element(tag, element('IFC', numbers(
                            phid[(i, j) + m].T))))
            rows += ['</INTERATOMIC_FORCE_CONSTANTS>']
        rows += {'': ['</Root>'], 'end': [], 'case': ['</root>']}[p['broken']]
        return {'ifc.xml': lines(*rows)}, [phid, M, at, tau, order, alph, eps,
            Z]

    def read(self, c, p):
        return list(c.E.ph.read_flfrc('ifc.xml'))


def mesh_files(p):
    """Dynamical matrices on mesh, one file per wave vector."""
    g = rng(p, 'dyn')
    nat = p['nat']
    C = models.force_constants(g, nat, 2)
    at = models.lattice(g, 2, 'hex')
    tau = models.positions(g, at, nat)
    M = (10.0 + 40.0 * g.random(nat)) * models.URY
    b = 2 * np.pi * np.linalg.inv(at).T
    nq = p['nq']
    qs = [(i, j) for i in range(nq) for j in range(nq)]
    g.shuffle(qs)
    qs.sort(key=lambda x: x != (0, 0))
    qs = [tuple(int(y) for y in x) for x in qs]
    D = [models.fourier(C, 2 * np.pi * np.array(x) / nq) for x in qs]
    return at, tau, M, b, qs, D


@form
class fildyn(Format):
    """Dynamical matrices on mesh."""

    weight = 2

    def gen(self, r):
        return dict(nat=r.choice([1, 2]), nq=r.choice([1, 2, 3]),
            mass=r.random() < 0.5, pairs=r.random() < 0.5)

    def groups(self, p):
        at, tau, M, b, qs, D = mesh_files(p)
        i, out = 0, []
        while i < len(qs):
            step = 2 if p['pairs'] and i else 1
            out.append(list(range(i, min(i + step, len(qs)))))
            i += step
        return out

    def write(self, c, p):
        if c.rank != 0:
            return
        at, tau, M, b, qs, D = mesh_files(p)
        a = np.linalg.norm(at[0])
        groups = self.groups(p)
        c.E.ph.write_q('dyn0', [np.dot(qs[x[0]], b[:2]) / p['nq'] * a
            / (2 * np.pi) for x in groups], p['nq'])
        for n, x in enumerate(groups):
            c.E.ph.write_flfrc('dyn%d' % (n + 1), (np.array([np.dot(qs[i],
                b[:2]) / p['nq'] for i in x]), [D[i] for i in x]), M, at, tau,
                ['Ta', 'S'][:p['nat']])

    def read(self, c, p):
        m = c.E.ph.Model('dyn', divide_mass=p['mass'])
        s = np.sqrt(np.repeat(m.M, 3)) if p['mass'] else np.ones(m.size)
        D = [m.D(2 * np.pi * i / p['nq'], 2 * np.pi * j / p['nq'])
            * s[:, None] * s for i in range(p['nq']) for j in range(p['nq'])]
        return [D, m.a, m.r, m.atom_order, np.array(m.M), m.nq, m.lr]

    def expected(self, c, p):
        at, tau, M, b, qs, D = mesh_files(p)
        D = [D[qs.index((i, j))] for i in range(p['nq'])
            for j in range(p['nq'])]
        return [D, at, tau, ['Ta', 'S'][:p['nat']], M, [p['nq'], p['nq'], 1],
            False]


@form
class fildyn_freq(Format):
    """Phonon frequencies."""

    tol = 2e-5

    def gen(self, r):
        return dict(fildyn.gen(self, r), pairs=False)

    def write(self, c, p):
        FORMATS['fildyn'].write(c, p)
        c.E.ph.fildyn_freq('dyn')

    def read(self, c, p):
        return list(c.E.el.read_bands('dyn.freq'))[::2]

    def expected(self, c, p):
        at, tau, M, b, qs, D = mesh_files(p)
        a = np.linalg.norm(at[0])
        s = np.sqrt(np.repeat(M, 3))
        w = []
        for d in D:
            x = np.linalg.eigvalsh(d / s[:, None] / s)
            w.append(np.sign(x) * np.sqrt(abs(x)) * RY / CMM1)
        # rounding of acoustic modes at zone center
        w = np.array(w).T
        q = np.array([np.dot(x, b[:2]) for x in qs]) / p['nq'] * a / (2
            * np.pi)
        return [q.round(6), w]

    def canon(self, value):
        q, w = value
        w = np.array(w)
        w[abs(w) < 0.5] = 0.0
        return [q, w]


@form
class quadrupoles(Format):
    collective = False

    def data(self, p):
        g = rng(p, 'Q')
        Q = g.standard_normal((1 + p['seed'] % 3, 3, 3, 3))
        return Q + Q.swapaxes(2, 3)

    def write(self, c, p):
        if c.rank == 0:
            c.E.ph.write_quadrupole_fmt('quadrupole.fmt', self.data(p))

    def read(self, c, p):
        return c.E.ph.read_quadrupole_fmt('quadrupole.fmt')

    def expected(self, c, p):
        return self.data(p)


# ------------------------------------------------------------ input files


def pick(g, options):
    return {k: v for k, v in options.items() if g.random() < 0.6}


@form
class pwi(Format):
    weight = 2

    def gen(self, r):
        return dict(nat=r.choice([1, 2, 3]), coords=r.choice(['crystal',
            'alat', '{bohr}', 'crystal_sg']), ktyp=r.choice(['automatic',
            'gamma', 'crystal', 'tpiba', None]), cell=r.random() < 0.6)

    def data(self, p):
        g = rng(p, 'pwi')
        nat = p['nat']
        at = [['Ta', 'S', 'Se'][int(i)] for i in g.integers(0, 3, nat)]
        species = list(dict.fromkeys(at))
        s = dict(ntyp=len(species), nat=nat, ibrav=int(g.integers(0, 5)),
            at_species=species, mass=[float(x) for x in (100 * g.random(len(
            species))).round(6)], pp=[X + '.upf' for X in species], at=at,
            r=g.random((nat, 3)).round(9))
        s.update(pick(g, dict(title='a title = with, signs', prefix='x',
            outdir='../work/x', pseudo_dir='/pseudo', calculation='vc-relax',
            tprnfor=True, nstep=50, forc_conv_thr=1e-05, celldm=[5.5],
            ecutwfc=50.0, ecutrho=400.0, nbnd=12, occupations='smearing',
            smearing='m-v', degauss=0.005, nosym=False, tot_charge=-0.5,
            assume_isolated='2D', electron_maxstep=100, conv_thr=1e-12,
            mixing_beta=0.7, diagonalization='david', a=3.3, cosab=-0.5)))
        if s.get('calculation') == 'vc-relax':
            s.update(pick(g, dict(ion_dynamics='bfgs', press=0.5,
                cell_dofree='2Dxy')))
        s['coords'] = p['coords']
        if p['coords'] == 'crystal_sg':
            s['r'] = ['2c'] * nat
        if p['ktyp']:
            s['ktyp'] = p['ktyp']
            if p['ktyp'] == 'automatic':
                s['k_points'] = [4, 4, 1, 0, 0, 0]
            elif p['ktyp'] != 'gamma':
                s['nks'] = 3
                s['k_points'] = np.hstack([g.random((3, 3)).round(9),
                    np.array([[1.0], [2.0], [0.125]])])
        if p['cell']:
            s['cell_units'] = 'angstrom'
            s['r_cell'] = g.random((3, 3)).round(9)
        return s

    def write(self, c, p):
        c.E.bravais.write_pwi('pw.in', self.data(p))

    def read(self, c, p):
        return c.E.bravais.read_pwi('pw.in')

    def expected(self, c, p):
        s = self.data(p)
        s['coords'] = ''.join(x for x in s['coords'] if x not in '{ }')
        return s


@form
class pwi_ph(Format):
    """Crystal structure of mass-spring model."""

    def gen(self, r):
        return dict(nat=r.choice([1, 2]), dims=r.choice([1, 2]), mass=True,
            k=r.choice([None, 'automatic']))

    def write(self, c, p):
        m, D = phonons(c, p)
        kw = dict(ktyp='automatic', k_points=[2, 2, 1, 0, 0, 0]) if p['k'] \
            else {}
        m.to_pwi('pw.in', calculation='scf', **kw)

    def read(self, c, p):
        s = c.E.bravais.read_pwi('pw.in')
        a = np.array(s['r_cell']) * s['celldm'][0]
        return [s['nat'], s['ntyp'], s['ibrav'], s['at'], s['at_species'],
            np.array(s['mass']), a, np.dot(s['r'], a), s['coords'],
            s['cell_units'], s['calculation'], s.get('k_points')]

    def expected(self, c, p):
        m, D = phonons(c, p)
        M = np.array(m.M) / models.URY
        X = m.atom_order
        return [p['nat'], p['nat'], 0, X, X, M, m.a, m.r, 'crystal', 'alat',
            'scf', [2, 2, 1, 0, 0, 0] if p['k'] else None]


@form
class win(Format):
    def gen(self, r):
        return dict(nat=r.choice([1, 2]), nk=r.choice([[1, 1, 1], [2, 1, 1],
            [2, 2, 1]]), coords=r.choice(['frac', 'cart']))

    def data(self, p):
        g = rng(p, 'win')
        nk = int(np.prod(p['nk']))
        s = dict(proj={'Ta': 'dz2;dxy', 'f=0.3,0.7,0.5': 's'}, kpoint_path=[
            'G 0.0 0.0 0.0 M 0.5 0.0 0.0', 'M 0.5 0.0 0.0 K 0.3 0.3 0.0'],
            unit_cell=g.random((3, 3)).round(9), atoms_coords=p['coords'],
            at=['Ta', 'S'][:p['nat']], atoms=g.random((p['nat'], 3)).round(9),
            mp_grid=np.array(p['nk']), kpoints=g.random((nk, 4)).round(9))
        s.update(pick(g, dict(num_bands=12, num_wann=3, dis_win_min=-1.5,
            dis_win_max=2.5, dis_froz_min=0.0, dis_froz_max=1e-3,
            write_hr=True, bands_plot=False, dis_num_iter=100, num_iter=0,
            search_shells=12)))
        return s

    def write(self, c, p):
        c.E.bravais.write_win('x.win', self.data(p))

    def read(self, c, p):
        return c.E.bravais.read_win('x.win')

    def expected(self, c, p):
        return self.data(p)


@form
class qe_input(Format):
    """Input of several programs."""

    weight = 2

    def gen(self, r):
        return dict(program=r.choice(['ph', 'q2r', 'matdyn', 'epw']))

    def data(self, p):
        g = rng(p, 'in')
        path = ['x', 'work/x', '../a b/x'][int(g.integers(3))]
        if p['program'] == 'ph':
            return pick(g, dict(prefix='x', outdir=path, fildyn='dyn',
                fildvscf='dv', ldisp=True, nq1=3, nq2=3, nq3=1, tr2_ph=1e-15,
                alpha_mix=0.3, cdfpt=False, subspace='orbitals'))
        if p['program'] == 'q2r':
            return pick(g, dict(fildyn=path + '/dyn', flfrc=path + '/ifc',
                zasr='crystal'))
        if p['program'] == 'matdyn':
            s = pick(g, dict(flfrc=path, flfrq='freq', fleig=' ', asr='simple',
                loto_2d=True, q_in_band_form=False, q_in_cryst_coord=True))
            s['nq'] = int(g.integers(1, 5))
            s['q'] = g.random((s['nq'], 4)).round(9)
            return s
        s = pick(g, dict(prefix='x', outdir=path, dvscf_dir='save',
            wannierize=True, elph=True, epwwrite=True, epwread=False,
            use_ws=True, nbndsub=3, bands_skipped='exclude_bands = 1:4',
            dis_win_min=-1.5, num_iter=0, nk1=4, nk2=4, nk3=1, nq1=2, nq2=2,
            nq3=1))
        if g.random() < 0.7:
            s['proj'] = ['Ta:dz2;dxy', 'S:pz'][:int(g.integers(1, 3))]
        if g.random() < 0.7:
            s['wdata'] = ['bands_plot = .true.', 'guiding_centres = .true.']
        return s

    def write(self, c, p):
        getattr(c.E.bravais, 'write_' + p['program'])('x.in', self.data(p))

    def read(self, c, p):
        return getattr(c.E.bravais, 'read_' + p['program'])('x.in')

    def expected(self, c, p):
        return self.data(p)


# ------------------------------------------------------------------ coupling


@form
class epmatwp(Format):
    weight = 2

    def gen(self, r):
        return dict(nel=r.choice([1, 2]), nat=r.choice([1, 2]), dims=r.choice(
            [1, 1, 2]), mass=r.random() < 0.5, divide=r.random() < 0.6,
            shared=r.random() < 0.5, shared2=r.random() < 0.5,
            mass2=r.random() < 0.5, lr=r.random() < 0.4,
            phmass=r.random() < 0.5)

    def divided(self, p, mass):
        # inconsistent with long-range terms otherwise
        return p['phmass'] if p['lr'] else mass

    def model(self, c, p, name=None, **kw):
        e, t = models.el(c, 'e/el', p['nel'], p['dims'])
        m, D = models.ph(c, 'e/ph', p['nat'], p['dims'],
            divide_mass=p['phmass'], lr=p['lr'], lr2d=p['dims'] == 2)
        g = models.coupling(c.rng('e'), m.size, p['nel'], p['dims'],
            density=0.5)
        if c.rank == 0 and name is None:
            for f, data in models.elph_files(g, None, 'orig', c.rng('deg')
                    ).items():
                c.fs.files[f] = bytearray(data)
                c.fs.initial[f] = data
        kw = dict(dict(divide_mass=p['mass'], shared_memory=p['shared'],
            divide_ndegen=p['divide']), **kw)
        name = name or 'orig'
        m = c.E.elph.Model(name + '.epmatwp', name + '.wigner', el=e, ph=m,
            **kw)
        return m, g

    def write(self, c, p):
        self.model(c, p)[0].to_epmatwp('x')

    def content(self, m, scale):
        data = np.array(m.data)
        if scale:
            data *= np.sqrt(np.repeat(m.ph.M, 3))[None, :, None, None, None]
        return list(models.canon_g(m.Rg, m.Rk, data))

    def read(self, c, p):
        m, g = self.model(c, p, 'x', shared_memory=p['shared2'],
            divide_mass=p['mass2'])
        mass = self.divided(p, p['mass2'])
        c.env.true(m.divide_mass == mass, 'coupling has wrong units')
        return self.content(m, mass) + [[m.dk, m.dg]]

    def expected(self, c, p):
        m, g = self.model(c, p)
        mass = self.divided(p, p['mass'])
        c.env.true(m.divide_mass == mass, 'coupling has wrong units')
        if p['divide']:
            g = {k: x for k, x in g.items()}
            n = next(iter(g.values())).shape[0]
            Rg = sorted({k[0] for k in g})
            Rk = sorted({k[1] for k in g} | {(0, 0, 0)})
            out = self.content(m, mass)
            dense = np.zeros((len(Rg), n, len(Rk), p['nel'], p['nel']),
                complex)
            for (a, b), x in g.items():
                dense[Rg.index(a), :, Rk.index(b)] = x
            c.env.equal('coupling', models.canon_g(Rg, Rk, dense), out, 1e-9)
            return out + [[np.ones((1, 1, len(Rk)), int), np.ones((1, 1, 1,
                len(Rg)), int)]]
        return self.content(m, mass) + [[m.dk, m.dg]]


@form
class wigner(Format):
    """Binary or text file with lattice vectors and degeneracies."""

    def gen(self, r):
        return dict(kind=r.choice(['old', 'dims', 'new', 'text']),
            other=r.random() < 0.3, dims=r.choice([1, 2]), nat=r.choice([1,
            2]))

    def make(self, p):
        g = rng(p, 'w')
        nk, nq, ng = (int(x) for x in g.integers(1, 5, 3))
        n, nat = (1 if p['kind'] == 'old' else p['dims']), p['nat']
        Rk, Rq, Rg = (g.integers(-3, 4, (x, 3)) for x in (nk, nq, ng))
        dk = g.integers(1, 4, (n, n, nk))
        dq = g.integers(1, 4, (nat, nat, nq))
        i, d = np.int32, np.float64
        if p['kind'] == 'old':
            dg = g.integers(1, 4, (1, 1, nat, ng))
            data = binary((nk, i), (Rk, i), (dk, i), (g.random(nk), d), (nq,
                i), (Rq, i), (dq, i), (g.random(nq), d), (ng, i), (Rg, i), (dg,
                i), (g.random(ng), d))
        elif p['kind'] == 'dims':
            dg = g.integers(1, 4, (n, n, nat, ng))
            data = binary(([n, nat, nk], i), (Rk, i), (dk, i), (ng, i), (Rg,
                i), (dg, i))
        elif p['kind'] == 'new':
            dg = g.integers(1, 4, (1, n, nat, ng))
            data = binary(([n, nat, nk], i), (Rk, i), (dk, i), (ng, i), (Rg,
                i), (dg.transpose((2, 3, 0, 1)), i))
        else:
            dg = g.integers(1, 4, (1, n, nat, ng))
            row = lambda x: ' '.join('%6d' % y for y in x)
            rows = [row([nk, nq, ng, n, nat])]
            for r in range(nk):
                rows += [row(Rk[r])] + [row(dk[:, w, r]) for w in range(n)]
            for r in range(nq):
                rows += [row(Rq[r])] + [row(dq[:, w, r]) for w in range(nat)]
            for r in range(ng):
                rows += [row(Rg[r])] + [row(dg[0, w, :, r]) for w in range(n)]
            data = lines(*rows)
        ambiguous = p['kind'] == 'new' and n == 1 and nat > 1 and False
        return {'wigner.' + ('dat' if p['other'] else 'fmt'): data}, None \
            if ambiguous else [Rk, dk, Rg, dg]

    def read(self, c, p):
        return list(c.E.bravais.read_wigner_file('wigner.fmt', p['kind']
            == 'old', p['nat']))


@form
class epw_output(Format):
    def gen(self, r):
        return dict(nq=r.choice([1, 2]), nk=r.choice([1, 2]), nb=r.choice([1,
            2]), kind=r.choice(['modulus', 'epf', 'defpot', 'raw']),
            squeeze=r.random() < 0.3, other=r.random() < 0.4)

    def make(self, p):
        g = rng(p, 'epw')
        nq, nk, nb, nm = p['nq'], p['nk'], p['nb'], 3
        qs = [(i, j) for i in range(nq) for j in range(nq)]
        w = (10 * g.random((len(qs), nm))).round(4)
        m = g.random((len(qs), nm, nk, nk, nb, nb)).round(6)
        e = (g.standard_normal(m.shape) + 1j * g.standard_normal(m.shape)
            ).round(6)
        rows = ['     Something', '     L      1.500000', '']

        def others(what):
            # points that do not belong to the mesh
            if p['other'] and p['kind'] != 'raw' and g.random() < 0.7:
                rows.extend(['     %s = %7d coord.: %12.7f %12.7f %12.7f'
                    % (what, 99, 0.1234, 0.25, 0.0)])
                if what == 'iq':
                    rows.extend(['     ik = %7d coord.: %12.7f %12.7f %12.7f'
                        % (1, 0.0, 0.0, 0.0)])
                rows.extend([' ibnd jbnd imode ...', ' ' + '-' * 20])
                rows.extend(['1 1 1 0.1 0.2 7.0 8.0 9.0'] * (3 * nb ** 2))
                rows.extend([' ' + '-' * 20, ''])
        for iq, q in enumerate(qs):
            others('iq')
            rows += ['     iq = %7d coord.: %12.7f %12.7f %12.7f' % (iq + 1,
                q[0] / nq, q[1] / nq, 0.0)]
            for ik, k in enumerate(np.ndindex(nk, nk)):
                others('ik')
                rows += ['     ik = %7d coord.: %12.7f %12.7f %12.7f' % (ik
                    + 1, k[0] / nk, k[1] / nk, 0.0), ' ibnd jbnd imode ...',
                    ' ' + '-' * 20]
                for j in range(nb):
                    for i in range(nb):
                        for n in range(nm):
                            x = [i + 1, j + 1, n + 1, 0.1, 0.2, w[iq, n],
                                m[iq, n, k[0], k[1], i, j]]
                            if p['kind'] == 'epf':
                                z = e[iq, n, k[0], k[1], i, j]
                                x += [z.real, z.imag]
                            rows.append(' '.join('%d' % y if isinstance(y, int)
                                else '%.6f' % y for y in x))
                rows += [' ' + '-' * 20, '']
        files = {'epw.out': lines(*rows)}
        if p['kind'] == 'raw':
            return files, [w, m.reshape((len(qs), nm, nk * nk, nb, nb))]
        if p['kind'] == 'epf':
            out = e * 1e-3 ** 1.5
        elif p['kind'] == 'defpot':
            out = m * np.sqrt(2 * w)[:, :, None, None, None, None] \
                * 1e-3 ** 1.5
        else:
            out = m * 1e-3
        return files, out[..., 0, 0] if p['squeeze'] and nb == 1 else out

    def read(self, c, p):
        nq, nk = p['nq'], p['nk']
        if p['kind'] == 'raw':
            return list(c.E.elph.read_prtgkk('epw.out', nq * nq, 3, nk * nk,
                p['nb']))
        return c.E.elph.read_EPW_output('epw.out', [(i, j) for i in range(nq)
            for j in range(nq)], nq, 3, nk, p['nb'], squeeze=p['squeeze'],
            epf=p['kind'] == 'epf', defpot=p['kind'] == 'defpot')


@form
class range_parameter(Format):
    def make(self, p):
        L = round(float(rng(p, 'L').random()), 6)
        return {'epw.out': lines('  x', '     L      %.6f' % L, ' y')}, L

    def read(self, c, p):
        return c.E.elph.read_L('epw.out')


@form
class coupling_files(Format):
    """One file per wave vector, read by different processes."""

    collective = False
    weight = 2

    def gen(self, r):
        return dict(nQ=r.choice([1, 2, 3, 5]), nk=r.choice([1, 2, 3]),
            nb=r.choice([1, 2]), phase=r.random() < 0.4, squeeze=r.random()
            < 0.4, offset=r.choice([0, 1]), subset=r.random() < 0.3,
            comment=r.random() < 0.5)

    def make(self, p):
        g = rng(p, 'c')
        nk, nb, nm = p['nk'], p['nb'], 3
        x = g.random((p['nQ'], nm, nk, nk, nb, nb)).round(6)
        if p['phase']:
            x = x + 1j * g.random(x.shape).round(6)
        files = {}
        for iq in range(p['nQ']):
            rows = ['# k1 k2 jbnd ibnd nu g'] * p['comment']
            for k1, k2, i, j, nu in np.ndindex(nk, nk, nb, nb, nm):
                z = x[iq, nu, k1, k2, i, j]
                rows.append('%d %d %d %d %d ' % (k1 + 1, k2 + 1, j + 1
                    + p['offset'], i + 1 + p['offset'], nu + 1) + (
                    '%.6f %.6f' % (z.real, z.imag) if p['phase']
                    else '%.6f' % z))
            files['elph%d.dat' % (iq + 1)] = lines(*rows)
        if p['subset']:
            x = x[::-1][:max(1, p['nQ'] - 1)]
        return files, x[..., 0, 0] if nb == 1 and p['squeeze'] else x

    def read(self, c, p):
        Q = np.arange(p['nQ'], 0, -1)[:max(1, p['nQ'] - 1)] if p['subset'] \
            else None
        return c.E.elph.coupling('elph%d.dat', p['nQ'], 3, p['nk'], p['nb'],
            Q=Q, offset=p['offset'], completion=False, squeeze=p['squeeze'],
            phase=p['phase'])


@form
class coupling_symmetry(Format):
    """Irreducible coupling completed by symmetry."""

    collective = False

    def gen(self, r):
        nq = r.choice([0, 1, 2, 3, 4])
        return dict(nQ=[r.choice([1, 2, 3]), 1, 2, 3, 4][nq], nq=nq,
            nk=r.choice([2, 3, 4]), missing=r.random() < 0.4)

    def make(self, p):
        # function of distance from zone center
        g = rng(p, 'c')
        nk = p['nk']
        files, out = {}, np.empty((p['nQ'], 3, nk, nk))
        table = g.random((p['nQ'], 3, 400)).round(6)

        def dist(k1, k2, nk=nk):
            return min((k1 + i * nk) ** 2 + (k2 + j * nk) ** 2 + (k1 + i * nk)
                * (k2 + j * nk) for i in (-1, 0, 1) for j in (-1, 0, 1))

        def first(nk):
            """First point of each set of equivalent points."""
            out = {}
            for k in np.ndindex(nk, nk):
                out.setdefault(dist(*k, nk), k)
            return out

        wedge = sorted(first(nk).values())
        for iq in range(p['nQ']):
            rows = []
            for nu in range(3):
                for k1, k2 in np.ndindex(nk, nk):
                    out[iq, nu, k1, k2] = table[iq, nu, dist(k1, k2)]
            for k1, k2 in np.ndindex(nk, nk):
                if p['missing'] and (k1, k2) not in wedge:
                    continue
                for nu in range(3):
                    rows.append('%d %d 1 1 %d %.6f' % (k1 + 1, k2 + 1, nu + 1,
                        out[iq, nu, k1, k2]))
            files['elph%d.dat' % (iq + 1)] = lines(*rows)
        nq = p['nq']
        if nq:
            d = list(first(nq))
            out = np.array([[out[d.index(dist(q1, q2, nq))] for q2 in
                range(nq)] for q1 in range(nq)])
        return files, out

    def read(self, c, p):
        kw = dict(nq=p['nq'], complete_k=True) if p['nq'] else {}
        return c.E.elph.coupling('elph%d.dat', p['nQ'], 3, p['nk'], 1,
            completion=True, squeeze=True, **kw)


@form
class xml_files(Format):
    """Coupling in displacement basis, read by different processes."""

    collective = False
    weight = 2

    def gen(self, r):
        return dict(nQ=r.choice([1, 2, 3]), nk=r.choice([1, 2, 3]),
            nb=r.choice([1, 2, 3]), nm=r.choice([1, 3]), angle=r.choice([90,
            120, 60]), bands=r.choice(['all', 'one', 'some']), squeeze=
            r.random() < 0.5)

    def data(self, p):
        g = rng(p, 'x')
        s = p['nQ'], p['nm'], p['nk'], p['nk'], p['nb'], p['nb']
        return g.standard_normal(s) + 1j * g.standard_normal(s)

    def write(self, c, p):
        c.E.elph.write_xml_files('elph.%d.%d.xml', self.data(p), p['angle'])

    def bands(self, p):
        return {'all': list(range(p['nb'])), 'one': [p['nb'] - 1], 'some':
            list(range(p['nb'] - 1, -1, -2))[::-1]}[p['bands']]

    def read(self, c, p):
        b = self.bands(p)
        return c.E.elph.read_xml_files('elph.%d.%d.xml', p['nQ'], p['nm'],
            b[0] if p['bands'] == 'one' else b, p['nb'], p['nk'],
            squeeze=p['squeeze'], status=False, angle=p['angle'], old=True)

    def expected(self, c, p):
        b = self.bands(p)
        x = self.data(p)[..., b, :][..., b]
        return x[..., 0, 0] if len(b) == 1 and p['squeeze'] else x


@form
class patterns(Format):
    collective = False

    def make(self, p):
        x = rng(p, 'x').standard_normal((3, 3, 3)).round(6)
        files = {}
        for iq in range(3):
            rows = ['<Root>', '<NUMBER_IRR_REP type="integer">', '3',
                '</NUMBER_IRR_REP>']
            for i in range(3):
                rows += ['<DISPLACEMENT_PATTERN type="complex" size="3">']
                rows += ['%.6f,0.000000' % y for y in x[iq, i]]
                rows += ['</DISPLACEMENT_PATTERN>']
            files['patterns.%d.xml' % (iq + 1)] = lines(*rows, '</Root>')
        return files, x

    def read(self, c, p):
        return c.E.elph.read_patterns('patterns.%d.xml', 3, 3, status=False)


@form
class array_text(Format):
    """Array in text file."""

    collective = False

    def gen(self, r):
        return dict(shape=[r.choice([1, 2, 11]) for _ in range(r.choice([1, 2,
            3]))], real=r.random() < 0.5)

    def data(self, p):
        g = rng(p, 'x')
        x = g.standard_normal(p['shape'])
        return x if p['real'] else x + 1j * g.standard_normal(p['shape'])

    def write(self, c, p):
        if c.rank == 0:
            c.E.elph.write_data('x.dat', self.data(p))

    def read(self, c, p):
        return c.E.elph.read_data('x.dat')

    def expected(self, c, p):
        return self.data(p)


# ------------------------------------------------------------- interactions


@form
class Wmat(Format):
    collective = False

    def gen(self, r):
        return dict(sizes(r), model=r.random() < 0.5)

    def write(self, c, p):
        models.elel(c, 'W', p['size'], p['dims'])[0].to_Wmat('dat.Wmat')

    def read(self, c, p):
        if p['model']:
            m = c.E.elel.Model(Wmat='dat.Wmat')
            R, data = m.R, m.data
        else:
            R, data = c.E.misc.read_dat_mat('dat.Wmat')
        return list(models.canon_R(R, data))

    def expected(self, c, p):
        m, t = models.elel(c, 'W', p['size'], p['dims'])
        return list(models.canon_R(m.R, m.data))


@form
class respack(Format):
    """Hopping from file of RESPACK."""

    collective = False

    def gen(self, r):
        return dict(size=r.choice([1, 2]), N=r.choice([2, 3, 4]))

    def make(self, p):
        g = rng(p, 't')
        N, n = p['N'], p['size']
        x = g.standard_normal((N, N, n, n)) + 1j * g.standard_normal((N, N, n,
            n))
        rows = ['# header'] * 3
        low = -(N // 2)
        for i in range(low, low + N):
            for j in range(low, low + N):
                rows.append('%12d%12d%12d' % (i, j, 0))
                for a in range(n):
                    for b in range(n):
                        z = x[i % N, j % N, a, b]
                        rows.append('%5d%4d%20.10f%20.10f' % (a + 1, b + 1,
                            z.real, z.imag))
                rows.append('')
        H = N ** 2 * np.fft.ifft2(x, axes=(0, 1))
        return {'dat.h_mat_r': lines(*rows)}, H

    def read(self, c, p):
        N = p['N']
        m = c.E.el.Model('dat.h_mat_r', N=(N, N, 1), a=np.eye(3))
        return np.array([[m.H(2 * np.pi * i / N, 2 * np.pi * j / N)
            for j in range(N)] for i in range(N)])


@form
class band_Coulomb(Format):
    def gen(self, r):
        return dict(nQ=r.choice([1, 2, 3]), nk=r.choice([1, 2]),
            binary=r.random() < 0.5, share=r.random() < 0.6)

    def data(self, p):
        g = rng(p, 'U')
        s = p['nQ'], *[p['nk']] * 4
        return (g.standard_normal(s) + 1j * g.standard_normal(s)).round(9)

    def write(self, c, p):
        c.E.elel.write_band_Coulomb_interaction('U', self.data(p), p['binary'])

    def read(self, c, p):
        U = c.E.elel.read_band_Coulomb_interaction('U', p['nQ'], p['nk'],
            p['binary'], p['share'])
        if not p['share'] and c.rank:
            c.env.true(U is None, 'rank %d: other processes obtain %r without '
                'sharing' % (c.rank, type(U)))
        return U if p['share'] else c.E.MPI.comm.bcast(U)

    def expected(self, c, p):
        return self.data(p)


@form
class local_Coulomb(Format):
    def gen(self, r):
        return dict(no=r.choice([1, 2]), dd=r.random() < 0.5, sparse=r.random()
            < 0.4)

    def make(self, p):
        g = rng(p, 'U')
        n = p['no']
        U = (g.standard_normal((n,) * 4) + 1j * g.standard_normal((n,) * 4)
            ).round(6)
        rows = ['# I J K L RE(U) IM(U)']
        for i in np.ndindex(*U.shape):
            if p['sparse'] and g.random() < 0.5:
                U[i] = 0.0
                continue
            rows.append('%d %d %d %d %.6f %.6f' % (*(x + 1 for x in i),
                U[i].real, U[i].imag))
        return {'UIJKL': lines(*rows)}, np.einsum('iikk->ik', U) if p['dd'] \
            else U

    def read(self, c, p):
        return c.E.elel.read_local_Coulomb_tensor('UIJKL', p['no'], p['dd'])


@form
class orbital_Coulomb(Format):
    def gen(self, r):
        return dict(no=r.choice([1, 2]), dd=r.random() < 0.6, sparse=r.random()
            < 0.3, nq=r.choice([1, 2]), model=r.random() < 0.5)

    def make(self, p):
        g = rng(p, 'U')
        n, nq = p['no'], p['nq']
        U = (g.standard_normal((nq, nq, 1) + (n,) * 4)
            + 1j * g.standard_normal((nq, nq, 1) + (n,) * 4)).round(6)
        rows = ['# q1 q2 q3 I J K L RE(U) IM(U)']
        for q in np.ndindex(nq, nq, 1):
            for i, j, k, l in np.ndindex(n, n, n, n):
                x = q + (j, i, l, k)
                if p['sparse'] and g.random() < 0.5:
                    U[x] = 0.0
                    continue
                rows.append('%.6f %.6f %.6f %d %d %d %d %.6f %.6f' % (
                    q[0] / nq, q[1] / nq, 0, i + 1, j + 1, k + 1, l + 1,
                    U[x].real, U[x].imag))
        return {'VQ': lines(*rows)}, np.einsum('abciikk->abcik', U) \
            if p['dd'] or p['model'] else U

    def read(self, c, p):
        nq = p['nq'], p['nq'], 1
        if p['model']:
            m = c.E.elel.Model('VQ', nq=nq, no=p['no'], a=np.eye(3))
            q = 2 * np.pi / p['nq']
            return np.array([[[m.W(i * q, j * q, 0)] for j in range(nq[1])]
                for i in range(nq[0])])
        return c.E.elel.read_orbital_Coulomb_interaction('VQ', nq, p['no'],
            p['dd'])


# -------------------------------------------------------------- real space


@form
class xsf(Format):
    weight = 2

    def gen(self, r):
        return dict(shape=[r.choice([1, 2, 3, 4]) for _ in range(3)],
            nat=r.choice([1, 2]), header=r.random() < 0.3, own=r.random()
            < 0.3, origin=r.random() < 0.4)

    def data(self, p):
        g = rng(p, 'xsf')
        r0 = g.standard_normal(3).round(6)
        tau = g.random((p['nat'], 3)).round(7)
        if p['origin']:
            r0[:] = tau[0] = 0.0
        return [r0, g.standard_normal((3, 3)
            ).round(7), ['Ta', '16'][:p['nat']], tau, np.array([float('%.5e' % x) for x in
            g.standard_normal(int(np.prod(p['shape'])))]).reshape(p['shape'])]

    def write(self, c, p):
        r0, a, X, tau, data = self.data(p)
        if p['own']:
            # done by one process on its own
            if c.rank == c.size - 1:
                c.E.misc.write_xsf('x.xsf', r0, a, X, tau, data.shape
                    if p['header'] else data, p['header'], c.E.MPI.I)
        else:
            c.E.misc.write_xsf('x.xsf', r0, a, X, tau, data.shape
                if p['header'] else data, p['header'])

    def read(self, c, p):
        return list(c.E.misc.read_xsf('x.xsf', p['header']))

    def expected(self, c, p):
        out = self.data(p)
        if p['header']:
            out[-1] = list(p['shape'])
        return out


@form
class cube(Format):
    def gen(self, r):
        return dict(shape=[r.choice([1, 2, 3]) for _ in range(3)],
            header=r.random() < 0.2, own=r.random() < 0.3,
            origin=r.random() < 0.4)

    def make(self, p):
        g = rng(p, 'cube')
        r0 = g.random(3).round(6)
        a = g.random((3, 3)).round(6)
        tau = g.random((2, 3)).round(6)
        if p['origin']:
            r0[:] = tau[0] = 0.0
        x = np.array([float('%.5e' % y) for y in g.standard_normal(int(
            np.prod(p['shape'])))]).reshape(p['shape'])
        row = lambda y: ' '.join('%12.6f' % z for z in y)
        rows = ['title', 'comment', '%5d ' % 2 + row(r0)]
        rows += ['%5d ' % n + row(v) for n, v in zip(p['shape'], a)]
        rows += ['%5d %12.6f ' % (z, z) + row(t) for z, t in zip([73, 16],
            tau)]
        for i, j in np.ndindex(*p['shape'][:2]):
            for k in range(0, p['shape'][2], 6):
                rows.append(' '.join('%13.5E' % y for y in x[i, j, k:k + 6]))
        return {'x.cube': lines(*rows)}, [r0, a * np.array(p['shape'])[:, None],
            np.array([73, 16]), tau, list(p['shape']) if p['header'] else x]

    def read(self, c, p):
        kw = dict(comm=c.E.MPI.I) if p['own'] else {}
        return list(c.E.misc.read_cube('x.cube', p['header'], **kw))

    def visible(self, p):
        return p['own']


@form
class numpy_file(Format):
    """Array in file of NumPy."""

    weight = 4
    empty = True

    def gen(self, r):
        return dict(kind=r.choice(['npy', 'npy', 'txt']), shared=r.random()
            < 0.5, dtype=r.choice(['float', 'complex', 'int']), own=r.random()
            < 0.2, order=r.choice('CF'))

    def make(self, p):
        import io
        g = rng(p, 'np')
        x = g.standard_normal((4, 3)).round(6)
        f = io.BytesIO()
        if p['kind'] == 'txt':
            np.savetxt(f, x, fmt='%.6f')
        else:
            if p['dtype'] == 'complex':
                x = x * (1 + 2j)
            elif p['dtype'] == 'int':
                x = (10 * x).astype(int)
            np.save(f, np.asarray(x, order=p['order']))
        return {'x.' + p['kind']: f.getvalue()}, x

    def read(self, c, p):
        kw = dict(comm=c.E.MPI.I) if p['own'] else {}
        return c.E.MPI.load('x.' + p['kind'], shared_memory=p['shared'],
            txt=p['kind'] == 'txt', **kw)

    def visible(self, p):
        return p['own']


@form
class trajectory(Format):
    """Atomic positions of simulation."""

    tol = 1e-7

    def gen(self, r):
        from .p17_checkpoint import small
        import random
        p = small(random.Random(r.randrange(10 ** 9)))
        p.update(steps=r.choice([1, 2, 3]), append=r.random() < 0.6,
            save=r.random() < 0.4)
        return p

    def displacements(self, c, p, size):
        return [0.3 * rng(p, 'u', i).standard_normal(size)
            for i in range(p['steps'])]

    def write(self, c, p):
        from .p17_checkpoint import driver_of
        d = driver_of(c, p)
        for i, u in enumerate(self.displacements(c, p, d.u.size)):
            d.u[:] = u
            d.to_xyz('x.xyz', append=p['append'])
        d.to_pwi('x.pwi')

    def read(self, c, p):
        from .p17_checkpoint import driver_of
        d = driver_of(c, p)
        d.from_xyz('x.xyz')
        # supercell vectors are given along with positions
        return [d.u.copy(), len(d.u)]

    def expected(self, c, p):
        from .p17_checkpoint import driver_of
        d = driver_of(c, p)
        return [self.displacements(c, p, d.u.size)[-1], len(d.u)]
