"""Models shipped with the package, projections, commands."""

import numpy as np

from ..fs import SimFS
from ..kernel import describe
from ..run import Case, register
from ._formats import FORMATS


@register('P02', 'P03', 'P05', 'P12', 'P13', 'P16', 'P23')
class ShippedModels(Case):
    """Example models, from sampling to data files."""

    cost = 3
    nmax = 6

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), model=rng.choice(['chain',
            'graphene', 'graphene', 'tas2']), rydberg=rng.random() < 0.5,
            divide_mass=rng.random() < 0.5, write=rng.random() < 0.4,
            verbosity=0)

    def run(self, c, p):
        E = c.E
        m = c.package('elphmod.models.' + p['model'])
        kw = dict(rydberg=p['rydberg'], divide_mass=p['divide_mass'])
        if p['write']:
            kw['prefix'] = 'model'
        out = m.create(**kw)
        el, ph, elph = out[:3]
        d = 1 if p['model'] == 'chain' else 2
        rng = c.rng('k')
        k = rng.uniform(-7, 7, (4, 2, 3))
        for i in range(3): # points of original mesh
            k[i] = [2 * np.pi * rng.integers(0, n) / n for n in (np.array(
                m.nq), np.array(m.nk))]
        k[..., d:] = 0.0
        unit = 1.0 if p['rydberg'] else E.misc.Ry
        M = np.sqrt(m.M) if p['divide_mass'] else None
        for i, (q, k) in enumerate(k.tolist()):
            c.keep('H%d' % i, el.H(*k) / unit)
            c.keep('D%d' % i, ph.D(*q))
            c.keep('g%d' % i, elph.g(*q, *k))
            c.keep('H%d direct' % i, m.hamiltonian(*k))
            c.keep('D%d direct' % i, m.dynamical_matrix(*q))
            c.keep('g%d direct' % i, m.coupling(*q, *k))
            if len(out) > 3:
                c.keep('U%d' % i, out[3].W(*q) / E.misc.Ry)
                c.keep('U%d direct' % i, m.coulomb_interaction(*q))
        if p['write']:
            c.E.MPI.comm.Barrier()
            c.keep('t', np.sort_complex(E.el.Model('model',
                rydberg=p['rydberg']).data.ravel()))
        return 'done'

    def check(self, env, p, run, ref):
        for name in sorted(ref.contexts[0].kept):
            if name.endswith(' direct') and name[1] != '3':
                if name[0] in 'Dg' and not p['divide_mass']:
                    continue
                a = ref.get(name[:-7])
                b = ref.get(name)
                env.true(np.allclose(a, b, rtol=1e-5, atol=1e-7),
                    '%s of %s: interpolated %s instead of %s' % (name[:-7],
                    p['model'], np.ravel(a)[:3], np.ravel(b)[:3]))


@register('P15', 'P20', 'P13', 'P23')
class Projections(Case):
    """Orbital-projected bands summed over orbitals."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), other=rng.random() < 0.5,
            rest=rng.random() < 0.5, groups=[rng.choice(['S-p', 'Ta', 'S',
            'Ta-d{z2, x2-y2, xy}', 'S1-{1, 2, 3}p{x, z}, Ta-s', 'p', 'd', '-',
            'S2', 'Ta-{s, d}']) for _ in range(rng.choice([1, 2, 4]))])

    def files(self, p):
        return {k: v.encode() for k, v in FORMATS['projwfc'].make(p)[
            0].items()}

    def run(self, c, p):
        orbitals = c.E.el.read_projwfc_out('p.out', other=p['other'])
        proj = c.rng('p').random((3, 4, len(orbitals)))
        c.keep('orbitals', orbitals)
        kw = dict(other=True) if p['rest'] else {}
        c.keep('sum', c.E.el.proj_sum(proj, orbitals, *p['groups'], **kw))
        c.keep('proj', proj)
        return 'done'

    def check(self, env, p, run, ref):
        orbitals, proj, got = map(ref.get, ('orbitals', 'proj', 'sum'))
        if p['groups'][0] in ('S', 'Ta'):
            want = sum((proj[..., i] for i, o in enumerate(orbitals)
                if o.split('-')[0].rstrip('0123456789') == p['groups'][0]),
                np.zeros((3, 4)))
            env.true(np.allclose(got[..., 0], want), 'sum over %s is wrong'
                % p['groups'][0])
        if p['rest']:
            env.true(np.allclose(got[..., -1], 1 - got[..., :-1].sum(axis=2)),
                'remaining orbital weight is wrong')
