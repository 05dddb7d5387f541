"""Structure relaxation and dynamics on supercells."""

import numpy as np

from .. import models
from ..run import Case, register

OPS = ['free', 'jac', 'hess', 'hess', 'full', 'full', 'asr', 'fildyn',
    'electrons', 'phonons', 'super', 'super', 'density', 'xyz', 'traj', 'pwi',
    'save', 'call', 'random', 'plot']


def build(c, p, elph=None, **kwargs):
    """Driver and its coupling."""
    d = p['d']
    if elph is None:
        elph, g = models.elph(c, 'md', p['nel'], p['nat'], d,
            shared_memory=p['elph_shared'], divide_mass=False,
            real=p['form'] != 'dense' or p['real'], density=0.5,
            lr=p.get('lr', False))
        elph.el.rydberg = True
        elph.el.data *= 0.3
    N = [2] + [1] * (d - 1)
    n = p['n']
    kw = dict(kT=p['kT'], f=p['f'], unscreen=p['unscreen'],
        shared_memory=p['shared'])
    kw.update(kwargs)
    if p['form'] == 'dense':
        kw.update(nk=p['nk'], nq=p['nq'])
    elif p['form'] == 'super':
        elph = elph.supercell(*N, shared_memory=p['elph_shared'])
        kw.update(nk=[1] * d, nq=[1] * d)
        n *= 2
    elif p['form'] == 'sparse':
        elph = elph.supercell(*N, sparse=True)
        n *= 2
    else:
        kw.update(nk=p['nk'], nq=p['nq'], supercell=N)
    return c.E.md.Driver(elph, n=n, **kw)


def gen_driver(rng, forms=('dense', 'dense', 'dense', 'super', 'sparse',
        'option')):
    d = rng.choice([1, 1, 2])
    nq = [rng.choice([1, 1, 2] if d > 1 else [1, 2, 3]) for _ in range(d)]
    return dict(seed=rng.randrange(10 ** 6), d=d, nel=rng.choice([1, 2]),
        nat=rng.choice([1, 1, 2]), nq=nq, nk=[rng.choice([1, 2]) * x
        for x in nq], kT=rng.choice([0.05, 0.2]), f=rng.choice(['fd', 'fd',
        'gauss']), n=rng.choice([0.7, 1.0]), unscreen=rng.random() < 0.6,
        shared=rng.random() < 0.7, elph_shared=rng.random() < 0.5,
        real=rng.random() < 0.3, form=rng.choice(forms),
        verbosity=rng.choice([0, 0, 1]))


def model(m):
    return list(models.canon_R(m.R, m.data))


def constants(driver):
    """What calculations with a driver must not change."""
    out = dict()
    elph = driver.elph
    for name, obj in ('driver', driver), ('elph', elph), ('el', elph.el), \
            ('ph', elph.ph):
        for key in ['C0', 'F0', 'H0', 'd0', 'q', 'k', 'nk', 'nq', 'n', 'nx',
                'kT'] if obj is driver else ['R', 'Rg', 'Rk', 'data', 'a',
                'r', 'M', 'Z', 'eps', 'cells', 'N', 'atom_order', 'nat', 'size',
                'divide_mass', 'rydberg']:
            value = vars(obj).get(key)
            if value is not None and not (key == 'd0' and driver.sparse):
                out[name + '.' + key] = np.array(value)
    return out


@register('P09', 'P12', 'P13', 'P16', 'P18', 'P20', 'P21', 'P23', 'P22', weight=2)
class Dynamics(Case):
    """Sequence of observables of driver for changing structures."""

    repeats = True # number of steps may depend on rounding errors
    tol = 2e-6

    def gen(self, rng):
        p = gen_driver(rng)
        p['ops'] = [rng.choice(OPS) for _ in range(rng.choice([2, 3, 4, 6]))]
        p['move'] = [rng.random() < 0.6 for _ in p['ops']]
        p['again'] = rng.random() < 0.4
        return p

    def run(self, c, p):
        E = c.E
        driver = build(c, p)
        rng = c.rng('u')
        c.keep('start', [driver.C0, driver.F0, driver.mu])
        size = driver.u.size
        u = np.zeros(size)
        E.MPI.comm.Barrier()
        before = constants(driver)
        for i, (op, move) in enumerate(zip(p['ops'], p['move'])):
            if move:
                u = 0.2 * rng.standard_normal(size)
                c.keep('%d E' % i, driver.free_energy(u.copy(), show=False))
            mu = driver.mu
            self.apply(c, p, driver, op, '%d %s' % (i, op), i)
            if op == 'random':
                # displacements are arbitrary but the same everywhere
                c.keep('%d u' % i, driver.u, compare=False, stable=False)
                c.env.equal('rank %d: mean random displacement' % c.rank,
                    1.0 + driver.u.reshape((-1, 3)).mean(axis=0), np.ones(3))
                c.keep('%d Eu' % i, driver.free_energy(show=False),
                    compare=False)
                c.keep('%d Fu' % i, driver.jacobian(show=False),
                    compare=False)
                # search for chemical potential depends on initial guess
                driver.mu = mu
                driver.free_energy(u.copy(), show=False)
            c.keep('%d state' % i, [driver.u, driver.e, driver.mu],
                stable=False)
            c.env.equal('rank %d: model after %s' % (c.rank, op),
                constants(driver), before, 0.0)
        if p['again']:
            other = build(c, p)
            driver.mu = other.mu = None
            other.free_energy(u.copy(), show=False)
            driver.free_energy(u.copy(), show=False)
            for what in 'jacobian', 'hessian':
                kw = dict(show=False) if what == 'jacobian' else dict(
                    gamma_only=False)
                a = getattr(driver, what)(**kw)
                b = getattr(other, what)(**kw)
                c.env.equal('rank %d: %s of used driver' % (c.rank, what), a,
                    b, 1e-5)

    def apply(self, c, p, driver, op, name, i):
        E = c.E
        if op == 'free':
            c.keep(name, driver.free_energy(show=i % 2))
        elif op == 'jac':
            c.keep(name, driver.jacobian(show=i % 2))
        elif op == 'hess':
            c.keep(name, driver.hessian())
        elif op == 'full':
            c.keep(name, driver.hessian(gamma_only=False))
        elif op == 'asr':
            c.keep(name, driver.hessian(gamma_only=False,
                apply_asr_simple=True))
        elif op == 'fildyn':
            c.keep(name, driver.hessian(fildyn='dyn%d' % i, gamma_only=False))
            E.MPI.comm.Barrier()
            c.keep(name + ' file', floats(c.fs.files['dyn%d' % i]))
        elif op == 'electrons':
            m = driver.electrons(seedname='el%d' % i if i % 2 else None,
                rydberg=True)
            c.keep(name, model(m))
        elif op == 'phonons':
            c.keep(name, model(driver.phonons(divide_mass=bool(i % 2))))
        elif op == 'super':
            *x, w = driver.superconductivity()
            c.keep(name, [*x, w * abs(w)], tol=1e-5)
        elif op == 'density':
            rho = c.keep(name, driver.density())
            driver.basis = [[] for _ in range(p['nat'])]
            for a in range(p['nel']):
                driver.basis[a % p['nat']].append(a)
            each = driver.density_per_atom()
            c.keep(name + ' per atom', each)
            c.env.equal('rank %d: number of electrons' % c.rank, each.sum(),
                rho.sum())
        elif op in ('xyz', 'traj'):
            driver.to_xyz('x%d.xyz' % i)
            u = driver.u.copy()
            E.MPI.comm.Barrier()
            if op == 'traj':
                driver.u = u + 0.1
                driver.to_xyz('x%d.xyz' % i, append=True)
                E.MPI.comm.Barrier()
            driver.u = np.zeros_like(u)
            if i % 2:
                driver.u += c.rank
            driver.from_xyz('x%d.xyz' % i)
            c.keep(name, driver.u, stable=False)
            c.env.equal('rank %d: displacements read back' % c.rank,
                driver.u + 1.0, u + (0.1 if op == 'traj' else 0.0) + 1.0, 2e-9)
            driver.u = u
        elif op == 'pwi':
            driver.to_pwi('pw%d.in' % i, ibrav=0)
            E.MPI.comm.Barrier()
            c.keep(name, floats(c.fs.files['pw%d.in' % i]))
        elif op == 'save':
            driver.save('save%d' % i)
        elif op == 'call':
            r = driver.elph.ph.r + c.rng('call', i).standard_normal(
                driver.elph.ph.r.shape) * 0.1
            c.keep(name, driver(driver.elph.ph.a, r)[:3])
        elif op == 'plot':
            # updated from now on whenever the structure changes
            driver.basis = [[a for a in range(p['nel']) if a % p['nat'] == n]
                for n in range(p['nat'])] if i % 2 else None
            driver.plot(interactive=i % 3 > 0, scale=2.0, label=True,
                filename='plot%d.pdf' % i if i % 3 else None)
            if i % 3:
                driver.update_plot()
        elif op == 'random':
            driver.random_displacements(0.1)


def floats(data):
    """Numbers in file rounded and remaining words."""
    out = []
    for w in bytes(data).decode().split():
        try:
            x = float(w)
            out.append(0.0 if abs(x) < 1e-6 else x)
        except ValueError:
            out.append(w)
    return out


@register('P09', 'P06', 'P12', 'P22')
class DriverForms(Case):
    """Dense, shared and sparse representations describe the same energy."""

    tol = 2e-6

    def gen(self, rng):
        p = gen_driver(rng, ['sparse', 'super'])
        p.update(nq=[1] * p['d'], nk=[1] * p['d'], kT=0.2)
        return p

    def run(self, c, p):
        drivers = [build(c, dict(p, form='sparse')),
            build(c, dict(p, form='super', shared=True, elph_shared=True)),
            build(c, dict(p, form='super', shared=False, elph_shared=False))]
        u = 0.2 * c.rng('u').standard_normal(drivers[0].u.size)
        all_ = []
        for d in drivers:
            e = d.free_energy(u.copy(), show=False)
            all_.append([e, d.jacobian(show=False), d.hessian(),
                d.density()])
        for x in all_[1:]:
            c.env.equal('rank %d: dense and sparse driver' % c.rank, x,
                all_[0], 1e-5)
        c.keep('all', all_)
