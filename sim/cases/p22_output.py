"""Progress bars, status messages, and rejected arguments."""

import re

import numpy as np

from .. import models
from ..kernel import describe
from ..run import Case, register


@register('P22', 'P13', 'P23')
class StatusBars(Case):
    """Sequence of (nested) progress bars with different shares."""
    compare = False

    def gen(self, rng):
        def tree(depth):
            n = rng.choice([0, 1, 2, 3, 7, 60, 61, 100, 130])
            return dict(count=n, title='task %d' % rng.randrange(1000),
                own=rng.random() < 0.4, width=rng.choice([60, 60, 31, 80]),
                inner=tree(depth - 1) if depth and n < 8 and rng.random() < 0.5
                else None)
        return dict(seed=rng.randrange(10 ** 6), verbosity=rng.choice([0, 1,
            2, 3, 3, 3]), bars=[tree(2) for _ in range(rng.choice([1, 2, 4]))],
            wait=rng.random() < 0.5)

    def run(self, c, p):
        c.E.misc.verbosity = p['verbosity']

        def show(b):
            # number of work items of first process is never smaller:
            n = max(0, b['count'] - c.rank) if b['own'] else b['count']
            bar = c.E.misc.StatusBar(n, width=b['width'], title=b['title'])
            for _ in range(n):
                if b['inner']:
                    show(b['inner'])
                bar.update()

        for b in p['bars']:
            show(b)
            if p['wait']:
                c.E.MPI.comm.Barrier()

    def check(self, env, p, run, ref):
        text = ''
        if p['verbosity'] >= 3:
            def walk(b):
                if not b['count']:
                    return ''
                return (' %s ' % b['title']).center(b['width'], '_') + '\n' \
                    + '=' * b['width'] + '\n'
            text = ''.join(map(walk, p['bars']))
        for r in range(run.n):
            env.true(run.text(r) == ('' if r else text), 'rank %d of %d, '
                'verbosity %d: shows %r instead of %r' % (r, run.n,
                p['verbosity'], run.text(r)[:300], '' if r else text[:300]))

    def execute(self, env, p):
        run = env.run(self, p)
        self.check(env, p, run, None)



@register('P22', 'P13', 'P14', 'P23')
class Messages(Case):
    """Messages of all processes or groups of processes."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), colors=[rng.randrange(3)
            for _ in range(16)], calls=[rng.choice(['all', 'group', 'own',
            'hello', 'threads']) for _ in range(rng.choice([1, 2, 5]))], error=rng.random() < 0.5,
            last=rng.choice(['all', 'group', 'own']), some=rng.random() < 0.5)

    def run(self, c, p):
        comm = c.E.MPI.comm
        color = p['colors'][c.rank]
        groups = dict(all=comm, group=comm.Split(color, key=c.rank),
            own=c.E.MPI.I)
        c.E.misc.verbosity = p['seed'] % 3
        for i, name in enumerate(p['calls']):
            if name == 'hello':
                c.E.misc.hello()
            elif name == 'threads':
                c.E.MPI.elphmodenv(i)
            else:
                c.E.MPI.info('%s %d' % (name, i), comm=groups[name])
        if p['error'] and (not p['some'] or p['last'] == 'all' or color == 0):
            c.E.MPI.info('rejected', error=True, comm=groups[p['last']])
        return 'done'

    def execute(self, env, p):
        run = env.run(self, p, check=False)
        n = run.n
        leaders = dict(all=[0], group=sorted({min(s for s in range(n)
            if p['colors'][s] == k) for k in set(p['colors'][:n])}),
            own=list(range(n)))
        for r in range(n):
            text = run.text(r)
            want = ''.join('%s %d\n' % (name, i) for i, name in enumerate(
                p['calls']) if r in leaders.get(name, []))
            for i, name in enumerate(p['calls']):
                if name == 'threads' and r == 0:
                    env.true(text.count('_THREADS=%d\n' % i) == 5
                        and 'export OMP_NUM_THREADS=%d\n' % i in text,
                        'environment variables not shown once: %r' % text)
            shown = ('running on %d processors' % n) in text
            env.true(shown == (r == 0 and p['seed'] % 3 > 0 and 'hello'
                in p['calls']), 'rank %d of %d, verbosity %d: prints %r' % (r,
                n, p['seed'] % 3, text))
            text = ''.join(x + '\n' for x in text.split('\n')[:-1]
                if re.match(r'(all|group|own) \d+$|Error: ', x))
            end = p['error'] and (not p['some'] or p['last'] == 'all'
                or p['colors'][r] == 0)
            if end and r in leaders[p['last']]:
                want += 'Error: rejected\n'
            env.true(text == want, 'rank %d of %d, %s: prints %r instead of '
                '%r' % (r, n, p['colors'][:n], text, want))
            o = run.outcomes[r]
            env.true(o is not None and o[0] == ('exit' if end else 'ok'),
                'rank %d of %d ends with %s instead of %s' % (r, n,
                describe(o), 'exit' if end else 'success'))


@register('P13', 'P22', 'P14')
class Rejected(Case):
    """Arguments rejected with an error message."""

    KINDS = ('lattice', 'free', 'memory', 'spacing', 'zero', 'units', 'masses',
        'electrons', 'sparse', 'forces', 'short', 'nk', 'standard', 'atoms')

    GROUPS = 'spacing', 'zero'

    def gen(self, rng):
        p = dict(seed=rng.randrange(10 ** 6), kind=rng.choice(self.KINDS),
            colors=[rng.randrange(2) for _ in range(16)], sub=rng.random()
            < 0.6, shared=rng.random() < 0.5, d=rng.choice([1, 2]),
            nq=rng.choice([1, 2]), degenerate=rng.random() < 0.5)
        p['sub'] = p['sub'] and p['kind'] in self.GROUPS
        return p

    def run(self, c, p):
        E = c.E
        kind = p['kind']
        comm = E.MPI.comm
        bad = True
        if p['sub']:
            bad = p['colors'][c.rank] == 0
            comm = comm.Split(p['colors'][c.rank], key=c.rank)
        if kind == 'lattice':
            E.bravais.primitives(ibrav=15)
        elif kind == 'free':
            E.bravais.primitives(ibrav=0)
        elif kind == 'memory':
            E.diagrams.phonon_self_energy2([(0, 0)], np.zeros((2, 2)),
                np.ones((1, 1, 2, 2)), GB=1e-9)
        elif kind in ('spacing', 'zero'):
            omega = np.linspace(-1.0, 1.0, 9)
            if bad:
                omega = omega + 0.1 if kind == 'zero' else omega ** 3
            rng = c.rng('v')
            v = rng.standard_normal((3, 3, 2, 2))
            A = rng.random((3, 3, 2, 9))
            out = E.diagrams.green_kubo_conductivity(v, A, omega, comm=comm)
            c.keep('sigma', out)
        else:
            self.model(c, p, kind)
        return 'done'

    def model(self, c, p, kind):
        E = c.E
        d = p['d']
        m, g = models.elph(c, nel=2, nat=1, dims=d, shared_memory=p['shared'],
            density=0.1, divide_mass=kind == 'masses',
            degenerate=p['degenerate'])
        m.el.rydberg = kind != 'units'
        nk = [2] * d
        if kind in ('units', 'masses', 'electrons', 'atoms', 'sparse'):
            kw = dict(nk=nk, nq=[1] * d)
            f = 'fd'
            if kind == 'electrons':
                f = E.occupations.two_fermi_dirac
            elif kind == 'sparse':
                m = m.supercell(*[2] + [1] * (d - 1), sparse=True)
            driver = E.md.Driver(m, kT=0.1, f=f, n=1, shared_memory=p[
                'shared'], **kw)
            if kind == 'atoms':
                driver.density_per_atom()
            return
        m.ph.nq = (p['nq'],) * d + (1,) * (3 - d)
        m.el.nk = None if kind == 'nk' else (2,) * d + (1,) * (3 - d)
        if kind == 'forces':
            m.ph.update_short_range()
        elif kind == 'short':
            m.update_short_range(shared_memory=p['shared'])
        else:
            m.sample_orig(shared_memory=p['shared'])
            m.standardize()
            m.update_short_range(shared_memory=p['shared'])

    def execute(self, env, p):
        run = env.run(self, p, check=False)
        n = run.n
        if run.world.kernel.violation is not None:
            raise run.world.kernel.violation
        bad = [r for r in range(n) if not p['sub'] or p['colors'][r] == 0]
        for r in range(n):
            o = run.outcomes[r]
            env.true(o is not None and o[0] == ('exit' if r in bad else 'ok'),
                '%s: rank %d of %d (%s reject) ends with %s' % (p['kind'], r,
                n, bad, describe(o)))
        shown = [r for r in range(n) for _ in re.findall('Error: ',
            run.text(r))]
        env.true(shown == bad[:1], '%s: error message shown by ranks %s, '
            'not by first of %s' % (p['kind'], shown, bad))
