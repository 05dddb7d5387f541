"""Real-space wave functions and their buffer files."""

import random

import numpy as np

from .. import faults, models
from ..fs import SimFS
from ..run import Case, register
from .p17_checkpoint import other_size


def xsf(r0, a, X, tau, data):
    rows = ['PRIMCOORD', '%6d  1' % len(X)]
    for x, t in zip(X, tau):
        rows.append('%-5s %11.7f %11.7f %11.7f' % (x, *t))
    rows += ['BEGIN_BLOCK_DATAGRID_3D', '3D_field',
        'BEGIN_DATAGRID_3D_UNKNOWN', '%6d %5d %5d' % data.shape,
        '%12.6f %11.6f %11.6f' % tuple(r0)]
    for x in range(3):
        rows.append('%12.7f %11.7f %11.7f' % tuple(a[x]))
    flat = data.T.ravel()
    for i in range(0, len(flat), 6):
        rows.append(''.join('%13.5e' % x for x in flat[i:i + 6]))
    rows += ['END_DATAGRID_3D', 'END_BLOCK_DATAGRID_3D']
    return '\n'.join(rows) + '\n'


@register('P25', 'P12', 'P13', 'P15', 'P23', weight=2)
class WaveFunctions(Case):
    """Wannier functions from original files and from buffer."""

    compare = False
    nmax = 6

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), size=rng.choice([1, 2, 3, 4]),
            shape=[rng.choice([1, 2, 3]) for _ in range(3)],
            nat=rng.choice([1, 2]), normalize=rng.random() < 0.5,
            shared=rng.random() < 0.6, again=rng.random() < 0.6,
            ortho=rng.random() < 0.2, private=rng.random() < 0.4,
            rewrite=rng.random() < 0.3,
            fault=rng.choice(['none', 'none', 'none', 'kill', 'power',
            'unordered', 'truncated', 'lost', 'eio-read', 'eio-write', 'full',
            'memory', 'interrupt', 'short', 'missing']), at=rng.random(), which=rng.random(),
            bufsize=rng.choice([16, 64, 512, 8192]))

    def data(self, p):
        g = np.random.default_rng([p['seed'], 25])
        shape = p['size'], *p['shape']
        W = np.array([float('%.5e' % x) for x in g.standard_normal(
            int(np.prod(shape)))]).reshape(shape)
        return (W, g.standard_normal(3).round(6), (models.lattice(g, 3)
            + 0.3 * g.random((3, 3))).round(7), ['Ta', 'S'][:p['nat']],
            g.random((p['nat'], 3)).round(7))

    def files(self, p):
        W, r0, a, X, tau = self.data(p)
        n = p['size']
        rows = ['written on  1Jan2000', '%d' % n, '1', '1']
        H = np.random.default_rng([p['seed'], 26]).random((n, n)).round(6)
        for j in range(n):
            for i in range(n):
                rows.append('0 0 0 %d %d %.6f 0.0' % (i + 1, j + 1, H[i, j]))
        out = {'x_hr.dat': '\n'.join(rows) + '\n'}
        for i in range(n):
            out['x_%05d.xsf' % (i + 1)] = xsf(r0, a, X, tau, W[i])
        return {k: v.encode() for k, v in out.items()}

    def expected(self, p):
        W, r0, a, X, tau = self.data(p)
        dV = abs(np.linalg.det(a)) / np.prod(p['shape'])
        if p['normalize']:
            W = W / np.sqrt((W ** 2).sum(axis=(1, 2, 3), keepdims=True) * dV)
        f = [np.linspace(0, 1, n) for n in p['shape']]
        r = r0 + np.einsum('nijk,nx->ijkx', np.array(np.meshgrid(*f,
            indexing='ij')), a)
        return [W, r, dV, X, tau]

    def model(self, c, p, buffer):
        m = c.E.el.Model('x', read_xsf=True, normalize_wf=p['normalize'],
            buffer_wf=buffer, check_ortho=p['ortho'],
            shared_memory=p['shared'])
        return [m.W, m.r, m.dV, m.atom_order, m.tau]

    def plain(self, c, p):
        c.keep('orbitals', self.model(c, p, False))

    def first(self, c, p):
        try:
            c.keep('orbitals', self.model(c, p, True))
            if p['again'] and not c.extra.get('fault'):
                c.keep('again', self.model(c, p, True))
        except (OSError, MemoryError, KeyboardInterrupt):
            c.env.failed.append(c.rank)
            raise

    def second(self, c, p):
        c.keep('loaded', self.model(c, p, True))
        if p['again']:
            c.keep('again', self.model(c, p, True))
        if p['rewrite']:
            # other program writes to same files
            c.E.MPI.comm.Barrier()
            if c.rank == 0:
                for path in sorted(c.fs.files):
                    if path.endswith('.npy'):
                        c.fs.overwrite(path)

    def start(self, env, p, images, body, **kw):
        fs = SimFS(images)
        fs.bufsize = p['bufsize']
        if p['private']:
            # needed by first process only
            fs.visible = lambda rank, path: rank == 0 or path[-9:-4].isdigit()
        return env.run(self, p, body=body, fs=fs, **kw)

    def same(self, env, p, run, name):
        for r in range(run.n):
            env.equal('rank %d of %d: wave functions' % (r, run.n),
                run.get(name, r), self.expected(p), 1e-6)

    def execute(self, env, p):
        rng = random.Random('%s/faults' % env.config['seed'])
        files = self.files(p)
        env.failed = []

        if p['fault'] == 'missing':
            # one of the original files
            names = sorted(files)
            del files[names[int(p['which'] * len(names))]]
            run = self.start(env, p, files, self.plain, check=False)
            env.true(not run.ok(), 'missing file remains unnoticed')
            return

        run = self.start(env, p, files, self.plain)
        env.agree(run)
        env.stable(run)
        self.same(env, p, run, 'orbitals')
        env.true(sorted(run.fs.image()) == sorted(files), 'files %s written '
            'without buffer' % sorted(set(run.fs.image()) - set(files)))

        run = self.start(env, p, files, self.first)
        env.agree(run)
        env.stable(run)
        self.same(env, p, run, 'orbitals')
        if p['again']:
            self.same(env, p, run, 'again')
        writers = {x[0] for x in run.fs.log if x[1] == 'write'}
        env.true(writers == {0}, 'buffer written by processes %s' % sorted(
            writers))
        image = run.fs.image()
        ops = [i for i, x in enumerate(run.fs.log) if x[1] in ('open',
            'write', 'truncate', 'rename')]
        new = sorted(set(image) - set(files))
        sure, setup = True, None

        if p['fault'] in ('kill', 'power', 'unordered'):
            run = self.start(env, p, files, self.first, check=False, setup=
                faults.crash_at(ops[int(p['at'] * len(ops))], env),
                extra=dict(fault=True))
            full = image['x_head.xsf']
            image = run.fs.after_crash(p['fault'], rng)
            if p['fault'] == 'unordered' and full.startswith(image.get(
                    'x_head.xsf', b'-')) and rng.random() < 0.5:
                image['x_head.xsf'] = full
            elif p['fault'] == 'unordered' and 'x_head.xsf' in image:
                # header torn within a number, but later files complete: cannot
                # be told from another number in a text file
                image['x_head.xsf'] = b''
            sure = False
        elif p['fault'] in ('full', 'eio-write', 'memory', 'interrupt'):
            log = [x for x in run.fs.log if x[1] == 'write']
            if p['fault'] == 'full':
                setup = faults.disk_full(int(p['at'] * sum(x[3]
                    for x in log)), env)
            else:
                setup = faults.io_error(int(p['at'] * len(log)), 'write', env,
                    error=dict(memory=MemoryError, interrupt=
                        KeyboardInterrupt).get(p['fault']))
            run = self.start(env, p, files, self.first, check=False,
                setup=setup, extra=dict(fault=True))
            env.true(env.failed, 'failing to write buffer remains unnoticed')
            image = run.fs.image()
            sure, setup = False, None
        elif p['fault'] == 'truncated':
            # data in binary files
            env.fault('truncated file')
            name = [x for x in new if x.endswith('.npy')][rng.randrange(2)]
            image[name] = image[name][:int(p['at'] * len(image[name]))]
            sure = False
        elif p['fault'] == 'lost':
            env.fault('missing file')
            name = new[int(p['which'] * len(new))]
            del image[name]
            sure = False
        elif p['fault'] == 'eio-read':
            setup = faults.io_error(rng.randrange(12), 'read', env)
            sure = False
        elif p['fault'] == 'short':
            setup = faults.short(rng, env)

        run = self.start(env, p, image, self.second, check=False, setup=setup,
            **other_size(env, 6))
        if sure:
            env.passed(run)
        env.loaded(run, 'loaded', [self.expected(p)], sure)
        env.loaded(run, 'again', [self.expected(p)], False)
        if p['rewrite'] and run.ok():
            env.stable(run)
