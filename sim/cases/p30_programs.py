"""Operations that make use of external programs."""

import re

import numpy as np

from .. import models
from ..run import Case, register
from ._formats import RY, mesh_files


def shell(c, missing):
    """Stand-ins for shell commands and programs of Quantum ESPRESSO."""

    def q2qstar(source, target):
        # without symmetry, the star consists of a single wave vector
        try:
            with c.fs.open(source) as f:
                text = f.read()
        except FileNotFoundError:
            missing.append(source)
            return 1
        with c.fs.open(target, 'w') as f:
            f.write(text)
        return 0

    def dynmat(name):
        with c.fs.open(name) as f:
            text = f.read()
        head, *rest = text.split('Dynamical matrix in Cartesian axes')
        rows = head.split('\n')
        ntyp, nat, ibrav, alat = [float(x) for x in rows[2].split()[:4]]
        ntyp, nat = int(ntyp), int(nat)
        at = np.array([x.split() for x in rows[4:7]], dtype=float)
        q = np.array(re.search(r'q = \((.*?)\)', rest[0]).group(1).split(),
            dtype=float)
        words = rest[0].split(')', 1)[1].split('Diel')[0].split()
        D = np.array(words, dtype=float)[:nat * nat * 20].reshape((nat, nat,
            20))[:, :, 2:].reshape((nat, nat, 3, 3, 2)) @ [1.0, 1j]
        return q @ at.T, D, head.split('\n')[2:]

    def q2r(source, target):
        try:
            with c.fs.open(source + '0') as f:
                n1, n2, n3, count, *rest = f.read().split()
            n1, n2 = int(n1), int(n2)
            phid = None
            for i in range(int(count)):
                q, D, head = dynmat('%s%d' % (source, i + 1))
                if phid is None:
                    nat = len(D)
                    phid = np.full((n1, n2, nat, nat, 3, 3), np.nan + 0j)
                i1, i2 = np.round(q[:2] * [n1, n2]).astype(int)
                phid[i1 % n1, i2 % n2] = D
        except FileNotFoundError as e:
            missing.append(str(e))
            return 1
        phid = np.fft.ifft2(phid, axes=(0, 1)).real
        rows = [head[0]] + head[2:5] + [x for x in head[5:] if x.strip()]
        rows += ['F', '%4d%4d%4d' % (n1, n2, 1)]
        for j1, j2, a1, a2 in np.ndindex(3, 3, nat, nat):
            rows.append('%4d%4d%4d%4d' % (j1 + 1, j2 + 1, a1 + 1, a2 + 1))
            for m2, m1 in np.ndindex(n2, n1):
                rows.append('%4d%4d%4d %.12E' % (m1 + 1, m2 + 1, 1,
                    phid[m1, m2, a1, a2, j1, j2]))
        with c.fs.open(target, 'w') as f:
            f.write('\n'.join(rows) + '\n')
        return 0

    def command(text):
        text = ' '.join(text.split())
        m = re.match(r'(.*)q2qstar\.x (\S+) (\S+) > /dev/null$', text)
        if m:
            return q2qstar(*m.groups()[1:])
        m = re.match(r'echo "&INPUT fildyn=\'(.*?)\' flfrc=\'(.*?)\' /" \| '
            r'(.*)q2r\.x > /dev/null$', text)
        if m:
            return q2r(*m.groups()[:2])
        m = re.match(r'rm (.*)$', text)
        if m:
            os = c.world.loaders[c.rank].standins['os']
            for name in m.group(1).split():
                try:
                    os.remove(name)
                except FileNotFoundError:
                    missing.append(name)
            return 0
        return 1

    return command


@register('P03', 'P13', 'P15', 'P16', 'P22', 'P23')
class ForceConstants(Case):
    """Interpolation of dynamical matrices via external programs."""

    tol = 1e-6

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), nat=rng.choice([1, 1, 2]),
            nq=rng.choice([1, 2, 2, 3]), mass=rng.random() < 0.5,
            list=rng.random() < 0.3, clean=rng.random() < 0.5,
            asr=rng.random() < 0.3, own=rng.random() < 0.3)

    def run(self, c, p):
        E = c.E
        at, tau, M, b, qs, D = mesh_files(p)
        c.fs.shell = shell(c, c.env.missing)
        c.fs.visible = lambda rank, path: rank == 0 or path.split('/')[-1] \
            not in {'template', 'ifc', 'dyn0'}
        order = ['Ta', 'S'][:p['nat']]
        if c.rank == 0:
            E.ph.write_flfrc('template', (np.zeros((1, 3)), D[:1]), M, at, tau,
                order)
            if p['own']:
                E.ph.write_q('dyn0', [q @ b[:2, :] / p['nq'] for q in
                    np.array(qs, dtype=float)], p['nq'])
        E.MPI.comm.Barrier()
        q = [2 * np.pi * np.array(x) / p['nq'] for x in qs]
        D = np.array(D)
        if p['mass']:
            s = np.sqrt(np.repeat(M, 3))
            D = D / s[:, None] / s
        ph = E.ph.interpolate_dynamical_matrices(list(D) if p['list'] else D,
            q, p['nq'], 'template', 'dyn', 'ifc', divide_mass=p['mass'],
            clean=p['clean'], write_fildyn0=not p['own'],
            apply_asr_simple=p['asr'])
        c.keep('model', list(models.canon_R(ph.R, ph.data)))
        c.keep('geometry', [ph.a, ph.r, ph.atom_order, np.array(ph.M), ph.nq])
        if not p['asr']:
            for k, (i, d) in enumerate(zip(q, D)):
                s = 1.0 if p['mass'] else np.sqrt(np.repeat(M, 3))
                got = ph.D(*i) * np.ones_like(s)
                if not p['mass']:
                    got = got * s[:, None] * s
                c.env.equal('rank %d: dynamical matrix %s' % (c.rank, qs[k]),
                    got, d, 1e-5)
        E.MPI.comm.Barrier()
        left = sorted(c.fs.files)
        c.keep('files', left)
        return 'done'

    def execute(self, env, p):
        env.missing = []
        super().execute(env, p)

    def check(self, env, p, run, ref):
        env.true(not env.missing, 'files %s missing' % env.missing)
        writers = {}
        for rank, op, path, size in run.fs.log:
            if op == 'write':
                writers.setdefault(path, set()).add(rank)
        for path, ranks in writers.items():
            env.true(len(ranks) < 2, 'file %s written by processes %s' % (path,
                sorted(ranks)))
