"""Writing and reading of files, with and without faults."""

import random

import numpy as np

from .. import faults
from ..fs import SimFS
from ..kernel import Violation
from ..run import Case, differ, freeze, register
from ._formats import FORMATS
from .p17_checkpoint import other_size

NAMES = [n for n, f in FORMATS.items() for _ in range(f.weight)]
WRITTEN = [n for n in NAMES if FORMATS[n].write is not None]


def gen_format(rng, names):
    p = dict(seed=rng.randrange(10 ** 6), format=rng.choice(names))
    q = FORMATS[p['format']].gen(rng)
    q.pop('seed', None)
    p.update(q)
    p['bufsize'] = rng.choice([16, 64, 512, 8192])
    return p


def plain(images):
    """Content without date."""
    out = {}
    for name, data in images.items():
        if name.endswith('_hr.dat'):
            data = b'\n'.join(data.split(b'\n')[1:])
        out[name] = data
    return out


class FileCase(Case):
    compare = False
    nmax = 6

    def write(self, c, p):
        FORMATS[p['format']].write(c, p)

    def read(self, c, p):
        f = FORMATS[p['format']]
        value = f.read(c, p)
        if hasattr(f, 'canon'):
            value = f.canon(value)
        c.keep('content', value)

    def expect(self, c, p):
        f = FORMATS[p['format']]
        value = f.expected(c, p)
        if hasattr(f, 'canon'):
            value = f.canon(value)
        c.keep('content', value)

    def start(self, env, p, **kw):
        fs = SimFS()
        fs.bufsize = p['bufsize']
        return env.run(self, p, body=self.write, fs=fs, **kw)

    def material(self, env, p):
        """Files as written by single process, and their meaning."""
        f = FORMATS[p['format']]
        if f.make is not None:
            files, content = f.make(p)
            return {k: v.encode() if isinstance(v, str) else v
                for k, v in files.items()}, content
        run = env.reference(self, p, body=self.write, key='write')
        ref = env.reference(self, p, body=self.expect, key='expect')
        return run.fs.image(), ref.get('content')

    def source(self, p, images):
        """File system on which files are read."""
        f = FORMATS[p['format']]
        fs = SimFS(images)
        fs.bufsize = p['bufsize']
        if f.collective and not (hasattr(f, 'visible') and f.visible(p)):
            fs.visible = lambda rank, path: rank == 0
        return fs

    def compared(self, env, p, run, content):
        f = FORMATS[p['format']]
        for r, c in enumerate(run.contexts):
            d = differ(c.kept['content'].value, freeze(content), f.tol,
                p['format'])
            if d:
                raise Violation('content', 'rank %d of %d: read %s written'
                    % (r, run.n, d))


@register('P16', 'P15', 'P23', weight=5)
class Files(FileCase):
    """What is written is what is read."""

    def gen(self, rng):
        p = gen_format(rng, NAMES if rng.random() < 0.5 else WRITTEN)
        p['serial'] = rng.random() < 0.5
        return p

    def execute(self, env, p):
        f = FORMATS[p['format']]
        images, content = self.material(env, p)
        if f.make is None:
            run = self.start(env, p)
            writers = {}
            for r, op, path, size in run.fs.log:
                if op == 'write':
                    writers.setdefault(path, set()).add(r)
            for path, who in sorted(writers.items()):
                if len(who) > 1:
                    raise Violation('writers', '%s written by processes %s'
                        % (path, sorted(who)))
            a, b = plain(run.fs.image()), plain(images)
            if sorted(a) != sorted(b):
                raise Violation('files', 'files %s instead of %s' % (sorted(a),
                    sorted(b)))
            for name in sorted(a):
                if a[name] != b[name]:
                    self.same(name, a[name], b[name])
            images = run.fs.image()
        rng = random.Random('%s/faults' % env.config['seed'])
        setup = faults.short(rng, env) if rng.random() < 0.4 else None
        run = env.run(self, p, body=self.read, fs=self.source(p, images),
            setup=setup, **other_size(env, 6))
        env.agree(run)
        env.stable(run)
        if p['serial'] and content is not None:
            self.compared(env, p, env.run(self, p, body=self.read, fs=
                self.source(p, images), n=1, nodes=[0], mpi=False), content)
        if content is None:
            ref = env.run(self, p, body=self.read, fs=self.source(p, images),
                n=1, nodes=[0], mpi=False)
            content = ref.get('content')
        self.compared(env, p, run, content)

    def same(self, name, a, b):
        """Text with different rounding counts as the same."""
        try:
            a, b = a.decode().split(), b.decode().split()
        except UnicodeDecodeError:
            a = np.frombuffer(a[:len(a) // 8 * 8])
            b = np.frombuffer(b[:len(b) // 8 * 8])
            d = differ(a, b, 1e-9, name)
            if d:
                raise Violation('files', 'content of %s on a single process'
                    % d)
            return
        if len(a) != len(b):
            raise Violation('files', '%s: %d instead of %d words' % (name,
                len(a), len(b)))
        for x, y in zip(a, b):
            if x == y:
                continue
            try:
                u, v = float(x), float(y)
            except ValueError:
                raise Violation('files', '%s: %r instead of %r' % (name, x, y))
            if abs(u - v) > 1e-5 * abs(v) + 2e-6:
                raise Violation('files', '%s: %r instead of %r' % (name, x, y))


@register('P16', weight=2)
class WriteFaults(FileCase):
    """Failing to write must not go unnoticed."""

    def gen(self, rng):
        p = gen_format(rng, WRITTEN)
        p.update(fault=rng.choice(['full', 'eio', 'open', 'short']),
            at=rng.random())
        return p

    def execute(self, env, p):
        run = self.start(env, p)
        log = [x for x in run.fs.log if x[1] == 'write']
        total = sum(x[3] for x in log)
        if p['fault'] == 'short':
            rng = random.Random('%s/faults' % env.config['seed'])
            other = self.start(env, p, setup=faults.short(rng, env,
                ('write',)))
            a, b = plain(other.fs.image()), plain(run.fs.image())
            if a != b:
                bad = sorted(x for x in b if a.get(x) != b[x])
                raise Violation('files', 'content of %s damaged by short '
                    'writes' % bad)
            return
        if p['fault'] == 'full':
            setup = faults.disk_full(int(p['at'] * total), env)
        elif p['fault'] == 'eio':
            setup = faults.io_error(int(p['at'] * len(log)), 'write', env)
        else:
            paths = sorted({x[2] for x in log})
            if not paths:
                raise Violation('files', 'no process writes %s' % p['format'])
            path = paths[int(p['at'] * len(paths))]
            setup = faults.io_error(0, 'open', env, lambda x: x == path)
        run = self.start(env, p, setup=setup, check=False)
        if run.ok():
            raise Violation('unnoticed', 'no process reports that writing %s '
                'failed (%s)' % (p['format'], p['fault']))
        for r, o in enumerate(run.outcomes):
            if o is not None and o[0] == 'exc' and not isinstance(o[1],
                    OSError):
                raise Violation('exception', 'rank %d of %d: %s instead of '
                    'error of operating system' % (r, run.n, repr(o[1])))


@register('P19', 'P15', weight=3)
class ReadFaults(FileCase):
    """Damaged files: error or what is in there."""

    def gen(self, rng):
        p = gen_format(rng, NAMES)
        p.update(fault=rng.choice(['byte', 'byte', 'line', 'tail', 'word',
            'word', 'missing', 'eio', 'open']), at=rng.random(),
            which=rng.random(), cut=rng.randrange(1, 30))
        return p

    def damage(self, p, data):
        if p['fault'] == 'byte':
            return data[:int(p['at'] * len(data))]
        if p['fault'] == 'tail':
            return data[:-p['cut']]
        if p['fault'] == 'line':
            rows = data.split(b'\n')
            return b'\n'.join(rows[:int(p['at'] * len(rows))])
        # behind a word, preferably in last line
        rows = data.rstrip().split(b'\n')
        n = int(p['at'] * len(rows)) if p['cut'] % 2 else len(rows) - 1
        words = rows[n].split()
        rows[n] = b' '.join(words[:p['cut'] % max(1, len(words))])
        return b'\n'.join(rows[:n + 1])

    def execute(self, env, p):
        f = FORMATS[p['format']]
        images, content = self.material(env, p)
        names = sorted(images)
        if not names:
            raise Violation('files', 'nothing is written for %s' % p['format'])
        name = names[int(p['which'] * len(names))]
        setup = None
        if p['fault'] == 'missing':
            images = {k: v for k, v in images.items() if k != name}
            env.fault('missing file')
        elif p['fault'] not in ('eio', 'open'):
            images = dict(images)
            images[name] = self.damage(p, images[name])
            env.fault('truncated file')

        if p['fault'] in ('eio', 'open'):
            base = env.run(self, p, body=self.read, fs=self.source(p, images))
            ops = [x for x in base.fs.log if x[1] == ('read' if p['fault']
                == 'eio' else 'open')]
            setup = faults.io_error(int(p['at'] * len(ops)), 'read'
                if p['fault'] == 'eio' else 'open', env)
            run = env.run(self, p, body=self.read, fs=self.source(p, images),
                check=False, setup=setup)
            if not run.ok():
                return
            for r in range(run.n):
                value = run.get('content', r)
                if f.empty and np.size(value) == 0:
                    continue
                d = differ(value, base.get('content', r), 1e-9, p['format'])
                if d:
                    raise Violation('damaged', 'unreadable file: ' + d)
            if not p.get('own'):
                env.agree(run)
            return

        key = 'damaged/%s' % p['fault']
        runs = []
        for junk, kw in [('zero', dict(n=1, nodes=[0], mpi=False, policy='seq',
                preempt=0)), ('nan', {}), ('big', other_size(env, 4))]:
            runs.append(env.run(self, p, body=self.read, check=False,
                fs=self.source(p, images), junk=junk, **kw))
        for run in runs:
            for r, o in enumerate(run.outcomes):
                if o is not None and o[0] == 'exc' and isinstance(o[1],
                        Violation):
                    raise o[1]
        first = runs[0]
        for run in runs:
            if run.ok() != first.ok():
                raise Violation('outcome', 'damaged file read %s on a single '
                    'process, but %s on %d processes' % (*['successfully'
                    if x.ok() else 'without success' for x in (first, run)],
                    run.n))
        if not first.ok():
            return
        for run in runs[1:]:
            env.agree(run)
            d = differ(run.get('content'), first.get('content'), 1e-7,
                p['format'])
            if d:
                raise Violation('arbitrary', 'damaged file, other memory '
                    'content: ' + d)


@register('P24', 'P15', 'P13')
class InputData(Case):
    """Input files of Quantum ESPRESSO with and without broadcasting."""

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), private=rng.random() < 0.5,
            calls=[rng.random() < 0.5 for _ in range(rng.choice([1, 2, 3]))])

    def files(self, p):
        rng = random.Random('%d/input' % p['seed'])
        lists = []
        for i in range(rng.randrange(1, 4)):
            lists.append('&list%d' % i)
            for j in range(rng.randrange(0, 4)):
                name = 'key_%d_%d' % (i, j)
                value, text = rng.choice([(3, '3'), (-1.5, '-1.5d0'), (True,
                    '.true.'), (False, '.false.'), ('a/b', "'a/b'"), (1e-12,
                    '1.0D-12')])
                lists.append('    %s = %s' % (name, text))
            lists.append('/')
        return {'x.in': ('\n'.join(lists) + '\n').encode()}

    def run(self, c, p):
        for i, broadcast in enumerate(p['calls']):
            data = c.E.misc.read_input_data('x.in', broadcast=broadcast)
            c.env.true(broadcast or c.rank == 0 or data is None,
                'rank %d obtains data nobody has sent' % c.rank)
            c.keep('input %d' % i, data if data is None else sorted(map(repr,
                data.items())), root=not broadcast)

    def execute(self, env, p):
        fs = SimFS(self.files(p))
        if p['private']:
            fs.visible = lambda rank, path: rank == 0
        run = env.run(self, p, fs=fs)
        env.compare(run, env.reference(self, p))
