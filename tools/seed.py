"""Verify planted bugs: seed.py ID... [--checks] (development tool only).

Everything happens in a scratch copy of /repo, which is removed afterwards.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')


def sh(cmd, cwd, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, timeout=timeout, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout or '')[-500:]


class Copy:
    """Scratch copy of the repository together with its test scripts."""

    def __enter__(self):
        self.tmp = tempfile.mkdtemp(prefix='seed-')
        self.repo = self.tmp + '/repo'
        sh('git clone -q /repo ' + self.repo, '/')
        for name in 'build.sh', 'test.sh':
            with open('/opt/vp/' + name) as f:
                text = f.read()
            with open(self.tmp + '/' + name, 'w') as f:
                f.write(text.replace('cd /repo', 'cd ' + self.repo)
                    .replace("'/repo/", "'%s/" % self.repo)
                    .replace('PYTHONPATH= ', 'PYTHONPATH=%s ' % self.repo)
                    .replace('PYTHONPATH=/opt/vp/plugin',
                        'PYTHONPATH=/opt/vp/plugin:' + self.repo))
        return self

    def __exit__(self, *args):
        shutil.rmtree(self.tmp)


def verify(name, tests=True):
    src = os.path.join(SEEDED, name)
    with Copy() as c:
        demo = os.path.join(c.tmp, 'demo')
        os.mkdir(demo)
        for f in os.listdir(src):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(src, f), demo)
        r0, o0 = sh('bash %s/demo.sh' % demo, c.repo, 300)
        r, o = sh('git apply %s/patch.diff' % src, c.repo)
        assert not r, o
        r1, o1 = sh('bash %s/build.sh && bash %s/demo.sh' % (c.tmp, demo),
            c.repo, 300)
        failed = None
        if tests:
            sh('bash %s/test.sh %s/out.json' % (c.tmp, c.tmp), c.repo)
            with open(c.tmp + '/out.json') as f:
                got = set(json.load(f)['passed'])
            with open('/opt/vp/BASELINE.json') as f:
                failed = sorted(set(json.load(f)['stable']) - got)
        ok = r0 == 0 and r1 != 0 and not failed
        print('%-28s %s clean=%d patched=%d tests=%s' % (name, 'OK' if ok
            else 'BAD', r0, r1, 'failed %s' % failed if failed else 'ok'))
        if not ok or '-v' in sys.argv:
            print('--- clean:\n%s--- patched:\n%s' % (o0[-1500:], o1[-1500:]))


def checks(name, props=None, seconds=None):
    src = os.path.join(SEEDED, name)
    with open(src + '/meta.json') as f:
        meta = json.load(f)
    with Copy() as c:
        env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick',
            OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg',
            PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='', ELPHMOD_REPO=c.repo)
        r, o = sh('git apply %s/patch.diff' % src, c.repo)
        assert not r, o
        for p in props or [meta['property']]:
            r, o = sh('/opt/venv/bin/python sim/check.py %s quick %s' % (p,
                '--seconds %s' % seconds if seconds else ''), VERIF, 900, env)
            hit = [x for x in o.splitlines() if x.startswith('VIOLATION')]
            print('%-28s %s %s rc=%d %s' % (name, p, 'CAUGHT' if r == 1
                and hit else 'MISSED', r, o.strip()[-400:].replace('\n',
                ' | ')), flush=True)


if __name__ == '__main__':
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    for name in names or sorted(os.listdir(SEEDED)):
        if '--checks' in sys.argv:
            checks(name)
        else:
            verify(name, '--no-tests' not in sys.argv)
