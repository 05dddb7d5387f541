"""Complete programs: the examples that come with the package."""

import ast
import glob
import os

import numpy as np

from .. import models
from ..run import Case, Skip, register
from ..world import REPO

FOLDER = os.path.join(REPO, 'examples')


def bands(e):
    return np.sort(np.asarray(e), axis=-1)


def total(w):
    """Degenerate states may be chosen at will, but not their sum."""
    return np.asarray(w).sum(axis=-1)


# numbers (or values of variables) to be replaced, with smaller ones to choose from; names of results that
# are the same on all processes; names of results of the first process; names of
# results that depend on random displacements

SCRIPTS = {
    'a2f': ({36: [2, 4, 5], 500: [7, 20]},
        'omega DOS a2F lamda wlog Tc w2 dd weights', 'nph_int lamda_int', ''),
    'coulomb': ({150: [5, 11]}, 'W q x corners', '', ''),
    'dos': ({36: [3, 6], 300: [3, 20]}, 'DOS_smear DOS_tetra', '', ''),
    'double_delta': ({120: [6, 12], 12: [2, 3], 300: [5, 16]},
        'wedge mesh BZ ekk', '', ''),
    'electrons': ({150: [4, 10], 72: [3, 6]}, 'E DOS', '', ''),
    'fan_migdal': ({240: [4, 7], 50: [300, 500]}, 'Sigma A integral sigma',
        '', ''),
    'fermi_surface': ({72: [4, 6], 200: [3, 12]}, 'e delta', '', ''),
    'fermi_velocity': ({120: [6, 9], 500: [30, 41]}, 'e dedk kx ky', '', ''),
    'intersections': ({36: [4, 6], 100: [7, 15]},
        'ekk ekq FS_kk FS_kq kx ky', '', ''),
    'irreducibles': ({72: [4, 9]}, '', 'points', ''),
    'isoline': ({24: [3, 6]}, 'e', '', ''),
    'kekule': ({6: [2], 150: [4, 9], 301: [3, 5], 1e-8: [0.01, 0.001],
        'sparse': [True, False]}, '', '', 'u1 e w2'),
    'occupations': ({2001: [7]}, '', '', ''),
    'peierls': ({1000: [3, 20]}, 'e E', '', ''),
    'phonons': ({150: [4, 8]}, 'q x', '', ''),
    'smear_tetra': ({120: [4, 8], 1000: [3, 15]}, 'DOS_tetra DDI_tetra',
        'DOS_smear DDI_smear', ''),
    'specfun': ({60: [4, 6], 300: [13, 20], 'to_screen': [True, False]},
        'D0 w0 w Pi0 Piw A', '', ''),
    'ssh': ({210: [2, 4, 6], 6: [2], 1e-8: [0.01, 0.001], 'sparse': [True, False]},
        '', '', 'u'),
    'supercell_el': ({150: [3, 7], 3: [2, 3]}, 'e E k x', '', ''),
    'supercell_elel': ({150: [3, 7], 3: [2, 3]}, 'v V', '', ''),
    'supercell_elph': ({300: [3, 7], 3: [1, 2]}, 'g G', '', ''),
    'supercell_ph': ({150: [3, 6], 3: [1, 2]}, 'w2 W2', '', ''),
    'susceptibility': ({30: [2, 3], 100: [3, 6], 36: [2, 4], 300: [4, 15]},
        'e BZ chi_R', 'chi_hyb_q', ''),
    }

CANON = {('electrons', 'e'): bands, ('phonons', 'w2'): bands,
    ('peierls', 'W'): total}

for name in 'supercell_el', 'supercell_elel', 'supercell_ph', 'supercell_elph':
    SCRIPTS[name] = SCRIPTS[name][:1] + (SCRIPTS[name][1] + ' W',) + \
        SCRIPTS[name][2:]
    CANON[name, 'W'] = total

SCRIPTS['electrons'] = SCRIPTS['electrons'][:1] + ('E DOS e',) + \
    SCRIPTS['electrons'][2:]
SCRIPTS['phonons'] = SCRIPTS['phonons'][:1] + ('q x w2',) + \
    SCRIPTS['phonons'][2:]


class Replace(ast.NodeTransformer):
    """Replace numbers in program."""

    def __init__(self, numbers):
        self.numbers = numbers

    def visit_Assign(self, node):
        for old, new in self.numbers:
            if isinstance(node.targets[0], ast.Name) \
                    and node.targets[0].id == old:
                node.value = ast.copy_location(ast.Constant(new), node.value)
                return node
        return self.generic_visit(node)

    def visit_Constant(self, node):
        for old, new in self.numbers:
            if type(node.value) is type(old) and node.value == old:
                return ast.copy_location(ast.Constant(new), node)
        return node


_trees = {}
_files = {}


def source(name):
    if name not in _trees:
        try:
            with open(os.path.join(FOLDER, name + '.py')) as f:
                _trees[name] = f.read()
        except OSError:
            _trees[name] = None
    return _trees[name]


def data():
    if not _files:
        for path in glob.glob(os.path.join(FOLDER, 'data', 'NbSe2*')) \
                + glob.glob(os.path.join(FOLDER, 'data', '*.ijkl')):
            with open(path, 'rb') as f:
                _files['data/' + os.path.basename(path)] = f.read()
    return _files


@register('P02', 'P07', 'P09', 'P13', 'P20', 'P22', 'P23', weight=0.4)
class Examples(Case):
    """Example programs with smaller meshes."""

    repeats = True
    nmax = 6
    tol = 2e-6

    def gen(self, rng):
        name = rng.choice(sorted(SCRIPTS))
        numbers = [[old, rng.choice(new)] for old, new in
            SCRIPTS[name][0].items()]
        return dict(seed=rng.randrange(10 ** 6), name=name, numbers=numbers,
            verbosity=rng.choice([0, 1, 3]))

    def files(self, p):
        return data()

    def execute(self, env, p):
        if source(p['name']) is None:
            raise Skip
        super().execute(env, p)

    def run(self, c, p):
        tree = Replace(p['numbers']).visit(ast.parse(source(p['name'])))
        try:
            out = c.world.loaders[c.rank].script(tree, 'examples/%s.py'
                % p['name'])
        except SystemExit:
            return
        _, same, root, agree = SCRIPTS[p['name']]
        if p['name'] == 'ssh':
            c.keep('u', out['driver'].u, compare=False)
            agree = ''
        for name in same.split():
            if name not in out and c.rank:
                continue
            c.keep(name, out[name], canon=CANON.get((p['name'], name)))
        for name in root.split():
            c.keep(name, out[name] if c.rank == 0 else None, root=True)
        for name in agree.split():
            c.keep(name, out.get(name), compare=False)
        for name in 'el', 'ph':
            if hasattr(out.get(name), 'data') and not agree:
                m = out[name]
                c.keep(name, list(models.canon_R(m.R, m.data)))
