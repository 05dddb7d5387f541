#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=None,
        observe=None, hook=None):
    anchors = dict(files=['elphmod/' + f for f in files],
        mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w)
            for n, m, w in state]
    anchors['observe_at'] = observe or []
    anchors['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=anchors))

SAMPLED = ('The tests run on one process and on two processes of one node with '
    'a handful of sizes; ')

prop('P01', 'Work shares are complete, contiguous, balanced and agreed upon',
    'Whenever a number of work items is divided among processes (or a chosen '
    'number of chunks), the shares are the same on every process, consecutive, '
    'cover every item exactly once and differ by at most one item. Dividing '
    'processes into groups per item and into groups sharing memory puts every '
    'process in exactly one group of each kind, ordered by its original '
    'number, such that number zero leads both of its groups.',
    ['inputs', 'configurations', 'schedules'],
    'any item count (also zero and fewer items than processes), any process '
    'and chunk count, any placement of processes on nodes, any subgroup of '
    'processes, any timing',
    SAMPLED + 'the quantifier is over all counts, groupings and node layouts.',
    ['MPI.py'],
    [('distribution of work', 'elphmod/MPI.py: distribute'),
     ('process grid', 'elphmod/MPI.py: matrix'),
     ('node and image groups', 'elphmod/MPI.py: shm_split, shared_array')],
    observe=['return values on every process'])

prop('P02', 'Band structures and sampled quantities do not depend on processes',
    'Energies, eigenvectors, band orders, unfolding weights and any function '
    'sampled on a mesh or path have the same values in the same order on every '
    'process as in a calculation on a single process. This holds for any '
    'number of processes, any distribution over nodes and any relative timing.',
    ['schedules', 'configurations', 'inputs'],
    'all process counts (below, equal to and above the number of points), node '
    'layouts, interleavings, path and mesh shapes and option combinations',
    SAMPLED + 'band ordering, eigenvectors, shared memory, unfolding and '
    'uneven shares are never run in parallel.',
    ['dispersion.py'],
    [('scatter of points, gather of results', 'elphmod/dispersion.py: dispersion'),
     ('irreducible wedge to full zone', 'elphmod/dispersion.py: dispersion_full'),
     ('uniform mesh', 'elphmod/dispersion.py: dispersion_full_nosym, sample'),
     ('unfolding', 'elphmod/dispersion.py: unfold, unfolding_weights')],
    observe=['returned arrays on every process'])

prop('P03', 'Interpolated models are the same for any number of processes',
    'Turning Hamiltonians, dynamical matrices, couplings or interactions on a '
    'uniform mesh into a localized model gives every process the same model, '
    'and this model equals the one obtained on a single process up to the '
    'order of lattice vectors. Evaluated on the original mesh, it reproduces '
    'the input, also after standardization.',
    ['schedules', 'configurations', 'inputs'],
    'all mesh shapes in one to three dimensions, lattices, basis sizes, '
    'process counts, node layouts and interleavings',
    SAMPLED + 'two small lattices, never more than two processes.',
    ['bravais.py', 'el.py', 'ph.py', 'elph.py', 'elel.py'],
    [('Wigner-Seitz search split over processes', 'elphmod/bravais.py: wigner'),
     ('mapping to lattice vectors', 'elphmod/bravais.py: short_range_model'),
     ('Fourier transforms', 'k2r and q2r in elphmod/el.py, ph.py, elph.py, elel.py'),
     ('merging of lattice vectors', 'standardize methods')],
    observe=['model data on every process', 'Bloch matrices on original mesh'])

prop('P04', 'Cell transformations of models are consistent on all processes',
    'Mapping an electronic, vibrational or interaction model to a supercell, '
    'back to the unit cell, reordering or shifting its basis and cutting its '
    'range yields the same model on every process and for any number of '
    'processes. Supercell mappings and their inverse preserve the spectrum at '
    'equivalent wave vectors, and the original model is left unchanged.',
    ['schedules', 'configurations', 'inputs'],
    'all supercell shapes (also non-diagonal), models, process counts and '
    'timings',
    SAMPLED + 'only a diagonal 2 x 2 supercell of one model is compared.',
    ['el.py', 'ph.py', 'elel.py', 'bravais.py'],
    [('supercell lattice', 'elphmod/bravais.py: supercell, to_supercell'),
     ('construction on first process and broadcast',
      'supercell, unit_cell, order_*, shift_*, decay methods of the models')],
    observe=['model data on every process', 'spectra'])

prop('P05', 'Electron-phonon coupling does not depend on processes',
    'The coupling evaluated for single wave vectors, sampled on meshes or '
    'paths, transformed between bases, or standardized has the same value on '
    'every process as on a single process, also if processes are grouped '
    'unevenly because there are more of them than phonon wave vectors. '
    'This holds with and without shared memory and long-range terms.',
    ['schedules', 'configurations', 'inputs'],
    'all numbers of wave vectors relative to processes, options, node layouts '
    'and interleavings',
    SAMPLED + 'the uneven process grid and the shared-memory paths are not '
    'exercised.',
    ['elph.py', 'MPI.py'],
    [('parallel Fourier sums', 'elphmod/elph.py: Model.g'),
     ('process grid over wave vectors', 'elphmod/elph.py: sample'),
     ('interpolation', 'elphmod/elph.py: q2r, transform')],
    observe=['returned arrays on every process'])

prop('P06', 'Coupling supercells agree in dense, shared and sparse form',
    'The coupling of a supercell assembled by several processes equals the '
    'one assembled by a single process on every process, no matter if it is '
    'stored densely, in shared memory or as sparse matrices and how processes '
    'are placed on nodes. Dense and sparse forms describe the same derivative '
    'of the Hamiltonian.',
    ['schedules', 'configurations', 'inputs'],
    'supercell shapes, storage forms, process counts, node layouts, '
    'interleavings of processes writing the same memory',
    SAMPLED + 'shared storage and more than one node are not exercised.',
    ['elph.py'],
    [('assembly with per-cell shares', 'elphmod/elph.py: Model.supercell'),
     ('turn-taking writes to shared memory', 'elphmod/elph.py: Model.supercell')],
    observe=['model data on every process'])

prop('P07', 'Self-energies and other diagrams do not depend on processes',
    'Phonon and electron self-energies, renormalized couplings, double '
    'Fermi-surface averages, conductivities and spectral functions, including '
    'their optional integrands, have the same values in the same order on '
    'every process as on a single process.',
    ['schedules', 'configurations', 'inputs'],
    'numbers of wave vectors or frequencies below, equal to and above the '
    'number of processes, all options and interleavings',
    SAMPLED + 'with a single wave vector only.',
    ['diagrams.py', 'ph.py'],
    [('shares of wave vectors and gathering', 'elphmod/diagrams.py'),
     ('shares of frequencies', 'elphmod/ph.py: spectral_function')],
    observe=['returned arrays on every process'])

prop('P08', 'Tetrahedron and Fermi-surface results do not depend on processes',
    'Densities of states, Eliashberg functions, double-delta intersections, '
    'isolines and McMillan parameters are the same on every process as on a '
    'single process, also for processes without any share of triangles and '
    'for energies coinciding with mesh values. Isolines consist of the same '
    'line segments, whatever their order.',
    ['schedules', 'configurations', 'inputs'],
    'mesh sizes, degenerate and coinciding energies, process counts, timings',
    'No test covers these functions at all.',
    ['dos.py', 'eliashberg.py'],
    [('shares of triangles and sums', 'elphmod/dos.py: hexDOS, hexa2F'),
     ('gathered intersections', 'elphmod/dos.py: double_delta, isoline')],
    observe=['returned values on every process'])

prop('P09', 'Structure relaxation and dynamics agree on all processes',
    'For a given structure, free energy, forces, force constants, phonon '
    'properties, superconducting parameters and electronic bands are '
    'the same on every process as on a single process, for dense, shared and '
    'sparse couplings. All processes hold identical displacements and '
    'occupations after every operation that changes them, including random '
    'displacements.',
    ['schedules', 'configurations', 'histories'],
    'sequences of driver operations, process counts, node layouts, timings, '
    'different random-number states per process',
    SAMPLED + 'single calls rather than histories of operations.',
    ['md.py'],
    [('distribution over wave vectors and shared buffers',
      'elphmod/md.py: Driver.hessian, superconductivity'),
     ('broadcast of displacements', 'elphmod/md.py: random_displacements, from_xyz')],
    state=[('displacements', 'atomic displacements', 'elphmod/md.py: Driver.u')],
    observe=['returned values and driver state on every process'])

prop('P10', 'Images and resampled data do not depend on processes',
    'Brillouin-zone images, nested images, colored images and resampled data '
    'contain the same pixels on every process entitled to them as on a single '
    'process, for any image size, also if there are fewer pixels than '
    'processes.',
    ['schedules', 'configurations', 'inputs'],
    'image and mesh sizes, data types, options, process counts, timings',
    'No test covers these functions at all.',
    ['plot.py', 'bravais.py'],
    [('shares of pixels', 'elphmod/plot.py: plot, double_plot, toBZ, color'),
     ('shares of mesh points', 'elphmod/bravais.py: resize')],
    observe=['returned arrays'])

prop('P11', 'Coulomb interactions do not depend on processes',
    'Interaction matrices evaluated, transformed to the band basis, written '
    'and read back, or mapped to supercells are the same on every process '
    'entitled to them as on a single process, with and without shared memory.',
    ['schedules', 'configurations', 'inputs'],
    'orbital numbers, mesh sizes, storage forms, process counts, node layouts',
    SAMPLED + 'only one Fourier interpolation is tested.',
    ['elel.py'],
    [('scattered index tuples', 'elphmod/elel.py: orbital2band'),
     ('shared reading', 'elphmod/elel.py: read_band_Coulomb_interaction')],
    observe=['returned arrays'])

prop('P12', 'Shared memory is complete when handed over and stays unchanged',
    'When an operation returns data in memory shared by the processes of a '
    'node, every process immediately sees the final values, for any placement '
    'of processes on nodes and any delay of any process. Values handed over '
    'do not change afterwards unless the user changes them, and results equal '
    'those without shared memory.',
    ['schedules', 'configurations'],
    'all node layouts (one node, several, uneven, interleaved, one process '
    'per node, no shared-memory support) and all interleavings including '
    'arbitrarily stalled processes',
    'Real runs use one node and lucky timing; a missing synchronization shows '
    'up only under particular interleavings.',
    ['MPI.py', 'dispersion.py', 'elph.py', 'md.py', 'el.py', 'elel.py',
     'misc.py'],
    [('one writer, node roots broadcast, then a barrier',
      'elphmod/MPI.py: shared_array, SharedArray.Bcast, load'),
     ('same pattern in all users', 'shared_memory and share options')],
    observe=['arrays right after return and at the end of the run'])

prop('P13', 'All processes pass through every operation together',
    'Every operation called by all processes returns on all of them: no '
    'process is left waiting, and all communicate in the same order with '
    'matching sizes and types, for any number of processes and timing. If an '
    'argument is rejected with an error message, the message is printed once and '
    'every process ends.',
    ['schedules', 'configurations', 'inputs'],
    'all process counts (also with nothing to do for some), node layouts, '
    'delays, eager or synchronizing communication, valid and rejected inputs',
    SAMPLED + 'a hang or mismatch needs a certain process count or layout.',
    ['MPI.py', 'dispersion.py', 'bravais.py', 'elph.py', 'md.py', 'el.py',
     'ph.py'],
    [('barrier, single message, exit on all', 'elphmod/MPI.py: info'),
     ('collective calls outside rank-dependent branches', 'all modules')],
    observe=['termination of all processes', 'standard output'])

prop('P14', 'Groups of processes can work on different tasks independently',
    'Operations that accept a group of processes involve only this group: '
    'different groups, or processes on their own, can run different or '
    'different numbers of such operations at the same time without waiting '
    'for, or influencing, each other. The results equal those of a single '
    'process.',
    ['schedules', 'configurations', 'histories'],
    'all partitions of the processes into groups, different workloads per '
    'group, all interleavings, with and without shared-memory support',
    'The tests never pass a group other than all processes.',
    ['MPI.py', 'dispersion.py', 'elph.py', 'diagrams.py', 'misc.py', 'plot.py'],
    [('communicator arguments', 'comm arguments throughout'),
     ('self group', 'elphmod/MPI.py: I')],
    observe=['returned values per group', 'termination'])

prop('P15', 'Input files reach all processes identically',
    'Every process that reads an input file together with others obtains the '
    'content of the file, although the file is opened by the first process '
    'only and may be invisible to, or change for, the others. The result '
    'equals that of a single process.',
    ['schedules', 'configurations', 'fault_sequences', 'inputs'],
    'all supported formats read by several processes, files visible on the '
    'first node only, short reads, any timing',
    'No test reads any file.',
    ['el.py', 'ph.py', 'elph.py', 'elel.py', 'bravais.py', 'misc.py', 'MPI.py',
     'md.py'],
    [('first process reads and broadcasts', 'read_* functions, MPI.load')],
    observe=['returned values', 'file accesses per process'])

prop('P16', 'Output files are written once, completely and reproducibly',
    'Files written by several processes have the same content as those '
    'written by one process, each byte written once by one process. Reading '
    'them back gives the original model to the precision of the format. If '
    'the disk is full or writing fails, the writing process reports an error '
    'instead of success.',
    ['schedules', 'configurations', 'fault_sequences', 'inputs'],
    'all output formats, models, process counts, timings, points of failure '
    'while writing, clock values',
    'No test writes any file.',
    ['el.py', 'ph.py', 'elph.py', 'elel.py', 'bravais.py', 'misc.py', 'md.py'],
    [('only first process writes', 'to_* and write_* functions')],
    observe=['file content', 'file accesses per process'])

prop('P17', 'Checkpoints restore a saved state or fail, whatever happens',
    'After a simulation is saved and loaded, on any number of processes and '
    'nodes, it continues with identical energies, forces and displacements. '
    'After a crash at any point while saving, or loss of recently written '
    'data, loading yields a state that was saved before, or nothing or an '
    'error, but never a mixture or a damaged state.',
    ['crash_points', 'fault_sequences', 'histories', 'configurations'],
    'all crash points within saving, torn and lost writes, different process '
    'counts before and after, sequences of saves',
    'No test saves or loads a simulation, let alone interrupts it.',
    ['md.py', 'MPI.py', 'el.py'],
    [('serialization without communicators', 'elphmod/md.py: Driver.save, load'),
     ('buffer file', 'elphmod/MPI.py: Buffer')],
    observe=['restored observables'])

prop('P18', 'Saving leaves the running simulation intact, even if it fails',
    'Saving a simulation does not change it: all later results are the same '
    'as without saving, on every process. This also holds if saving '
    'fails, for example because the disk is full, and saving can then be '
    'repeated successfully.',
    ['fault_sequences', 'histories', 'configurations'],
    'all points of failure while saving, repeated attempts, dense, shared and '
    'sparse couplings, process counts',
    'No test saves a simulation.',
    ['md.py', 'MPI.py'],
    [('temporary removal of communicators', 'elphmod/md.py: Driver.save')],
    observe=['driver observables after (failed) saving'])

prop('P19', 'Damaged or incomplete input never turns into arbitrary data',
    'If an input or buffer file is truncated, missing or unreadable at any '
    'point, reading it fails or yields values determined by what is in the '
    'file alone. Values never depend on the previous content of memory and '
    'never differ between processes.',
    ['fault_sequences', 'crash_points', 'configurations'],
    'all truncation points, read errors and missing files for the supported '
    'formats, process counts',
    'No test reads a damaged file.',
    ['el.py', 'ph.py', 'elph.py', 'elel.py', 'bravais.py', 'misc.py', 'MPI.py'],
    [('array initialization before parsing', 'read_* functions'),
     ('existence checks', 'elphmod/MPI.py: load')],
    observe=['returned values under different initial memory contents'])

prop('P20', 'Results do not depend on per-process hidden state',
    'Results do not depend on what differs between processes without the '
    'user\'s doing: hash seeds and thus set order, random-number states, '
    'clocks, speed, and the previous content of memory.',
    ['schedules', 'configurations', 'fault_sequences'],
    'all hash orders, random states, clock offsets and jumps, memory contents '
    'and interleavings, independently for each process',
    'The tests run with whatever state the interpreter happens to have.',
    ['MPI.py', 'dispersion.py', 'bravais.py', 'elph.py', 'md.py', 'misc.py',
     'ph.py', 'el.py'],
    [('broadcast of everything random or unordered', 'throughout'),
     ('full initialization of receive buffers', 'throughout')],
    observe=['returned values'])

prop('P21', 'Evaluating a model does not depend on earlier evaluations',
    'The coupling, Hamiltonian, dynamical matrix or driver observables for '
    'given arguments depend on the present model data and arguments only, not '
    'on which wave vectors, groups of processes or observables were evaluated '
    'before, also if the model has been changed by its own methods in '
    'between. Evaluations change neither the model nor the arrays they are '
    'given.',
    ['histories', 'schedules', 'configurations'],
    'all sequences of evaluations and model changes, by all or different '
    'groups of processes in different order',
    'The tests use fresh models and single evaluations.',
    ['elph.py', 'md.py', 'ph.py', 'el.py'],
    [('cached partial Fourier transform', 'elphmod/elph.py: Model.g'),
     ('cached self-energies', 'elphmod/md.py: Driver.hessian, Driver.diagonalize')],
    state=[('cached wave vector', 'last phonon wave vector',
        'elphmod/elph.py: Model.q, Model.gq')],
    observe=['returned values after different histories'])

prop('P22', 'Progress output comes from one process and does no harm',
    'Progress bars and common status messages are printed by the first '
    'process only, one bar at a time, each bar complete once its work is '
    'done, and no bar is shown if output is switched off. Output never '
    'influences results.',
    ['schedules', 'configurations', 'histories'],
    'all verbosity levels, nesting of operations with progress bars, shares '
    'of zero items, process counts',
    'The tests switch off all output.',
    ['misc.py', 'MPI.py', 'md.py'],
    [('class-wide flag', 'elphmod/misc.py: StatusBar'),
     ('barrier and single print', 'elphmod/MPI.py: info')],
    observe=['standard output of every process'])

prop('P23', 'Without MPI everything works as with one process',
    'If no message-passing library is available or only one process is '
    'started, all operations work and give the same results as with several '
    'processes, including those with shared memory, groups of processes and '
    'scattered data.',
    ['configurations', 'inputs'],
    'all operations with missing library, a single process, or several '
    'processes',
    'Only operations covered by tests are run in both modes.',
    ['MPI.py', 'elel.py'],
    [('stand-in communicator', 'elphmod/MPI.py: Communicator, Interface')],
    observe=['returned values'])

prop('P24', 'Results requested on one process only are correct there',
    'If the user asks for results not to be broadcast, the first process '
    'obtains the complete result, the other processes finish with an '
    'empty placeholder or nothing, and no option combination makes them fail.',
    ['schedules', 'configurations', 'inputs'],
    'all functions with this option, combined with eigenvectors, band order, '
    'shared memory, process counts and timings',
    'No test uses this option.',
    ['dispersion.py', 'elph.py', 'plot.py', 'MPI.py', 'md.py', 'elel.py'],
    [('single-memory arrays', 'elphmod/MPI.py: shared_array'),
     ('broadcast options', 'broadcast arguments')],
    observe=['returned values on first and other processes'])

prop('P25', 'Buffered wave functions equal freshly read ones',
    'Reading real-space orbitals from buffer files gives the same data on '
    'every process as reading the original files, also if the buffer was '
    'written by another number of processes. If writing the buffer is '
    'interrupted, later runs use complete data or report an error.',
    ['crash_points', 'fault_sequences', 'configurations', 'schedules'],
    'all crash points while writing the buffer, different process counts '
    'before and after, node layouts, timings',
    'No test reads orbitals.',
    ['el.py', 'MPI.py', 'misc.py'],
    [('buffer files', 'elphmod/el.py: Model.__init__'),
     ('broadcasted loading', 'elphmod/MPI.py: load')],
    observe=['wave functions and grid on every process'])

# ---- pure functions: stated for completeness, not decided by this technique

PURE = ('The property relates the output of a pure, sequential function to '
    'its arguments')

prop('Q01', 'Smearing functions, derivatives and entropies are consistent',
    'For all smearing functions, the delta function is minus the derivative '
    'of the occupation, its derivative follows, and the entropy matches.',
    ['inputs'], 'all arguments and smearing types',
    'Finite differences at sampled arguments only.',
    ['occupations.py'], [('closed formulas', 'elphmod/occupations.py')])

prop('Q02', 'Diagrams are derivatives of the grand potential',
    'First-order, self-energy and triangle diagrams equal the corresponding '
    'derivatives of the grand potential for all spectra and couplings.',
    ['inputs'], 'all spectra, couplings, temperatures and smearings',
    'One random sample per run.',
    ['diagrams.py'], [('closed formulas', 'elphmod/diagrams.py')])

prop('Q03', 'The chemical potential yields the requested electron number',
    'The determined chemical potential reproduces the requested number of '
    'electrons within the tolerance whenever a solution exists.',
    ['inputs'], 'all spectra, fillings, temperatures and smearings',
    'Only covered indirectly.',
    ['occupations.py'], [('fixed-point iteration',
    'elphmod/occupations.py: find_Fermi_level')])

prop('Q04', 'Lattice geometry helpers agree with each other',
    'Primitive and reciprocal vectors, Wigner-Seitz cells, symmetry images '
    'and irreducible wedges are mutually consistent for all lattices.',
    ['inputs'], 'all lattices and mesh sizes',
    'Three angles and one mesh size are tested.',
    ['bravais.py'], [('closed formulas', 'elphmod/bravais.py')])

prop('Q05', 'Sum-rule corrections make the sum rules hold',
    'After correction, acoustic, rotation and charge sum rules are fulfilled '
    'and correcting again changes nothing.',
    ['inputs'], 'all force constants and charges', 'Not tested.',
    ['ph.py'], [('projections', 'elphmod/ph.py: asr, rsr, zasr')])

prop('Q06', 'Critical-temperature formula follows its definition',
    'The critical temperature follows from the coupling strength and average '
    'frequencies as published, monotonically in the coupling.',
    ['inputs'], 'all parameters', 'Not tested.',
    ['eliashberg.py'], [('closed formula', 'elphmod/eliashberg.py: Tc')])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
    with open(path, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
