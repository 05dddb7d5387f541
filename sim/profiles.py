"""Search profile of each property."""

BASE = dict(quick=4000, seconds=60, configs=3)


def _p(**kw):
    return dict(BASE, **kw)


PROFILES = {'P%02d' % i: _p() for i in range(1, 26)}

for _i in 12, 13, 15, 16, 19:   # many scenarios or file formats
    PROFILES['P%d' % _i].update(quick=8000, seconds=100)

PROFILES['P15'].update(level='fault_enumeration')
PROFILES['P16'].update(level='fault_enumeration')
PROFILES['P17'].update(level='fault_enumeration')
PROFILES['P18'].update(level='fault_enumeration')
PROFILES['P19'].update(level='fault_enumeration')
PROFILES['P25'].update(level='fault_enumeration')

# Approximate seconds per evaluation of expensive cases (default 0.04). Cases are
# tried in proportion to their weight and the inverse square root of their cost.
COST = {
    'PhononLongRange': 0.35,
    'PhononWedge': 0.10,
    'PhononCells': 0.15,
    'CouplingPoints': 0.08,
    'CouplingHistory': 0.11,
    'CouplingSample': 0.09,
    'CouplingMesh': 0.26,
    'CouplingSupercell': 0.25,
    'CouplingStandard': 0.10,
    'Dynamics': 0.23,
    'DriverForms': 0.35,
    'Checkpoint': 0.50,
    'TwoDrivers': 0.19,
    'WaveFunctions': 0.10,
    'ShippedModels': 0.18,
    'DenseDynamics': 0.10,
    'Examples': 0.40,
}
