"""Scenarios (imported for registration)."""

import importlib
import os

for _name in sorted(os.listdir(os.path.dirname(__file__))):
    if _name.endswith('.py') and not _name.startswith('_'):
        importlib.import_module('sim.cases.' + _name[:-3])
