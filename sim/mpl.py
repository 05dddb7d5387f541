"""Stand-in for Matplotlib: accepts every call, draws nothing."""

import types


class Nothing:
    """Object that can be called, indexed, and queried at will."""

    def __init__(self, children=()):
        self.__dict__['_children'] = tuple(children)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self

    def __setattr__(self, name, value):
        pass

    def __call__(self, *args, **kwargs):
        return Nothing()

    def __getitem__(self, key):
        if isinstance(key, int) and key < len(self._children):
            return self._children[key]
        return self

    def __iter__(self):
        return iter(self._children)


def subplots(nrows=1, ncols=1, **kwargs):
    if nrows * ncols == 1:
        return Nothing(), Nothing()
    return Nothing(), Nothing(Nothing() for n in range(nrows * ncols))


def modules():
    top = types.ModuleType('matplotlib')
    top.__path__ = []
    top.use = lambda *args, **kwargs: None
    plt = types.ModuleType('matplotlib.pyplot')
    nothing = Nothing()
    plt.__getattr__ = lambda name: getattr(nothing, name)
    plt.subplots = subplots
    top.pyplot = plt
    return {'matplotlib': top, 'matplotlib.pyplot': plt}
