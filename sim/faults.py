"""Faults of files and processes, all decided by the seed."""

import errno

from .kernel import SimAbort


def crash_at(index, env=None):
    """Stop all processes right before file operation `index`."""
    def setup(world):
        fs = world.fs

        def fault(rank, op, path, size):
            if fs.ops - 1 == index:
                fs.frozen = True
                if env is not None:
                    env.fault('crash at file operation')
                world.kernel.abort('crash')
                raise SimAbort('crash')
        fs.fault = fault
    return setup


def disk_full(capacity, env=None, match=None):
    """At most `capacity` bytes can be written; then ENOSPC."""
    def setup(world):
        left = [capacity]

        def fault(rank, op, path, size):
            if op != 'write' or match is not None and not match(path):
                return None
            if left[0] <= 0:
                if env is not None:
                    env.fault('no space left on device')
                raise OSError(errno.ENOSPC, 'No space left on device', path)
            if size > left[0]:
                size, left[0] = left[0], 0
                if env is not None:
                    env.fault('short write')
                return size
            left[0] -= size
            return None
        world.fs.fault = fault
    return setup


def io_error(index, op_, env=None, match=None, error=None):
    """The `index`-th operation of given kind fails with EIO (or `error`)."""
    def setup(world):
        count = [0]

        def fault(rank, op, path, size):
            if op != op_ or match is not None and not match(path):
                return None
            count[0] += 1
            if count[0] == index + 1 and error is not None:
                if env is not None:
                    env.fault('%s (%s)' % (error.__name__, op))
                raise error
            if count[0] == index + 1:
                if env is not None:
                    env.fault('input/output error (%s)' % op)
                raise OSError(errno.EIO, 'Input/output error', path)
        world.fs.fault = fault
    return setup


def short(rng, env=None, op_=('read', 'write')):
    """Reads and writes transfer fewer bytes than requested."""
    def setup(world):
        def fault(rank, op, path, size):
            if op in op_ and size > 1 and rng.random() < 0.5:
                if env is not None:
                    env.fault('short ' + op)
                return rng.randrange(1, size)
        world.fs.fault = fault
    return setup


def both(*setups):
    def setup(world):
        faults = []
        for s in setups:
            s(world)
            faults.append(world.fs.fault)

        def fault(*args):
            out = None
            for f in faults:
                x = f(*args) if f is not None else None
                out = x if out is None else out if x is None else min(out, x)
            return out
        world.fs.fault = fault
    return setup
