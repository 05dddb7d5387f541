"""Work shares and groups of processes."""

import numpy as np

from ..run import Case, register


def expected(size, chunks):
    return [size // chunks + (i < size % chunks) for i in range(chunks)]


@register('P01', 'P13', 'P23')
class Shares(Case):
    """Shares for sequences of item counts."""
    compare = False

    def gen(self, rng):
        queries = []
        for _ in range(rng.randrange(1, 9)):
            size = rng.choice([0, 1, 2, rng.randrange(0, 12),
                rng.randrange(0, 200), rng.randrange(0, 10 ** 6)])
            chunks = rng.choice([None, None, 1, 2, rng.randrange(1, 20)])
            queries.append([size, chunks, rng.random() < 0.7])
        return dict(seed=rng.randrange(10 ** 6), queries=queries)

    def run(self, c, p):
        for i, (size, chunks, bounds) in enumerate(p['queries']):
            args = dict(bounds=bounds)
            if chunks is not None:
                args['chunks'] = chunks
            out = c.E.MPI.distribute(size, **args)
            if bounds:
                c.keep('sizes%d' % i, out[0])
                c.keep('bounds%d' % i, out[1])
            else:
                c.keep('sizes%d' % i, out)

    def check(self, env, p, run, ref):
        for i, (size, chunks, bounds) in enumerate(p['queries']):
            want = expected(size, run.n if chunks is None else chunks)
            for r in range(run.n):
                what = 'rank %d of %d: shares of %d items' % (r, run.n, size)
                got = run.get('sizes%d' % i, r)
                env.true(got.dtype.kind in 'iu', '%s are no integers' % what)
                env.true(len(got) == len(want), '%s: %d shares' % (what,
                    len(got)))
                env.true(got.min(initial=10 ** 9) >= 0 and got.sum() == size
                    and np.ptp(got) <= 1, '%s: %s' % (what, got.tolist()))
                if bounds:
                    b = run.get('bounds%d' % i, r)
                    env.true(len(b) == len(got) + 1 and b[0] == 0 and
                        np.array_equal(np.diff(b), got), '%s: bounds %s for '
                        'sizes %s' % (what, b.tolist(), got.tolist()))


@register('P01', 'P14', 'P13')
class ShareSubgroup(Case):
    """Subgroups ask for different numbers of different shares."""
    compare = False

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), colors=[rng.randrange(3)
            for _ in range(16)], queries=[[rng.choice([0, 1, 3,
            rng.randrange(50)]) for _ in range(rng.randrange(0, 5))]
            for _ in range(3)], reverse=rng.random() < 0.3)

    def run(self, c, p):
        comm = c.E.MPI.comm
        color = p['colors'][comm.rank]
        key = -comm.rank if p['reverse'] else comm.rank
        sub = comm.Split(color, key=key)
        for i, size in enumerate(p['queries'][color]):
            sizes, bounds = c.E.MPI.distribute(size, bounds=True, comm=sub)
            c.keep('sizes%d' % i, sizes)
            c.keep('bounds%d' % i, bounds)
        c.keep('me', [color, sub.rank, sub.size])
        own = c.E.MPI.distribute(7, comm=c.E.MPI.I)
        c.keep('own', own)

    def execute(self, env, p):
        run = env.run(self, p)
        for r in range(run.n):
            color, rank, size = run.get('me', r)
            env.equal('rank %d alone' % r, run.get('own', r), np.array([7]))
            for i, items in enumerate(p['queries'][color]):
                what = 'rank %d of %d: shares of %d items in group of %d' % (r,
                    run.n, items, size)
                got = run.get('sizes%d' % i, r)
                b = run.get('bounds%d' % i, r)
                env.true(len(got) == size and got.sum() == items
                    and np.ptp(got) <= 1, '%s: %s' % (what, got.tolist()))
                env.true(b[0] == 0 and np.array_equal(np.diff(b), got),
                    '%s: %s' % (what, b.tolist()))
                for s in range(run.n):
                    if run.get('me', s)[0] == color:
                        env.equal(what, run.get('sizes%d' % i, s), got)
        env.stable(run)


def members(group, me):
    return [int(x) for x in group.allgather(me)]


@register('P01', 'P13', 'P14')
class Groups(Case):
    """Groups per item and groups sharing memory."""
    compare = False

    def gen(self, rng):
        return dict(seed=rng.randrange(10 ** 6), items=rng.choice([1, 2, 3, 4,
            5, 7, 12]), sub=rng.random() < 0.4, colors=[rng.randrange(2)
            for _ in range(16)], shared=rng.random() < 0.8,
            array=rng.random() < 0.5, shape=rng.choice([[0], [1], [3, 2],
            [5]]))

    def run(self, c, p):
        M = c.E.MPI
        comm = M.comm
        if p['sub']:
            comm = comm.Split(p['colors'][comm.rank], key=comm.rank)
        col, row = M.matrix(p['items'], comm=comm)
        c.keep('comm', members(comm, c.rank))
        c.keep('col', members(col, c.rank))
        c.keep('row', members(row, c.rank))
        c.keep('ranks', [comm.rank, col.rank, row.rank])
        node, images = M.shm_split(comm, p['shared'])
        c.keep('node', members(node, c.rank))
        c.keep('images', members(images, c.rank))
        c.keep('nranks', [node.rank, images.rank])
        if p['array']:
            node, images, a = M.shared_array(tuple(p['shape']), dtype=float,
                shared_memory=p['shared'], comm=comm)
            if comm.rank == 0:
                a[...] = 17.0 + p['colors'][c.rank]
            if node.rank == 0:
                images.Bcast(a)
            comm.Barrier()
            c.keep('array', a)

    def execute(self, env, p):
        run = env.run(self, p)
        env.stable(run)
        nodes = run.world.nodes
        for r in range(run.n):
            comm = run.get('comm', r)
            rank, crank, rrank = run.get('ranks', r)
            col, row = run.get('col', r), run.get('row', r)
            node, images = run.get('node', r), run.get('images', r)
            nrank, irank = run.get('nranks', r)
            for name in 'col', 'row', 'node', 'images':
                g = run.get(name, r)
                what = 'rank %d of %d: group %s %s' % (r, run.n, name, g)
                env.true(r in g and g == sorted(set(g)) and set(g) <= set(
                    comm), '%s is no ordered part of %s' % (what, comm))
                for s in g:
                    env.true(run.get(name, s) == g, '%s differs from %s of '
                        'rank %d' % (what, run.get(name, s), s))
            what = 'rank %d of %s for %d items' % (r, comm, p['items'])
            env.true(col[crank] == r and row[rrank] == r and node[nrank] == r
                and images[irank] == r, '%s: numbers in groups do not follow '
                'order of processes' % what)
            if rank == 0:
                env.true(crank == rrank == nrank == irank == 0, '%s: first '
                    'process does not lead its groups' % what)
            env.true(all(run.get('ranks', s)[2] == rrank for s in col),
                '%s: processes for same item have different numbers' % what)
            env.true(all(run.get('ranks', s)[1] == crank for s in row),
                '%s: row mixes leaders with other processes' % what)
            cols = {tuple(run.get('col', s)) for s in comm}
            env.true(len(cols) == min(len(comm), p['items']), '%s: %d groups'
                % (what, len(cols)))
            env.true(max(map(len, cols)) - min(map(len, cols)) <= 1,
                '%s: unequal groups %s' % (what, sorted(cols)))
            want = [s for s in comm if nodes[s] == nodes[r]] \
                if p['shared'] and run.world.shared_supported else [r]
            env.true(node == want, '%s: memory shared with %s instead of %s'
                % (what, node, want))
            env.true(all(run.get('nranks', s)[0] == nrank for s in images),
                '%s: images %s' % (what, images))
            if p['array']:
                first = comm[0]
                env.equal('%s: array' % what, run.get('array', r),
                    np.full(p['shape'], 17.0 + p['colors'][first]))
