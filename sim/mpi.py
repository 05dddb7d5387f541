"""Simulated mpi4py.MPI on top of the kernel."""

import pickle
import types

import numpy as np

from .kernel import HarnessError, Violation, caller

UNDEFINED = -32766
COMM_TYPE_SHARED = 0
ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
ROOT = -4


class _InPlace(int):
    def __repr__(self):
        return 'IN_PLACE'


IN_PLACE = _InPlace(-1)
BOTTOM = _InPlace(0)


class Datatype:
    def __init__(self, name, dtype=None, base=None, count=1):
        self.name = name
        self.dtype = np.dtype(dtype) if dtype is not None else None
        self.base = base
        self.count = count

    @property
    def extent(self):
        if self.base is not None:
            return self.base.extent * self.count
        return self.dtype.itemsize

    @property
    def size(self):
        return self.extent

    def Get_size(self):
        return self.extent

    def Create_contiguous(self, count):
        return Datatype('contiguous', None, self, count)

    def Create_vector(self, *args):
        raise HarnessError('vector datatypes are not simulated')

    def Commit(self):
        return self

    def Free(self):
        pass


class Op:
    def __init__(self, name, ufunc, fold):
        self.name = name
        self.ufunc = ufunc
        self.fold = fold

    def __call__(self, a, b):
        return self.fold(a, b)


OPS = dict(
    SUM=Op('SUM', np.add, lambda a, b: a + b),
    PROD=Op('PROD', np.multiply, lambda a, b: a * b),
    MAX=Op('MAX', np.maximum, lambda a, b: b if b > a else a),
    MIN=Op('MIN', np.minimum, lambda a, b: b if b < a else a),
    LAND=Op('LAND', np.logical_and, lambda a, b: bool(a) and bool(b)),
    LOR=Op('LOR', np.logical_or, lambda a, b: bool(a) or bool(b)),
    LXOR=Op('LXOR', np.logical_xor, lambda a, b: bool(a) ^ bool(b)),
    BAND=Op('BAND', np.bitwise_and, lambda a, b: a & b),
    BOR=Op('BOR', np.bitwise_or, lambda a, b: a | b),
    BXOR=Op('BXOR', np.bitwise_xor, lambda a, b: a ^ b))

DATATYPES = dict(
    BYTE='u1', CHAR='S1', UNSIGNED_CHAR='u1', SIGNED_CHAR='i1',
    SHORT='i2', INT='i4', LONG='i8', LONG_LONG='i8', UNSIGNED='u4',
    UNSIGNED_LONG='u8', FLOAT='f4', DOUBLE='f8', COMPLEX='c8',
    DOUBLE_COMPLEX='c16', C_DOUBLE_COMPLEX='c16', C_FLOAT_COMPLEX='c8',
    BOOL='?', C_BOOL='?', INT8_T='i1', INT16_T='i2', INT32_T='i4',
    INT64_T='i8', UINT8_T='u1', UINT16_T='u2', UINT32_T='u4', UINT64_T='u8',
    INTEGER='i4', DOUBLE_PRECISION='f8')


class Message:
    """Parsed buffer specification."""

    def __init__(self, spec, what, recv=False, vector=0):
        counts = displs = datatype = None

        if isinstance(spec, (list, tuple)):
            buf = spec[0]
            rest = list(spec[1:])
            for item in rest:
                if isinstance(item, Datatype) or isinstance(item, str):
                    datatype = item
                elif isinstance(item, (tuple, list)) and len(item) == 2 \
                        and vector and (item[0] is None
                            or hasattr(item[0], '__len__')):
                    counts, displs = item
                elif item is None:
                    pass
                elif counts is None:
                    counts = item
                else:
                    displs = item
        else:
            buf = spec

        if isinstance(datatype, str):
            datatype = Datatype(datatype, datatype)

        self.spec = buf

        if buf is None:
            a = np.empty(0, dtype=np.uint8)
            if counts is not None and np.sum(counts) > 0:
                raise Violation('buffer', '%s: no buffer given where one is '
                    'needed' % what, caller())
        elif isinstance(buf, np.ndarray):
            a = buf.view(np.ndarray) if type(buf) is not np.ndarray else buf
        elif isinstance(buf, np.generic):
            a = np.array(buf)
            a.flags.writeable = False
        elif isinstance(buf, (bytearray, memoryview, bytes)):
            a = np.frombuffer(buf, dtype=np.uint8)
        elif hasattr(buf, '__buffer__') or hasattr(buf, 'typecode'):
            a = np.frombuffer(buf, dtype=getattr(buf, 'typecode', np.uint8))
        else:
            raise TypeError("message: cannot interpret %r as buffer"
                % type(buf).__name__)

        if a.dtype.hasobject:
            raise ValueError('message: object arrays cannot be communicated')

        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise BufferError('dlpack: buffer is not contiguous')

        if recv and a.size and not a.flags.writeable:
            raise ValueError('buffer source array is read-only')

        self.array = a
        self.flat = a.ravel(order='K')
        if a.size and not np.shares_memory(self.flat, a):
            self.flat = a.reshape(-1)
        self.what = what
        self.dtype = a.dtype
        self.unit = datatype.extent if datatype is not None \
            else a.dtype.itemsize
        self.itemname = a.dtype

        bytes_ = self.flat.view(np.uint8) if self.flat.size else \
            np.empty(0, np.uint8)
        self.bytes = bytes_
        total = bytes_.size

        if vector:
            if counts is None:
                if total % (self.unit * vector):
                    n = total // self.unit
                    counts = [n // vector + (i < n % vector)
                        for i in range(vector)]
                else:
                    counts = [total // self.unit // vector] * vector
            elif np.ndim(counts) == 0:
                counts = [int(counts)] * vector
            counts = [as_int(c) for c in np.asarray(counts).ravel()]
            if len(counts) != vector:
                raise ValueError('expecting %d items, got %d'
                    % (vector, len(counts)))
            if displs is None:
                displs = np.concatenate([[0], np.cumsum(counts)[:-1]])
            displs = [as_int(d) for d in np.asarray(displs).ravel()]
            if any(c < 0 for c in counts):
                raise Violation('buffer', '%s: negative count %r'
                    % (what, counts), caller())
            for c, d in zip(counts, displs):
                if c and (d + c) * self.unit > total:
                    raise Violation('buffer', '%s: counts %r exceed buffer of '
                        '%d elements' % (what, counts, total // self.unit),
                        caller())
            self.counts = counts
            self.displs = displs
        else:
            if counts is not None:
                count = as_int(counts)
                if count * self.unit > total:
                    raise Violation('buffer', '%s: count %d exceeds buffer of '
                        '%d elements' % (what, count, total // self.unit),
                        caller())
                self.bytes = bytes_[:count * self.unit]

    def piece(self, i):
        lo = self.displs[i] * self.unit
        return self.bytes[lo:lo + self.counts[i] * self.unit]


def as_int(x):
    if isinstance(x, (float, np.floating)):
        raise TypeError('integer argument expected, got float')
    return int(x)


def same_type(a, b):
    return a.kind == b.kind and a.itemsize == b.itemsize \
        or a.itemsize == 1 and b.itemsize == 1


class Group:
    """State of communicator shared by its members."""

    def __init__(self, world, members, name):
        self.world = world
        self.members = list(members)    # world ranks
        self.size = len(members)
        self.name = name
        self.seq = [0] * self.size
        self.colls = {}
        self.mail = {}
        self.mail_seq = 0


def root_str(root):
    return '' if root is None else '(root=%d)' % root


class Coll:
    def __init__(self, kind, root):
        self.kind = kind
        self.root = root
        self.contrib = {}
        self.waiting = {}
        self.where = {}
        self.result = {}
        self.left = 0


# which contributions a member needs before it may return

ALL = 'all'


class Request:
    def __init__(self, wait):
        self._wait = wait
        self._done = False
        self._value = None

    def wait(self, status=None):
        if not self._done:
            self._value = self._wait()
            self._done = True
        return self._value

    Wait = wait

    def test(self, status=None):
        return True, self.wait()

    def Test(self, status=None):
        self.wait()
        return True

    @staticmethod
    def Waitall(requests, statuses=None):
        for r in requests:
            r.wait()

    @staticmethod
    def waitall(requests, statuses=None):
        return [r.wait() for r in requests]


class Comm:
    """Handle of one rank on a communicator."""

    def __init__(self, group, rank):
        self._g = group
        self._rank = rank

    rank = property(lambda self: self._rank)
    size = property(lambda self: self._g.size)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._g.size

    def Get_name(self):
        return self._g.name

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        raise SystemExit(errorcode)

    def __eq__(self, other):
        return isinstance(other, Comm) and other._g is self._g

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._g.name)

    def __bool__(self):
        return True

    def __reduce__(self):
        # like mpi4py 4: only predefined communicators can be serialized
        if self._g.name == 'W':
            return _predefined, ('COMM_WORLD',)
        if self._g.name.startswith('S') and '/' not in self._g.name:
            return _predefined, ('COMM_SELF',)
        raise ValueError("cannot serialize 'mpi4py.MPI.Intracomm' instance")

    def __deepcopy__(self, memo):
        if '/' in self._g.name:
            self.__reduce__()
        return self

    # ------------------------------------------------------------------ core

    def _coll(self, kind, root, payload, need, extra=None):
        """Take part in a collective; return instance when allowed to leave.

        need: ranks whose arrival is needed before returning.
        """
        g = self._g
        w = g.world
        k = w.kernel
        me = self._rank

        if not 0 <= (root or 0) < g.size:
            raise ValueError('invalid root %r' % (root,))

        where = caller()
        label = '%s@%s' % (kind, g.name)

        k.yield_point(label)

        n = g.seq[me]
        g.seq[me] += 1
        inst = g.colls.get(n)

        if inst is None:
            inst = g.colls[n] = Coll(kind, root)
            inst.n = n
            inst.eager = w.eager(g.name, n)
        elif (inst.kind, inst.root) != (kind, root):
            other, = list(inst.where.items())[:1]
            k.fail(Violation('mismatch', 'operation %d on communicator %s: '
                'rank %d calls %s%s at %s, rank %d calls %s%s at %s' % (n,
                g.name, other[0], inst.kind, root_str(inst.root), other[1],
                me, kind, root_str(root), where)))
            k.check_abort()

        inst.where[me] = where
        inst.contrib[me] = payload
        w.count(kind)

        for r, needed in list(inst.waiting.items()):
            if all(i in inst.contrib for i in needed):
                k.wake(g.members[r])

        needed = range(g.size) if need == ALL or not inst.eager \
            else list(need)

        if inst.eager and len(list(needed)) < g.size:
            w.stats['eager'] = w.stats.get('eager', 0) + 1

        if not all(i in inst.contrib for i in needed):
            inst.waiting[me] = needed
            k.block(lambda: all(i in inst.contrib for i in needed),
                '%s at %s' % (label, where))
            inst.waiting.pop(me, None)

        return inst, n

    def _leave(self, inst, n):
        inst.left += 1
        if inst.left == self._g.size:
            self._g.colls.pop(n, None)
        self._g.world.kernel.yield_point('leave')

    def _bad(self, what, message):
        k = self._g.world.kernel
        k.fail(Violation('buffer', '%s: %s' % (what, message), caller()))
        k.check_abort()

    def _copy(self, what, dst, src, dst_type, src_type):
        if dst.size != src.size:
            self._bad(what, 'rank %d receives %d bytes into %d bytes'
                % (self._rank, src.size, dst.size))
        if dst.size:
            if not same_type(dst_type, src_type):
                self._bad(what, 'rank %d receives %s into %s'
                    % (self._rank, src_type, dst_type))
            dst[...] = src

    def _guard(self, fn, *args, **kwargs):
        """Turn harness-detected violations into failures of the run."""
        try:
            return fn(*args, **kwargs)
        except Violation as v:
            k = self._g.world.kernel
            k.fail(v)
            k.check_abort()

    def _msg(self, spec, what, recv=False, vector=0):
        what = '%s at %s' % (what, caller())
        return self._guard(Message, spec, what, recv, vector)

    # -------------------------------------------------------- synchronization

    def Barrier(self):
        inst, n = self._coll('Barrier', None, None, ALL)
        self._leave(inst, n)

    barrier = Barrier

    def Ibarrier(self):
        self.Barrier()
        return Request(lambda: None)

    ibarrier = Ibarrier

    # ------------------------------------------------------------ broadcasting

    def Bcast(self, buf, root=0):
        me = self._rank
        m = self._msg(buf, 'Bcast', recv=me != root)
        payload = (m.bytes.copy(), m.dtype) if me == root else None
        inst, n = self._coll('Bcast', root, payload,
            [] if me == root else [root])
        if me != root:
            data, dtype = inst.contrib[root]
            self._copy(m.what, m.bytes, data, m.dtype, dtype)
        self._leave(inst, n)

    def Ibcast(self, buf, root=0):
        self.Bcast(buf, root)
        return Request(lambda: None)

    def bcast(self, obj=None, root=0):
        me = self._rank
        payload = self._g.world.dumps(obj) if me == root else None
        inst, n = self._coll('bcast', root, payload,
            [] if me == root else [root])
        if me != root:
            obj = self._g.world.loads(inst.contrib[root])
        self._leave(inst, n)
        return obj

    # -------------------------------------------------------------- gathering

    def _gather_own(self, send, recv, what, i):
        if send is IN_PLACE:
            return None
        m = self._msg(send, what)
        return m

    def Gatherv(self, sendbuf, recvbuf=None, root=0, _kind='Gatherv'):
        me = self._rank
        size = self._g.size
        r = None
        if me == root:
            r = self._msg(recvbuf, _kind, recv=True, vector=size)
        if sendbuf is IN_PLACE:
            payload = (r.piece(me).copy(), r.dtype)
        else:
            s = self._msg(sendbuf, _kind)
            payload = (s.bytes.copy(), s.dtype)
        inst, n = self._coll(_kind, root, payload,
            ALL if me == root else [])
        if me == root:
            for i in range(size):
                data, dtype = inst.contrib[i]
                self._copy(r.what, r.piece(i), data, r.dtype, dtype)
        self._leave(inst, n)

    def Gather(self, sendbuf, recvbuf=None, root=0):
        self.Gatherv(sendbuf, recvbuf, root, 'Gather')

    def Allgatherv(self, sendbuf, recvbuf, _kind='Allgatherv'):
        me = self._rank
        size = self._g.size
        r = self._msg(recvbuf, _kind, recv=True, vector=size)
        if sendbuf is IN_PLACE:
            payload = (r.piece(me).copy(), r.dtype)
        else:
            s = self._msg(sendbuf, _kind)
            payload = (s.bytes.copy(), s.dtype)
        inst, n = self._coll(_kind, None, payload, ALL)
        for i in range(size):
            data, dtype = inst.contrib[i]
            self._copy(r.what, r.piece(i), data, r.dtype, dtype)
        self._leave(inst, n)

    def Allgather(self, sendbuf, recvbuf):
        self.Allgatherv(sendbuf, recvbuf, 'Allgather')

    def gather(self, obj, root=0):
        me = self._rank
        inst, n = self._coll('gather', root, self._g.world.dumps(obj),
            ALL if me == root else [])
        result = None
        if me == root:
            result = [self._g.world.loads(inst.contrib[i])
                for i in range(self._g.size)]
        self._leave(inst, n)
        return result

    def allgather(self, obj):
        inst, n = self._coll('allgather', None, self._g.world.dumps(obj), ALL)
        result = [self._g.world.loads(inst.contrib[i])
            for i in range(self._g.size)]
        self._leave(inst, n)
        return result

    def alltoall(self, objs):
        objs = list(objs)
        if len(objs) != self._g.size:
            raise ValueError('expecting %d items' % self._g.size)
        inst, n = self._coll('alltoall', None, self._g.world.dumps(objs), ALL)
        result = [self._g.world.loads(inst.contrib[i])[self._rank]
            for i in range(self._g.size)]
        self._leave(inst, n)
        return result

    # -------------------------------------------------------------- scattering

    def Scatterv(self, sendbuf, recvbuf, root=0, _kind='Scatterv'):
        me = self._rank
        size = self._g.size
        payload = None
        if me == root:
            s = self._msg(sendbuf, _kind, vector=size)
            payload = [s.piece(i).copy() for i in range(size)], s.dtype
        r = None
        if recvbuf is not IN_PLACE:
            r = self._msg(recvbuf, _kind, recv=True)
        inst, n = self._coll(_kind, root, payload,
            [] if me == root else [root])
        if r is not None:
            pieces, dtype = inst.contrib[root]
            self._copy(r.what, r.bytes, pieces[me], r.dtype, dtype)
        self._leave(inst, n)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self.Scatterv(sendbuf, recvbuf, root, 'Scatter')

    def scatter(self, sendobj=None, root=0):
        me = self._rank
        payload = None
        if me == root:
            if len(sendobj) != self._g.size:
                raise ValueError('expecting %d items, got %d'
                    % (self._g.size, len(sendobj)))
            payload = [self._g.world.dumps(o) for o in sendobj]
        inst, n = self._coll('scatter', root, payload,
            [] if me == root else [root])
        result = self._g.world.loads(inst.contrib[root][me])
        self._leave(inst, n)
        return result

    # --------------------------------------------------------------- reduction

    def _reduced(self, inst, op, what):
        if 'value' not in inst.result:
            parts = [inst.contrib[i] for i in range(self._g.size)]
            sizes = {p.size for p in parts}
            kinds = [p.dtype for p in parts]
            if len(sizes) > 1:
                self._bad(what, 'sizes differ: %r' % [p.size for p in parts])
            if any(not same_type(kinds[0], d) for d in kinds):
                self._bad(what, 'types differ: %r' % [str(d) for d in kinds])
            order = self._g.world.order(self._g.size, self._g.name, inst.n)
            total = parts[order[0]].copy()
            for i in order[1:]:
                total = op.ufunc(total, parts[i]).astype(total.dtype)
            inst.result['value'] = total
        return inst.result['value']

    def _rmsg(self, sendbuf, recvbuf, kind, receives):
        r = self._msg(recvbuf, kind, recv=True) if receives else None
        if sendbuf is IN_PLACE:
            if r is None:
                raise ValueError('IN_PLACE not allowed here')
            s = r
        else:
            s = self._msg(sendbuf, kind)
        flat = s.bytes.copy().view(s.dtype) if s.bytes.size else \
            np.empty(0, s.dtype)
        return r, flat

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        me = self._rank
        op = op or OPS['SUM']
        r, flat = self._rmsg(sendbuf, recvbuf, 'Reduce', me == root)
        inst, n = self._coll('Reduce', root, flat, ALL if me == root else [])
        if me == root:
            total = self._reduced(inst, op, r.what)
            self._copy(r.what, r.bytes, total.view(np.uint8), r.dtype,
                total.dtype)
        self._leave(inst, n)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        op = op or OPS['SUM']
        r, flat = self._rmsg(sendbuf, recvbuf, 'Allreduce', True)
        inst, n = self._coll('Allreduce', None, flat, ALL)
        total = self._reduced(inst, op, r.what)
        self._copy(r.what, r.bytes, total.view(np.uint8), r.dtype, total.dtype)
        self._leave(inst, n)

    def _fold(self, inst, op):
        op = op or OPS['SUM']
        parts = [self._g.world.loads(inst.contrib[i])
            for i in range(self._g.size)]
        total = parts[0]
        for p in parts[1:]:
            total = op(total, p)
        return total

    def allreduce(self, sendobj, op=None):
        inst, n = self._coll('allreduce', None,
            self._g.world.dumps(sendobj), ALL)
        total = self._fold(inst, op)
        self._leave(inst, n)
        return total

    def reduce(self, sendobj, op=None, root=0):
        me = self._rank
        inst, n = self._coll('reduce', root, self._g.world.dumps(sendobj),
            ALL if me == root else [])
        total = self._fold(inst, op) if me == root else None
        self._leave(inst, n)
        return total

    def scan(self, sendobj, op=None, _exclusive=False):
        me = self._rank
        op = op or OPS['SUM']
        kind = 'exscan' if _exclusive else 'scan'
        inst, n = self._coll(kind, None, self._g.world.dumps(sendobj), ALL)
        parts = [self._g.world.loads(inst.contrib[i])
            for i in range(me + (not _exclusive))]
        total = None
        for p in parts:
            total = p if total is None else op(total, p)
        self._leave(inst, n)
        return total

    def exscan(self, sendobj, op=None):
        return self.scan(sendobj, op, True)

    # ---------------------------------------------------------- point to point

    def _post(self, kind, data, dest, tag):
        g = self._g
        k = g.world.kernel
        k.yield_point('send@%s' % g.name)
        g.mail.setdefault(dest, []).append((self._rank, tag, kind, data))
        g.world.count('send')
        k.wake(g.members[dest])

    def _fetch(self, kind, source, tag):
        g = self._g
        k = g.world.kernel
        k.yield_point('recv@%s' % g.name)
        box = g.mail.setdefault(self._rank, [])

        def match():
            for i, (s, t, kd, d) in enumerate(box):
                if source in (ANY_SOURCE, s) and tag in (ANY_TAG, t):
                    return i
            return None

        k.block(lambda: match() is not None, 'recv@%s at %s'
            % (g.name, caller()))
        s, t, kd, data = box.pop(match())
        if kd != kind:
            self._bad('recv', 'incompatible send and receive')
        return data, s, t

    def Send(self, buf, dest, tag=0):
        if dest == PROC_NULL:
            return
        m = self._msg(buf, 'Send')
        self._post('buf', (m.bytes.copy(), m.dtype), dest, tag)

    Ssend = Bsend = Rsend = Send

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source == PROC_NULL:
            return
        m = self._msg(buf, 'Recv', recv=True)
        (data, dtype), s, t = self._fetch('buf', source, tag)
        if data.size > m.bytes.size:
            self._bad('Recv', 'message truncated')
        self._copy('Recv', m.bytes[:data.size], data, m.dtype, dtype)

    def Isend(self, buf, dest, tag=0):
        self.Send(buf, dest, tag)
        return Request(lambda: None)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.Recv(buf, source, tag))

    def send(self, obj, dest, tag=0):
        if dest == PROC_NULL:
            return
        self._post('obj', self._g.world.dumps(obj), dest, tag)

    ssend = bsend = send

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source == PROC_NULL:
            return None
        data, s, t = self._fetch('obj', source, tag)
        return self._g.world.loads(data)

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Request(lambda: None)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.recv(None, source, tag))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None,
            source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.Send(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None,
            source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.send(sendobj, dest, sendtag)
        return self.recv(None, source, recvtag)

    # ----------------------------------------------------------- communicators

    def _subgroup(self, inst, key, members):
        if key not in inst.result:
            w = self._g.world
            w.groups += 1
            inst.result[key] = Group(w, [self._g.members[i] for i in members],
                '%s/%s' % (self._g.name, key))
        g = inst.result[key]
        return Comm(g, members.index(self._rank))

    def Split(self, color=0, key=0):
        color = as_int(color)
        key = 0 if key is None else as_int(key)
        inst, n = self._coll('Split', None, (color, key), ALL)
        new = COMM_NULL
        if color != UNDEFINED:
            if color < 0:
                raise ValueError('MPI_ERR_ARG: invalid color')
            members = sorted((r for r in range(self._g.size)
                if inst.contrib[r][0] == color),
                key=lambda r: (inst.contrib[r][1], r))
            new = self._subgroup(inst, 's%d.%d' % (n, color), members)
        self._leave(inst, n)
        return new

    def Split_type(self, split_type, key=0, info=None):
        w = self._g.world
        if split_type != COMM_TYPE_SHARED or not w.shared_supported:
            raise HarnessError('unknown split type')
        inst, n = self._coll('Split_type', None, int(key), ALL)
        node = w.nodes[self._g.members[self._rank]]
        members = sorted((r for r in range(self._g.size)
            if w.nodes[self._g.members[r]] == node),
            key=lambda r: (inst.contrib[r], r))
        new = self._subgroup(inst, 'n%d.%d' % (n, node), members)
        self._leave(inst, n)
        return new

    def Dup(self, info=None):
        inst, n = self._coll('Dup', None, None, ALL)
        new = self._subgroup(inst, 'd%d' % n, list(range(self._g.size)))
        self._leave(inst, n)
        return new

    Clone = Dup


class NullComm:
    rank = size = 0

    def __bool__(self):
        return False

    def __eq__(self, other):
        return isinstance(other, NullComm)

    def __hash__(self):
        return 0

    def Free(self):
        pass

    def __getattr__(self, name):
        raise RuntimeError('MPI_ERR_COMM: invalid communicator')


COMM_NULL = NullComm()


class Win:
    def __init__(self, comm, segments, units):
        self._comm = comm
        self._segments = segments
        self._units = units

    @classmethod
    def Allocate_shared(cls, size, disp_unit=1, info=None, comm=None):
        g = comm._g
        w = g.world
        size = as_int(size)
        if size < 0:
            raise ValueError('negative window size')
        nodes = {w.nodes[m] for m in g.members}
        if len(nodes) > 1:
            w.kernel.fail(Violation('window', 'shared memory requested by '
                'processes of different nodes', caller()))
            w.kernel.check_abort()
        inst, n = comm._coll('Allocate_shared', None, (size, disp_unit), ALL)
        if 'segments' not in inst.result:
            inst.result['segments'] = [w.window(inst.contrib[r][0])
                for r in range(g.size)]
            w.stats['windows'] = w.stats.get('windows', 0) + 1
        units = [inst.contrib[r][1] for r in range(g.size)]
        win = cls(comm, inst.result['segments'], units)
        comm._leave(inst, n)
        return win

    def Shared_query(self, rank):
        if rank == PROC_NULL:
            rank = next((r for r, s in enumerate(self._segments) if len(s)), 0)
        return memoryview(self._segments[rank]), self._units[rank]

    def tomemory(self):
        return memoryview(self._segments[self._comm.rank])

    memory = property(tomemory)

    def Fence(self, assertion=0):
        self._comm.Barrier()

    def Lock_all(self, assertion=0):
        pass

    Unlock_all = Sync = Flush_all = lambda self, *args: None

    def Lock(self, *args, **kwargs):
        raise HarnessError('window locks are not simulated')

    def Free(self):
        pass


def _predefined(name):
    world = _predefined.world
    rank = world.kernel.current.index
    if name == 'COMM_WORLD':
        return Comm(world.world_group, rank)
    return Comm(world.self_groups[rank], 0)


def interface(world, rank):
    """Module mpi4py.MPI as seen by one rank."""

    _predefined.world = world
    MPI = types.ModuleType('mpi4py.MPI')
    for name, dt in DATATYPES.items():
        setattr(MPI, name, Datatype(name, dt))
    for name, op in OPS.items():
        setattr(MPI, name, op)
    MPI.UNDEFINED = UNDEFINED
    MPI.COMM_TYPE_SHARED = COMM_TYPE_SHARED if world.shared_supported \
        else UNDEFINED
    MPI.IN_PLACE = IN_PLACE
    MPI.BOTTOM = BOTTOM
    MPI.ANY_SOURCE = ANY_SOURCE
    MPI.ANY_TAG = ANY_TAG
    MPI.PROC_NULL = PROC_NULL
    MPI.COMM_NULL = COMM_NULL
    MPI.COMM_WORLD = Comm(world.world_group, rank)
    MPI.COMM_SELF = Comm(world.self_groups[rank], 0)
    MPI.Comm = MPI.Intracomm = Comm
    MPI.Win = Win
    MPI.Op = Op
    MPI.Datatype = Datatype
    MPI.Request = Request
    MPI.Exception = RuntimeError
    MPI.INFO_NULL = None
    MPI.Status = type('Status', (), {})
    MPI.Wtime = lambda: world.clock(rank)
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: False
    MPI.Get_processor_name = lambda: 'node%d' % world.nodes[rank]
    MPI.Finalize = lambda: None
    return MPI
