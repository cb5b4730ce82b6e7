"""A stand-in for mpi4py whose transport is the simulated World.

Semantics follow mpi4py/MPI-4: objects travel pickled (every receiver, the root included, gets a
fresh copy); collectives are matched by call order per communicator; a rank may leave a
collective as soon as its own part permits; sends may be buffered or synchronous; messages
between a pair of ranks with equal tags do not overtake; the order of operands in a reduction
is the implementation's choice.  Whatever MPI leaves undefined (mismatched collectives,
mismatched buffer sizes) is reported as a violation.
"""
import pickle
import sys
import types
import numpy as np

from .world import World, Violation


class Datatype:
    def __init__(self, name, np_name):
        self.name, self.np = name, np.dtype(np_name)

    def __repr__(self):
        return self.name


class Op:
    def __init__(self, name, py, npf):
        self.name, self.py, self.npf = name, py, npf

    def __call__(self, a, b):
        return self.py(a, b)

    def __repr__(self):
        return self.name


SUM = Op('SUM', lambda a, b: a + b, np.add)
PROD = Op('PROD', lambda a, b: a * b, np.multiply)
MAX = Op('MAX', lambda a, b: b if b > a else a, np.maximum)
MIN = Op('MIN', lambda a, b: b if b < a else a, np.minimum)
LOR = Op('LOR', lambda a, b: bool(a) | bool(b), np.logical_or)
LAND = Op('LAND', lambda a, b: bool(a) & bool(b), np.logical_and)
LXOR = Op('LXOR', lambda a, b: bool(a) ^ bool(b), np.logical_xor)
BOR = Op('BOR', lambda a, b: a | b, np.bitwise_or)
BAND = Op('BAND', lambda a, b: a & b, np.bitwise_and)
MAXLOC = Op('MAXLOC', lambda a, b: a if (a[0] > b[0] or (a[0] == b[0] and a[1] <= b[1])) else b, None)
MINLOC = Op('MINLOC', lambda a, b: a if (a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1])) else b, None)

ANY_SOURCE, ANY_TAG, UNDEFINED, PROC_NULL = -2, -1, -32766, -1000
IN_PLACE = object()


def _caller():
    f = sys._getframe(2)
    here = __file__
    while f is not None and f.f_code.co_filename == here:
        f = f.f_back
    if f is None:
        return '?'
    fn = f.f_code.co_filename
    i = fn.find('/repo/')
    return f'{fn[i + 6:] if i >= 0 else fn}:{f.f_code.co_name}'


class Status:
    def __init__(self):
        self.source, self.tag = ANY_SOURCE, ANY_TAG

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Slot:
    __slots__ = ('kind', 'root', 'sig', 'where', 'first', 'data', 'n', 'extra', 'out', 'left')

    def __init__(self):
        self.data = {}
        self.n = 0
        self.out = None
        self.left = 0


class Request:
    def __init__(self, finish, ready):
        self._finish, self._ready, self._done, self._val = finish, ready, False, None

    def wait(self, status=None):
        if not self._done:
            self._val = self._finish()
            self._done = True
        return self._val

    Wait = wait

    def test(self, status=None):
        if self._done or self._ready():
            return True, self.wait()
        return False, None

    @staticmethod
    def waitall(reqs):
        return [r.wait() for r in reqs]

    Waitall = waitall


def _buf(spec):
    """-> ndarray view of a buffer specification"""
    dt = None
    if isinstance(spec, (list, tuple)):
        arr = spec[0]
        for s in spec[1:]:
            if isinstance(s, Datatype):
                dt = s
    else:
        arr = spec
    a = arr if isinstance(arr, np.ndarray) else np.frombuffer(arr, dtype='u1')
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise ValueError('ndarray is not contiguous')
    if dt is not None and a.nbytes % dt.np.itemsize:
        raise ValueError('message: buffer length is not a multiple of datatype extent')
    return a


def _flat(a):
    return a.reshape(-1, order='A') if a.flags.c_contiguous else a.T.reshape(-1)


class Comm:
    """COMM_WORLD as one rank sees it"""

    def __init__(self, rank, size, cid='world'):
        self._rank, self._size, self._cid = rank, size, cid

    # -- trivial -----------------------------------------------------------------------------
    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return 'MPI_COMM_WORLD'

    def Split(self, color=0, key=0):
        n = World.current.me().seq.get(self._cid, 0)
        every = self.allgather((color, key, self._rank))
        if color == UNDEFINED or color is None:
            return None
        mine = sorted((k, q) for c, k, q in every if c == color)
        ranks = [q for _, q in mine]
        return Comm(ranks.index(self._rank), len(ranks), (self._cid, n, color))

    def Dup(self):
        return self.Split(0, self._rank)

    Clone = Dup

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        w = World.current
        r = w.me()
        w.crash(r)

    def py2f(self):
        return 0

    # -- collectives ---------------------------------------------------------------------------
    def _coll(self, kind, root, sig, payload):
        w = World.current
        if w is None:
            raise RuntimeError('MPI call outside a simulated run')
        where = _caller()
        if root is not None and not (isinstance(root, (int, np.integer)) and 0 <= root < self._size):
            raise ValueError(f'MPI_ERR_ROOT: invalid root {root!r}')
        r = w.step('mpi', f'{kind}@{where}')
        seq = r.seq.get(self._cid, 0)
        r.seq[self._cid] = seq + 1
        s = w.slots.get((self._cid, seq))
        if s is None:
            s = w.slots[(self._cid, seq)] = Slot()
            s.kind, s.root, s.sig, s.where, s.first = kind, root, sig, where, r.rank
        elif (s.kind, s.root, s.sig) != (kind, root, sig):
            raise Violation(
                'collective-mismatch',
                f'collective #{seq}: rank {s.first} is in {s.kind}(root={s.root},{s.sig}) at {s.where}, '
                f'rank {r.rank} in {kind}(root={root},{sig}) at {where}')
        s.data[self._rank] = payload
        s.n += 1
        return w, r, s

    def _await(self, w, r, s, need_all, from_root):
        size = self._size
        if need_all or (size > 1 and not w.fault.coin(w.cfg.get('early', 0.0), 'early')):
            w.wait(r, lambda: s.n == size, f'{s.kind}@{s.where}')
        elif from_root:
            root = s.root
            w.wait(r, lambda: root in s.data, f'{s.kind}@{s.where}')
        else:
            if s.n < size:
                w.hit('left_collective_early')

    def _done(self, w, s):
        s.left += 1
        if s.left == self._size:
            for k, v in list(w.slots.items()):
                if v is s:
                    del w.slots[k]

    def barrier(self):
        w, r, s = self._coll('barrier', None, '', None)
        self._await(w, r, s, True, False)
        self._done(w, s)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        w, r, s = self._coll('bcast', root, '', pickle.dumps(obj, -1) if self._rank == root else b'')
        self._await(w, r, s, False, self._rank != root)
        p = s.data[root]
        self._done(w, s)
        return pickle.loads(p)

    def gather(self, sendobj, root=0):
        w, r, s = self._coll('gather', root, '', pickle.dumps(sendobj, -1))
        self._await(w, r, s, self._rank == root, False)
        out = [pickle.loads(s.data[i]) for i in range(self._size)] if self._rank == root else None
        self._done(w, s)
        return out

    def allgather(self, sendobj):
        w, r, s = self._coll('allgather', None, '', pickle.dumps(sendobj, -1))
        self._await(w, r, s, True, False)
        out = [pickle.loads(s.data[i]) for i in range(self._size)]
        self._done(w, s)
        return out

    def scatter(self, sendobj=None, root=0):
        p = None
        if self._rank == root:
            items = list(sendobj)
            if len(items) != self._size:
                raise ValueError(f'expecting {self._size} items, got {len(items)}')
            p = [pickle.dumps(o, -1) for o in items]
        w, r, s = self._coll('scatter', root, '', p)
        self._await(w, r, s, False, self._rank != root)
        out = pickle.loads(s.data[root][self._rank])
        self._done(w, s)
        return out

    def alltoall(self, sendobj):
        items = list(sendobj)
        if len(items) != self._size:
            raise ValueError(f'expecting {self._size} items, got {len(items)}')
        w, r, s = self._coll('alltoall', None, '', [pickle.dumps(o, -1) for o in items])
        self._await(w, r, s, True, False)
        out = [pickle.loads(s.data[i][self._rank]) for i in range(self._size)]
        self._done(w, s)
        return out

    def _fold(self, w, vals, f):
        """combine in an order of the implementation's choosing (once per collective)"""
        n = len(vals)
        mode = w.fault.pick(3, 'redorder') if (w.cfg.get('redorder') and n > 2) else 0
        if mode == 0:                     # linear, rank order
            acc = vals[0]
            for v in vals[1:]:
                acc = f(acc, v)
            return acc
        if mode == 1:                     # binary tree, rank order
            vs = list(vals)
            while len(vs) > 1:
                vs = [f(vs[i], vs[i + 1]) if i + 1 < len(vs) else vs[i] for i in range(0, len(vs), 2)]
            return vs[0]
        acc = vals[-1]                    # linear from the right
        for v in reversed(vals[:-1]):
            acc = f(v, acc)
        return acc

    def _reduced(self, w, s, op):
        if s.out is None:
            vals = [pickle.loads(s.data[i]) for i in range(self._size)]
            s.out = pickle.dumps(self._fold(w, vals, op), -1)
        return pickle.loads(s.out)

    def allreduce(self, sendobj, op=SUM):
        w, r, s = self._coll('allreduce', None, repr(op), pickle.dumps(sendobj, -1))
        self._await(w, r, s, True, False)
        out = self._reduced(w, s, op)
        self._done(w, s)
        return out

    def reduce(self, sendobj, op=SUM, root=0):
        w, r, s = self._coll('reduce', root, repr(op), pickle.dumps(sendobj, -1))
        self._await(w, r, s, self._rank == root, False)
        out = self._reduced(w, s, op) if self._rank == root else None
        self._done(w, s)
        return out

    def scan(self, sendobj, op=SUM):
        w, r, s = self._coll('scan', None, repr(op), pickle.dumps(sendobj, -1))
        self._await(w, r, s, True, False)
        acc = pickle.loads(s.data[0])
        for i in range(1, self._rank + 1):
            acc = op(acc, pickle.loads(s.data[i]))
        self._done(w, s)
        return acc

    def exscan(self, sendobj, op=SUM):
        w, r, s = self._coll('exscan', None, repr(op), pickle.dumps(sendobj, -1))
        self._await(w, r, s, True, False)
        acc = None
        for i in range(0, self._rank):
            v = pickle.loads(s.data[i])
            acc = v if acc is None else op(acc, v)
        self._done(w, s)
        return acc

    # -- buffers ---------------------------------------------------------------------------
    def Bcast(self, buf, root=0):
        a = _buf(buf)
        w, r, s = self._coll('Bcast', root, '', (_flat(a).copy() if self._rank == root else None, a.nbytes))
        self._await(w, r, s, False, self._rank != root)
        data, n = s.data[root]
        if self._rank != root:
            if n != a.nbytes:
                raise Violation('buffer-mismatch', f'Bcast at {s.where}: root sends {n} bytes, '
                                                   f'rank {self._rank} expects {a.nbytes}')
            _flat(a).view('u1')[:] = data.view('u1')
        self._done(w, s)

    def _sizes_agree(self, s):
        ns = {d.nbytes for d in s.data.values() if d is not None}
        if len(ns) > 1:
            raise Violation('buffer-mismatch', f'{s.kind} at {s.where}: ranks contribute {sorted(ns)} bytes')

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        if sendbuf is IN_PLACE:
            sendbuf = recvbuf
        a = _buf(sendbuf)
        w, r, s = self._coll('Reduce', root, repr(op), _flat(a).copy())
        self._await(w, r, s, self._rank == root, False)
        if self._rank == root:
            self._sizes_agree(s)
            out = self._fold(w, [s.data[i] for i in range(self._size)], op.npf)
            b = _buf(recvbuf)
            if b.nbytes != out.nbytes:
                raise Violation('buffer-mismatch', f'Reduce at {s.where}: receive buffer has {b.nbytes} '
                                                   f'bytes, {out.nbytes} needed')
            _flat(b)[:] = out
        self._done(w, s)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        if sendbuf is IN_PLACE:
            sendbuf = recvbuf
        a = _buf(sendbuf)
        w, r, s = self._coll('Allreduce', None, repr(op), _flat(a).copy())
        self._await(w, r, s, True, False)
        self._sizes_agree(s)
        if s.out is None:
            s.out = self._fold(w, [s.data[i] for i in range(self._size)], op.npf)
        b = _buf(recvbuf)
        if b.nbytes != s.out.nbytes:
            raise Violation('buffer-mismatch', f'Allreduce at {s.where}')
        _flat(b)[:] = s.out
        self._done(w, s)

    def _gatherv(self, kind, sendbuf, recvbuf, root):
        a = _buf(sendbuf)
        w, r, s = self._coll(kind, root, '', _flat(a).copy())
        need = root is None or self._rank == root
        self._await(w, r, s, need, False)
        if need:
            out = np.concatenate([s.data[i] for i in range(self._size)])
            b = _buf(recvbuf)
            if b.nbytes < out.nbytes:
                raise Violation('buffer-mismatch', f'{kind} at {s.where}')
            _flat(b).view('u1')[:out.nbytes] = out.view('u1')
        self._done(w, s)

    def Gather(self, sendbuf, recvbuf, root=0):
        self._gatherv('Gather', sendbuf, recvbuf, root)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._gatherv('Gatherv', sendbuf, recvbuf, root)

    def Allgather(self, sendbuf, recvbuf):
        self._gatherv('Allgather', sendbuf, recvbuf, None)

    def Allgatherv(self, sendbuf, recvbuf):
        self._gatherv('Allgatherv', sendbuf, recvbuf, None)

    def Scatter(self, sendbuf, recvbuf, root=0):
        d = _flat(_buf(sendbuf)).copy() if self._rank == root else None
        w, r, s = self._coll('Scatter', root, '', d)
        self._await(w, r, s, False, self._rank != root)
        b = _flat(_buf(recvbuf)).view('u1')
        src = s.data[root].view('u1')
        if src.size != b.size * self._size:
            raise Violation('buffer-mismatch', f'Scatter at {s.where}')
        b[:] = src[self._rank * b.size:(self._rank + 1) * b.size]
        self._done(w, s)

    # -- point to point ----------------------------------------------------------------------
    def _send(self, kind, payload, dest, tag, mode):
        w = World.current
        if not (0 <= dest < self._size):
            raise ValueError(f'MPI_ERR_RANK: {dest}')
        where = _caller()
        r = w.step('mpi', f'send>{dest}@{where}')
        m = {'cid': self._cid, 'src': self._rank, 'dst': dest, 'tag': tag, 'kind': kind, 'data': payload, 'taken': False}
        w.mail.append(m)
        if mode == 'i':
            return w, r, m
        if mode == 's' or not w.fault.coin(w.cfg.get('eager', 1.0), 'eager'):
            w.wait(r, lambda: m['taken'], f'send>{dest}@{where}')
        else:
            w.hit('eager_send')
        return w, r, m

    def send(self, obj, dest, tag=0):
        self._send('obj', pickle.dumps(obj, -1), dest, tag, 'd')

    def ssend(self, obj, dest, tag=0):
        self._send('obj', pickle.dumps(obj, -1), dest, tag, 's')

    def isend(self, obj, dest, tag=0):
        w, r, m = self._send('obj', pickle.dumps(obj, -1), dest, tag, 'i')
        return Request(lambda: w.wait(r, lambda: m['taken'], 'isend.wait'), lambda: m['taken'])

    def Send(self, buf, dest, tag=0):
        self._send('buf', _flat(_buf(buf)).copy(), dest, tag, 'd')

    def Isend(self, buf, dest, tag=0):
        w, r, m = self._send('buf', _flat(_buf(buf)).copy(), dest, tag, 'i')
        return Request(lambda: w.wait(r, lambda: m['taken'], 'Isend.wait'), lambda: m['taken'])

    def _match(self, w, source, tag):
        """candidate messages: the first matching one of each sender (non-overtaking)"""
        seen, out = set(), []
        for m in w.mail:
            if m['cid'] != self._cid or m['dst'] != self._rank or m['taken']:
                continue
            if source != ANY_SOURCE and m['src'] != source:
                continue
            if tag != ANY_TAG and m['tag'] != tag:
                continue
            if m['src'] in seen:
                continue
            seen.add(m['src'])
            out.append(m)
        return out

    def _take(self, w, source, tag, status):
        c = self._match(w, source, tag)
        m = c[w.fault.pick(len(c), 'anysrc')]
        m['taken'] = True
        w.mail.remove(m)
        if status is not None:
            status.source, status.tag = m['src'], m['tag']
        return m

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = World.current
        where = _caller()
        r = w.step('mpi', f'recv<{source}@{where}')
        w.wait(r, lambda: bool(self._match(w, source, tag)), f'recv<{source}@{where}')
        m = self._take(w, source, tag, status)
        return pickle.loads(m['data'])

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        w = World.current
        r = w.step('mpi', f'irecv<{source}@{_caller()}')

        def fin():
            w.wait(r, lambda: bool(self._match(w, source, tag)), 'irecv.wait')
            return pickle.loads(self._take(w, source, tag, None)['data'])
        return Request(fin, lambda: bool(self._match(w, source, tag)))

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = World.current
        where = _caller()
        r = w.step('mpi', f'Recv<{source}@{where}')
        w.wait(r, lambda: bool(self._match(w, source, tag)), f'Recv<{source}@{where}')
        m = self._take(w, source, tag, status)
        b = _flat(_buf(buf)).view('u1')
        d = m['data'].view('u1')
        if d.size > b.size:
            raise Violation('buffer-mismatch', f'Recv at {where}: message truncated')
        b[:d.size] = d

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        req = self.isend(sendobj, dest, sendtag)
        out = self.recv(None, source, recvtag, status)
        req.wait()
        return out

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = World.current
        r = w.step('mpi', f'probe@{_caller()}')
        w.wait(r, lambda: bool(self._match(w, source, tag)), 'probe')
        if status is not None:
            m = self._match(w, source, tag)[0]
            status.source, status.tag = m['src'], m['tag']
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = World.current
        w.step('mpi', f'iprobe@{_caller()}')
        return bool(self._match(w, source, tag))


def make(rank, size):
    """-> {'mpi4py': module, 'mpi4py.MPI': module} as seen by one rank"""
    top = types.ModuleType('mpi4py')
    top.__path__ = []
    mpi = types.ModuleType('mpi4py.MPI')
    comm = Comm(rank, size)
    mpi.COMM_WORLD = comm
    mpi.COMM_SELF = Comm(0, 1, ('self', rank))
    mpi.Comm = mpi.Intracomm = Comm
    for op in (SUM, PROD, MAX, MIN, LOR, LAND, LXOR, BOR, BAND, MAXLOC, MINLOC):
        setattr(mpi, op.name, op)
    for n, t in (('FLOAT', 'f4'), ('DOUBLE', 'f8'), ('INT', 'i4'), ('LONG', 'i8'), ('BYTE', 'u1'),
                 ('BOOL', '?'), ('CHAR', 'i1'), ('INT64_T', 'i8'), ('INT32_T', 'i4'), ('DOUBLE_COMPLEX', 'c16')):
        setattr(mpi, n, Datatype(n, t))
    mpi.ANY_SOURCE, mpi.ANY_TAG, mpi.UNDEFINED, mpi.PROC_NULL = ANY_SOURCE, ANY_TAG, UNDEFINED, PROC_NULL
    mpi.IN_PLACE = IN_PLACE
    mpi.Status, mpi.Request, mpi.Op, mpi.Datatype = Status, Request, Op, Datatype
    mpi.Wtime = lambda: (World.current.time() if World.current is not None else 0.0)
    mpi.Is_initialized = lambda: True
    mpi.Is_finalized = lambda: False
    mpi.Finalize = lambda: None
    mpi.Get_processor_name = lambda: f'node{rank}'
    mpi.Get_library_version = lambda: 'simulated'
    mpi.Exception = RuntimeError
    top.MPI = mpi
    top.__version__ = '4.1.2'
    return {'mpi4py': top, 'mpi4py.MPI': mpi}
