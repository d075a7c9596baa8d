"""Several processes running the same function: a collective call takes effect once every process has reached it.
Each process is analysed with its own rank; an analysis that reaches a collective whose other members have not arrived yet
is dropped and repeated in the next round with their contributions known."""
from . import terms as S, arrays as A, calls as C, unit as U
from .interp import View, ListRef, PyTuple, NONE, Ext, Choice, string
from .dtypes import CANON

TYPES = {'INT': 'int32', 'INT32_T': 'int32', 'SIGNED_INT': 'int32', 'FLOAT': 'float32', 'REAL4': 'float32', 'REAL': 'float32', 'DOUBLE': 'float64', 'REAL8': 'float64', 'DOUBLE_PRECISION': 'float64',
         'LONG': 'int64', 'LONG_LONG': 'int64', 'INT64_T': 'int64', 'UNSIGNED': 'uint32', 'UINT32_T': 'uint32', 'UINT64_T': 'uint64', 'UNSIGNED_LONG': 'uint64', 'SHORT': 'int16', 'BYTE': 'int8'}

NOTHING = 'no elements'

class Wait(BaseException):
    pass

class Gap(BaseException):
    """something the simulation has no meaning for"""

class World:
    def __init__(self, size):
        self.size = size
        self.log = [[] for _ in range(size)]      # per rank: collectives reached
        self.cur, self.pos = 0, 0
        self.given = ()
        self.problems = {}                        # text -> line
    def problem(self, text, node=None):
        self.problems.setdefault(text, getattr(node, 'lineno', None))
    def others(self, I, rec, st, node):
        """records this process's part of a collective; the parts of all processes"""
        k, r = self.pos, self.cur
        self.pos += 1
        rec['node'] = node
        if k < len(self.log[r]): self.log[r][k] = rec
        else: self.log[r].append(rec)
        if any(x is not S.TRUE and x not in self.given for x in st.pc):
            raise Gap('%s under a condition' % rec['op'])
        have = [l[k] if k < len(l) else None for l in self.log]
        if None in have: raise Wait()
        ops = {(x['op'], S.show(x['root'], 3) if x['root'] is not None else None) for x in have}
        if len(ops) > 1:
            self.problem('processes meet in different collective calls: ' + ', '.join(sorted('%s(root=%s)' % o for o in ops)), node)
            raise Wait()
        return have

    def collective(self, I, n, args, kw, st, node):
        args = list(args)
        root = I.term(kw['root'], st) if 'root' in kw else S.ZERO
        pos = {'Bcast': 1, 'bcast': 1, 'gather': 1, 'Gatherv': 2, 'Gather': 2}.get(n)
        if pos is not None and len(args) > pos: root = I.term(args[pos], st)
        if n == 'Get_rank': return S.num(self.cur)
        if n == 'Get_size': return S.num(self.size)
        if root.op != 'num': raise Gap('root of %s not known' % n)
        rt = int(root.args[0])
        if n in ('Barrier', 'barrier'):
            self.others(I, {'op': 'Barrier', 'root': None}, st, node)
            return NONE
        obj = args[0] if args else kw.get('sendobj', kw.get('sendbuf', kw.get('obj', kw.get('buf'))))
        if n in ('gather', 'allgather'):
            have = self.others(I, {'op': n, 'root': root if n == 'gather' else None, 'val': freeze(I, obj, st)}, st, node)
            if n == 'gather' and self.cur != rt: return NONE
            return I.new_list(tuple(thaw(I, h['val'], st, node) for h in have), st)
        if n == 'bcast':
            have = self.others(I, {'op': n, 'root': root, 'val': freeze(I, obj, st)}, st, node)
            return obj if self.cur == rt else thaw(I, have[rt]['val'], st, node)
        if n == 'Bcast':
            if isinstance(obj, (ListRef, PyTuple)): obj = items(I, obj, st, node)[0]
            if not isinstance(obj, View): raise Gap('buffer of Bcast')
            t = I.term(obj, st)
            have = self.others(I, {'op': n, 'root': root, 'val': t, 'elem': elem(obj), 'len': A.shape(t, 0)}, st, node)
            src = have[rt]
            agree(self, [h['elem'] for h in have], 'Bcast', node)
            if not all(h['len'] is src['len'] for h in have): self.problem('buffers of Bcast differ in length: ' + ', '.join(S.show(h['len'], 5) for h in have), node)
            if self.cur != rt: C.write_through(I, obj, src['val'], st, node)
            return NONE
        if n in ('Gatherv', 'Gather'):
            send, styp = obj, None
            if isinstance(send, (ListRef, PyTuple)):
                it = items(I, send, st, node)
                send, styp = it[0], it[-1]
            if isinstance(send, S.T) and (A.rank(send) or send.op == 'vec'): send = I.new_array(send, 'sent', node, st)
            if not isinstance(send, View): raise Gap('send buffer')
            x = I.term(send, st)
            recv = args[1] if len(args) > 1 else kw.get('recvbuf')
            spec = items(I, recv, st, node) if isinstance(recv, (ListRef, PyTuple)) else [recv]
            rec = {'op': n, 'root': root, 'val': x, 'elem': elem(send) if A.shape(x, 0) is not S.ZERO else NOTHING, 'len': A.shape(x, 0)}
            have = self.others(I, rec, st, node)
            if self.cur != rt: return NONE
            tgt = spec[0]
            if not isinstance(tgt, View): raise Gap('receive buffer')
            typ = mpitype(spec[-1]) if len(spec) > 1 else elem(tgt)
            agree(self, [h['elem'] for h in have] + [elem(tgt), typ], n, node)
            lens = [h['len'] for h in have]
            counts, displs = None, None
            if len(spec) == 4: counts, displs = spec[1], spec[2]
            elif len(spec) == 3: 
                p = items(I, spec[1], st, node)
                counts, displs = (p[0], p[1]) if len(p) == 2 else (spec[1], None)
            elif len(spec) == 2 and mpitype(spec[1]) is None: counts = spec[1]
            good = True
            if counts is not None:
                ct = I.term(counts, st)
                for k in range(self.size):
                    c = A.sel(ct, (S.num(k),))
                    if c is not lens[k]:
                        good = False
                        self.problem('process %d sends %s elements, the root expects %s' % (k, S.show(lens[k], 5)[:120], S.show(c, 5)[:120]), node)
            if displs is not None:
                dt = I.term(displs, st)
                off = S.ZERO
                for k in range(self.size):
                    d = A.sel(dt, (S.num(k),))
                    if d is not off:
                        good = False
                        self.problem('the part of process %d is put at %s, the parts before it end at %s' % (k, S.show(d, 5)[:120], S.show(off, 5)[:120]), node)
                    off = S.add(off, lens[k])
            total = S.add(*lens)
            old = I.term(tgt, st)
            if A.shape(old, 0) is not total:
                good = False
                self.problem('the parts have %s elements, the buffer %s' % (S.show(total, 5)[:120], S.show(A.shape(old, 0), 5)[:120]), node)
            if good:
                C.write_through(I, tgt, join([h['val'] for h in have]), st, node)
            return NONE
        raise Gap('collective %s' % n)

def join(ts):
    ts = [t for t in ts if not (t.op == 'vec' and not t.args[0])]
    if not ts: return A.vec([])
    return ts[0] if len(ts) == 1 else A.concat(ts)

def items(I, v, st, node):
    it = I.iterable(v, st, node)
    if it[0] != 'const': raise Gap('length of a buffer specification')
    return it[1]

def elem(v):
    e = getattr(v.arr, 'elem', None)
    return e.args[1] if e is not None and e.op == 'sym' and e.args[0] == 'dtype' else None

def mpitype(v):
    if isinstance(v, Ext): return TYPES.get(v.name.split('.')[-1])
    if isinstance(v, S.T) and v.op in ('ext', 'fn'): return TYPES.get(str(v.args[0]).split('.')[-1])
    return None

def agree(w, types, n, node):
    ts = {t for t in types if t is not None and t is not NOTHING}
    if len(ts) > 1: w.problem('element types differ in %s: %s' % (n, ', '.join(sorted(ts))), node)
    elif None in types: w.problem('?element type of %s not known' % n, node)

def freeze(I, v, st):
    if isinstance(v, ListRef):
        c = st.mem.get(('list', v.id))
        return ('list', tuple(freeze(I, x, st) for x in c)) if isinstance(c, tuple) else ('term', I.term(v, st))
    if isinstance(v, PyTuple): return ('tuple', tuple(freeze(I, x, st) for x in v.items))
    return ('term', I.term(v, st) if v is not None else NONE)

def thaw(I, f, st, node):
    if f[0] == 'list': return I.new_list(tuple(thaw(I, x, st, node) for x in f[1]), st)
    if f[0] == 'tuple': return PyTuple([thaw(I, x, st, node) for x in f[1]])
    t = f[1]
    return I.new_array(t, 'received', node, st) if A.rank(t) else t

def run(P, nd, vals, size, models, **k):
    """(world, outcomes by rank): every process runs nd to its end, or the outcome is None"""
    w = World(size)
    w.given = tuple(k.get('assume', ()))
    models = dict(models)
    for n in ('Get_rank', 'Get_size', 'Barrier', 'barrier', 'gather', 'allgather', 'bcast', 'Bcast', 'Gatherv', 'Gather', 'Scatter', 'Scatterv', 'scatter', 'reduce', 'Reduce', 'allreduce', 'Allreduce',
              'Allgather', 'Allgatherv', 'send', 'recv', 'Send', 'Recv', 'isend', 'irecv', 'Isend', 'Irecv'):
        models['mpi4py.MPI.COMM_WORLD.' + n] = lambda I, name, a, kw, st, node, n=n: w.collective(I, n, a, kw, st, node)
    models['@world'] = w
    done = [None] * size
    while True:
        before = [len(l) for l in w.log]
        ended = sum(x is not None for x in done)
        for r in range(size):
            if done[r] is not None: continue
            w.cur, w.pos = r, 0
            try:
                o = U.run(P, nd, getattr(nd, 'owner', None), vals, models=models, **k)
                if w.pos < len(w.log[r]): raise Gap('process %d changed its course' % r)
                done[r] = o
            except Wait:
                pass
        if all(x is not None for x in done): break
        if [len(l) for l in w.log] == before and sum(x is not None for x in done) == ended: break
    return w, done
