"""C18: what is read from snapshot files, as terms over (file, position, type, count)."""
from ..check import Unit
from .. import terms as S, arrays as A, calls as C, h5
from ..interp import View, ObjRef, Cls, Ext, PyTuple, NONE

from ..dtypes import dtype_term, itemsize, SIZES

def m_open(I, name, args, kw, st, node):
    ci = I.P.modules['spec.files'].globals['BinFile'][1]
    return C.instantiate(I, Cls(ci), [args[0]], {}, st, node)

def at(name, pos, d):
    """value of a type at a position of a file"""
    t = S.call('raw', name, pos, d)
    A.declare(t, 0)
    return t

def m_fromfile(I, name, args, kw, st, node):
    a = list(args) + [None] * (4 - len(args))
    f, dt, cnt = a[0], kw.get('dtype', a[1]), kw.get('count', a[2])
    off = kw.get('offset')
    if not isinstance(f, ObjRef):
        if isinstance(f, S.T): pos, nm, adv = S.ZERO, f, False
        else: return NotImplemented
    else:
        pos, nm, adv = st.mem[('attr', f.id, 'pos')], st.mem[('attr', f.id, 'name')], True
        pos, nm = I.term(pos, st), I.term(nm, st)
    if dt is None or cnt is None: return NotImplemented
    d = dtype_term(I, dt, st)
    if d is None: return NotImplemented
    n = I.term(cnt, st)
    if off is not None: pos = S.add(pos, I.term(off, st))
    w = d.args[2] if d.op == 'sym' else 1
    base = S.mk('sym', 'dtype', d.args[1], 1) if w != 1 else d
    i = S.fresh('i')
    if w == 1: t = A.mk_alam(i, n, at(nm, S.add(pos, S.mul(i, itemsize(d))), base))
    else: t = A.mk_alam(i, n, A.vec([at(nm, S.add(pos, S.mul(i, itemsize(d)), S.num(k * SIZES[base.args[1]])), base) for k in range(w)]))
    if adv: st.mem[('attr', f.id, 'pos')] = S.add(pos, S.mul(n, itemsize(d)))
    return typed(I.new_array(t, 'raw', node, st), base)

def m_dtype(I, name, args, kw, st, node):
    d = dtype_term(I, args[0], st)
    return d if d is not None else NotImplemented

def m_filled(I, name, args, kw, st, node):
    dt = kw.get('dtype', args[1] if len(args) > 1 else None)
    d = dtype_term(I, dt, st) if dt is not None else None
    if d is None: return NotImplemented
    w = d.args[2] if d.op == 'sym' and d.args[0] == 'dtype' else 1
    sh = C.shape_list(I, st, args[0] if args else kw.get('shape'))
    if sh is None: return NotImplemented
    nm = name.split('.')[-1]
    v = C.new_filled(I, st, [PyTuple(list(sh) + ([S.num(w)] if w > 1 else []))], {}, node, {'empty': None, 'zeros': S.ZERO, 'ones': S.ONE}[nm], nm)
    return typed(v, S.mk('sym', 'dtype', d.args[1], 1) if w > 1 else d)

def typed(v, d):
    """remembers the element type of a new array"""
    if isinstance(v, View): v.arr.elem = d
    return v

FILES = {'h5py.File': h5.open_, 'builtins.open': m_open, 'io.open': m_open, 'numpy.fromfile': m_fromfile, 'numpy.dtype': m_dtype, 'numpy.empty': m_filled, 'numpy.zeros': m_filled, 'numpy.ones': m_filled}

F = {'C18': ['ret*', 'alive']}
Unit('snap_header', 'spec.snap.d_header', 'spec.snap.r_header', [('filename', 's')], F, models=FILES, public=True, anchor='cosmic_profiles.gadget.readsnap.snapshot_header')
Unit('gadget_header', 'spec.snap.d_gheader', 'spec.snap.r_gheader', [('snapshot', 's')], F, models=FILES, public=True, anchor='cosmic_profiles.gadget.readgadget.header')

class Heads:
    """snapshot_header(name) with fields that are symbols of the file's name; the number of files is fixed"""
    def __init__(self, filenum, form='.%d', base='filename'): self.filenum, self.form, self.base = filenum, form, base
    def total(self, nm):
        """the header counts the particles of all files"""
        from ..interp import strcat, string
        t = S.ZERO
        def part(n):
            x = S.call('head_npart', n)
            A.declare(x, 1, (S.num(6),))
            return x
        if self.filenum == 1: return part(nm)
        base = S.sym(self.base)
        ns = [part(strcat([base, string(self.form % i)])) for i in range(self.filenum)]
        return A.vec([S.add(*[A.sel(x, (S.num(j),)) for x in ns]) for j in range(6)])
    def __call__(self, I, c, args, kw, st, node):
        ci = I.P.modules['spec.files'].globals['Head'][1]
        nm = I.term(args[0] if args else kw.get('filename', kw.get('snapshot')), st)
        if self.base == 'snapshot': nm = resolved(nm)
        o = ObjRef(ci)
        for f, k in (('npart', 1), ('nall', 1), ('massarr', 1), ('time', 0), ('redshift', 0), ('format', 0), ('swap', 0), ('boxsize', 0), ('omega_m', 0), ('omega_l', 0), ('hubble', 0)):
            t = S.call('head_' + f, nm)
            if f == 'nall': t = self.total(nm)
            if k: A.declare(t, 1, (S.num(6),))
            else: A.declare(t, 0)
            st.mem[('attr', o.id, f)] = I.new_array(t, f, node, st) if k else t
        st.mem[('attr', o.id, 'filenum')] = S.num(self.filenum)
        return o

def blocks(tag, filenum, block, ptype):
    from ..interp import string
    models = dict(FILES)
    models['snapshot_header'] = Heads(filenum)
    Unit('rb_%s_%s%s' % (block.strip(), tag, ptype if ptype >= 0 else 'all'), 'spec.snap.d_rb_' + ('one' if tag == 'one' else 'many'), 'spec.snap.r_rb_' + ('one' if tag == 'one' else 'many'),
         [('filename', 's'), ('block', '=%r' % block), ('ptype', '=%d' % ptype)], F, models=models, opaque={'find_block': {'pure': True}},
         anchor='cosmic_profiles.gadget.readsnap.read_block', public=True)

for b, ps in (('POS ', (-1, 0, 1, 4, 5)), ('VEL ', (-1, 1, 4)), ('ID  ', (-1, 0, 1, 4)), ('MASS', (-1, 0, 1, 4)), ('Z   ', (0, 4)), ('U   ', (0,)), ('RHO ', (0,)), ('AGE ', (4,)), ('BHMA', (5,)), ('NE  ', (0,)), ('HSML', (0,)), ('SFR ', (0,)), ('NH  ', (0,)), ('BHMD', (5,))):
    for p in ps:
        blocks('one', 1, b, p)
        if p >= 0: blocks('two', 2, b, p)

def resolved(t):
    """the file that stands for the snapshot; a file of the snapshot stands for itself"""
    return S.call('snapname', t) if t is S.sym('snapshot') else t

def kind_of(kind):
    """a snapshot whose files are all of one kind"""
    from ..interp import string
    return lambda I, f, args, kw, st, node: PyTuple([resolved(I.term(args[0] if args else kw['snapshot'], st)), string(kind)])

def one_field(rank):
    """block of one type in one file"""
    def f(I, fn, args, kw, st, node):
        v = [I.term(x, st) for x in list(args) + [kw[k] for k in ('snapshot', 'block', 'ptype')[len(args):]]]
        t = S.call('read_field', resolved(v[0]), *v[1:])
        A.declare(t, rank)
        return I.new_array(t, 'field', node, st)
    return f

KNOWN = ('head_npart', 'head_massarr', 'head_time', 'snapname', 'strcat')

def field(kind, block, ptype):
    m = dict(FILES)
    m['header'] = Heads(1, base='snapshot')
    m['fname_format'] = m['found'] = kind_of(kind)
    Unit('rf_%s_%s%d' % (kind, block.strip(), ptype), 'spec.snap.d_field', 'spec.snap.r_field', [('snapshot', 's'), ('block', '=%r' % block), ('ptype', '=%d' % ptype)], dict(F, C01=['ret*']), models=m,
         vocab=KNOWN, opaque={'read_block': {'pure': True, 'rank': 2 if block in ('POS ', 'VEL ') else 1}}, anchor='cosmic_profiles.gadget.readgadget.read_field', public=True)

for k in ('binary', 'hdf5'):
    for b in ('POS ', 'VEL ', 'ID  ', 'MASS'):
        for p in (0, 1, 4):
            field(k, b, p)
    field(k, 'GRNR', 1)
Unit('snap_name', 'spec.snap.d_found', 'spec.snap.found', [('snapshot', 's')], F, models=FILES, anchor='cosmic_profiles.gadget.readgadget.fname_format')

for fm in (1, 2):
    for sw in (0, 1):
        Unit('find_block_%d%d' % (fm, sw), 'spec.snap.d_find_block', 'spec.snap.r_find_block', [('filename', 's'), ('fmt', '=%d' % fm), ('swap', '=%d' % sw), ('block', 's'), ('number', 'i+')],
             {'C18': ['*']}, models=FILES, loop=True, anchor='cosmic_profiles.gadget.readsnap.find_block', public=True)

def joined(tag, filenum, block, ptypes):
    m = dict(FILES)
    R = 2 if block in ('POS ', 'VEL ') else 1
    m['read_field'] = one_field(R)
    m['header'] = Heads(filenum, '.%d.hdf5' if tag == 'h5' else '.%d', 'snapshot')
    m['fname_format'] = m['found'] = kind_of('hdf5' if tag == 'h5' else 'binary')
    Unit('gb_%s%d_%s_%s' % (tag, filenum, block.strip(), ''.join(map(str, ptypes))), 'spec.snap.d_joined_' + tag, 'spec.snap.r_joined_' + tag,
         [('snapshot', 's'), ('block', '=%r' % block), ('ptype', '=%r' % list(ptypes))], dict(F, C01=['ret*'], C16=['out.*']), models=m,
         opaque={'readsnap.read_block': {'pure': True, 'rank': R}}, vocab=KNOWN, anchor='cosmic_profiles.gadget.readgadget.read_block', public=True)

for b in ('POS ', 'VEL ', 'ID  ', 'MASS'):
    joined('bin', 1, b, (1,))
    joined('bin', 2, b, (0, 4))
    joined('h5', 1, b, (1,))
    joined('h5', 2, b, (1,))
    joined('h5', 3, b, (4,))
    joined('h5', 2, b, (0, 4))
