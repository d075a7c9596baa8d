"""Element types as terms."""
from . import terms as S

SIZES = {'int32': 4, 'uint32': 4, 'float64': 8, 'float32': 4, 'int64': 8, 'uint64': 8, 'int16': 2, 'uint16': 2, 'int8': 1, 'uint8': 1,
         'i4': 4, 'u4': 4, 'f8': 8, 'f4': 4, 'i8': 8, 'u8': 8, '<i4': 4, '<u4': 4, '<f8': 8, '<f4': 4, 'intc': 4, 'uintc': 4, 'double': 8, 'single': 4, 'longlong': 8, 'ulonglong': 8}
CANON = {'i4': 'int32', 'u4': 'uint32', 'f8': 'float64', 'f4': 'float32', 'i8': 'int64', 'u8': 'uint64', '<i4': 'int32', '<u4': 'uint32', '<f8': 'float64', '<f4': 'float32',
         'intc': 'int32', 'uintc': 'uint32', 'double': 'float64', 'single': 'float32', 'longlong': 'int64', 'ulonglong': 'uint64', 'float': 'float64', 'int': 'int64'}

def dtype_term(I, v, st):
    """term of an element type: name and number of elements of it"""
    from .interp import Ext, PyTuple, Choice
    if isinstance(v, Choice):
        a, b = dtype_term(I, v.a, st), dtype_term(I, v.b, st)
        return S.ite(v.c, a, b) if a is not None and b is not None else None
    if isinstance(v, Ext):
        n = v.name.split('.')[-1]
        n = CANON.get(n, n)
        return S.mk('sym', 'dtype', n, 1) if n in SIZES else None
    if isinstance(v, PyTuple) and len(v.items) == 2:
        b = dtype_term(I, v.items[0], st)
        k = I.term(v.items[1], st)
        if b is not None and b.op == 'sym' and k.op == 'num': return S.mk('sym', 'dtype', b.args[1], b.args[2] * int(k.args[0]))
        return None
    t = I.term(v, st)
    if t.op == 'str':
        n = CANON.get(t.args[0], t.args[0])
        return S.mk('sym', 'dtype', n, 1) if n in SIZES else None
    if t.op == 'ext' or t.op == 'fn':
        n = str(t.args[0]).split('.')[-1]
        n = CANON.get(n, n)
        return S.mk('sym', 'dtype', n, 1) if n in SIZES else t
    return t

def itemsize(t):
    if t.op == 'sym' and t.args[0] == 'dtype': return S.num(SIZES[t.args[1]] * t.args[2])
    if t.op == 'ite': return S.ite(t.args[0], itemsize(t.args[1]), itemsize(t.args[2]))
    return S.call('itemsize', t)

