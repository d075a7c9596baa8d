"""Front end: parse .py with ast and .pyx/.pxd with Cython's own parser, both into
one Python-ast representation.  C declarations become AnnAssign / arg annotations
(attribute .ctype), &x becomes __addr__(x), <T>x becomes __cast__('T', x)."""
import ast, os, threading

class FrontendError(Exception):
    pass

_lock = threading.Lock()
_ctx = None

def _context():
    global _ctx
    if _ctx is None:
        from Cython.Compiler import Main, Errors
        from Cython.Compiler.Options import CompilationOptions, default_options
        Errors.init_thread()
        _ctx = Main.Context.from_options(CompilationOptions(default_options, language_level=3, include_path=[]))
    return _ctx

def parse_file(path, modname):
    if path.endswith('.py'):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise FrontendError('%s: %s' % (path, e))
        return tree
    return _Conv(path).module(_cy_parse(path, modname))

def _cy_parse(path, modname):
    from Cython.Compiler import Errors
    from Cython.Compiler.Scanning import FileSourceDescriptor
    from Cython.Compiler.Symtab import ModuleScope
    ctx = _context()
    Errors.init_thread()
    import io, contextlib
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            scope = ctx.find_module(modname + ('__pxd' if path.endswith('.pxd') else ''), pos=None, need_pxd=0)
            tree = ctx.parse(FileSourceDescriptor(path, path), scope, pxd=path.endswith('.pxd'), full_module_name=modname)
    except Exception as e:      # CompileError and friends
        raise FrontendError('%s: %s %s' % (path, e, err.getvalue()))
    return tree

_BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow,
        '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift, '@': ast.MatMult}
_CMP = {'<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'is': ast.Is,
        'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn, 'is not': ast.IsNot, 'not in': ast.NotIn}

class _Conv:
    def __init__(self, path):
        self.path = path

    # -- helpers
    def pos(self, new, old):
        p = getattr(old, 'pos', None)
        line, col = (p[1], p[2]) if p else (1, 0)
        for n in ast.walk(new):
            if not hasattr(n, 'lineno'):
                n.lineno = n.end_lineno = line
                n.col_offset = n.end_col_offset = col
        return new

    def module(self, tree):
        body = self.stmts(tree.body)
        m = ast.Module(body=body, type_ignores=[])
        return ast.fix_missing_locations(m)

    def stmts(self, n):
        if n is None:
            return []
        out = []
        for s in (n.stats if type(n).__name__ == 'StatListNode' else [n]):
            r = self.stmt(s)
            if r is None:
                continue
            for x in (r if isinstance(r, list) else [r]):
                out.append(self.pos(x, s))
        return out

    def body(self, n):
        b = self.stmts(n)
        return b or [self.pos(ast.Pass(), n) if n is not None else ast.Pass(lineno=1, col_offset=0)]

    def stmt(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            if hasattr(n, 'stats'):
                return self.stmts(n)
            return ast.Expr(ast.Call(ast.Name('__unsupported__', ast.Load()), [ast.Constant(type(n).__name__)], []))
        return m(n)

    def expr(self, n, ctx=None):
        if n is None:
            return None
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            r = ast.Call(ast.Name('__unsupported__', ast.Load()), [ast.Constant(type(n).__name__)], [])
        else:
            r = m(n)
        if ctx is not None:
            self.setctx(r, ctx)
        return self.pos(r, n)

    def setctx(self, e, ctx):
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Tuple, ast.List, ast.Starred)):
            e.ctx = ctx()
            for x in getattr(e, 'elts', []):
                self.setctx(x, ctx)

    # -- types
    def ctype(self, bt, decl=None):
        t = self._bt(bt)
        while decl is not None and type(decl).__name__ == 'CPtrDeclaratorNode':
            t += '*'
            decl = decl.base
        if decl is not None and type(decl).__name__ == 'CArrayDeclaratorNode':
            t += '[]'
        return t

    def _bt(self, bt):
        k = type(bt).__name__
        if k == 'CSimpleBaseTypeNode':
            nm = bt.name or 'object'
            if bt.name is None:
                nm = 'object'
            if getattr(bt, 'is_basic_c_type', 0):
                sg = {0: 'unsigned ', 2: 'signed '}.get(getattr(bt, 'signed', 1), '')
                lg = getattr(bt, 'longness', 0)
                return sg + ('long ' * lg if lg > 0 else 'short ' * -lg) + nm
            mp = getattr(bt, 'module_path', None)
            return '.'.join(list(mp or []) + [nm])
        if k == 'MemoryViewSliceTypeNode':
            dims = []
            for a in bt.axes:
                st = a.step
                dims.append('::1' if type(st).__name__ == 'IntNode' else ':')
            return self._bt(bt.base_type_node) + '[' + ','.join(dims) + ']'
        if k == 'CComplexBaseTypeNode':
            return self.ctype(bt.base_type, bt.declarator)
        if k == 'CConstOrVolatileTypeNode' or k == 'CConstTypeNode':
            return 'const ' + self._bt(bt.base_type)
        if k == 'TemplatedTypeNode':
            return self._bt(bt.base_type_node)
        return 'object'

    def declname(self, d):
        while hasattr(d, 'base') and type(d).__name__ != 'CNameDeclaratorNode':
            d = d.base
        return d.name, getattr(d, 'default', None)

    # -- statements
    def s_StatListNode(self, n): return self.stmts(n)
    def s_ExprStatNode(self, n): return ast.Expr(self.expr(n.expr))
    def s_PassStatNode(self, n): return ast.Pass()
    def s_BreakStatNode(self, n): return ast.Break()
    def s_ContinueStatNode(self, n): return ast.Continue()
    def s_GlobalNode(self, n): return ast.Global(list(n.names))
    def s_NonlocalNode(self, n): return ast.Nonlocal(list(n.names))
    def s_CDefExternNode(self, n):
        out = self.stmts(n.body)
        return out
    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            if type(d).__name__ == 'CFuncDeclaratorNode' or self._hasfunc(d):
                nm = self.declname(d)[0]
                fd = self._funcdecl(d)
                f = ast.FunctionDef(name=nm, args=self.cargs(fd.args), body=[ast.Pass()], decorator_list=[], returns=None)
                f.cfunc, f.cdeclonly, f.nogil, f.cret = True, True, bool(getattr(fd, 'nogil', False)), self.ctype(n.base_type)
                out.append(f)
                continue
            nm, dflt = self.declname(d)
            t = self.ctype(n.base_type, d)
            a = ast.AnnAssign(target=ast.Name(nm, ast.Store()), annotation=ast.Constant(t),
                              value=self.expr(dflt) if dflt is not None else None, simple=1)
            a.ctype = t
            a.cdims = self.cdims(n.base_type, d)
            out.append(self.pos(a, n))
        return out

    def cdims(self, bt, d):
        """extents of a declared C array (double x[3], double[3] x), outermost first; [] for other types"""
        out = []
        while d is not None and hasattr(d, 'base'):
            if type(d).__name__ == 'CArrayDeclaratorNode' and d.dimension is not None:
                out.insert(0, self.expr(d.dimension))
            d = d.base
        inner = []
        while type(bt).__name__ == 'TemplatedTypeNode' and len(bt.positional_args or ()) == 1 and not (bt.keyword_args and bt.keyword_args.key_value_pairs):
            inner.insert(0, self.expr(bt.positional_args[0]))
            bt = bt.base_type_node
        return out + inner

    def _hasfunc(self, d):
        return self._funcdecl(d) is not None

    def _funcdecl(self, d):
        while d is not None:
            if type(d).__name__ == 'CFuncDeclaratorNode':
                return d
            d = getattr(d, 'base', None)
        return None

    def cargs(self, args, star=None, starstar=None):
        pos, defaults = [], []
        kwonly, kwdef = [], []
        for a in args:
            nm, d0 = self.declname(a.declarator)
            bt = a.base_type
            t = self.ctype(bt, a.declarator)
            if not nm:                          # untyped name parsed as a type
                nm, t = getattr(bt, 'name', None) or '_', 'object'
            g = ast.arg(arg=nm, annotation=None if t == 'object' else ast.Constant(t))
            g.ctype = t
            self.pos(g, a)
            dv = a.default
            if getattr(a, 'kw_only', 0):
                kwonly.append(g); kwdef.append(self.expr(dv) if dv is not None else None)
            else:
                pos.append(g)
                if dv is not None:
                    defaults.append(self.expr(dv))
        mk = lambda s: ast.arg(arg=s.name, annotation=None) if s is not None else None
        return ast.arguments(posonlyargs=[], args=pos, vararg=mk(star), kwonlyargs=kwonly, kw_defaults=kwdef,
                             kwarg=mk(starstar), defaults=defaults)

    def decos(self, n):
        return [self.expr(d.decorator) for d in (n.decorators or [])]

    def doc(self, n):
        return []

    def s_DefNode(self, n):
        f = ast.FunctionDef(name=n.name, args=self.cargs(n.args, n.star_arg, n.starstar_arg), body=self.body(n.body),
                            decorator_list=self.decos(n), returns=None)
        f.cfunc = False; f.nogil = False; f.cret = 'object'
        return f

    def s_CFuncDefNode(self, n):
        d = self._funcdecl(n.declarator)
        nm = self.declname(d)[0]
        f = ast.FunctionDef(name=nm, args=self.cargs(d.args), body=self.body(n.body),
                            decorator_list=self.decos(n), returns=None)
        f.cfunc = True; f.nogil = bool(getattr(d, 'nogil', False)); f.cret = self.ctype(n.base_type, n.declarator)
        f.cpdef = bool(getattr(n, 'overridable', 0))
        return f

    def s_CClassDefNode(self, n):
        bases = [self.expr(b) for b in (n.bases.args if n.bases is not None else [])]
        c = ast.ClassDef(name=n.class_name, bases=bases, keywords=[], body=self.body(n.body) if n.body is not None else [ast.Pass()],
                         decorator_list=self.decos(n))
        c.cclass = True
        return c

    def s_PyClassDefNode(self, n):
        bases = [self.expr(b) for b in (n.bases.args if n.bases is not None else [])]
        return ast.ClassDef(name=n.name, bases=bases, keywords=[], body=self.body(n.body), decorator_list=[])

    def s_SingleAssignmentNode(self, n):
        rt = type(n.rhs).__name__
        if rt == 'ImportNode':                  # import x / import x as y
            nm = n.rhs.module_name.value
            return ast.Import([ast.alias(name=str(nm), asname=str(n.lhs.name) if str(n.lhs.name) != str(nm).split('.')[0] else None)])
        return ast.Assign(targets=[self.expr(n.lhs, ast.Store)], value=self.expr(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.expr(l, ast.Store) for l in n.lhs_list], value=self.expr(n.rhs))

    def s_ParallelAssignmentNode(self, n):
        return [self.stmt(s) for s in n.stats]

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.expr(n.lhs, ast.Store), op=_BIN[n.operator](), value=self.expr(n.rhs))

    def s_DelStatNode(self, n):
        return ast.Delete([self.expr(a, ast.Del) for a in n.args])

    def s_ReturnStatNode(self, n):
        return ast.Return(self.expr(n.value))

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.expr(n.exc_type), cause=None)

    def s_ReraiseStatNode(self, n):
        return ast.Raise(exc=None, cause=None)

    def s_AssertStatNode(self, n):
        cond = n.condition
        msg = None
        ex = getattr(n, 'exception', None)
        if ex is not None and type(ex).__name__ == 'RaiseStatNode' and getattr(ex, 'exc_value', None) is not None:
            msg = self.expr(ex.exc_value)
        return ast.Assert(test=self.expr(cond), msg=msg)

    def s_IfStatNode(self, n):
        orelse = self.stmts(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            i = ast.If(test=self.expr(c.condition), body=self.body(c.body), orelse=orelse)
            self.pos(i, c)
            orelse = [i]
        return orelse

    def s_WhileStatNode(self, n):
        return ast.While(test=self.expr(n.condition), body=self.body(n.body),
                         orelse=self.stmts(n.else_clause) if n.else_clause is not None else [])

    def s_ForInStatNode(self, n):
        return ast.For(target=self.expr(n.target, ast.Store), iter=self.expr(n.iterator.sequence), body=self.body(n.body),
                       orelse=self.stmts(n.else_clause) if n.else_clause is not None else [])

    def s_ForFromStatNode(self, n):
        lo = self.expr(n.bound1); hi = self.expr(n.bound2)
        if n.relation1 == '<':
            lo = ast.BinOp(lo, ast.Add(), ast.Constant(1))
        if n.relation2 == '<=':
            hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
        return ast.For(target=self.expr(n.target, ast.Store), iter=ast.Call(ast.Name('range', ast.Load()), [lo, hi], []),
                       body=self.body(n.body), orelse=[])

    def s_WithStatNode(self, n):
        tgt = getattr(n, 'target', None)
        return ast.With(items=[ast.withitem(context_expr=self.expr(n.manager), optional_vars=self.expr(tgt, ast.Store) if tgt is not None else None)],
                        body=self.body(n.body))

    def s_GILStatNode(self, n):
        return ast.With(items=[ast.withitem(context_expr=ast.Name('nogil' if n.state == 'nogil' else 'gil', ast.Load()), optional_vars=None)],
                        body=self.body(n.body))

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            if isinstance(pat, list):
                pat = pat[0] if len(pat) == 1 else None
            nm = getattr(c.target, 'name', None) if c.target is not None else None
            hs.append(self.pos(ast.ExceptHandler(type=self.expr(pat) if pat is not None else None, name=nm, body=self.body(c.body)), c))
        return ast.Try(body=self.body(n.body), handlers=hs, orelse=self.stmts(n.else_clause) if n.else_clause is not None else [], finalbody=[])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(body=self.body(n.body), handlers=[], orelse=[], finalbody=self.stmts(n.finally_clause))

    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value)
        lvl = max(getattr(n.module, 'level', 0) or 0, 0)
        return ast.ImportFrom(module=mod, names=[ast.alias(name=str(nm), asname=str(t.name) if str(t.name) != str(nm) else None) for nm, t in n.items], level=lvl)

    def s_CImportStatNode(self, n):
        i = ast.Import([ast.alias(name=str(n.module_name), asname=str(n.as_name) if n.as_name else None)])
        i.cimport = True
        return i

    def s_FromCImportStatNode(self, n):
        names = []
        for it in n.imported_names:
            nm = str(it[1]); asn = it[2]
            names.append(ast.alias(name=nm, asname=str(asn) if asn and str(asn) != nm else None))
        i = ast.ImportFrom(module=str(n.module_name), names=names, level=0)
        i.cimport = True
        return i

    def s_CTypeDefNode(self, n): return None
    def s_CStructOrUnionDefNode(self, n): return None
    def s_CEnumDefNode(self, n): return None

    # -- expressions
    def e_NameNode(self, n): return ast.Name(str(n.name), ast.Load())
    def e_NoneNode(self, n): return ast.Constant(None)
    def e_NullNode(self, n): return ast.Name('NULL', ast.Load())
    def e_BoolNode(self, n): return ast.Constant(bool(n.value))
    def e_EllipsisNode(self, n): return ast.Constant(Ellipsis)
    def e_IntNode(self, n):
        s = str(n.value).rstrip('uUlL')
        return ast.Constant(int(s, 0) if not (len(s) > 1 and s[0] == '0' and s.isdigit()) else int(s))
    def e_FloatNode(self, n): return ast.Constant(float(n.value))
    def e_ImagNode(self, n): return ast.Constant(complex(0, float(n.value)))
    def e_UnicodeNode(self, n): return ast.Constant(str(n.value))
    def e_IdentifierStringNode(self, n): return ast.Constant(str(n.value))
    def e_StringNode(self, n): return ast.Constant(str(n.value))
    def e_BytesNode(self, n):
        v = n.value
        return ast.Constant(v if isinstance(v, bytes) else bytes(v))
    def e_CharNode(self, n):
        v = n.value
        return ast.Constant(v if isinstance(v, bytes) else str(v).encode())
    def e_AttributeNode(self, n): return ast.Attribute(self.expr(n.obj), str(n.attribute), ast.Load())
    def e_TupleNode(self, n): return ast.Tuple([self.expr(a) for a in n.args], ast.Load())
    def e_ListNode(self, n): return ast.List([self.expr(a) for a in n.args], ast.Load())
    def e_SetNode(self, n): return ast.Set([self.expr(a) for a in n.args])
    def e_DictNode(self, n):
        return ast.Dict([self.expr(i.key) for i in n.key_value_pairs], [self.expr(i.value) for i in n.key_value_pairs])
    def e_AsTupleNode(self, n): return self.expr(n.arg)
    def e_StarredUnpackingNode(self, n): return ast.Starred(self.expr(n.target), ast.Load())
    def e_IndexNode(self, n): return ast.Subscript(self.expr(n.base), self.expr(n.index), ast.Load())
    def e_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))
    def e_SliceIndexNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return ast.Subscript(self.expr(n.base), ast.Slice(f(n.start), f(n.stop), None), ast.Load())
    def _bin(self, n): return ast.BinOp(self.expr(n.operand1), _BIN[n.operator](), self.expr(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_PowNode = e_ModNode = e_IntBinopNode = e_NumBinopNode = e_MatMultNode = e_BitwiseOrNode = _bin
    def e_UnaryMinusNode(self, n): return ast.UnaryOp(ast.USub(), self.expr(n.operand))
    def e_UnaryPlusNode(self, n): return ast.UnaryOp(ast.UAdd(), self.expr(n.operand))
    def e_TildeNode(self, n): return ast.UnaryOp(ast.Invert(), self.expr(n.operand))
    def e_NotNode(self, n): return ast.UnaryOp(ast.Not(), self.expr(n.operand))
    def e_BoolBinopNode(self, n):
        return ast.BoolOp(ast.And() if n.operator == 'and' else ast.Or(), [self.expr(n.operand1), self.expr(n.operand2)])
    def e_PrimaryCmpNode(self, n):
        ops, cs = [_CMP[n.operator]()], [self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(_CMP[c.operator]()); cs.append(self.expr(c.operand2)); c = c.cascade
        return ast.Compare(self.expr(n.operand1), ops, cs)
    def e_CondExprNode(self, n):
        return ast.IfExp(test=self.expr(n.condition if hasattr(n, 'condition') else n.test), body=self.expr(n.true_val), orelse=self.expr(n.false_val))
    def e_SimpleCallNode(self, n):
        return ast.Call(self.expr(n.function), [self.expr(a) for a in n.args], [])
    def e_GeneralCallNode(self, n):
        pa = n.positional_args
        args = self._posargs(pa)
        kws = self._kwargs(n.keyword_args)
        return ast.Call(self.expr(n.function), args, kws)
    def _posargs(self, pa):
        k = type(pa).__name__
        if k == 'TupleNode':
            return [self.expr(a) for a in pa.args]
        if k == 'AsTupleNode':
            return [ast.Starred(self.expr(pa.arg), ast.Load())]
        if k == 'AddNode':
            return self._posargs(pa.operand1) + self._posargs(pa.operand2)
        if k == 'MergedSequenceNode':
            out = []
            for a in pa.args:
                out += self._posargs(a)
            return out
        return [ast.Starred(self.expr(pa), ast.Load())]
    def _kwargs(self, kw):
        if kw is None:
            return []
        if type(kw).__name__ == 'DictNode':
            out = []
            for i in kw.key_value_pairs:
                out.append(ast.keyword(arg=str(i.key.value), value=self.expr(i.value)))
            return out
        if type(kw).__name__ == 'MergedDictNode':
            out = []
            for a in kw.keyword_args:
                out += self._kwargs(a)
            return out
        return [ast.keyword(arg=None, value=self.expr(kw))]
    def e_AmpersandNode(self, n): return ast.Call(ast.Name('__addr__', ast.Load()), [self.expr(n.operand)], [])
    def e_TypecastNode(self, n):
        return ast.Call(ast.Name('__cast__', ast.Load()), [ast.Constant(self.ctype(n.base_type, n.declarator)), self.expr(n.operand)], [])
    def e_SizeofTypeNode(self, n):
        return ast.Call(ast.Name('__sizeof__', ast.Load()), [ast.Constant(self.ctype(n.base_type, n.declarator))], [])
    def e_SizeofVarNode(self, n):
        return ast.Call(ast.Name('__sizeof__', ast.Load()), [self._typestr(n.operand)], [])
    def _typestr(self, op):
        nm = getattr(op, 'name', None)
        return ast.Constant(str(nm) if nm else 'object')
    def e_ComprehensionNode(self, n):
        gens = []
        loop = n.loop
        elt = None
        key = None
        ty = type(n).__name__
        while loop is not None:
            k = type(loop).__name__
            if k == 'ForInStatNode':
                gens.append(ast.comprehension(target=self.expr(loop.target, ast.Store), iter=self.expr(loop.iterator.sequence), ifs=[], is_async=0))
                loop = loop.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.expr(loop.if_clauses[0].condition))
                loop = loop.if_clauses[0].body
            elif k == 'StatListNode' and len(loop.stats) == 1:
                loop = loop.stats[0]
            elif k == 'ExprStatNode':
                loop = loop.expr
            elif k == 'ComprehensionAppendNode':
                elt = self.expr(loop.expr); loop = None
            elif k == 'DictComprehensionAppendNode':
                key = self.expr(loop.key_expr); elt = self.expr(loop.value_expr); loop = None
            else:
                return ast.Call(ast.Name('__unsupported__', ast.Load()), [ast.Constant(k)], [])
        if key is not None:
            return ast.DictComp(key, elt, gens)
        t = str(getattr(n, 'type', 'list'))
        return ast.SetComp(elt, gens) if 'set' in t else ast.ListComp(elt, gens)
    def e_InlinedGeneratorExpressionNode(self, n): return self.expr(n.gen)
    def e_GeneratorExpressionNode(self, n):
        try:
            loop = n.loop
            gens = []
            elt = None
            while loop is not None:
                k = type(loop).__name__
                if k == 'ForInStatNode':
                    it = loop.iterator.sequence
                    gens.append(ast.comprehension(target=self.expr(loop.target, ast.Store), iter=self.expr(it), ifs=[], is_async=0))
                    loop = loop.body
                elif k == 'IfStatNode':
                    gens[-1].ifs.append(self.expr(loop.if_clauses[0].condition)); loop = loop.if_clauses[0].body
                elif k == 'StatListNode' and len(loop.stats) == 1:
                    loop = loop.stats[0]
                elif k == 'ExprStatNode':
                    elt = self.expr(loop.expr.arg); loop = None
                else:
                    raise AttributeError(k)
            return ast.GeneratorExp(elt, gens)
        except AttributeError:
            return ast.Call(ast.Name('__unsupported__', ast.Load()), [ast.Constant('genexp')], [])
    def e_LambdaNode(self, n):
        body = n.result_expr if hasattr(n, 'result_expr') and n.result_expr is not None else None
        return ast.Lambda(self.cargs(n.args, n.star_arg, n.starstar_arg), self.expr(body) if body is not None else ast.Constant(None))
    def e_JoinedStrNode(self, n):
        return ast.JoinedStr([self.expr(v) for v in n.values])
    def e_FormattedValueNode(self, n):
        fs = n.format_spec
        return ast.FormattedValue(value=self.expr(n.value), conversion=ord(n.conversion_char) if n.conversion_char else -1,
                                  format_spec=ast.JoinedStr([self.expr(fs)]) if fs is not None else None)
    def e_ImportNode(self, n):
        return ast.Call(ast.Name('__import__', ast.Load()), [ast.Constant(str(n.module_name.value))], [])
