"""Name resolution on the syntax tree: dotted names of external callees, candidate repository callees, parents."""
import ast

def functions(P):
    """(module, class or None, node) of every function with a body, nested ones included"""
    for m in P.modules.values():
        if m.name.startswith('spec.'): continue
        stack = [(m.tree, None)]
        while stack:
            n, c = stack.pop()
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.ClassDef): stack.append((x, x.name))
                elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if not getattr(x, 'cdeclonly', False):
                        yield m, c, x
                    stack.append((x, c))
                else: stack.append((x, c))

def own(fn):
    """nodes of a function without those of nested functions and lambdas' bodies kept"""
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)): continue
        stack.extend(ast.iter_child_nodes(x))

def parents(tree):
    return {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}

def dotted(P, m, e, local=()):
    """external dotted name of expression e ('numpy.random.seed'), or None"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr); e = e.value
    if not isinstance(e, ast.Name) or e.id in local:
        return None
    r = P.resolve_name(m, e.id)
    if r is None:
        base = 'builtins.' + e.id if e.id in dir(__import__('builtins')) and not parts else None
    elif r[0] in ('mod', 'ext'):
        base = r[1]
    else:
        return None
    if base is None: return None
    if base.startswith(P.package): return None
    return '.'.join([base] + parts[::-1])

def assigned(fn):
    """names bound inside a function"""
    out = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
    glob = set()
    for x in own(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)): out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)): glob |= set(x.names)
    return out - glob

def callees(P, m, c, table=None):
    """repository functions a call may reach: list of nodes"""
    f = c.func
    if isinstance(f, ast.Name):
        for t in table or ():
            if t.name == f.id: return [t]
        r = P.resolve_name(m, f.id)
        if r and r[0] == 'func': return [r[1]]
        if r and r[0] == 'class':
            i, _ = P.method(r[1], '__init__')
            return [i] if i else []
        return []
    if isinstance(f, ast.Attribute):
        if isinstance(f.value, ast.Name):
            r = P.resolve_name(m, f.value.id)
            if r and r[0] == 'class':
                x, _ = P.method(r[1], f.attr)
                return [x] if x else []
            if r and r[0] == 'mod' and r[1] in P.modules:
                g = P.resolve_name(P.modules[r[1]], f.attr)
                return [g[1]] if g and g[0] == 'func' else []
            if r and r[0] in ('mod', 'ext'):
                return []
        return methods(P).get(f.attr, [])
    return []

def methods(P):
    if not hasattr(P, '_methods'):
        P._methods = {}
        for m in P.modules.values():
            if m.name.startswith('spec.'): continue
            for g in m.globals.values():
                if g[0] == 'class':
                    for n, x in g[1].methods.items():
                        P._methods.setdefault(n, []).append(x)
    return P._methods

def where(m, n):
    import os
    return '%s:%s' % (m.name, getattr(n, 'lineno', '?'))
