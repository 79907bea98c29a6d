"""Source rewriting: the module under test is read from /repo's working tree on every run, and every
operation whose meaning could depend on a symbolic value is routed to the engine (rt.py).  Control
flow, data structures and everything else stay the module's own."""
import ast
import sys
import importlib.abc
import importlib.machinery
import importlib.util
import os

RT = '_vS_'
DIRECT = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'}
CMP = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
       ast.In: 'in_', ast.NotIn: 'not_in', ast.Is: 'is_', ast.IsNot: 'is_not'}
BIN = {ast.Sub: 'sub_', ast.BitOr: 'or_', ast.BitAnd: 'and_', ast.BitXor: 'xor', ast.Mod: 'mod'}


def rt(name):
    return ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr=name, ctx=ast.Load())


def rcall(name, *args):
    return ast.Call(func=rt(name), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    # -- functions: record entry, leave annotations alone
    def _func(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        node.body = [x for b in node.body for x in self._stmt(b)]
        doc = []
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        enter = ast.Expr(value=rcall('enter', ast.Constant(value=self.modname + ':' + '.'.join(self.stack))))
        node.body = doc + [enter] + body
        self.stack.pop()
        return node

    def _stmt(self, b):
        r = self.visit(b)
        if r is None:
            return []
        return r if isinstance(r, list) else [r]

    def visit_FunctionDef(self, node):
        if node.name.startswith('raw_') and self.modname.startswith('props.'):
            return node       # oracle code which looks at no symbolic value
        return self._func(node)

    def visit_AsyncFunctionDef(self, node):
        return self._func(node)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        node.body = [x for b in node.body for x in self._stmt(b)]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in DIRECT:
            node.args = [self.visit(a) for a in node.args]
            return node
        func = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.Call(func=rt('call'), args=[func] + args, keywords=kws)

    def visit_Compare(self, node):
        left = self.visit(node.left)
        rest = [self.visit(c) for c in node.comparators]
        if len(rest) == 1:
            op = type(node.ops[0])
            if op in (ast.Is, ast.IsNot):
                return ast.Compare(left=left, ops=node.ops, comparators=rest)
            return rcall(CMP[op], left, rest[0])
        items = []
        for o, c in zip(node.ops, rest):
            items.append(ast.Tuple(elts=[rt(CMP[type(o)]), ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=c)], ctx=ast.Load()))
        return rcall('chain', left, *items)

    def visit_BinOp(self, node):
        left, right = self.visit(node.left), self.visit(node.right)
        if type(node.op) in BIN:
            return rcall(BIN[type(node.op)], left, right)
        return ast.BinOp(left=left, op=node.op, right=right)

    def visit_Subscript(self, node):
        value = self.visit(node.value)
        sl = self.visit(node.slice)
        if isinstance(node.ctx, ast.Load):
            if isinstance(sl, ast.Slice) or (isinstance(sl, ast.Constant) and isinstance(sl.value, int)) or (
                    isinstance(sl, ast.UnaryOp) and isinstance(sl.operand, ast.Constant)):
                return ast.Subscript(value=value, slice=sl, ctx=node.ctx)
            return rcall('getitem', value, sl)
        if isinstance(sl, ast.Slice):
            return ast.Subscript(value=value, slice=sl, ctx=node.ctx)
        return ast.Subscript(value=rcall('sub', value), slice=sl, ctx=node.ctx)

    def visit_Dict(self, node):
        if all(isinstance(k, ast.Constant) for k in node.keys):
            node.values = [self.visit(v) for v in node.values]
            return node
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Tuple(elts=[self.visit(v)], ctx=ast.Load()))
            else:
                elts.append(ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load()))
        return rcall('mkdict', ast.List(elts=elts, ctx=ast.Load()))

    def visit_DictComp(self, node):
        gens = [self.visit(g) for g in node.generators]
        lc = ast.ListComp(elt=ast.Tuple(elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load()),
                          generators=gens)
        return rcall('mkdict', lc)

    def visit_Set(self, node):
        return rcall('mkset', ast.List(elts=[self.visit(e) for e in node.elts], ctx=ast.Load()))

    def visit_SetComp(self, node):
        gens = [self.visit(g) for g in node.generators]
        return rcall('mkset', ast.ListComp(elt=self.visit(node.elt), generators=gens))

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        if node.conversion == 114:
            node.value = rcall('repr_', node.value)
            node.conversion = 115
        if node.format_spec is not None:
            node.format_spec = self.visit(node.format_spec)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(type=rt('Abort'), name=None,
                                                      body=[ast.Raise(exc=None, cause=None)]))
        return node

    def visit_AugAssign(self, node):
        name = BIN.get(type(node.op))
        t = node.target
        if name is None or not (isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)):
            return self.generic_visit(node)
        load = ast.Name(id=t.id, ctx=ast.Load()) if isinstance(t, ast.Name) else ast.Attribute(
            value=ast.Name(id=t.value.id, ctx=ast.Load()), attr=t.attr, ctx=ast.Load())
        return ast.Assign(targets=[t], value=rcall('aug', ast.Constant(value=name), load, self.visit(node.value)))

    def visit_Match(self, node):
        subj = '_vSm%d' % node.lineno
        out = [ast.Assign(targets=[ast.Name(id=subj, ctx=ast.Store())], value=self.visit(node.subject))]

        def conj(*parts):
            return ast.BoolOp(op=ast.And(), values=[ast.Constant(value=True)] + list(parts))

        def bind(name, value):
            if name is None:
                return ast.Constant(value=True)
            t = ast.Tuple(elts=[ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=value)], ctx=ast.Load())
            return ast.Compare(left=t, ops=[ast.IsNot()], comparators=[ast.Constant(value=None)])

        def cond(p, s=None):
            s = s or ast.Name(id=subj, ctx=ast.Load())
            if isinstance(p, ast.MatchAs) and (p.name is not None or p.pattern is not None):
                return conj(cond(p.pattern, s) if p.pattern is not None else ast.Constant(value=True), bind(p.name, s))
            if isinstance(p, ast.MatchSequence):
                n = len(p.patterns)
                star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
                parts = [rcall('m_seq', s, ast.Constant(value=n - len(star)), ast.Constant(value=bool(star)))]
                for i, x in enumerate(p.patterns):
                    if isinstance(x, ast.MatchStar):
                        stop = ast.Constant(value=i + 1 - n if i + 1 < n else None)
                        parts.append(bind(x.name, ast.Call(func=ast.Name(id='list', ctx=ast.Load()), keywords=[], args=[ast.Subscript(
                            value=s, slice=ast.Slice(lower=ast.Constant(value=i), upper=stop), ctx=ast.Load())])))
                    else:
                        k = i if not star or i < star[0] else i - n
                        parts.append(cond(x, ast.Subscript(value=s, slice=ast.Constant(value=k), ctx=ast.Load())))
                return conj(*parts)
            if isinstance(p, ast.MatchMapping):
                keys = ast.List(elts=[self.visit(k) for k in p.keys], ctx=ast.Load())
                parts = [rcall('m_map', s, keys)] + [cond(x, rcall('getitem', s, k)) for k, x in zip(keys.elts, p.patterns)]
                return conj(*parts, bind(p.rest, rcall('m_rest', s, keys)))
            if isinstance(p, ast.MatchClass):
                c = self.visit(p.cls)
                parts = [rcall('call', ast.Name(id='isinstance', ctx=ast.Load()), s, c)]
                parts += [cond(x, rcall('m_pos', s, c, ast.Constant(value=i))) for i, x in enumerate(p.patterns)]
                parts += [cond(x, ast.Attribute(value=s, attr=a, ctx=ast.Load())) for a, x in zip(p.kwd_attrs, p.kwd_patterns)]
                return conj(*parts)
            if isinstance(p, ast.MatchValue):
                return rcall('eq', s, self.visit(p.value))
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=s, ops=[ast.Is()], comparators=[ast.Constant(value=p.value)])
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(op=ast.Or(), values=[cond(x, s) for x in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                return ast.Constant(value=True)
            raise NotImplementedError
        try:
            chain = None
            cur = None
            for c in node.cases:
                t = cond(c.pattern)
                if c.guard is not None:
                    t = ast.BoolOp(op=ast.And(), values=[t, self.visit(c.guard)])
                nd = ast.If(test=t, body=[x for b in c.body for x in self._stmt(b)], orelse=[])
                if chain is None:
                    chain = nd
                else:
                    cur.orelse = [nd]
                cur = nd
            return out + [chain]
        except NotImplementedError:
            return self.generic_visit(node)


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    # `_vS_` import goes after the docstring and __future__ imports
    pos = 0
    for k, b in enumerate(tree.body):
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
            pos = k + 1
        elif isinstance(b, ast.ImportFrom) and b.module == '__future__':
            pos = k + 1
        else:
            break
    imp = ast.parse('from symex import rt as %s' % RT).body[0]
    tree.body.insert(pos, imp)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        INSTRUMENTED[fullname] = path
        return instrument(importlib.util.decode_source(src), path, fullname)


INSTRUMENTED = {}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = prefixes      # package -> directory containing it

    def find_spec(self, name, path, target=None):
        top = name.split('.')[0]
        if top not in self.prefixes:
            return None
        search = path if path is not None else [self.prefixes[top]]
        spec = importlib.machinery.PathFinder.find_spec(name, search)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        spec.cached = None
        return spec


def install(repo, verif):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder({'MyCapytain': repo, 'props': verif}))


def twin(modname):
    """Instrumented copy of a pure-Python library module (the original stays untouched)."""
    import types
    path = importlib.import_module(modname).__file__
    src = open(path, encoding='utf-8').read()
    m = types.ModuleType(modname + '__sym')
    m.__file__ = path
    m.__package__ = modname.rpartition('.')[0]
    code = instrument(src, path, 'lib:' + modname)
    exec(code, m.__dict__)
    return m
