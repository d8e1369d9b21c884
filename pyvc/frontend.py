"""Reads /repo's current source: Python modules with ast, the Cython module with Cython's parser (converted to ast).

What the Cython extraction drops: C types of declarations (integers are mathematical, doubles are extended reals), cimports,
compiler directives.  boundscheck/wraparound are off in the file, so an index outside [0, n) is an obligation, not an error.
"""
import ast
import os
from .values import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        src = open(path, encoding='utf-8').read()
        self.src = src
        if path.endswith('.pyx'):
            self.tree = pyx_to_ast(path, src)
        else:
            self.tree = ast.parse(src, path)
        self.defs = {}      # name -> ast node (FunctionDef/ClassDef) or ('import', ...) or ('assign', expr)
        for node in self.tree.body:
            self._top(node)

    def _top(self, node):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            self.defs[node.name] = node
        elif isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    self.defs[a.asname] = ('import', a.name, None)
                else:
                    self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0], None)
        elif isinstance(node, ast.ImportFrom):
            mod = ('.' * node.level) + (node.module or '')
            for a in node.names:
                self.defs[a.asname or a.name] = ('import', mod, a.name)
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    self.defs[t.id] = ('assign', node.value, None)
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
            self.defs[node.target.id] = ('assign', node.value, None)
        elif isinstance(node, ast.If):
            for n in node.body + node.orelse:
                self._top(n)
        elif isinstance(node, ast.Try):
            for n in node.body:
                self._top(n)


_cache = {}
PKG = ['NestedSampling', 'cpnest', 'model', 'nest2pos', 'parameter', 'plot', 'proposal', 'sampler', 'utils', '__init__']


def module(name):
    """name like 'cpnest.sampler'"""
    if name not in _cache:
        short = name.split('.', 1)[1] if '.' in name else '__init__'
        for ext in ('.py', '.pyx'):
            p = os.path.join(REPO, 'cpnest', short.replace('.', '/') + ext)
            if os.path.exists(p):
                _cache[name] = Module(name, p)
                break
        else:
            raise Unsupported('no module ' + name)
    return _cache[name]


def resolve_rel(mod, cur):
    """relative import -> absolute module name"""
    if not mod.startswith('.'):
        return mod
    lvl = len(mod) - len(mod.lstrip('.'))
    base = cur.split('.')[:-lvl] if lvl else []
    if not base:
        base = ['cpnest']
    rest = mod.lstrip('.')
    return '.'.join(base + ([rest] if rest else []))


# ------------------------------------------------------------------ Cython
def pyx_to_ast(path, src):
    from Cython.Compiler.TreeFragment import parse_from_strings
    from Cython.Compiler import Errors
    import io, sys
    text = src
    # parse_from_strings wants unicode text and does not read the header directives
    import contextlib
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        tree = parse_from_strings('parameter', text, level='module')
    body = _Cy(path).block(tree.body)
    m = ast.Module(body=body, type_ignores=[])
    ast.fix_missing_locations(m)
    return m


class _Cy:
    def __init__(self, path):
        self.path = path

    def block(self, n):
        name = type(n).__name__
        if name == 'StatListNode':
            out = []
            for s in n.stats:
                out += self.block(s)
            return out
        return [x for x in self.stat(n) if x is not None]

    def body(self, n):
        b = self.block(n)
        return b or [ast.Pass()]

    def fbody(self, n):
        """a body with something outside the subset makes this function unusable, not the whole module"""
        try:
            return self.body(n.body)
        except Exception as e:
            r = ast.AsyncWith(items=[], body=[ast.Pass()])
            r.why = str(e)
            return [self.loc(r, n)]

    def loc(self, a, n):
        a.lineno = n.pos[1]
        a.col_offset = n.pos[2]
        a.end_lineno = n.pos[1]
        a.end_col_offset = n.pos[2]
        return a

    def stat(self, n):
        t = type(n).__name__
        f = getattr(self, 's_' + t, None)
        if f is None:
            raise Unsupported('Cython statement ' + t)
        r = f(n)
        if not isinstance(r, list):
            r = [r]
        for x in r:
            if x is not None:
                self.loc(x, n)
        return r

    def s_CImportStatNode(self, n):
        return []

    def s_FromCImportStatNode(self, n):
        """from cpython cimport array; from numpy.math / libc.math cimport INFINITY"""
        out = []
        for pos, name, asname in n.imported_names:
            name, asname = str(name), str(asname or name)
            if str(n.module_name) == 'cpython' and name == 'array':
                out.append(ast.Import(names=[ast.alias(name='array', asname=asname)]))
            elif name == 'INFINITY':
                out.append(ast.Assign(targets=[ast.Name(id=asname, ctx=ast.Store())],
                                      value=ast.Call(func=ast.Name(id='float', ctx=ast.Load()), args=[ast.Constant(value='inf')], keywords=[])))
            elif str(n.module_name) in ('libc.math', 'numpy.math', 'math'):
                out.append(ast.ImportFrom(module='math', names=[ast.alias(name=name, asname=asname)], level=0))
        return out

    s_PassStatNode = s_CImportStatNode

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value if hasattr(n.module, 'module_name') else '?'
        return []

    def s_SingleAssignmentNode(self, n):
        rt = type(n.rhs).__name__
        if rt == 'ImportNode':
            return ast.Import(names=[ast.alias(name=str(n.rhs.module_name.value), asname=str(n.lhs.name))])
        tgt = self.e(n.lhs)
        self.store(tgt)
        return ast.Assign(targets=[tgt], value=self.e(n.rhs))

    def store(self, t):
        t.ctx = ast.Store()
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x)

    def s_InPlaceAssignmentNode(self, n):
        tgt = self.e(n.lhs)
        self.store(tgt)
        return ast.AugAssign(target=tgt, op=self.op(n.operator), value=self.e(n.rhs))

    def op(self, o):
        return {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow}[o]()

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            init = getattr(d, 'default', None)
            if init is not None:
                out.append(ast.Assign(targets=[ast.Name(id=self.dname(d), ctx=ast.Store())], value=self.e(init)))
        return out

    def dname(self, d):
        while not hasattr(d, 'name'):
            d = d.base
        return str(d.name)

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.e(n.expr))

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.e(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.e(n.exc_type) if n.exc_type is not None else None, cause=None)

    def s_AssertStatNode(self, n):
        return ast.Assert(test=self.e(n.condition), msg=None)

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            x = ast.If(test=self.e(c.condition), body=self.body(c.body), orelse=orelse)
            self.loc(x, c)
            orelse = [x]
        return orelse

    def s_ForInStatNode(self, n):
        tgt = self.e(n.target)
        self.store(tgt)
        it = n.iterator.sequence if hasattr(n.iterator, 'sequence') else n.iterator
        return ast.For(target=tgt, iter=self.e(it), body=self.body(n.body),
                       orelse=self.block(n.else_clause) if n.else_clause is not None else [])

    def s_WhileStatNode(self, n):
        return ast.While(test=self.e(n.condition), body=self.body(n.body),
                         orelse=self.block(n.else_clause) if n.else_clause is not None else [])

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_DelStatNode(self, n):
        ts = [self.e(a) for a in n.args]
        for t in ts:
            t.ctx = ast.Del()
        return ast.Delete(targets=ts)

    def args(self, args, star=None, sstar=None):
        pos, defs = [], []
        for a in args:
            nm = None
            d = a.declarator
            nm = self.dname(d) if self.dname(d) else None
            if not nm:      # untyped argument: Cython stores the name as the type
                nm = str(a.base_type.name)
            pos.append(ast.arg(arg=nm))
            if a.default is not None:
                defs.append(self.e(a.default))
        return ast.arguments(posonlyargs=[], args=pos, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=defs)

    def s_DefNode(self, n):
        return ast.FunctionDef(name=str(n.name), args=self.args(n.args), body=self.fbody(n), decorator_list=[], returns=None)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        name = self.dname(d)
        return ast.FunctionDef(name=name, args=self.args(d.args), body=self.fbody(n), decorator_list=[], returns=None)

    def s_CClassDefNode(self, n):
        return ast.ClassDef(name=str(n.class_name), bases=[], keywords=[], body=self.body(n.body), decorator_list=[])

    # expressions
    def e(self, n):
        t = type(n).__name__
        f = getattr(self, 'x_' + t, None)
        if f is None:
            raise Unsupported('Cython expression ' + t)
        return self.loc(f(n), n)

    def x_NameNode(self, n):
        return ast.Name(id=str(n.name), ctx=ast.Load())

    def x_NoneNode(self, n):
        return ast.Constant(value=None)

    def x_IntNode(self, n):
        return ast.Constant(value=int(n.value))

    def x_FloatNode(self, n):
        return ast.Constant(value=float(n.value))

    def x_BoolNode(self, n):
        return ast.Constant(value=bool(n.value))

    def x_UnicodeNode(self, n):
        return ast.Constant(value=str(n.value))

    def x_StringNode(self, n):
        return ast.Constant(value=str(getattr(n, 'unicode_value', None) or n.value))

    x_IdentifierStringNode = x_StringNode
    x_BytesNode = x_StringNode

    def x_AttributeNode(self, n):
        return ast.Attribute(value=self.e(n.obj), attr=str(n.attribute), ctx=ast.Load())

    def x_IndexNode(self, n):
        return ast.Subscript(value=self.e(n.base), slice=self.e(n.index), ctx=ast.Load())

    def x_SimpleCallNode(self, n):
        return ast.Call(func=self.e(n.function), args=[self.e(a) for a in n.args], keywords=[])

    def x_GeneralCallNode(self, n):
        pos = n.positional_args
        args = [self.e(a) for a in pos.args] if pos is not None else []
        kws = []
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs:
                kws.append(ast.keyword(arg=str(getattr(it.key, 'unicode_value', None) or it.key.value), value=self.e(it.value)))
        return ast.Call(func=self.e(n.function), args=args, keywords=kws)

    def x_TupleNode(self, n):
        return ast.Tuple(elts=[self.e(a) for a in n.args], ctx=ast.Load())

    def x_ListNode(self, n):
        return ast.List(elts=[self.e(a) for a in n.args], ctx=ast.Load())

    def x_DictNode(self, n):
        return ast.Dict(keys=[self.e(p.key) for p in n.key_value_pairs], values=[self.e(p.value) for p in n.key_value_pairs])

    def _bin(self, n):
        return ast.BinOp(left=self.e(n.operand1), op=self.op(n.operator), right=self.e(n.operand2))

    x_AddNode = x_SubNode = x_MulNode = x_DivNode = x_ModNode = x_PowNode = x_NumBinopNode = _bin

    def x_UnaryMinusNode(self, n):
        return ast.UnaryOp(op=ast.USub(), operand=self.e(n.operand))

    def x_NotNode(self, n):
        return ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand))

    CMP = {'<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'in': ast.In,
           'not_in': ast.NotIn, 'is': ast.Is, 'is_not': ast.IsNot}

    def x_PrimaryCmpNode(self, n):
        ops, comps = [self.CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(self.CMP[c.operator]())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.e(n.operand1), ops=ops, comparators=comps)

    def x_BoolBinopNode(self, n):
        return ast.BoolOp(op=ast.And() if n.operator == 'and' else ast.Or(), values=[self.e(n.operand1), self.e(n.operand2)])

    def x_CondExprNode(self, n):
        return ast.IfExp(test=self.e(n.condition if hasattr(n, 'condition') else n.test), body=self.e(n.true_val), orelse=self.e(n.false_val))

    def comp_parts(self, loop):
        """nested ForInStat ... ComprehensionAppend -> generators, element node(s)"""
        gens = []
        n = loop
        elt = None
        while True:
            t = type(n).__name__
            if t in ('ForInStatNode', '_ForInStatNode'):
                tgt = self.e(n.target)
                self.store(tgt)
                it = n.iterator.sequence if hasattr(n.iterator, 'sequence') else n.iterator
                gens.append(ast.comprehension(target=tgt, iter=self.e(it), ifs=[], is_async=0))
                n = n.body
            elif t == 'IfStatNode':
                gens[-1].ifs.append(self.e(n.if_clauses[0].condition))
                n = n.if_clauses[0].body
            elif t == 'StatListNode' and len(n.stats) == 1:
                n = n.stats[0]
            elif t == 'ExprStatNode':
                n = n.expr
            else:
                return gens, n

    def x_ComprehensionNode(self, n):
        gens, a = self.comp_parts(n.loop)
        t = type(a).__name__
        if t == 'DictComprehensionAppendNode':
            return ast.DictComp(key=self.e(a.dict_item.key), value=self.e(a.dict_item.value), generators=gens)
        return ast.ListComp(elt=self.e(a.expr), generators=gens)

    def x_JoinedStrNode(self, n):
        raise Unsupported('Cython f-string')


def has(m):
    try:
        module(m)
        return True
    except Exception:
        return False
