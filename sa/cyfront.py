"""Cython source -> Python ast, using Cython's own parser (parse only, no compilation).

Extra constructs are rendered as calls:  &x -> __addr__(x),  <T>x -> __cast__('T', x).
C declarations are recorded in the attribute `cy_types` of the function / module node
(name -> C type text); cdef extern functions are recorded in Module.cy_extern.
"""
import ast
import sys
import glob
import os

for _p in sorted(glob.glob("/opt/venv/lib/python3*/site-packages")):
    if _p not in sys.path:
        sys.path.append(_p)


class FrontError(Exception):
    pass


def parse_cython(path, modname):
    from Cython.Compiler import Errors
    from Cython.Compiler.Main import Context, CompilationOptions, default_options
    from Cython.Compiler.Scanning import FileSourceDescriptor
    opts = CompilationOptions(default_options, language_level=3)
    ctx = Context.from_options(opts)
    src = FileSourceDescriptor(path)
    Errors.init_thread()
    scope = ctx.find_module(modname, pos=(src, 1, 0), need_pxd=0)
    tree = ctx.parse(src, scope, pxd=0, full_module_name=modname)
    return Conv(path).module(tree)


BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod,
       "**": ast.Pow, "@": ast.MatMult, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift}
CMP = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "in": ast.In,
       "not_in": ast.NotIn, "is": ast.Is, "is_not": ast.IsNot}


class Conv:
    def __init__(self, path):
        self.path = path
        self.extern = {}
        self.types = [{}]

    def loc(self, node, n):
        if n is not None and getattr(n, "pos", None):
            node.lineno = n.pos[1]
            node.col_offset = n.pos[2]
            node.end_lineno = n.pos[1]
            node.end_col_offset = n.pos[2]
            src = n.pos[0]
            node.src_file = getattr(src, "filename", None) or str(src)
        else:
            node.lineno = 1
            node.col_offset = 0
        return node

    def module(self, t):
        body = self.stmts(t.body)
        m = ast.Module(body=body, type_ignores=[])
        m.cy_extern = self.extern
        m.cy_types = self.types[0]
        return m

    # ------------------------------------------------------------- statements
    def stmts(self, n):
        if n is None:
            return []
        if isinstance(n, list):
            out = []
            for x in n:
                out += self.stmts(x)
            return out
        k = type(n).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise FrontError("unsupported Cython statement %s at %s" % (k, n.pos))
        r = f(n)
        if r is None:
            return []
        return r if isinstance(r, list) else [self.loc(r, n)]

    def block(self, n):
        return self.stmts(n) or [ast.Pass(lineno=1, col_offset=0)]

    def s_StatListNode(self, n):
        return self.stmts(n.stats)

    def s_CompilerDirectivesNode(self, n):
        return self.stmts(n.body)

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_CImportStatNode(self, n):
        nm = str(n.as_name or n.module_name)
        name = str(n.module_name)
        return ast.Import(names=[ast.alias(name=name, asname=str(n.as_name) if n.as_name else None)])

    def s_FromCImportStatNode(self, n):
        names = []
        for x in n.imported_names:
            names.append(ast.alias(name=str(x[1]), asname=str(x[2]) if x[2] else None))
        return ast.ImportFrom(module=str(n.module_name), names=names, level=getattr(n, "relative_level", 0) or 0)

    def s_FromImportStatNode(self, n):
        mod = n.module
        mname = str(mod.module_name.value)
        names = []
        for nm, target in n.items:
            names.append(ast.alias(name=str(nm), asname=str(target.name)))
        lvl = mod.level if getattr(mod, "level", None) and mod.level > 0 else 0
        mname = mname.lstrip(".")
        return ast.ImportFrom(module=mname or None, names=names, level=lvl)

    def s_CDefExternNode(self, n):
        def rec(x):
            if x is None:
                return
            k = type(x).__name__
            if k == "StatListNode":
                for y in x.stats:
                    rec(y)
            elif k == "CVarDefNode":
                for d in x.declarators:
                    nm = self.declname(d)
                    self.extern[nm] = str(n.include_file)
            elif k == "CEnumDefNode":
                for it in x.items or []:
                    self.extern[str(it.name)] = "enum"
        rec(n.body)
        return []

    def s_CTypeDefNode(self, n):
        return []

    def s_CEnumDefNode(self, n):
        for it in n.items or []:
            self.extern[str(it.name)] = "enum"
        return []

    def s_CStructOrUnionDefNode(self, n):
        return []

    def declname(self, d):
        while not hasattr(d, "name"):
            d = d.base
        return str(d.name)

    def typetext(self, base, decl=None):
        k = type(base).__name__
        if k == "CSimpleBaseTypeNode":
            s = ".".join([str(x) for x in (base.module_path or [])] + [str(base.name)]) if base.name else "object"
        elif k == "CComplexBaseTypeNode":
            return self.typetext(base.base_type, base.declarator)
        else:
            s = getattr(base, "name", None) or k
            if k == "TemplatedTypeNode":
                s = self.typetext(base.base_type_node)
            elif k == "MemoryViewSliceTypeNode":
                s = self.typetext(base.base_type_node) + "[:]"
        while decl is not None and hasattr(decl, "base"):
            if type(decl).__name__ == "CPtrDeclaratorNode":
                s += "*"
            decl = decl.base
        return str(s)

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            nm = self.declname(d)
            ty = self.typetext(n.base_type, d)
            self.types[-1][nm] = ty
            default = None
            x = d
            while x is not None:
                if getattr(x, "default", None) is not None:
                    default = x.default
                x = getattr(x, "base", None)
            if default is not None:
                a = ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=self.e(default))
                a.cy_type = ty
                out.append(self.fix(a, n))
            else:
                a = ast.AnnAssign(target=ast.Name(id=nm, ctx=ast.Store()), annotation=ast.Constant(value=ty), value=None, simple=1)
                a.cy_type = ty
                out.append(self.fix(a, n))
        return out

    def fix(self, node, n):
        for x in ast.walk(node):
            if not hasattr(x, "lineno") and isinstance(x, (ast.expr, ast.stmt, ast.excepthandler)):
                self.loc(x, n)
        return node

    def args(self, arglist, star=None, starstar=None):
        a = []
        defaults = []
        types = {}
        for x in arglist:
            decl = x.declarator
            nm = self.declname(decl)
            base = x.base_type
            ty = self.typetext(base, decl)
            if not nm:      # untyped argument: the name is stored in the base type
                nm = str(base.name)
                ty = "object"
            types[nm] = ty
            a.append(ast.arg(arg=nm, annotation=None, lineno=1, col_offset=0))
            if x.default is not None:
                defaults.append(self.e(x.default))
        return ast.arguments(posonlyargs=[], args=a, vararg=ast.arg(arg=str(star.name), lineno=1, col_offset=0) if star else None,
                             kwonlyargs=[], kw_defaults=[], kwarg=ast.arg(arg=str(starstar.name), lineno=1, col_offset=0) if starstar else None,
                             defaults=defaults), types

    def s_DefNode(self, n):
        a, types = self.args(n.args, n.star_arg, n.starstar_arg)
        self.types.append(dict(types))
        body = self.block(n.body)
        f = ast.FunctionDef(name=str(n.name), args=a, body=body, decorator_list=[], returns=None, type_params=[])
        f.cy_types = self.types.pop()
        f.cy_def = "def"
        return self.fix(f, n)

    def s_CFuncDefNode(self, n):
        decl = n.declarator
        ret = self.typetext(n.base_type, decl if type(decl).__name__ == "CPtrDeclaratorNode" else None)
        while type(decl).__name__ != "CFuncDeclaratorNode":
            decl = decl.base
        a, types = self.args(decl.args)
        self.types.append(dict(types))
        body = self.block(n.body)
        f = ast.FunctionDef(name=self.declname(decl), args=a, body=body, decorator_list=[], returns=None, type_params=[])
        f.cy_types = self.types.pop()
        f.cy_def = "cdef"
        f.cy_ret = ret
        return self.fix(f, n)

    def s_SingleAssignmentNode(self, n):
        # "import x as y" and "from" forms arrive as assignments of ImportNode
        if type(n.rhs).__name__ == "ImportNode":
            mod = str(n.rhs.module_name.value)
            lvl = n.rhs.level if getattr(n.rhs, "level", 0) and n.rhs.level > 0 else 0
            tgt = str(n.lhs.name)
            if tgt == mod.split(".")[0] and "." not in mod:
                return self.fix(ast.Import(names=[ast.alias(name=mod, asname=None)]), n)
            return self.fix(ast.Import(names=[ast.alias(name=mod, asname=tgt)]), n)
        a = ast.Assign(targets=[self.e(n.lhs, ast.Store())], value=self.e(n.rhs))
        return self.fix(a, n)

    def s_CascadedAssignmentNode(self, n):
        return self.fix(ast.Assign(targets=[self.e(x, ast.Store()) for x in n.lhs_list], value=self.e(n.rhs)), n)

    def s_ParallelAssignmentNode(self, n):
        return self.stmts(n.stats)

    def s_InPlaceAssignmentNode(self, n):
        return self.fix(ast.AugAssign(target=self.e(n.lhs, ast.Store()), op=BIN[n.operator](), value=self.e(n.rhs)), n)

    def s_ExprStatNode(self, n):
        return self.fix(ast.Expr(value=self.e(n.expr)), n)

    def s_ReturnStatNode(self, n):
        return self.fix(ast.Return(value=self.e(n.value) if n.value is not None else None), n)

    def s_RaiseStatNode(self, n):
        return self.fix(ast.Raise(exc=self.e(n.exc_type) if n.exc_type is not None else None, cause=None), n)

    def s_AssertStatNode(self, n):
        c = getattr(n, "condition", None) or n.cond
        return self.fix(ast.Assert(test=self.e(c), msg=None), n)

    def s_DelStatNode(self, n):
        return self.fix(ast.Delete(targets=[self.e(x, ast.Del()) for x in n.args]), n)

    def s_GlobalNode(self, n):
        return ast.Global(names=[str(x) for x in n.names])

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            i = ast.If(test=self.e(c.condition), body=self.block(c.body), orelse=orelse)
            self.fix(i, c)
            orelse = [i]
        return orelse

    def s_WhileStatNode(self, n):
        return self.fix(ast.While(test=self.e(n.condition), body=self.block(n.body), orelse=self.stmts(n.else_clause)), n)

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence
        return self.fix(ast.For(target=self.e(n.target, ast.Store()), iter=self.e(it), body=self.block(n.body),
                                orelse=self.stmts(n.else_clause)), n)

    def s_ForFromStatNode(self, n):
        raise FrontError("for-from loop at %s" % (n.pos,))

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            ty = None
            if pat:
                if isinstance(pat, list):
                    xs = [self.e(x) for x in pat]
                    ty = xs[0] if len(xs) == 1 else ast.Tuple(elts=xs, ctx=ast.Load())
                else:
                    ty = self.e(pat)
            nm = str(c.target.name) if getattr(c, "target", None) is not None else None
            hs.append(self.loc(ast.ExceptHandler(type=ty, name=nm, body=self.block(c.body)), c))
        return self.fix(ast.Try(body=self.block(n.body), handlers=hs, orelse=self.stmts(n.else_clause), finalbody=[]), n)

    def s_TryFinallyStatNode(self, n):
        b = self.block(n.body)
        return self.fix(ast.Try(body=b, handlers=[], orelse=[], finalbody=self.block(n.finally_clause)), n)

    def s_NodeWithGIL(self, n):
        return self.stmts(n.body)

    def s_GILStatNode(self, n):
        return self.stmts(n.body)

    def s_WithStatNode(self, n):
        it = ast.withitem(context_expr=self.e(n.manager), optional_vars=self.e(n.target, ast.Store()) if n.target is not None else None)
        body = n.body
        return self.fix(ast.With(items=[it], body=self.block(body)), n)

    # ------------------------------------------------------------- expressions
    def e(self, n, ctx=None):
        k = type(n).__name__
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise FrontError("unsupported Cython expression %s at %s" % (k, n.pos))
        r = f(n, ctx or ast.Load())
        return self.fix(self.loc(r, n), n)

    def e_NameNode(self, n, ctx):
        return ast.Name(id=str(n.name), ctx=ctx)

    def e_NoneNode(self, n, ctx):
        return ast.Constant(value=None)

    def e_BoolNode(self, n, ctx):
        return ast.Constant(value=bool(n.value))

    def e_IntNode(self, n, ctx):
        return ast.Constant(value=int(str(n.value).rstrip("uUlL"), 0))

    def e_FloatNode(self, n, ctx):
        return ast.Constant(value=float(n.value))

    def e_ImagNode(self, n, ctx):
        return ast.Constant(value=complex(0, float(n.value)))

    def e_UnicodeNode(self, n, ctx):
        return ast.Constant(value=str(n.value))

    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode

    def e_CharNode(self, n, ctx):
        return ast.Constant(value=str(n.value))

    def e_BytesNode(self, n, ctx):
        v = n.value
        return ast.Constant(value=v.decode("latin1") if isinstance(v, bytes) else str(v))

    def e_NullNode(self, n, ctx):
        return ast.Constant(value=None)

    def e_AttributeNode(self, n, ctx):
        return ast.Attribute(value=self.e(n.obj), attr=str(n.attribute), ctx=ctx)

    def e_IndexNode(self, n, ctx):
        return ast.Subscript(value=self.e(n.base), slice=self.e(n.index), ctx=ctx)

    def e_SliceIndexNode(self, n, ctx):
        sl = ast.Slice(lower=self.e(n.start) if n.start is not None and type(n.start).__name__ != "NoneNode" else None,
                       upper=self.e(n.stop) if n.stop is not None and type(n.stop).__name__ != "NoneNode" else None, step=None)
        return ast.Subscript(value=self.e(n.base), slice=sl, ctx=ctx)

    def e_SliceNode(self, n, ctx):
        g = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return ast.Slice(lower=g(n.start), upper=g(n.stop), step=g(n.step))

    def e_EllipsisNode(self, n, ctx):
        return ast.Constant(value=Ellipsis)

    def e_TupleNode(self, n, ctx):
        return ast.Tuple(elts=[self.e(x, ctx) for x in n.args], ctx=ctx)

    def e_ListNode(self, n, ctx):
        return ast.List(elts=[self.e(x, ctx) for x in n.args], ctx=ctx)

    def e_DictNode(self, n, ctx):
        return ast.Dict(keys=[self.e(x.key) for x in n.key_value_pairs], values=[self.e(x.value) for x in n.key_value_pairs])

    def e_SimpleCallNode(self, n, ctx):
        return ast.Call(func=self.e(n.function), args=[self.e(x) for x in n.args], keywords=[])

    def e_GeneralCallNode(self, n, ctx):
        pos = n.positional_args
        args = []
        if type(pos).__name__ == "TupleNode":
            args = [self.e(x) for x in pos.args]
        elif type(pos).__name__ == "AsTupleNode":
            args = [ast.Starred(value=self.e(pos.arg), ctx=ast.Load())]
        else:
            raise FrontError("call form %s" % type(pos).__name__)
        kws = []
        if n.keyword_args is not None:
            if type(n.keyword_args).__name__ == "DictNode":
                for x in n.keyword_args.key_value_pairs:
                    kws.append(ast.keyword(arg=str(x.key.value), value=self.e(x.value)))
            else:
                kws.append(ast.keyword(arg=None, value=self.e(n.keyword_args)))
        return ast.Call(func=self.e(n.function), args=args, keywords=kws)

    def _bin(self, n, ctx):
        return ast.BinOp(left=self.e(n.operand1), op=BIN[n.operator](), right=self.e(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = e_NumBinopNode = _bin

    def e_UnaryMinusNode(self, n, ctx):
        return ast.UnaryOp(op=ast.USub(), operand=self.e(n.operand))

    def e_UnaryPlusNode(self, n, ctx):
        return self.e(n.operand)

    def e_NotNode(self, n, ctx):
        return ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand))

    def e_BoolBinopNode(self, n, ctx):
        return ast.BoolOp(op=ast.And() if n.operator == "and" else ast.Or(), values=[self.e(n.operand1), self.e(n.operand2)])

    def e_PrimaryCmpNode(self, n, ctx):
        ops = [CMP[n.operator]()]
        cmps = [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMP[c.operator]())
            cmps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.e(n.operand1), ops=ops, comparators=cmps)

    def e_CondExprNode(self, n, ctx):
        return ast.IfExp(test=self.e(n.test if hasattr(n, "test") else n.condition), body=self.e(n.true_val), orelse=self.e(n.false_val))

    def e_AmpersandNode(self, n, ctx):
        return ast.Call(func=ast.Name(id="__addr__", ctx=ast.Load()), args=[self.e(n.operand)], keywords=[])

    def e_TypecastNode(self, n, ctx):
        ty = self.typetext(n.base_type, n.declarator)
        return ast.Call(func=ast.Name(id="__cast__", ctx=ast.Load()), args=[ast.Constant(value=ty), self.e(n.operand)], keywords=[])

    def e_LambdaNode(self, n, ctx):
        a, _ = self.args(n.args)
        return ast.Lambda(args=a, body=self.e(n.result_expr))

    def e_SizeofTypeNode(self, n, ctx):
        return ast.Call(func=ast.Name(id="__sizeof__", ctx=ast.Load()), args=[], keywords=[])

    e_SizeofVarNode = e_SizeofTypeNode

    def e_JoinedStrNode(self, n, ctx):
        return ast.Constant(value="<fstring>")


if __name__ == "__main__":
    print(ast.unparse(ast.fix_missing_locations(parse_cython(sys.argv[1], "m"))))
