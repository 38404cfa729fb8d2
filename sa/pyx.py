"""Cython front end: uses Cython's own parser (no code generation, nothing is
compiled or run) and lowers the parse tree to Python ``ast`` plus type tables,
so that the same analyses can be written once."""
from __future__ import annotations

import ast
import os
import sys

from .program import AnalysisError


class CFunc:
    def __init__(self, name):
        self.name = name
        self.params: list[str] = []
        self.types: dict[str, str] = {}  # var -> declared type text
        self.ptypes: dict[str, str] = {}
        self.body: list = []
        self.kind = "def"
        self.line = 0
        self.path = ""
        self.nogil = False
        self.locals: set[str] = set()
        self.mod = None

    def is_memview(self, v):
        t = self.types.get(v, "")
        if "[" in t:
            return True
        return any("[" in x for x in self.mod.fused.get(t, ())) if self.mod is not None else False

    def is_ptr(self, v):
        return self.types.get(v, "").endswith("*")


class CModule:
    def __init__(self):
        self.functions: dict[str, CFunc] = {}
        self.cimports: dict[str, str] = {}
        self.fused: dict[str, list[str]] = {}
        self.typedefs: dict[str, str] = {}
        self.consts: dict = {}
        self.directives: dict = {}


def load(path, name):
    try:
        from Cython.Compiler import Errors, Parsing
        from Cython.Compiler.Main import CompilationOptions, Context
        from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
        from Cython.Compiler.Symtab import ModuleScope
    except ImportError as e:  # pragma: no cover
        raise AnalysisError(f"Cython parser not available: {e}")
    opts = CompilationOptions(language_level=3)
    ctx = Context.from_options(opts)
    Errors.init_thread()
    desc = FileSourceDescriptor(path, os.path.basename(path))
    with open(path, encoding="utf-8") as f:
        src = f.read()
    import io

    scope = ctx.find_module(name, pos=(desc, 1, 0), need_pxd=False)
    with open(os.devnull, "w") as dn:
        old = sys.stderr
        sys.stderr = dn
        try:
            s = PyrexScanner(io.StringIO(src), desc, source_encoding="utf-8",
                             scope=scope, context=ctx)
            tree = Parsing.p_module(s, False, name)
        except Exception as e:
            raise AnalysisError(f"cannot parse {path}: {e}")
        finally:
            sys.stderr = old
    return Lower(path, name, src).module(tree)


_BIN = {
    "+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "**": ast.Pow,
    "%": ast.Mod, "//": ast.FloorDiv, "<<": ast.LShift, ">>": ast.RShift,
    "^": ast.BitXor, "|": ast.BitOr, "&": ast.BitAnd, "@": ast.MatMult,
}
_CMP = {
    "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq,
    "!=": ast.NotEq, "in": ast.In, "not_in": ast.NotIn, "is": ast.Is,
    "is_not": ast.IsNot,
}


class Lower:
    def __init__(self, path, name, src):
        self.path, self.name, self.src = path, name, src
        self.mod = CModule()

    def module(self, tree):
        self.mod.path = self.path
        body = tree.body
        for st in self._stats(body):
            self.top(st)
        return self.mod

    def _stats(self, n):
        k = type(n).__name__
        if k == "StatListNode":
            for s in n.stats:
                yield from self._stats(s)
        else:
            yield n

    def top(self, n):
        k = type(n).__name__
        if k in ("DefNode", "CFuncDefNode"):
            f = self.func(n)
            self.mod.functions[f.name] = f
        elif k == "FromCImportStatNode":
            for it in n.imported_names:
                pos, nm, asn = it[0], it[1], it[2]
                self.mod.cimports[asn or nm] = f"{n.module_name}.{nm}"
        elif k == "CImportStatNode":
            self.mod.cimports[n.as_name or n.module_name] = str(n.module_name)
        elif k == "FusedTypeNode":
            self.mod.fused[n.name] = [self.type_(t) for t in n.types]
        elif k == "CTypeDefNode":
            self.mod.typedefs[self.declname(n.declarator)] = self.type_(n.base_type)
        elif k == "CEnumDefNode":
            for it in n.items:
                v = self.expr(it.value) if it.value is not None else None
                self.mod.consts[it.name] = v
        # imports / np.import_array(): irrelevant

    # types ---------------------------------------------------------------
    def type_(self, t):
        k = type(t).__name__
        if k == "CSimpleBaseTypeNode":
            nm = ".".join(list(t.module_path or []) + [t.name or "object"])
            if t.is_basic_c_type and not t.signed:
                nm = "unsigned " + nm
            return nm
        if k == "MemoryViewSliceTypeNode":
            dims = []
            for a in t.axes:
                step = a.step
                dims.append("::1" if type(step).__name__ == "IntNode" else ":")
            return self.type_(t.base_type_node) + "[" + ",".join(dims) + "]"
        if k == "CConstOrVolatileTypeNode":
            return "const " + self.type_(t.base_type)
        if k == "CQualifierTypeNode":
            return "const " + self.type_(t.base_type)
        if k == "CConstTypeNode":
            return "const " + self.type_(t.base_type)
        if k == "CTupleBaseTypeNode":
            return "(" + ",".join(self.type_(x) for x in t.components) + ")"
        if k == "CComplexBaseTypeNode":
            return self.type_(t.base_type) + self.declsuffix(t.declarator)
        if k == "FusedTypeNode":
            return t.name
        if k == "TemplatedTypeNode":
            return self.type_(t.base_type_node) + "[...]"
        return k

    def declname(self, d):
        k = type(d).__name__
        if k == "CNameDeclaratorNode":
            return d.name
        return self.declname(d.base)

    def declsuffix(self, d):
        k = type(d).__name__
        if k == "CPtrDeclaratorNode":
            return self.declsuffix(d.base) + "*"
        return ""

    # functions -------------------------------------------------------------
    def func(self, n):
        k = type(n).__name__
        if k == "DefNode":
            f = CFunc(str(n.name))
            args = n.args
        else:
            d = n.declarator
            f = CFunc(str(self.declname(d)))
            while type(d).__name__ != "CFuncDeclaratorNode":
                d = d.base
            args = d.args
            f.kind = "cdef"
            f.nogil = bool(getattr(d, "nogil", False))
            f.rettype = self.type_(n.base_type)
        f.line = n.pos[1]
        f.path = self.path
        f.mod = self.mod
        f.defaults = {}
        for a in args:
            nm = self.declname(a.declarator)
            ty = self.type_(a.base_type) + self.declsuffix(a.declarator)
            if not nm:  # untyped argument: name parsed as type
                nm, ty = ty, "object"
            f.params.append(str(nm))
            f.types[str(nm)] = ty
            f.ptypes[str(nm)] = ty
            if a.default is not None:
                f.defaults[str(nm)] = self.expr(a.default)
        self.cur = f
        f.body = self.block(n.body)
        return f

    def loc(self, new, n):
        new.lineno = n.pos[1]
        new.col_offset = n.pos[2]
        new.end_lineno = n.pos[1]
        new.end_col_offset = n.pos[2]
        return new

    def block(self, n):
        out = []
        for s in self._stats(n):
            r = self.stat(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def stat(self, n):
        k = type(n).__name__
        L = lambda x: self.loc(x, n)
        if k == "CVarDefNode":
            out = []
            for d in n.declarators:
                nm = str(self.declname(d))
                self.cur.types[nm] = self.type_(n.base_type) + self.declsuffix(d)
                self.cur.locals.add(nm)
                dd = d
                while type(dd).__name__ != "CNameDeclaratorNode":
                    dd = dd.base
                if dd.default is not None:
                    out.append(
                        L(ast.Assign(targets=[L(ast.Name(nm, ast.Store()))],
                                     value=self.expr(dd.default)))
                    )
            return out
        if k == "SingleAssignmentNode":
            return L(ast.Assign(targets=[self.store(n.lhs)], value=self.expr(n.rhs)))
        if k == "CascadedAssignmentNode":
            return L(ast.Assign(targets=[self.store(x) for x in n.lhs_list],
                                value=self.expr(n.rhs)))
        if k == "InPlaceAssignmentNode":
            return L(ast.AugAssign(target=self.store(n.lhs), op=_BIN[n.operator](),
                                   value=self.expr(n.rhs)))
        if k == "ReturnStatNode":
            return L(ast.Return(value=self.expr(n.value) if n.value is not None else None))
        if k == "IfStatNode":
            orelse = self.block(n.else_clause) if n.else_clause is not None else []
            for c in reversed(n.if_clauses):
                node = self.loc(ast.If(test=self.expr(c.condition), body=self.block(c.body),
                                       orelse=orelse), c)
                orelse = [node]
            return orelse[0]
        if k == "ForInStatNode":
            it = n.iterator.sequence if hasattr(n.iterator, "sequence") else n.iterator
            r = L(ast.For(target=self.store(n.target), iter=self.expr(it),
                          body=self.block(n.body),
                          orelse=self.block(n.else_clause) if n.else_clause is not None else []))
            return r
        if k == "WhileStatNode":
            return L(ast.While(test=self.expr(n.condition), body=self.block(n.body),
                               orelse=self.block(n.else_clause) if n.else_clause is not None else []))
        if k == "GILStatNode":
            return self.block(n.body)
        if k == "WithStatNode":
            return self.block(n.body)
        if k == "ExprStatNode":
            return L(ast.Expr(value=self.expr(n.expr)))
        if k == "PassStatNode":
            return L(ast.Pass())
        if k == "BreakStatNode":
            return L(ast.Break())
        if k == "ContinueStatNode":
            return L(ast.Continue())
        if k == "RaiseStatNode":
            return L(ast.Raise(exc=self.expr(n.exc_type) if n.exc_type is not None else None, cause=None))
        if k == "AssertStatNode":
            return L(ast.Assert(test=self.expr(n.condition), msg=None))
        raise AnalysisError(f"{self.path}:{n.pos[1]}: unsupported Cython statement {k}")

    def store(self, n):
        e = self.expr(n)
        if isinstance(e, (ast.Name, ast.Subscript, ast.Attribute)):
            e.ctx = ast.Store()
        elif isinstance(e, (ast.Tuple, ast.List)):
            e.ctx = ast.Store()
            for x in e.elts:
                if hasattr(x, "ctx"):
                    x.ctx = ast.Store()
        return e

    def expr(self, n):
        k = type(n).__name__
        L = lambda x: self.loc(x, n)
        if k == "NameNode":
            return L(ast.Name(str(n.name), ast.Load()))
        if k == "IntNode":
            return L(ast.Constant(int(str(n.value).rstrip("uUlL"), 0)))
        if k == "FloatNode":
            return L(ast.Constant(float(n.value)))
        if k == "BoolNode":
            return L(ast.Constant(bool(n.value)))
        if k == "NoneNode":
            return L(ast.Constant(None))
        if k in ("UnicodeNode", "StringNode", "BytesNode", "IdentifierStringNode"):
            return L(ast.Constant(str(n.value)))
        if k == "TypecastNode":
            return self.expr(n.operand)
        if k == "AmpersandNode":
            return L(ast.Call(func=L(ast.Name("__addr__", ast.Load())),
                              args=[self.expr(n.operand)], keywords=[]))
        if k == "IndexNode":
            return L(ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index), ctx=ast.Load()))
        if k == "SliceIndexNode":
            return L(ast.Subscript(value=self.expr(n.base), slice=L(ast.Slice(
                lower=self.expr(n.start) if n.start is not None else None,
                upper=self.expr(n.stop) if n.stop is not None else None)), ctx=ast.Load()))
        if k == "AttributeNode":
            return L(ast.Attribute(value=self.expr(n.obj), attr=str(n.attribute), ctx=ast.Load()))
        if k == "UnaryMinusNode":
            return L(ast.UnaryOp(op=ast.USub(), operand=self.expr(n.operand)))
        if k == "UnaryPlusNode":
            return self.expr(n.operand)
        if k == "NotNode":
            return L(ast.UnaryOp(op=ast.Not(), operand=self.expr(n.operand)))
        if k == "BoolBinopNode":
            op = ast.And() if n.operator == "and" else ast.Or()
            return L(ast.BoolOp(op=op, values=[self.expr(n.operand1), self.expr(n.operand2)]))
        if k == "PrimaryCmpNode":
            ops, comps = [_CMP[n.operator]()], [self.expr(n.operand2)]
            c = n.cascade
            while c is not None:
                ops.append(_CMP[c.operator]())
                comps.append(self.expr(c.operand2))
                c = c.cascade
            return L(ast.Compare(left=self.expr(n.operand1), ops=ops, comparators=comps))
        if k == "CondExprNode":
            return L(ast.IfExp(test=self.expr(n.condition), body=self.expr(n.true_val),
                               orelse=self.expr(n.false_val)))
        if k in ("TupleNode",):
            return L(ast.Tuple(elts=[self.expr(x) for x in n.args], ctx=ast.Load()))
        if k == "ListNode":
            return L(ast.List(elts=[self.expr(x) for x in n.args], ctx=ast.Load()))
        if k == "SimpleCallNode":
            return L(ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in n.args], keywords=[]))
        if k == "GeneralCallNode":
            kws = []
            if n.keyword_args is not None:
                for it in n.keyword_args.key_value_pairs:
                    kws.append(ast.keyword(arg=str(it.key.value), value=self.expr(it.value)))
            pos = n.positional_args
            args = [self.expr(a) for a in getattr(pos, "args", [])]
            return L(ast.Call(func=self.expr(n.function), args=args, keywords=kws))
        if hasattr(n, "operator") and hasattr(n, "operand1"):
            return L(ast.BinOp(left=self.expr(n.operand1), op=_BIN[n.operator](),
                               right=self.expr(n.operand2)))
        if k == "IteratorNode":
            return self.expr(n.sequence)
        if k == "JoinedStrNode":
            return L(ast.Constant("<fstring>"))
        raise AnalysisError(f"{self.path}:{n.pos[1]}: unsupported Cython expression {k}")
