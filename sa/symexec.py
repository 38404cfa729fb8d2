"""Row-wise formula extraction.

``Kernel`` summarises a Cython kernel as per-row formulas (value of every output
row, per-row summand of the returned reduction); ``Sym`` turns value-flow nodes
of the Python layer into the same formulas.  Undecided branch conditions are
enumerated by ``cases`` (each alternative must satisfy the rule)."""
from __future__ import annotations

import ast

from .algebra import sp
from .nodes import is_const, show
from .program import AnalysisError

K = sp.Symbol("KAPPA_", positive=True)  # marks a sum over rows


class Split(Exception):
    def __init__(self, key):
        self.key = key


class Irregular(Exception):
    """The construct is not a row-wise formula; carries location and reason."""

    def __init__(self, where, why):
        super().__init__(f"{where}: {why}")
        self.where, self.why = where, why


class Decide:
    """Branch resolution: sign reasoning, else enumerated alternatives."""

    def __init__(self, assumed, fold=None):
        self.assumed = assumed
        self.fold = fold

    def rel(self, op, a, b):
        a, b = sp.sympify(a), sp.sympify(b)
        if a.is_infinite or b.is_infinite:
            lo = a is -sp.oo or b is sp.oo
            return {"<": lo, "<=": lo, ">": not lo, ">=": not lo, "==": a == b, "!=": a != b}[op]
        d = sp.expand(a - b)
        if op in ("==", "!="):
            z = d.is_zero
            if z is None:
                z = False if d.is_nonzero else None
            if z is None:
                return self.ask(("zero", d), lambda t: t if op == "==" else not t)
            return z if op == "==" else not z
        if op in ("<", "<="):
            d, op = -d, {"<": ">", "<=": ">="}[op]
        if op == ">":
            t = d.is_positive
            if t is None and d.is_nonpositive:
                t = False
        else:
            t = d.is_nonnegative
            if t is None and d.is_negative:
                t = False
        if t is None:
            if (op, d) not in self.assumed:
                # complement already assumed?
                other = (">=" if op == ">" else ">", sp.expand(-d))
                if other in self.assumed:
                    return not self.assumed[other]
            return self.ask((op, d))
        return bool(t)

    def ask(self, key, f=lambda t: t):
        if key in self.assumed:
            return f(self.assumed[key])
        raise Split(key)


def cases(fn, limit=64):
    """Run fn(assumed) for every combination of the conditions it splits on."""
    out, work = [], [{}]
    n = 0
    while work:
        a = work.pop()
        n += 1
        if n > limit:
            raise AnalysisError("too many undecided branch conditions")
        try:
            out.append((a, fn(a)))
        except Split as s:
            for t in (True, False):
                b = dict(a)
                b[s.key] = t
                work.append(b)
    return out


_AST = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}
_ACMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


def arith(op, a, b, region=None):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "**":
        if a == 0 and region is not None:
            s = region.sign(b)
            return sp.Integer(0) if s == 1 else sp.zoo if s == -1 else sp.nan if s is None else sp.Integer(1)
        return a ** b
    raise AnalysisError(f"operator {op}")


def math_call(name, a, region=None):
    if name in ("exp",):
        return sp.exp(a[0])
    if name == "expm1":
        return sp.exp(a[0]) - 1
    if name == "log":
        return sp.log(a[0]) if a[0] != 0 else sp.zoo
    if name == "log1p":
        return sp.log(1 + a[0])
    if name == "log2":
        return sp.log(a[0]) / sp.log(2)
    if name == "log10":
        return sp.log(a[0]) / sp.log(10)
    if name in ("sqrt", "sqrtf"):
        return sp.sqrt(a[0])
    if name in ("fabs", "abs", "absolute"):
        x = a[0]
        return x if x.is_nonnegative else -x if x.is_nonpositive else sp.Abs(x)
    if name in ("pow", "power", "powf", "float_power"):
        return arith("**", a[0], a[1], region)
    if name == "square":
        return a[0] ** 2
    if name == "reciprocal":
        return 1 / a[0]
    if name in ("lgamma", "gammaln"):
        return sp.loggamma(a[0])
    if name in ("arctan", "atan"):
        return sp.atan(a[0])
    if name in ("tan", "sin", "cos", "tanh", "sinh", "cosh"):
        return getattr(sp, name)(a[0])
    if name in ("ceil", "floor"):
        return sp.Function(name)(*a)
    if name in ("maximum", "fmax", "max"):
        d = a[0] - a[1]
        return a[0] if d.is_nonnegative else a[1] if d.is_nonpositive else sp.Max(*a)
    if name in ("minimum", "fmin", "min"):
        d = a[0] - a[1]
        return a[1] if d.is_nonnegative else a[0] if d.is_nonpositive else sp.Min(*a)
    if name == "xlogy":
        return sp.Integer(0) if a[0] == 0 else a[0] * sp.log(a[1])
    if name == "xlog1py":
        return sp.Integer(0) if a[0] == 0 else a[0] * sp.log(1 + a[1])
    if name == "expit":
        return 1 / (1 + sp.exp(-a[0]))
    if name == "log_expit":
        return -sp.log(1 + sp.exp(-a[0]))
    if name == "logit":
        return sp.log(a[0] / (1 - a[0]))
    if name in ("negative",):
        return -a[0]
    if name in ("multiply", "add", "subtract", "divide", "true_divide"):
        return arith({"multiply": "*", "add": "+", "subtract": "-"}.get(name, "/"), a[0], a[1], region)
    return None


class Region:
    """Signs of parameters that sympy assumptions cannot express."""

    def __init__(self, intervals=None):
        self.intervals = intervals or {}

    def sign(self, e):
        e = sp.expand(e)
        if e.is_positive:
            return 1
        if e.is_negative:
            return -1
        if e.is_zero:
            return 0
        fs = [s for s in e.free_symbols]
        if len(fs) == 1 and fs[0] in self.intervals and e.is_polynomial(fs[0]) and sp.degree(e, fs[0]) == 1:
            lo, hi = self.intervals[fs[0]]
            a = e.subs(fs[0], lo) if lo is not None else sp.limit(e, fs[0], -sp.oo)
            b = e.subs(fs[0], hi) if hi is not None else sp.limit(e, fs[0], sp.oo)
            if a >= 0 and b >= 0 and (a > 0 or b > 0):
                return 1
            if a <= 0 and b <= 0 and (a < 0 or b < 0):
                return -1
        return None


class Arr:
    """A row-indexed array parameter."""

    def __init__(self, name, value=None):
        self.name, self.value = name, value


class Kernel:
    def __init__(self, cm, decide, region=None):
        self.cm, self.decide, self.region = cm, decide, region
        self.rows = 0
        self.depth = 0

    def where(self, node):
        return f"{self.cm.path}:{getattr(node, 'lineno', 0)}"

    def run(self, name, bind):
        """bind: param -> sympy (per-row value for arrays). Returns (ret, outs)."""
        f = self.cm.functions.get(name)
        if f is None:
            raise AnalysisError(f"kernel {name} vanished")
        env = {}
        for p in f.params:
            if f.is_memview(p):
                env[p] = Arr(p, bind.get(p))
            else:
                if p not in bind:
                    d = getattr(f, "defaults", {}).get(p)
                    if d is None:
                        raise AnalysisError(f"kernel {name}: parameter {p} unbound")
                    bind[p] = self.ex(d, {}, f)
                env[p] = bind[p]
        self.f = f
        self.loopvar = None
        self.stored = {}
        ret = self.body(f.body, env, f)
        outs = {p: env[p].value for p in f.params if isinstance(env[p], Arr) and p in self.stored}
        return ret, outs

    def body(self, stmts, env, f):
        for s in stmts:
            r = self.st(s, env, f)
            if r is not None:
                return r
        return None

    def st(self, s, env, f):
        if isinstance(s, ast.Assign):
            v = self.ex(s.value, env, f)
            for t in s.targets:
                self.store(t, v, env, f)
            return None
        if isinstance(s, ast.AugAssign):
            old = self.ex(s.target, env, f)
            v = arith(_AST.get(type(s.op), "?"), old, self.ex(s.value, env, f), self.region)
            self.store(s.target, v, env, f)
            return None
        if isinstance(s, ast.If):
            if self.cond(s.test, env, f):
                return self.body(s.body, env, f)
            return self.body(s.orelse, env, f)
        if isinstance(s, ast.Return):
            return self.ex(s.value, env, f) if s.value is not None else sp.Integer(0)
        if isinstance(s, ast.For):
            return self.loop(s, env, f)
        if isinstance(s, ast.Continue):
            return "continue"
        if isinstance(s, (ast.Pass,)):
            return None
        if isinstance(s, ast.Expr):
            return None
        if isinstance(s, ast.Raise):
            return sp.nan
        raise Irregular(self.where(s), f"{type(s).__name__} statement in a row-wise kernel")

    def nrows(self, e, env, f, depth=0):
        """does e denote the number of rows?"""
        if isinstance(e, ast.Name):
            v = env.get(e.id)
            return v == sp.Symbol("NROWS_")
        return self.ex(e, env, f) == sp.Symbol("NROWS_")

    def loop(self, s, env, f):
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("prange", "range")):
            raise Irregular(self.where(s), "loop that is not over a range of rows")
        a = it.args
        ok = (len(a) == 1 and self.nrows(a[0], env, f)) or (
            len(a) >= 2 and self.ex(a[0], env, f) == 0 and self.nrows(a[1], env, f)
            and (len(a) == 2 or self.ex(a[2], env, f) == 1))
        if not ok:
            raise Irregular(self.where(s), f"loop over {ast.unparse(it)} does not visit every row exactly once")
        if self.loopvar is not None:
            raise Irregular(self.where(s), "nested row loop")
        self.loopvar = s.target.id
        self.rows += 1
        red = {}
        inside = set()
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                inside.add(n.target.id)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and any(
                            isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(n.value)):
                        inside.add(t.id)
        for v in inside:
            if v in env and not isinstance(env[v], Arr):
                red[v] = env[v]
                env[v] = sp.Symbol(f"ACC_{v}")
        r = self.body(s.body, env, f)
        if r is not None and not (isinstance(r, str) and r == "continue"):
            raise Irregular(self.where(s), "return inside the row loop")
        for v, v0 in red.items():
            acc = sp.Symbol(f"ACC_{v}")
            inc = sp.expand(env[v] - acc)
            if inc.has(acc):
                raise Irregular(self.where(s), f"{v} is not accumulated additively over rows")
            env[v] = v0 + K * inc
        self.loopvar = None
        return None

    def store(self, t, v, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(env.get(t.value.id), Arr):
            if not (isinstance(t.slice, ast.Name) and t.slice.id == self.loopvar):
                raise Irregular(self.where(t), f"row store {ast.unparse(t)} is not at the loop's row")
            env[t.value.id].value = v
            self.stored[t.value.id] = True
        elif isinstance(t, ast.Tuple):
            for k, x in enumerate(t.elts):
                self.store(x, sp.Function("item")(v, sp.Integer(k)), env, f)
        else:
            raise Irregular(self.where(t), f"unsupported store {ast.unparse(t)}")

    def cond(self, e, env, f):
        if isinstance(e, ast.Compare):
            left = self.ex(e.left, env, f)
            for o, c in zip(e.ops, e.comparators):
                r = self.ex(c, env, f)
                if not self.decide.rel(_ACMP[type(o)], left, r):
                    return False
                left = r
            return True
        if isinstance(e, ast.BoolOp):
            vals = (self.cond(x, env, f) for x in e.values)
            return all(vals) if isinstance(e.op, ast.And) else any(vals)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, env, f)
        if isinstance(e, ast.Constant):
            return bool(e.value)
        v = self.ex(e, env, f)
        return not self.decide.rel("==", v, 0)

    def ex(self, e, env, f):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, (int, float)):
                return sp.nsimplify(e.value, rational=True)
            raise Irregular(self.where(e), f"constant {e.value!r}")
        if isinstance(e, ast.Name):
            if e.id in env:
                v = env[e.id]
                if isinstance(v, Arr):
                    return v.value if v.value is not None else sp.Symbol(e.id)
                return v
            if e.id == "M_PI":
                return sp.pi
            if e.id in f.types:
                return sp.Symbol(f"UNINIT_{e.id}")
            raise AnalysisError(f"{self.where(e)}: unknown name {e.id}")
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
                return sp.Symbol("NROWS_")
            if isinstance(e.value, ast.Name) and isinstance(env.get(e.value.id), Arr):
                if isinstance(e.slice, ast.Name) and e.slice.id == self.loopvar and self.loopvar:
                    a = env[e.value.id]
                    return a.value if a.value is not None else sp.Symbol(f"UNINIT_{a.name}")
                return sp.Symbol(f"{e.value.id}@{ast.unparse(e.slice)}")
            raise Irregular(self.where(e), f"subscript {ast.unparse(e)}")
        if isinstance(e, ast.BinOp):
            op = _AST.get(type(e.op))
            if op is None:
                return sp.Function(type(e.op).__name__)(self.ex(e.left, env, f), self.ex(e.right, env, f))
            return arith(op, self.ex(e.left, env, f), self.ex(e.right, env, f), self.region)
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.USub):
                return -self.ex(e.operand, env, f)
            if isinstance(e.op, ast.UAdd):
                return self.ex(e.operand, env, f)
        if isinstance(e, ast.IfExp):
            return self.ex(e.body if self.cond(e.test, env, f) else e.orelse, env, f)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id in ("len",):
                return sp.Symbol("NROWS_")
            args = [self.ex(a, env, f) for a in e.args]
            g = self.cm.functions.get(e.func.id)
            if g is not None:
                return self.inline(g, args, e)
            r = math_call(e.func.id, args, self.region)
            if r is not None:
                return r
            if e.func.id in ("int", "float", "double"):
                return args[0] if e.func.id != "int" else sp.Function("int")(args[0])
            return sp.Function(e.func.id)(*args)
        if isinstance(e, ast.Tuple):
            return sp.Function("tuple")(*[self.ex(a, env, f) for a in e.elts])
        raise Irregular(self.where(e), f"unsupported expression {ast.unparse(e)}")

    def inline(self, g, args, e):
        has_loop = any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(ast.Module(g.body, [])))
        multi = any(isinstance(n, ast.Tuple) for n in ast.walk(ast.Module(g.body, [])))
        calls_loop = self._reaches_loop(g.name, set())
        if has_loop or multi or calls_loop or self.depth > 6:
            return sp.Function("opaque_" + g.name)(*args)
        self.depth += 1
        lv, self.loopvar = self.loopvar, None
        r = self.body(g.body, dict(zip(g.params, args)), g)
        self.loopvar = lv
        self.depth -= 1
        return r if r is not None else sp.Integer(0)

    def _reaches_loop(self, name, seen):
        if name in seen:
            return True
        seen = seen | {name}
        g = self.cm.functions[name]
        direct_calls = {n.func.id for n in ast.walk(ast.Module(g.body, []))
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.cm.functions}
        if any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(ast.Module(g.body, []))):
            return True
        # calls to looping helpers stay symbolic, the caller itself is inlined
        return False


_TRANSPARENT = {
    "numpy.asarray", "numpy.asanyarray", "numpy.array", "numpy.float64", "numpy.float32", "builtins.float",
    "numpy.broadcast_to", "numpy.ascontiguousarray", "numpy.ravel", "numpy.atleast_1d", "numpy.squeeze",
    "numpy.real", "numpy.copy", "typing.cast", "numpy.nan_to_num",
}
_TRANSPARENT_M = {"astype", "ravel", "reshape", "copy", "flatten", "view", "squeeze", "item"}


class Sym:
    """Value-flow node -> sympy, per row."""

    def __init__(self, program, env, decide, region=None, interior_clip=True):
        self.p, self.env, self.decide, self.region = program, dict(env), decide, region
        self.cache = {}
        self.kcache = {}
        self.kernels = []
        self.hook = None

    def where(self, n):
        return f"{n.site[0]}:{n.site[1]}" if n.site else "?"

    def s(self, n):
        r = self.cache.get(n.id)
        if r is None:
            r = self.cache[n.id] = self._s(n)
        return r

    def _s(self, n):
        if n.vn in self.env:
            return self.env[n.vn]
        if self.hook is not None:
            r = self.hook(self, n)
            if r is not None:
                return r
        op = n.op
        if op == "const":
            if isinstance(n.payload, bool):
                return sp.Integer(int(n.payload))
            if isinstance(n.payload, (int, float)):
                if n.payload in (float("inf"), float("-inf")):
                    return sp.oo if n.payload > 0 else -sp.oo
                return sp.nsimplify(n.payload, rational=True)
            raise Irregular(self.where(n), f"constant {n.payload!r} in a formula")
        if op == "bin":
            if n.payload == "@":
                return K * self.s(n.args[0]) * self.s(n.args[1])
            if n.payload in ("+", "-", "*", "/", "**"):
                return arith(n.payload, self.s(n.args[0]), self.s(n.args[1]), self.region)
            return sp.Function(n.payload)(self.s(n.args[0]), self.s(n.args[1]))
        if op == "ext" and n.payload in ("numpy.inf", "math.inf"):
            return sp.oo
        if op == "un":
            v = self.s(n.args[0])
            return -v if n.payload == "-" else v
        if op == "phi":
            t = self.cond(n.meta)
            return self.s(n.args[0 if t else 1])
        if op in ("cmp", "not", "and", "or"):
            return sp.Integer(1) if self.cond(n) else sp.Integer(0)
        if op == "inplace":
            how = n.payload
            if how == "alias":
                return self.s(n.args[1])
            if how in ("setitem",) and self._full(n.args[1]):
                return self.s(n.args[2])
            if how.startswith("aug") and len(n.args) == 3 and self._full(n.args[1]):
                return self.s(n.args[2])
            if how.startswith("out:"):
                return self.s(n.args[1])
            if how == "fill":
                return self.s(n.args[1])
            if how == "numpy.copyto":
                return self.s(n.args[1])
            raise Irregular(self.where(n), f"partial update {how}")
        if op == "kcall":
            return self.kernel(n)[0]
        if op == "kout":
            outs = self.kernel(n.args[1])[1]
            if n.payload[1] not in outs:
                raise Irregular(self.where(n), f"kernel output {n.payload[1]} is never stored")
            return outs[n.payload[1]]
        if op == "index":
            if self._full(n.args[1]) or n.args[1].op == "slice" and all(is_const(x, None) for x in n.args[1].args):
                return self.s(n.args[0])
            if n.args[1].op == "tuple" and all(self._full(a) or is_const(a, None) or a.op == "ext" for a in n.args[1].args):
                return self.s(n.args[0])
            b, i = self.simp_shape(n)
            if b is not None:
                return b
            raise Irregular(self.where(n), f"indexing {show(n, 3)} in a row-wise formula")
        if op == "refine":
            return self.s(n.args[0])
        if op == "getattr" and n.payload in ("T", "A"):
            return self.s(n.args[0])
        if op == "getattr" and n.payload == "size":
            return sp.Symbol("NROWS_") if True else None
        if op == "call":
            return self.call(n)
        if op == "mcall":
            return self.mcall(n)
        raise Irregular(self.where(n), f"no row-wise formula for {show(n, 3)}")

    def simp_shape(self, n):
        b, i = n.args
        if b.op == "getattr" and b.payload == "shape" and is_const(i) and i.payload == 0:
            return sp.Symbol("NROWS_"), None
        return None, None

    def _full(self, i):
        return (i.op == "slice" and all(is_const(x, None) for x in i.args)) or (i.op == "ext" and i.payload == "Ellipsis")

    def call(self, n):
        d, npos, kws = n.payload
        a = n.args
        kw = dict(zip(kws, a[npos:]))
        short = d.split(".")[-1]
        if d in _TRANSPARENT and a:
            return self.s(a[0])
        if short in ("ones_like", "ones"):
            return sp.Integer(1)
        if short in ("zeros_like", "zeros"):
            return sp.Integer(0)
        if short in ("full_like", "full"):
            return self.s(a[1])
        if d == "numpy.clip":
            return self.s(a[0])  # interior of the clip
        if d in ("numpy.where",) and npos == 3:
            return self.s(a[1]) if self.cond(a[0]) else self.s(a[2])
        if d in ("numpy.sum", "builtins.sum", "math.fsum") and npos >= 1:
            return K * self.s(a[0])
        if d in ("numpy.dot", "numpy.inner", "numpy.vdot"):
            return K * self.s(a[0]) * self.s(a[1])
        if d in ("numpy.mean",):
            return K * self.s(a[0]) / sp.Symbol("NROWS_")
        if d == "numpy.average":
            w = kw.get("weights")
            if w is None or is_const(w, None):
                return K * self.s(a[0]) / sp.Symbol("NROWS_")
            return K * self.s(a[0]) * self.s(w) / (K * self.s(w))
        if d == "builtins.len":
            return sp.Symbol("NROWS_")
        if d in ("builtins.max", "builtins.min") and npos < 2:
            return sp.Function(d)(self.s(a[0]))
        if d.startswith(("numpy.", "scipy.special.", "math.", "builtins.")):
            args = []
            for x in a[:npos]:
                args.append(self.s(x))
            r = math_call(short, args, self.region)
            if r is not None:
                return r
        raise Irregular(self.where(n), f"no row-wise formula for {d}")

    def mcall(self, n):
        m, npos, kws = n.payload[:3]
        a = n.args
        if m in _TRANSPARENT_M:
            return self.s(a[0])
        if m == "sum":
            return K * self.s(a[0])
        if m == "dot":
            return K * self.s(a[0]) * self.s(a[1])
        if m == "mean":
            return K * self.s(a[0]) / sp.Symbol("NROWS_")
        if m == "clip":
            return self.s(a[0])
        raise Irregular(self.where(n), f"no row-wise formula for method {m}")

    def cond(self, n):
        if n.op == "const":
            return bool(n.payload)
        if n.op == "not":
            return not self.cond(n.args[0])
        if n.op == "and":
            return all(self.cond(x) for x in n.args)
        if n.op == "or":
            return any(self.cond(x) for x in n.args)
        if n.op == "phi":
            return self.cond(n.args[0 if self.cond(n.meta) else 1])
        if n.op == "cmp" and n.payload in ("<", "<=", ">", ">=", "==", "!="):
            try:
                a, b = self.s(n.args[0]), self.s(n.args[1])
            except Irregular:
                return self.decide.ask(("cond", n.vn))
            return self.decide.rel(n.payload, a, b)
        if n.op in ("bin",) and n.payload in ("&", "|"):
            a = self.cond(n.args[0])
            return (a and self.cond(n.args[1])) if n.payload == "&" else (a or self.cond(n.args[1]))
        if n.op == "call" and n.payload[0] in ("numpy.greater", "numpy.greater_equal", "numpy.less", "numpy.less_equal"):
            o = {"greater": ">", "greater_equal": ">=", "less": "<", "less_equal": "<="}[n.payload[0].split(".")[1]]
            return self.decide.rel(o, self.s(n.args[0]), self.s(n.args[1]))
        return self.decide.ask(("cond", n.vn))

    def kernel(self, n):
        r = self.kcache.get(n.vn)
        if r is None:
            dotted, names = n.payload
            mod, fn = dotted.rsplit(".", 1)
            k = Kernel(self.p.pyx(mod), self.decide, self.region)
            bind = {}
            f = k.cm.functions[fn]
            for p, x in zip(names, n.args):
                if p in self._outonly(k.cm, fn):
                    continue
                bind[p] = self.s(x)
            r = self.kcache[n.vn] = k.run(fn, bind)
            self.kernels.append((dotted, n))
        return r

    def _outonly(self, cm, fn):
        from .engine import compute_pyx_effects

        if not hasattr(cm, "_eff"):
            cm._eff = compute_pyx_effects(cm)
        return cm._eff[fn]
