"""Abstract interpreter for Cython kernels with array state.

Scalars are symbolic expressions, array writes are kept as stores at symbolic
indices, and loops are summarised by the transformer of one generic iteration:
every variable and array that the body modifies starts an iteration with an
unknown value.  Branch conditions are resolved in a domain of linear
inequalities over monomials (``Lin``); conditions that the domain leaves open
are enumerated.  Every subscript is logged, with what is known there."""
from __future__ import annotations

import ast
from fractions import Fraction
from functools import lru_cache

from .algebra import sp
from .program import AnalysisError
from .symexec import Irregular, Split

F = sp.Function
_AST = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%", ast.FloorDiv: "//"}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


# ------------------------------------------------------------------ linear inequalities
@lru_cache(maxsize=200000)
def linear(e):
    """({(monomial, coefficient)}, constant) of an expanded expression (None: not finite)"""
    e = sp.expand(e)
    if e.has(sp.oo, -sp.oo, sp.zoo, sp.nan):
        return None
    d, c = {}, Fraction(0)
    for t in sp.Add.make_args(e):
        k, m = t.as_coeff_Mul()
        if not k.is_Rational:
            m, k = k * m, sp.Integer(1)
        k = Fraction(int(k.p), int(k.q))
        if m == 1:
            c += k
        else:
            d[m] = d.get(m, Fraction(0)) + k
    return frozenset((m, k) for m, k in d.items() if k), c


def neg(l):
    return frozenset((m, -k) for m, k in l[0]), -l[1]


@lru_cache(maxsize=None)
def number(x):
    return sp.nsimplify(x, rational=True)


@lru_cache(maxsize=100000)
def expand(e):
    return sp.expand(e)


@lru_cache(maxsize=100000)
def fractional(e):
    return not all(p.exp.is_nonnegative for p in e.atoms(sp.Pow))


_RANK = {}
TRACE = False


def rank(m):
    """monomials are numbered in order of appearance"""
    return _RANK.setdefault(m, len(_RANK))


@lru_cache(maxsize=200000)
def contradictory(cons):
    """Fourier-Motzkin elimination of a set of (terms, constant, strict)"""
    for _ in range(60):
        if any(not l and (c < 0 or c == 0 and s) for l, c, s in cons):
            return True
        occ = {}
        for l, c, s in cons:
            for m, k in l:
                p, n = occ.get(m, (0, 0))
                occ[m] = (p + (k > 0), n + (k < 0))
        if not occ:
            return False
        m = min(occ, key=lambda x: (occ[x][0] * occ[x][1], rank(x)))
        pos, ng, out = [], [], set()
        for con in cons:
            k = dict(con[0]).get(m, 0)
            if k > 0:
                pos.append(con)
            elif k < 0:
                ng.append(con)
            else:
                out.add(con)
        for a in pos:
            for b in ng:
                da, db = dict(a[0]), dict(b[0])
                ka, kb = da.pop(m), -db.pop(m)
                d = {x: da.get(x, 0) / ka + db.get(x, 0) / kb for x in set(da) | set(db)}
                out.add((frozenset((x, k) for x, k in d.items() if k), a[1] / ka + b[1] / kb, a[2] or b[2]))
        if len(out) > 3000:
            return False
        cons = frozenset(out)
    return False


class Lin:
    """facts: sums of monomials that are >= 0 (or > 0)"""

    def __init__(self, facts=()):
        self.facts = list(facts)

    def copy(self):
        return Lin(self.facts)

    def add(self, op, e):
        """e op 0 with op in >=, >, =="""
        l = linear(sp.sympify(e))
        if l is None:
            return
        for x in ([l, neg(l)] if op == "==" else [l]):
            f = (x[0], x[1], op == ">")
            if f not in self.facts:
                self.facts.append(f)

    def holds_not(self, extra):
        """do the facts exclude this one?  (only the facts connected to it matter)"""
        cons, seen, rest = [extra], {m for m, _ in extra[0]}, self.facts
        grown = True
        while grown:
            grown, keep = False, []
            for f in rest:
                if not f[0] or any(m in seen for m, _ in f[0]):
                    cons.append(f)
                    new = {m for m, _ in f[0]} - seen
                    if new:
                        seen |= new
                        grown = True
                else:
                    keep.append(f)
            rest = keep
        return contradictory(frozenset(cons))

    def entails(self, op, e):
        l = linear(sp.sympify(e))
        if l is None:
            return False
        n = neg(l)
        if op == ">=":
            return self.holds_not((n[0], n[1], True))
        if op == ">":
            return self.holds_not((n[0], n[1], False))
        return self.holds_not((n[0], n[1], True)) and self.holds_not((l[0], l[1], True))


class Infeasible(Exception):
    """contradictory facts: no execution"""


class Facts:
    """branch resolution: linear facts, then enumerated alternatives"""

    def __init__(self, assumed, lin=None, cache=None):
        self.assumed = assumed
        self.lin = lin.copy() if lin is not None else Lin()
        self.ne = set()
        self.fold = None
        self.known = set()
        self.abs = {}

    def absolute(self, x):
        """|x|: by the sign of x where it is known, else an unknown that is at least x and -x"""
        x = sp.expand(x)
        if self.lin.entails(">=", x):
            return x
        if self.lin.entails(">=", -x):
            return -x
        y = sp.expand(-x) if (min(linear(x)[0], key=lambda t: rank(t[0]))[1] < 0 if linear(x) and linear(x)[0] else False) else x
        v = F("ABS")(y)
        if v not in self.abs:
            self.abs[v] = y
            self.lin.add(">=", v - y)
            self.lin.add(">=", v + y)
        return v

    def _signs(self):
        for v, x in list(self.abs.items()):
            if self.lin.entails(">=", x):
                self.lin.add("==", v - x)
            elif self.lin.entails(">=", -x):
                self.lin.add("==", v + x)
            else:
                continue
            del self.abs[v]
            if self.lin.entails(">", v) and self.lin.entails(">", -v):
                raise Infeasible

    def _learn(self, k, v):
        if k[0] in (">", ">="):
            if v:
                self.lin.add(k[0], k[1])
            else:
                self.lin.add(">=" if k[0] == ">" else ">", -k[1])
        elif k[0] == "==":
            if v:
                self.lin.add("==", k[1])
            else:
                self.ne.add(k[1])
        if self.abs:
            self._signs()

    def resolve(self, e):
        """absolute values replaced where the sign is known"""
        for v in sorted(e.atoms(sp.core.function.AppliedUndef), key=str) if hasattr(e, "atoms") else ():
            if v.func == F("ABS"):
                x = v.args[0]
                if self.lin.entails(">=", x):
                    e = e.xreplace({v: x})
                elif self.lin.entails(">=", -x):
                    e = e.xreplace({v: -x})
        return e

    def scale(self, d):
        """multiply by denominators known to be positive (or negative: sign flips)"""
        d = expand(d)
        if not fractional(d):
            return d
        d = sp.together(d)
        num, den = sp.fraction(d)
        sign = 1
        for f in sp.Mul.make_args(den):
            if f.is_number:
                sign *= 1 if f > 0 else -1
                continue
            b = f.as_base_exp()[0]
            if self.lin.entails(">", b):
                continue
            if self.lin.entails(">", -b):
                sign *= -1 if f.as_base_exp()[1].is_odd else 1
                continue
            return sp.expand(d)
        return sp.expand(num * sign)

    def norm(self, d):
        l = linear(d)
        if l is None or not l[0]:
            return d
        m, k = min(l[0], key=lambda x: rank(x[0]))
        return sp.expand(d / sp.Rational(abs(k.numerator), k.denominator))

    def rel(self, op, a, b):
        a, b = sp.sympify(a), sp.sympify(b)
        if a in (sp.oo, -sp.oo) or b in (sp.oo, -sp.oo):
            lo = a is -sp.oo or b is sp.oo
            same = a == b
            return {"<": lo and not same, "<=": lo or same, ">": not lo and not same, ">=": not lo or same, "==": same, "!=": not same}[op]
        d = self.norm(self.scale(a - b))
        if d.is_number:
            return bool({"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op])
        if op == "!=":
            return not self.rel("==", a, b)
        if op == "==":
            if self.lin.entails("==", d):
                return True
            if self.lin.entails(">", d) or self.lin.entails(">", -d) or d in self.ne or sp.expand(-d) in self.ne:
                return False
            if min(linear(d)[0], key=lambda x: rank(x[0]))[1] < 0:
                d = sp.expand(-d)
            return self.ask(("==", d))
        if op in ("<", "<="):
            d, op = sp.expand(-d), {"<": ">", "<=": ">="}[op]
        if self.lin.entails(op, d):
            return True
        if self.lin.entails(">=" if op == ">" else ">", -d):
            return False
        if self.lin.entails(">=", d):  # op is > and d >= 0
            if d in self.ne or sp.expand(-d) in self.ne:
                return True
            return not self.rel("==", d, 0)
        return self.ask((op, d))

    def ask(self, key, f=lambda t: t):
        if key in self.assumed:
            if key not in self.known:
                self.known.add(key)
                self._learn(key, self.assumed[key])
            return f(self.assumed[key])
        raise Split(key)

    def equal(self, a, b):
        if a == b:
            return True
        d = self.scale(self.resolve(a) - self.resolve(b))
        if d == 0 or self.lin.entails("==", d):
            return True
        f = sp.factor(d) if len(d.args) < 40 else d
        return f.is_Mul and any(not x.is_number and self.lin.entails("==", self.scale(x)) for x in f.args)


def cases(fn, base=None, limit=3000):
    out, work, n = [], [dict(base or {})], 0
    while work:
        a = work.pop()
        n += 1
        if n > limit:
            raise AnalysisError("too many undecided branch conditions")
        try:
            out.append((a, fn(a)))
        except Infeasible:
            continue
        except Split as s:
            for t in (True, False):
                b = dict(a)
                b[s.key] = t
                work.append(b)
    return out


# ------------------------------------------------------------------ values
class Mem:
    """an array: unknown initial contents plus stores, latest last"""

    def __init__(self, name, dims, base=None):
        self.name, self.dims = name, dims
        self.base = base or name
        self.stores = []  # ("pt", idx, value) | ("all", bvar, count, idx, value)

    def clone(self):
        m = Mem(self.name, self.dims, self.base)
        m.stores = list(self.stores)
        return m


class Ref:
    """pointer to a scalar variable"""

    def __init__(self, env, var):
        self.env, self.var = env, var


class Opq:
    """a Python object the analysis does not look into"""

    def __init__(self, what, args=()):
        self.what, self.args = what, tuple(args)

    def __repr__(self):
        return f"{self.what}{self.args if self.args else ''}"


class Flow(Exception):
    pass


class Loop:
    def __init__(self, node, func, var, lo, count, parent, parallel):
        self.node, self.func, self.var, self.lo, self.count = node, func, var, lo, count
        self.parent, self.parallel = parent, parallel
        self.paths = []  # Path
        self.pre_scal, self.pre_mem = {}, {}
        self.closed = {}
        self.before = {}  # scalar values when the loop starts


class Path:
    def __init__(self, assumed, exit, scal, mems, facts, accesses):
        self.assumed, self.exit, self.scal, self.mems, self.facts, self.accesses = assumed, exit, scal, mems, facts, accesses


class Kern:
    """one run along the alternatives fixed by ``facts``"""

    def __init__(self, cm, facts, axioms=None, pool=None):
        self.cm, self.facts, self.axioms = cm, facts, axioms
        self.pool = {} if pool is None else pool  # arrays, frames and loop summaries shared by the alternatives of one analysis
        self.mems = {}  # id -> Mem (live arrays)
        self.loops = []
        self.stack = []
        self.events = []
        self.accesses = []
        self.depth = 0
        self.dirty = None
        self.counter = 0
        self.memo = self.pool.setdefault("memo", {})

    # frames are dicts; modifications of variables are tracked for loops
    def where(self, n):
        return f"{self.cm.path.replace('/repo/', '')}:{getattr(n, 'lineno', 0)}"

    def run(self, name, bind):
        f = self.cm.functions.get(name)
        if f is None:
            raise AnalysisError(f"kernel {name} vanished")
        env = self.frame(("run", name))
        env["$f"] = f
        for k, p in enumerate(f.params):
            if p in bind:
                env[p] = bind[p]
            elif f.is_memview(p):
                nd = max(f.types.get(p, "").count(",") + 1, 1)
                env[p] = self.mem(("param", name, p), p, tuple(sp.Symbol(f"LEN_{p}_{j}", integer=True, nonnegative=True) for j in range(nd)))
            elif f.is_ptr(p):
                cell = self.frame(("cell", name, p))
                cell.update({"$f": f, p: sp.Symbol(p + "_0")})
                env[p] = Ref(cell, p)
            elif f.types.get(p) == "object":
                env[p] = Opq(p)
            else:
                env[p] = sp.Symbol(p)
        self.env = env
        return self.call_body(f, env)

    def frame(self, key):
        env = self.pool.setdefault(("frame", key), {})
        env.clear()
        return env

    def mem(self, key, name, dims, base=None):
        m = self.pool.setdefault(("mem", key), None)
        if m is None:
            m = self.pool[("mem", key)] = Mem(name, dims, base)
        m.stores, m.base, m.dims = [], base or name, dims
        self.mems[id(m)] = m
        return m

    def call_body(self, f, env):
        r = self.block(f.body, env)
        return r[1] if r is not None and r[0] == "return" else None

    def block(self, stmts, env):
        for s in stmts:
            r = self.stat(s, env)
            if r is not None:
                return r
        return None

    def setvar(self, env, v, x):
        t = env["$f"].types.get(v, "object") if "$f" in env else "object"
        if isinstance(x, Opq) and t != "object" and "[" not in t and "*" not in t and not env["$f"].is_memview(v):
            x = sp.Symbol(f"{v}<{x.what}>")
        if self.dirty is not None and env.get(v) is not x:
            self.dirty.add((id(env), v))
            self.dirty_env[id(env)] = env
        env[v] = x

    def stat(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ex(s.value, env)
            for t in s.targets:
                self.store(t, v, env)
        elif isinstance(s, ast.AugAssign):
            op = _AST.get(type(s.op))
            old, new = self.ex(s.target, env), self.ex(s.value, env)
            self.store(s.target, self.arith(op or type(s.op).__name__, old, new, s), env)
        elif isinstance(s, ast.If):
            return self.block(s.body if self.cond(s.test, env) else s.orelse, env)
        elif isinstance(s, ast.Return):
            return ("return", self.ex(s.value, env) if s.value is not None else None)
        elif isinstance(s, (ast.For, ast.While)):
            return self.loop(s, env)
        elif isinstance(s, ast.Continue):
            return ("continue", None)
        elif isinstance(s, ast.Break):
            return ("break", None)
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Expr):
            self.ex(s.value, env)
        elif isinstance(s, ast.Raise):
            return ("raise", None)
        elif isinstance(s, ast.Assert):
            pass
        else:
            raise Irregular(self.where(s), f"{type(s).__name__} statement")
        return None

    # ------------------------------------------------------------ arrays
    def index(self, e, env):
        sl = e.slice
        if isinstance(sl, ast.Tuple):
            return tuple(self.num(x, env) for x in sl.elts)
        return (self.num(sl, env),)

    def num(self, e, env):
        v = self.ex(e, env)
        if isinstance(v, bool):
            return sp.Integer(int(v))
        if not isinstance(v, sp.Basic):
            raise Irregular(self.where(e), f"{ast.unparse(e)} is not a number")
        return v

    def access(self, m, idx, node, kind):
        self.accesses.append((m, idx, node, kind, self.facts.lin.copy()))

    def read(self, m, idx, node):
        if len(idx) != len(m.dims):
            raise Irregular(self.where(node), f"{m.name} indexed with {len(idx)} of {len(m.dims)} dimensions")
        self.access(m, idx, node, "read")
        for st in reversed(m.stores):
            if st[0] == "pt":
                if all(self.facts.equal(a, b) for a, b in zip(st[1], idx)):
                    return st[2]
                if any(self.distinct(a, b) for a, b in zip(st[1], idx)):
                    continue
                if self.facts.rel("==", sum((a - b) for a, b in zip(st[1], idx)), 0) and len(idx) == 1:
                    return st[2]
                if len(idx) == 1:
                    continue
                raise Irregular(self.where(node), "element of an array with overlapping stores")
            b = sp.Wild("b_")
            mt = st[3][0].subs(st[1], b).match(idx[0]) if False else None
            inst = self.match_all(st, idx)
            if inst is not None:
                return inst
            raise Irregular(self.where(node), f"element of {m.name} after a loop that stores into it")
        v = F(m.base)(*idx)
        if self.axioms is not None:
            for op, e in self.axioms(m.base, idx, v):
                self.facts.lin.add(op, e)
        return v

    def match_all(self, st, idx):
        _, bv, cnt, sidx, val = st
        w = sp.Wild("w_")
        mt = idx[0].match(sidx[0].xreplace({bv: w}))
        if mt and w in mt and all(x.xreplace({bv: mt[w]}) == y for x, y in zip(sidx, idx)):
            t = mt[w]
            if self.facts.lin.entails(">=", t) and self.facts.lin.entails(">", cnt - t):
                return val.xreplace({bv: t})
        return None

    def distinct(self, a, b):
        d = sp.expand(a - b)
        if d.is_number:
            return d != 0
        return self.facts.lin.entails(">", d) or self.facts.lin.entails(">", -d)

    def write(self, m, idx, v, node):
        if len(idx) != len(m.dims):
            raise Irregular(self.where(node), f"{m.name} indexed with {len(idx)} of {len(m.dims)} dimensions")
        self.access(m, idx, node, "write")
        if not isinstance(v, sp.Basic):
            raise Irregular(self.where(node), f"stores {v}")
        m.stores.append(("pt", idx, v))
        self.mems[id(m)] = m

    def store(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v)
        elif isinstance(t, ast.Tuple):
            vs = v if isinstance(v, tuple) else None
            if vs is None or len(vs) != len(t.elts):
                raise Irregular(self.where(t), "unpacks an unknown value")
            for x, y in zip(t.elts, vs):
                self.store(x, y, env)
        elif isinstance(t, ast.Subscript):
            b = self.ex(t.value, env)
            if isinstance(b, Ref):
                self.setvar(b.env, b.var, v)
            elif isinstance(b, Mem):
                if isinstance(v, bool):
                    v = sp.Integer(int(v))
                self.write(b, self.index(t, env), v, t)
            else:
                raise Irregular(self.where(t), f"stores into {ast.unparse(t.value)}")
        else:
            raise Irregular(self.where(t), f"stores into {ast.unparse(t)}")

    # ------------------------------------------------------------ expressions
    def arith(self, op, a, b, node):
        if isinstance(a, bool):
            a = sp.Integer(int(a))
        if isinstance(b, bool):
            b = sp.Integer(int(b))
        if isinstance(a, Opq) or isinstance(b, Opq) or isinstance(a, Mem) or isinstance(b, Mem):
            return Opq(op, (a, b))
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return a / b
        if op == "**":
            return a ** b
        v = self.opaque(op, a, b)
        if op == "%":
            self.facts.lin.add(">=", v)
            self.facts.lin.add(">", b - v)
        return v

    def opaque(self, op, a, b):
        """the result of an operation that is not followed (the same operands give the same result)"""
        d = self.pool.setdefault("opaque", {})
        return d.setdefault((op, a, b), sp.Symbol(f"value{len(d)}"))

    def cond(self, e, env):
        if isinstance(e, ast.Compare):
            left = self.ex(e.left, env)
            for o, c in zip(e.ops, e.comparators):
                r = self.ex(c, env)
                if isinstance(left, (Opq, Mem, tuple)) or isinstance(r, (Opq, Mem, tuple)) or type(o) not in _CMP:
                    return self.facts.ask(("test", self.where(e), ast.unparse(e)))
                if not self.facts.rel(_CMP[type(o)], self.sym(left), self.sym(r)):
                    return False
                left = r
            return True
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                return all(self.cond(x, env) for x in e.values)
            return any(self.cond(x, env) for x in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, env)
        if isinstance(e, ast.Constant):
            return bool(e.value)
        v = self.ex(e, env)
        if isinstance(v, bool):
            return v
        if not isinstance(v, sp.Basic):
            return self.facts.ask(("test", self.where(e), ast.unparse(e)))
        return not self.facts.rel("==", v, 0)

    @staticmethod
    def sym(v):
        return sp.Integer(int(v)) if isinstance(v, bool) else v

    def ex(self, e, env):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return sp.Integer(int(e.value))
            if isinstance(e.value, (int, float)):
                return number(e.value)
            return Opq(repr(e.value))
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.cm.consts:
                return self.ex(self.cm.consts[e.id], {}) if self.cm.consts[e.id] is not None else sp.Symbol(e.id)
            if e.id == "INFINITY":
                return sp.oo
            if e.id == "M_PI":
                return sp.pi
            if e.id in env["$f"].types if "$f" in env else False:
                return sp.Symbol(f"UNINIT_{e.id}")
            return Opq(e.id)
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            if isinstance(e, ast.Compare):
                a, b = self.ex(e.left, env), self.ex(e.comparators[0], env)
                if isinstance(a, (Opq, Mem)) or isinstance(b, (Opq, Mem)):
                    return Opq("cmp:" + type(e.ops[0]).__name__, (a, b))
            return self.cond(e, env)
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
                m = self.ex(e.value.value, env)
                k = self.ex(e.slice, env)
                if isinstance(m, Mem) and isinstance(k, sp.Integer) and int(k) < len(m.dims):
                    return m.dims[int(k)]
                return Opq("shape", (m, k))
            b = self.ex(e.value, env)
            if isinstance(b, Ref):
                return b.env[b.var]
            if isinstance(b, Mem):
                return self.read(b, self.index(e, env), e)
            if isinstance(b, tuple):
                k = self.ex(e.slice, env)
                return b[int(k)]
            return Opq("item", (b, self.ex(e.slice, env) if not isinstance(e.slice, ast.Slice) else "slice"))
        if isinstance(e, ast.BinOp):
            return self.arith(_AST.get(type(e.op), type(e.op).__name__), self.ex(e.left, env), self.ex(e.right, env), e)
        if isinstance(e, ast.UnaryOp):
            v = self.ex(e.operand, env)
            if isinstance(e.op, ast.USub):
                return -self.sym(v) if not isinstance(v, Opq) else Opq("-", (v,))
            return v
        if isinstance(e, ast.IfExp):
            return self.ex(e.body if self.cond(e.test, env) else e.orelse, env)
        if isinstance(e, ast.Tuple):
            return tuple(self.ex(x, env) for x in e.elts)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Attribute):
            v = self.ex(e.value, env)
            if isinstance(v, Mem) and e.attr == "size" and len(v.dims) == 1:
                return v.dims[0]
            return Opq("." + e.attr, (v,))
        raise Irregular(self.where(e), f"expression {type(e).__name__}")

    def call(self, e, env):
        fn = e.func
        if isinstance(fn, ast.Name):
            nm = fn.id
            if nm == "__addr__":
                a = e.args[0]
                if isinstance(a, ast.Name):
                    if a.id not in env:
                        env[a.id] = sp.Symbol(f"UNINIT_{a.id}")
                    return Ref(env, a.id)
                raise Irregular(self.where(e), "address of an expression")
            if nm == "len":
                m = self.ex(e.args[0], env)
                if isinstance(m, Mem):
                    return m.dims[0]
                return Opq("len", (m,))
            g = self.cm.functions.get(nm)
            args = [self.ex(a, env) for a in e.args]
            if g is not None:
                return self.inline(g, args, e)
            args = [self.sym(a) for a in args]
            if all(isinstance(a, sp.Basic) for a in args):
                r = self.math(nm, args)
                if r is not None:
                    return r
                return F(nm)(*args)
            return Opq(nm, args)
        # methods and module functions
        path = ast.unparse(fn)
        args = [self.ex(a, env) for a in e.args]
        last = path.split(".")[-1]
        if last in ("empty_like", "zeros_like", "ones_like") and args and isinstance(args[0], Mem):
            self.counter += 1
            return self.mem(("new", self.counter), f"new{self.counter}", args[0].dims, f"{last}_{self.counter}")
        if last in ("empty", "zeros", "ones") and args and isinstance(args[0], sp.Basic):
            self.counter += 1
            return self.mem(("new", self.counter), f"new{self.counter}", (args[0],), f"{last}_{self.counter}")
        if last in ("asarray", "ascontiguousarray") and args:
            return args[0]
        if last == "warn":
            self.events.append(("warn", self.where(e), list(self.stack)))
            return Opq("None")
        recv = self.ex(fn.value, env) if isinstance(fn, ast.Attribute) else None
        return Opq(path if recv is None or isinstance(recv, Opq) and not recv.args else "." + last, ((recv,) if isinstance(recv, (Mem, Opq)) else ()) + tuple(args))

    def math(self, nm, a):
        if nm in ("fabs", "abs"):
            return self.facts.absolute(a[0])
        if nm in ("fmax", "max", "fmaxf"):
            return a[0] if self.facts.rel(">=", a[0], a[1]) else a[1]
        if nm in ("fmin", "min", "fminf"):
            return a[0] if self.facts.rel("<=", a[0], a[1]) else a[1]
        if nm in ("int", "float", "double"):
            return a[0]
        return None

    def inline(self, g, args, e):
        if self.depth > 8:
            raise Irregular(self.where(e), "recursion")
        env = self.frame(("call", g.name, id(e), self.depth))
        env["$f"] = g
        for p, a in zip(g.params, args):
            env[p] = a
        for p in g.params[len(args):]:
            if p in g.defaults:
                env[p] = self.ex(g.defaults[p], env)
        self.depth += 1
        try:
            return self.call_body(g, env)
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ loops
    def live(self, env):
        """arrays reachable from the frame"""
        out = {}
        for v in env.values():
            if isinstance(v, Mem):
                out[id(v)] = v
        return out

    def loop(self, s, env):
        var, lo, count, par = None, sp.Integer(0), None, False
        if isinstance(s, ast.For):
            it = s.iter
            if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "prange")) or not isinstance(s.target, ast.Name):
                raise Irregular(self.where(s), "loop over something else than a range")
            a = [self.num(x, env) for x in it.args]
            par = it.func.id == "prange"
            if len(a) > 2 and a[2] != 1:
                raise Irregular(self.where(s), "loop with a stride")
            lo, count = (sp.Integer(0), a[0]) if len(a) == 1 else (a[0], a[1])
            var = s.target.id
        saved_dirty = self.dirty
        denv_saved = getattr(self, "dirty_env", {})
        rec = Loop(s, env["$f"].name, var, lo, count, self.stack[-1] if self.stack else None, par)
        havoc_s, havoc_m = {}, {}
        start_env = dict(env)
        mems0 = {id(m): (m, list(m.stores), m.base) for m in self.reach(env)}
        ev0, ac0, lp0, ct0 = len(self.events), len(self.accesses), len(self.loops), self.counter
        tag = f"L{s.lineno}"
        fenv, fenv0, refs = {}, {}, {}
        for v in env.values():
            if isinstance(v, Ref):
                refs[id(v.env)] = v.env
                for n, x in v.env.items():
                    fenv0[(id(v.env), n)] = x
        key = self.loop_key(s, env, mems0)
        hit = self.memo.get(key)
        for v in self.assigned(s.body):
            if v in start_env and v != var and isinstance(start_env[v], (sp.Basic, bool)):
                havoc_s[(id(env), v)] = sp.Symbol(f"{v}@{tag}")
                fenv[id(env)] = env
        for v in self.stored_names(s.body):
            if isinstance(start_env.get(v), Mem):
                havoc_m[id(start_env[v])] = f"{start_env[v].name}@{tag}"
        for attempt in range(0 if hit is not None else 8):
            results, dirty, dmem = [], set(), set()
            events, accesses, loops = [], [], []

            def one(assumed):
                # restore the state at the head of the loop
                env.clear()
                env.update(start_env)
                for (eid, v), x in fenv0.items():
                    refs[eid][v] = x
                for m, st, base in mems0.values():
                    m.stores, m.base = list(st), base
                for (eid, v), x in havoc_s.items():
                    (env if eid == id(env) else fenv[eid])[v] = x
                for mid, base in havoc_m.items():
                    m = mems0[mid][0]
                    m.base, m.stores = base, []
                del self.events[ev0:], self.accesses[ac0:], self.loops[lp0:]
                self.counter = ct0
                outer = self.facts
                self.facts = Facts(assumed, outer.lin)
                self.facts.ne |= outer.ne
                self.facts.abs = dict(outer.abs)
                self.dirty, self.dirty_env = set(), {}
                self.stack.append(rec)
                try:
                    if var is not None:
                        i = sp.Symbol(f"{var}@{tag}", integer=True)
                        self.facts.lin.add(">=", i - lo)
                        self.facts.lin.add(">", count - i)
                        env[var] = i
                        rec.sym = i
                    elif not self.cond(s.test, env):
                        return ("exit", {}, {}, self.facts, [])
                    r = self.block(s.body, env)
                    kind = r[0] if r is not None else "normal"
                    kind = "normal" if kind == "continue" else kind
                    scal = {}
                    for eid, v in self.dirty:
                        d = self.dirty_env[eid]
                        scal[(eid, v)] = d[v]
                        fenv[eid] = d
                        dirty.add((eid, v))
                    md = {}
                    for mid, (m, st, base) in mems0.items():
                        b0 = havoc_m.get(mid, base)
                        s0 = [] if mid in havoc_m else st
                        if m.base != b0 or m.stores != s0:
                            dmem.add(mid)
                        md[mid] = (m.base, list(m.stores))
                    events.extend(self.events[ev0:])
                    accesses.extend(self.accesses[ac0:])
                    loops.extend(self.loops[lp0:])
                    return (kind, scal, md, self.facts, self.accesses[ac0:], r[1] if r is not None else None)
                finally:
                    self.stack.pop()
                    self.facts = outer

            res = cases(one)
            if TRACE:
                print("loop", s.lineno, "attempt", attempt, "paths", len(res), "depth", len(self.stack), flush=True)
            new_s = {k for k in dirty if k not in havoc_s and k[1] != var and (k[0] != id(env) or k[1] in start_env) and k[0] in fenv}
            new_m = dmem - set(havoc_m)
            if not new_s and not new_m:
                break
            for k in new_s:
                v0 = start_env.get(k[1]) if k[0] == id(env) else fenv0.get(k)
                havoc_s[k] = sp.Symbol(f"{k[1]}@{tag}") if isinstance(v0, sp.Basic) or v0 is None or isinstance(v0, bool) else v0
            for mid in new_m:
                havoc_m[mid] = f"{mems0[mid][0].name}@{tag}"
        else:
            if hit is None:
                raise Irregular(self.where(s), "loop state does not stabilise")
        if hit is not None:
            rec, res, havoc_s, havoc_m, fenv, dirty, events, accesses, loops, ct1 = hit
        else:
            ct1 = self.counter
            self.memo[key] = (rec, res, havoc_s, havoc_m, fenv, dirty, events, accesses, loops, ct1)
        self.counter = ct1
        # state after the loop
        env.clear()
        env.update(start_env)
        for (eid, v), x in fenv0.items():
            refs[eid][v] = x
        for m, st, base in mems0.values():
            m.stores, m.base = list(st), base
        del self.events[ev0:], self.accesses[ac0:], self.loops[lp0:]
        self.events += events
        self.accesses += accesses
        self.loops += loops
        rec.before = dict(start_env)
        rec.pre_scal = {k[1]: x for k, x in havoc_s.items()}
        rec.before_scal = {k[1]: start_env.get(k[1]) if k[0] == id(env) else fenv0.get(k) for k in havoc_s}
        rec.pre_mem = {mems0[k][0].name: x for k, x in havoc_m.items()}
        rec.mem0 = {m.name: (base, list(st)) for m, st, base in mems0.values()}
        rec.paths = [Path(a, r[0], {k[1]: v for k, v in r[1].items()}, {mems0[k][0].name: v for k, v in r[2].items()}, r[3], r[4])
                     for a, r in res]
        self.loops.append(rec)
        self.dirty, self.dirty_env = saved_dirty, denv_saved
        if self.dirty is not None:
            for k in havoc_s:
                self.dirty.add(k)
                self.dirty_env[k[0]] = fenv[k[0]]
        live = [p for p in rec.paths if p.exit != "exit"]
        single = live[0] if len(live) == 1 and live[0].exit == "normal" and var is not None else None
        for k, x in havoc_s.items():
            v0 = start_env.get(k[1]) if k[0] == id(env) else fenv0.get(k)
            if not isinstance(v0, (sp.Basic, bool)) and v0 is not None:
                continue
            after = self.close_scalar(rec, x, k[1], v0, live, single)
            (env if k[0] == id(env) else fenv[k[0]])[k[1]] = after
        for mid, nm in havoc_m.items():
            m, st, base = mems0[mid]
            done = False
            if live and var is not None and all(p.exit == "normal" for p in live):
                last = [p.mems[m.name][1][-1:] for p in live]
                if all(x == last[0] for x in last) and all(len({y[1] for y in p.mems[m.name][1]}) == 1 for p in live):
                    done = self.close_mem(rec, m, live[0], base, st, nm)
            if not done:
                m.base, m.stores = nm + "'", []
        for eid, v in dirty:
            if eid == id(env) and v not in start_env:
                env[v] = sp.Symbol(f"{v}@{tag}'")
        if var is not None:
            env[var] = sp.Symbol(f"{var}@{tag}'", integer=True)
        brk = any(p.exit == "break" for p in rec.paths)
        ret = [p for p in rec.paths if p.exit in ("return", "raise")]
        rec.else_events = None
        if ret:
            raise Irregular(self.where(s), "return out of a loop")
        if s.orelse:
            e0 = len(self.events)
            if not brk or not self.facts.ask(("left by break", tag)):
                r = self.block(s.orelse, env)
                rec.else_events = self.events[e0:]
                if r is not None:
                    return r
        elif brk:
            pass
        return None

    @staticmethod
    def assigned(body):
        out = set()
        for n in ast.walk(ast.Module(body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
        return out

    @staticmethod
    def stored_names(body):
        return {n.value.id for n in ast.walk(ast.Module(body, []))
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}

    def loop_key(self, s, env, mems0):
        val = lambda v: v if isinstance(v, sp.Basic) else ("id", id(v))
        frames = [env] + [v.env for v in env.values() if isinstance(v, Ref) and v.env is not env]
        return (id(s), tuple((id(f),) + tuple((k, val(v)) for k, v in sorted(f.items(), key=lambda t: t[0])) for f in frames),
                tuple((i, base, tuple(st)) for i, (m, st, base) in mems0.items()), frozenset(self.facts.lin.facts), frozenset(self.facts.ne))

    def reach(self, env):
        out, seen = [], set()
        frames = [env]
        for fr in frames:
            for v in list(fr.values()):
                if isinstance(v, Mem) and id(v) not in seen:
                    seen.add(id(v))
                    out.append(v)
                if isinstance(v, Ref) and id(v.env) not in {id(x) for x in frames}:
                    frames.append(v.env)
        return out

    def close_scalar(self, rec, x, name, v0, live, single):
        """value of an accumulator after the loop, when it is a sum or a maximum over the iterations"""
        after = sp.Symbol(str(x) + "'")
        if rec.var is None or any(p.exit != "normal" for p in live):
            return after
        inc = [sp.expand(p.scal.get(name, x) - x) if isinstance(p.scal.get(name, x), sp.Basic) else None for p in live]
        mod = set(rec.pre_scal.values())
        free = lambda e: not (e.free_symbols & mod) and not any(str(f.func) in rec.pre_mem.values() for f in e.atoms(sp.core.function.AppliedUndef))
        if single is not None and inc[0] is not None and free(inc[0]):
            return v0 + F("SUMOVER")(inc[0], rec.sym, rec.count) if isinstance(v0, sp.Basic) else after
        kinds = set()
        for p in live:
            v = p.scal.get(name, x)
            if v == x:
                kinds.add(("keep", None))
            elif isinstance(v, sp.Basic) and x not in v.free_symbols:
                kinds.add(("set", v))
            else:
                return after
        vals = {v for k, v in kinds if k == "set"}
        # a running maximum: e is taken exactly when it exceeds the accumulator
        ok = vals and all(
            (p.facts.lin.entails(">=", p.scal.get(name, x) - x) if p.scal.get(name, x) != x
             else all(p.facts.lin.entails(">=", x - v) for v in self.case_vals(p, vals))) for p in live)
        if ok:
            return F("MAXOVER")(v0, rec.sym, rec.count, *sorted(vals, key=sp.default_sort_key))
        return after

    @staticmethod
    def case_vals(p, vals):
        """the candidate values that equal the candidate of this path (absolute values come in two signs)"""
        vs = sorted(vals, key=sp.default_sort_key)
        if len(vs) == 2 and sp.expand(vs[0] + vs[1]) == 0:
            return [v for v in vs if p.facts.lin.entails(">=", v)] or vs
        return vs

    def close_mem(self, rec, m, p, base, st, nm):
        nb, ns = p.mems[m.name]
        if nb != nm or len(ns) < 1 or any(x[0] != "pt" for x in ns):
            return False
        idx, val = ns[-1][1], ns[-1][2]
        if any(x[1] != idx for x in ns) or len(idx) != 1:
            return False
        # only the element that is stored may be read
        reads = [f for f in val.atoms(sp.core.function.AppliedUndef) if str(f.func) == nm]
        if any(tuple(f.args) != tuple(idx) for f in reads):
            return False
        if val.free_symbols & set(rec.pre_scal.values()) or not idx[0].has(rec.sym):
            return False
        if not (idx[0] == rec.sym or self.injective(idx[0], rec.sym)):
            return False
        m.base, m.stores = base, list(st)
        # value in terms of the contents before the loop
        sub = {f: self.read_quiet(m, f.args, base) for f in reads}
        if any(v is None for v in sub.values()):
            m.base, m.stores = nm + "'", []
            return True
        m.stores.append(("all", rec.sym, rec.count, idx, val.xreplace(sub)))
        return True

    def injective(self, e, i):
        return getattr(self, "inj", lambda e, i: False)(e, i)

    def read_quiet(self, m, idx, base):
        for stv in reversed(m.stores):
            if stv[0] == "pt":
                return None
            v = self.match_all_quiet(stv, idx)
            return v
        return F(base)(*idx)

    @staticmethod
    def match_all_quiet(st, idx):
        _, bv, cnt, sidx, val = st
        if tuple(sidx) == tuple(idx):
            return val
        return None
