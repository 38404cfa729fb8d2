"""Linear-algebra normal form for value-flow nodes.

A value is a block array: every axis is a tuple of segments (``"1"`` for a single
position such as the intercept, or a symbolic extent such as ``"n"`` rows, ``"p"``
features) and every block is a commutative expression in positional index symbols.
Contractions are flattened, connected components are split off and bound indices
are labelled canonically, so two expressions that differ only by linearity,
associativity, distributivity or the order of evaluation get the same form."""
from __future__ import annotations

import copy
import itertools

from .algebra import is_zero, sp
from .nodes import N, is_const, show
from .program import AnalysisError
from .symexec import Decide, Irregular, Split, arith, cases, math_call  # noqa: F401

SUM = sp.Function("SUM")


class KD(sp.Function):
    @classmethod
    def eval(cls, a, b):
        if a == b:
            return sp.Integer(1)
        if a.func == b.func and getattr(a.func, "__name__", "").startswith("IDX_p_"):
            return cls(a.args[0], b.args[0])  # selections have no repeated positions
        if str(a) > str(b):
            return cls(b, a)


_symfun = {}


def symmetric_function(name):
    if name not in _symfun:
        def ev(cls, a, b):
            if str(a) > str(b):
                return cls(b, a)

        _symfun[name] = type(name, (sp.Function,), {"eval": classmethod(ev)})
    return _symfun[name]


def ix(k):
    return sp.Symbol(f"ix{k}")


def size_sym(kind):
    return sp.Integer(1) if kind == "1" else sp.Symbol(f"N_{kind}", positive=True, integer=True)


_fresh = itertools.count()


def _expand(e):
    return sp.expand(e, log=False, power_exp=False, trig=False, complex=False)


def canon_sum(factors, dummies):
    """dummies: list of (symbol, kind); factors: list of expressions"""
    bykind = {}
    for s, k in dummies:
        bykind.setdefault(k, []).append(s)
    best = None
    body = sp.Mul(*factors)
    perms = [list(itertools.permutations(range(len(v)))) for v in bykind.values()]
    n = 1
    for p in perms:
        n *= len(p)
    if n > 800:
        raise AnalysisError("contraction too large for canonical labelling")
    for combo in itertools.product(*perms):
        m = {}
        for (k, syms), perm in zip(bykind.items(), combo):
            for s, j in zip(syms, perm):
                m[s] = sp.Symbol(f"d_{k}_{j}")
        b = body.xreplace(m)
        key = str(b)
        if best is None or key < best[0]:
            best = (key, b, sorted(m.values(), key=str))
    return SUM(best[1], *best[2])


def contract(e, sym, kind):
    """sum of e over the index sym"""
    if kind == "1":
        return e
    e = _expand(e)
    if e.has(KD):
        e = _expand(sp.expand_mul(e))
    out = sp.Integer(0)
    for term in sp.Add.make_args(e):
        out += _sum_term(term, sym, kind)
    return out


def _sum_term(term, sym, kind):
    coef, dep = term.as_independent(sym, as_Add=False)
    if dep == 1:
        return coef * size_sym(kind)
    # Kronecker delta
    for f in sp.Mul.make_args(dep):
        if isinstance(f, KD) and sym in f.args:
            other = f.args[0] if f.args[1] == sym else f.args[1]
            return coef * (dep / f).xreplace({sym: other})
    factors, dums = [], [(sym, kind)]
    tmp = sp.Symbol(f"t_{next(_fresh)}")
    dep = dep.xreplace({sym: tmp})
    dums = [(tmp, kind)]
    for f in sp.Mul.make_args(dep):
        base, ex = f.as_base_exp()
        if base.func == SUM and ex.is_Integer and ex > 0 and tmp in base.free_symbols:
            for _ in range(int(ex)):
                m = {}
                for d in base.args[1:]:
                    t = sp.Symbol(f"t_{next(_fresh)}")
                    m[d] = t
                    dums.append((t, str(d).split("_")[1]))
                factors += list(sp.Mul.make_args(base.args[0].xreplace(m)))
        else:
            factors.append(f)
    return coef * split_components(factors, dums)


def split_components(factors, dums):
    syms = {s: k for s, k in dums}
    groups = [({s}, []) for s in syms]
    rest = []
    for f in factors:
        fs = f.free_symbols & set(syms)
        if not fs:
            rest.append(f)
            continue
        hit = [g for g in groups if g[0] & fs]
        merged = (set().union(*[g[0] for g in hit]), [x for g in hit for x in g[1]] + [f])
        groups = [g for g in groups if g not in hit] + [merged]
    out = sp.Mul(*rest)
    for ss, fs in groups:
        if not fs:
            for s in ss:
                out *= size_sym(syms[s])
        else:
            out *= canon_sum(fs, [(s, syms[s]) for s in sorted(ss, key=str)])
    return out


def recanon(e):
    """recompute canonical labels after free indices were renamed"""
    def f(node):
        if node.func == SUM:
            body = recanon(node.args[0])
            ds = []
            m = {}
            for d in node.args[1:]:
                t = sp.Symbol(f"t_{next(_fresh)}")
                m[d] = t
                ds.append((t, str(d).split("_")[1]))
            return canon_sum(list(sp.Mul.make_args(body.xreplace(m))), ds)
        if node.args:
            a = [f(x) for x in node.args]
            if any(x is not y for x, y in zip(a, node.args)):
                return node.func(*a)
        return node

    return f(sp.sympify(e))


class TV:
    __slots__ = ("axes", "data")

    def __init__(self, axes, data):
        self.axes = tuple(tuple(a) for a in axes)
        self.data = {k: sp.sympify(v) for k, v in data.items()}

    def __repr__(self):
        return f"TV{self.axes}{self.data}"

    @property
    def scalar(self):
        if self.axes:
            if all(a == ("1",) for a in self.axes):
                return next(iter(self.data.values()))
            raise Irregular("?", f"array {self.axes} where a scalar is expected")
        return self.data[()]


def scalar(e):
    return TV((), {(): e})


def keys(axes):
    return itertools.product(*[range(len(a)) for a in axes])


def fill(axes, e):
    return TV(axes, {k: e for k in keys(axes)})


def atom(name, axes, sym=False):
    """an array whose entries are uninterpreted functions of their indices"""
    data = {}
    for k in keys(axes):
        labels = [axes[a][s] for a, s in enumerate(k)]
        args = [ix(a) for a, l in enumerate(labels) if l != "1"]
        suffix = "" if all(len(a) == 1 for a in axes) else "_" + "".join(map(str, k))
        if sym and len(axes) == 2 and suffix:
            suffix = "_" + "".join(map(str, sorted(k)))
        if args:
            F = symmetric_function(name + suffix) if (sym and len(args) == 2) else sp.Function(name + suffix)
            data[k] = F(*args)
        else:
            data[k] = sp.Symbol(name + suffix)
    return TV(axes, data)


def shift(e, d):
    if d == 0:
        return e
    m = {}
    for s in e.free_symbols:
        n = str(s)
        if n.startswith("ix"):
            m[s] = ix(int(n[2:]) + d)
    return e.xreplace(m) if m else e


def elementwise(f, *vals):
    R = max(len(v.axes) for v in vals)
    axes = []
    for k in range(R):
        a = ("1",)
        for v in vals:
            j = k - (R - len(v.axes))
            if j < 0:
                continue
            b = v.axes[j]
            if b == ("1",):
                continue
            if a == ("1",):
                a = b
            elif a != b:
                raise Irregular("?", f"shapes {[v.axes for v in vals]} do not agree")
        axes.append(a)
    data = {}
    for k in keys(axes):
        args = []
        for v in vals:
            d = R - len(v.axes)
            kk = tuple(0 if v.axes[j] == ("1",) else k[j + d] for j in range(len(v.axes)))
            args.append(shift(v.data[kk], d))
        data[k] = f(*args)
    return TV(axes, data)


def sum_axis(v, axis, keepdims=False):
    axis = axis % len(v.axes)
    rest = v.axes[:axis] + v.axes[axis + 1:]
    data = {}
    for k in keys(v.axes):
        kk = k[:axis] + k[axis + 1:]
        e = contract(v.data[k], ix(axis), v.axes[axis][k[axis]])
        m = {ix(j): ix(j - 1) for j in range(axis + 1, len(v.axes))}
        e = e.xreplace(m)
        data[kk] = data.get(kk, 0) + e
    return TV(rest, data)


def matmul(a, b):
    """numpy @ for 1-d/2-d operands"""
    if not a.axes or not b.axes:
        raise Irregular("?", "matmul with a scalar")
    if a.axes[-1] != b.axes[0]:
        raise Irregular("?", f"matmul shapes {a.axes} @ {b.axes}")
    ra, rb = len(a.axes) - 1, len(b.axes) - 1
    axes = a.axes[:-1] + b.axes[1:]
    c = ix(90)
    data = {}
    for ka in keys(a.axes):
        ea = a.data[ka].xreplace({ix(ra): c})
        for kb in keys(b.axes):
            if ka[-1] != kb[0]:
                continue
            m = {ix(0): c}
            m.update({ix(1 + j): ix(ra + j) for j in range(rb)})
            eb = b.data[kb].xreplace(m)
            k = ka[:-1] + kb[1:]
            data[k] = data.get(k, 0) + contract(ea * eb, c, a.axes[-1][ka[-1]])
    return TV(axes, data)


def transpose(v):
    if len(v.axes) < 2:
        return v
    n = len(v.axes)
    m = {ix(j): ix(n - 1 - j) for j in range(n)}
    return TV(v.axes[::-1], {k[::-1]: e.xreplace(m) for k, e in v.data.items()})


def concat(vals, axis):
    n = len(vals[0].axes)
    axis = axis % n
    for v in vals:
        if len(v.axes) != n or any(v.axes[j] != vals[0].axes[j] for j in range(n) if j != axis):
            raise Irregular("?", f"concatenation of {[x.axes for x in vals]}")
    data, off, ax = {}, 0, ()
    for v in vals:
        for k, e in v.data.items():
            data[k[:axis] + (k[axis] + off,) + k[axis + 1:]] = e
        off += len(v.axes[axis])
        ax += v.axes[axis]
    axes = vals[0].axes[:axis] + (ax,) + vals[0].axes[axis + 1:]
    return TV(axes, data)


def add_axis(v, pos):
    """insert a broadcast axis at position pos"""
    m = {ix(j): ix(j + 1) for j in range(pos, len(v.axes))}
    return TV(v.axes[:pos] + (("1",),) + v.axes[pos:],
              {k[:pos] + (0,) + k[pos:]: e.xreplace(m) for k, e in v.data.items()})


def take(v, axis, segs, drop):
    """keep the segments segs of an axis (drop: integer index)"""
    data = {}
    for k, e in v.data.items():
        if k[axis] in segs:
            kk = k[:axis] + (() if drop else (segs.index(k[axis]),)) + k[axis + 1:]
            if drop:
                e = e.xreplace({ix(j): ix(j - 1) for j in range(axis + 1, len(v.axes))})
            data[kk] = e
    ax = () if drop else (tuple(v.axes[axis][s] for s in segs),)
    return TV(v.axes[:axis] + ax + v.axes[axis + 1:], data)


def trace_diag(v):
    """diagonal of a square matrix"""
    a = v.axes[0]
    return TV((a,), {(s,): v.data[(s, s)].xreplace({ix(1): ix(0)}) for s in range(len(a))})


def diag_matrix(v):
    a = v.axes[0]
    data = {}
    for s in range(len(a)):
        for t in range(len(a)):
            if s != t:
                data[(s, t)] = 0
            elif a[s] == "1":
                data[(s, t)] = v.data[(s,)]
            else:
                data[(s, t)] = v.data[(s,)] * KD(ix(0), ix(1))
    return TV((a, a), data)


_inv = {}


def clean(e):
    return recanon(_expand(sp.sympify(e)))


def inverse(m):
    c = TV(m.axes, {k: clean(e) for k, e in m.data.items()})
    t = transpose(c)
    sym = all(is_zero_t(c.data[k] - t.data[k]) for k in c.data)
    for (axes, old), name in _inv.items():
        if axes == c.axes and all(is_zero_t(old[k] - c.data[k]) for k in c.data):
            return atom(name[0], c.axes, name[1])
    name = (f"INV{len(_inv)}", sym)
    _inv[(c.axes, _Frozen(c.data))] = name
    return atom(name[0], c.axes, sym)


class _Frozen(dict):
    def __hash__(self):
        return id(self)


def is_zero_t(e):
    e = sp.sympify(e)
    if e == 0:
        return True
    e = clean(e)
    if e == 0:
        return True
    # merge the integrands of contractions over the same indices
    if e.has(SUM):
        groups, rest, ok = {}, sp.Integer(0), True
        for t in sp.Add.make_args(e):
            fs = [f for f in sp.Mul.make_args(t) if f.func == SUM]
            if len(fs) == 1 and not (t / fs[0]).has(SUM):
                groups.setdefault(fs[0].args[1:], []).append((t / fs[0]) * fs[0].args[0])
            else:
                rest += t
        if groups and all(is_zero_t(sp.Add(*g)) for g in groups.values()) and (rest == 0 or is_zero_t(rest)):
            return True
    # treat contractions as independent atoms
    top = {}

    def repl(x):
        if x.func == SUM or isinstance(x, (sp.core.function.AppliedUndef, KD)) or x.func in _symfun.values():
            if x not in top:
                top[x] = sp.Symbol(f"a_{len(top)}", positive=True)
            return top[x]
        if x.args:
            return x.func(*[repl(y) for y in x.args])
        return x

    return is_zero(repl(e))


def equal(a, b):
    """None if equal, else a description of the first differing block"""
    if a.axes != b.axes:
        # broadcastable constants
        try:
            d = elementwise(lambda x, y: x - y, a, b)
        except Irregular as e:
            return str(e)
    else:
        d = TV(a.axes, {k: a.data[k] - b.data[k] for k in a.data})
    for k, e in d.data.items():
        if not vanishes(e):
            return f"block {k}: residual {clean(e)}"
    return None


def vanishes(e, depth=4):
    """zero, by cases on the equality indicators the expression contains"""
    if is_zero_t(e):
        return True
    eqs = [f for f in sp.sympify(e).atoms(sp.core.function.AppliedUndef) if f.func.__name__ == "EQ"]
    if not eqs or not depth:
        return False
    f = min(eqs, key=lambda x: (sp.count_ops(x), str(x)))
    if not vanishes(e.xreplace({f: sp.Integer(0)}), depth - 1):
        return False
    on = e.xreplace({f: sp.Integer(1)})
    if vanishes(on, depth - 1):
        return True
    d = f.args[0] - f.args[1]
    atoms = sorted([x for x in d.atoms(sp.Symbol, sp.core.function.AppliedUndef) if x.func.__name__ not in ("EQ", "GT")],
                   key=lambda x: (sp.count_ops(x), str(x)))
    for x in atoms:
        y = sp.Dummy("y", positive=x.is_positive, real=True)
        try:
            sols = sp.solve(d.xreplace({x: y}), y)
        except NotImplementedError:
            continue
        if len(sols) == 1 and vanishes(on.xreplace({x: sols[0]}), depth - 1):
            return True
    return False


TRANSPARENT = {
    "numpy.asarray", "numpy.asanyarray", "numpy.float64", "numpy.float32", "builtins.float",
    "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.copy", "typing.cast", "numpy.require",
    "tabmat.as_tabmat", "tabmat.DenseMatrix", "tabmat.SparseMatrix", "copy.copy", "copy.deepcopy",
    "numpy.asarray_chkfinite", "numpy.nan_to_num", "tabmat.matrix_base.MatrixBase", "scipy.sparse.csc_matrix",
    "scipy.sparse.csr_matrix", "sklearn.utils.check_array", "sklearn.utils.validation.check_array",
    "scipy.sparse.csc_array", "scipy.sparse.csr_array", "numpy.real", "numpy.squeeze_",
}
TRANSPARENT_M = {"astype", "copy", "toarray", "todense", "view", "tocsc", "tocsr", "tocoo", "unpack", "item", "ravel_",
                 "A", "to_numpy", "asformat", "tolist"}


class Ten:
    def __init__(self, decide, env=None, hook=None):
        self.decide = decide
        self.env = dict(env or {})
        self.hook = hook
        self.cache = {}
        self.loopenv = {}  # loop index vn -> (axis, segment, symbol or None)

    def where(self, n):
        return f"{n.site[0]}:{n.site[1]}" if n.site else "?"

    def irr(self, n, why):
        return Irregular(self.where(n), why)

    def t(self, n):
        r = self.cache.get(n.id)
        if r is None:
            try:
                r = self._t(n)
            except Irregular as e:
                if e.where == "?":
                    raise Irregular(self.where(n), e.why) from None
                raise
            self.cache[n.id] = r
        return r

    def num(self, n):
        return self.t(n).scalar

    # ---------------------------------------------------------------- nodes
    def _t(self, n):
        if n.vn in self.env:
            return self.env[n.vn]
        if self.hook is not None:
            r = self.hook(self, n)
            if r is not None:
                return r
        op = n.op
        if op == "const":
            if isinstance(n.payload, bool):
                return scalar(int(n.payload))
            if isinstance(n.payload, (int, float)):
                if n.payload in (float("inf"), float("-inf")):
                    return scalar(sp.oo if n.payload > 0 else -sp.oo)
                return scalar(sp.nsimplify(n.payload, rational=True))
            raise self.irr(n, f"constant {n.payload!r} in a formula")
        if op == "ext":
            short = n.payload.split(".")[-1]
            if short in ("inf", "INFINITY"):
                return scalar(sp.oo)
            if short == "pi":
                return scalar(sp.pi)
            raise self.irr(n, f"external object {n.payload} in a formula")
        if op == "bin":
            a, b = self.t(n.args[0]), self.t(n.args[1])
            if n.payload == "@":
                return matmul(a, b)
            if n.payload in ("+", "-", "*", "/", "**"):
                return elementwise(lambda x, y: arith(n.payload, x, y), a, b)
            return elementwise(lambda x, y: sp.Function("op" + n.payload)(x, y), a, b)
        if op == "un":
            v = self.t(n.args[0])
            return elementwise(lambda x: -x, v) if n.payload == "-" else v
        if op == "phi":
            try:
                c = self.cond(n.meta)
            except Split:
                # both arms may denote the same array
                try:
                    a, b = self.t(n.args[0]), self.t(n.args[1])
                except (Split, Irregular):
                    a = b = None
                if a is not None and a.axes == b.axes and a.data == b.data:
                    return a
                raise
            return self.t(n.args[0 if c else 1])
        if op in ("cmp", "not", "and", "or"):
            return self.boolean(n)
        if op == "refine":
            return self.t(n.args[0])
        if op in ("tuple", "list"):
            vs = [self.t(a) for a in n.args]
            return self.stack(vs)
        if op == "inplace":
            return self.inplace(n)
        if op == "index":
            return self.index(n)
        if op == "loopphi":
            return self.loop(n)
        if op == "getattr":
            return self.getattr(n)
        if op == "call":
            return self.call(n)
        if op == "mcall":
            return self.mcall(n)
        raise self.irr(n, f"no algebraic form for {show(n, 3)}")

    def boolean(self, n):
        v = self.indicator(n)
        if v is not None:
            return v
        return scalar(1 if self.cond(n) else 0)

    tiny = False  # decide comparisons with a rounding threshold: only exact zeros are below it

    def gt(self, x, y):
        x, y = sp.sympify(x), sp.sympify(y)
        if self.tiny:
            eps = sp.Symbol("EPS")
            small = lambda e: e.free_symbols == {eps} and e.subs(eps, 0) == 0
            for lo, hi, r in ((x, y, 1), (y, x, 0)):
                if small(lo):  # lo > hi  (r = 1) or hi > lo (r = 0)
                    zero = hi == 0
                    if zero or isinstance(hi, sp.Abs):
                        return sp.Integer(r if zero else 1 - r)
        return sp.Function("GT")(x, y)

    def mask(self, i):
        """a boolean selection (comparison, where(...), nonzero(...)) as zeros and ones, else None"""
        if i.op == "index" and is_const(i.args[1], 0):
            i = i.args[0]
        if i.op == "call" and i.payload[0] in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero") and len(i.args) == 1:
            i = i.args[0]
        if i.op == "mcall" and i.payload[0] == "nonzero":
            i = i.args[0]
        return self.indicator(i) if i.op in ("cmp", "not") else None

    def select(self, m, a, b):
        """a where m else b"""
        def f(m, a, b):
            if m == 1:
                return a
            if m == 0:
                return b
            return m * a + (1 - m) * b

        return elementwise(f, m, a, b)

    def indicator(self, n):
        """a comparison of arrays as an array of zeros and ones"""
        if n.op == "not":
            v = self.indicator(n.args[0])
            return None if v is None else elementwise(lambda x: 1 - x, v)
        if n.op != "cmp" or n.payload not in ("<", "<=", ">", ">=", "==", "!="):
            return None
        try:
            a, b = self.t(n.args[0]), self.t(n.args[1])
        except Irregular:
            return None
        if not a.axes and not b.axes:
            return None
        gt, eq = self.gt, sp.Function("EQ")
        form = {">": lambda x, y: gt(x, y), "<": lambda x, y: gt(y, x), ">=": lambda x, y: 1 - gt(y, x), "<=": lambda x, y: 1 - gt(x, y),
                "==": lambda x, y: eq(*sorted((x, y), key=str)), "!=": lambda x, y: 1 - eq(*sorted((x, y), key=str))}
        return elementwise(form[n.payload], a, b)

    def stack(self, vs):
        if not vs:
            raise Irregular("?", "empty array")
        vs = [add_axis(v, 0) for v in vs]
        return concat(vs, 0)

    def loop(self, n):
        """an array filled position by position along one axis"""
        if len(n.args) != 2:
            raise self.irr(n, f"loop-carried value {n.payload}")
        init, back = n.args
        for _ in range(4):
            if back.op == "inplace" and back.payload == "alias":
                back = back.args[1]
        if not (back.op == "inplace" and back.payload == "setitem" and back.args[0].vn == n.vn):
            raise self.irr(n, f"loop-carried value {n.payload}")
        base, idx, val = back.args
        parts = list(idx.args) if idx.op == "tuple" else [idx]
        pos = [k for k, p in enumerate(parts) if p.op == "loopidx"]
        if len(pos) != 1 or any(not self.full(p) for k, p in enumerate(parts) if k != pos[0]):
            raise self.irr(n, f"loop-carried value {n.payload}")
        k, li = pos[0], parts[pos[0]]
        if len(li.args) != 1:
            raise self.irr(n, "partial loop")
        b = self.t(init)
        if li.args[0].op in ("call", "getattr", "index", "bin", "const", "src") or True:
            try:
                ext = self.num(li.args[0])  # range(extent)
            except Irregular:
                ext = sum(size_sym(s) for s in self.t(li.args[0]).axes[0])  # enumerate(array)
        axis = b.axes[k]
        if sp.expand(ext - sum(size_sym(s) for s in axis)) != 0:
            raise self.irr(n, f"loop over {ext} positions of an axis of shape {axis}")
        data = dict(b.data)
        rest = b.axes[:k] + b.axes[k + 1:]
        for s, kind in enumerate(axis):
            sub = copy.copy(self)
            sub.cache = {}
            sym = None if kind == "1" else sp.Symbol(f"lp{k}")
            sub.loopenv = dict(self.loopenv)
            sub.loopenv[li.vn] = (axis, s, sym)
            v = elementwise(lambda x, y: y, fill(rest, 0), sub.t(val))
            if v.axes != tuple(rest):
                raise self.irr(n, "stored value has too many axes")
            for kk in keys(rest):
                e = v.data[kk].xreplace({ix(j): ix(j + 1) for j in range(k, len(rest))})
                if sym is not None:
                    e = e.xreplace({sym: ix(k)})
                data[kk[:k] + (s,) + kk[k:]] = e
        return TV(b.axes, data)

    def at_loop(self, v, axis, p, n):
        ax, s, sym = self.loopenv[p.vn]
        if v.axes[axis] != ax:
            raise self.irr(n, f"loop index over shape {ax} used on an axis of shape {v.axes[axis]}")
        if sym is not None:
            v = TV(v.axes, {k: e.xreplace({ix(axis): sym}) for k, e in v.data.items()})
        return take(v, axis, [s], True)

    def gather(self, v, axis, p, n):
        """v indexed by an array of codes"""
        if p.op in ("slice", "const", "loopidx"):
            return None
        try:
            c = self.t(p)
        except Irregular:
            return None
        if not c.axes and str(c.scalar).startswith("IDX_") and v.axes[axis] == (str(c.scalar)[4],):
            code = c.scalar  # one symbolic position
            v = TV(v.axes, {k: x.xreplace({ix(axis): code}) for k, x in v.data.items()})
            return take(v, axis, [0], True)
        if len(c.axes) != 1 or len(c.axes[0]) != 1 or c.axes[0] == ("1",):
            return None
        e = c.data[(0,)]
        nm = getattr(e.func, "__name__", "")
        if not nm.startswith("IDX"):
            raise self.irr(n, "indexing by raw labels instead of positions")
        if v.axes[axis] != (nm[4],):
            raise self.irr(n, f"codes for {nm[4]} used on an axis of shape {v.axes[axis]}")
        code = shift(e, axis)
        return TV(v.axes[:axis] + c.axes + v.axes[axis + 1:],
                  {k: x.xreplace({ix(axis): code}) for k, x in v.data.items()})

    def inplace(self, n):
        how = n.payload
        if how == "alias":
            return self.alias(n)
        if how == "setitem" or how.startswith("aug"):
            base = n.args[0]
            if self.full(n.args[1]):
                b = self.t(base)
                return elementwise(lambda x, y: y, b, self.t(n.args[2]))
            if how.startswith("aug"):
                # value = old[idx] op x ; the diagonal-index idiom
                d = self.diag_index(n.args[1])
                if d is not None:
                    return self.aug_diag(n, d)
            m = self.mask(n.args[1])
            if m is not None:
                if how.startswith("aug"):
                    raise self.irr(n, "update of selected entries")
                return self.select(m, self.t(n.args[2]), self.t(base))
            return self.store(self.t(base), n.args[1], self.t(n.args[2]), n)
        if how.startswith("out:"):
            return self.t(n.args[1])
        if how == "fill":
            return elementwise(lambda x, y: y, self.t(n.args[0]), self.t(n.args[1]))
        if how == "numpy.copyto":
            return elementwise(lambda x, y: y, self.t(n.args[0]), self.t(n.args[1]))
        if how in ("matvec", "transpose_matvec", "dot") and len(n.args) == 2:
            # result is added to out
            m = n.args[1]
            raise self.irr(n, "out= accumulation")
        if how.startswith("overwrite_"):
            raise self.irr(n, "operand overwritten by a solver")
        raise self.irr(n, f"update {how}")

    def alias(self, n):
        b, new = n.args
        t = new.args[0] if new.op in ("inplace", "kout", "bin") else None
        # b is a view of t
        x, path = b, []
        while x.op == "index" and x is not t:
            path.append(x.args[1])
            x = x.args[0]
        if t is not None and path and (x is t or x.vn == t.vn):
            v = self.t(new)
            for i in reversed(path):
                v = self.index_value(v, i, n)
            return v
        if t is not None:
            x, path = t, []
            while x.op == "index" and x is not b:
                path.append(x.args[1])
                x = x.args[0]
            if path and (x is b or x.vn == b.vn):
                if len(path) > 1:
                    raise self.irr(n, "write through a nested view")
                return self.store(self.t(b), path[0], self.t(new), n)
        nb = self.t(new)
        try:
            ob = self.t(b)
        except Irregular:
            return nb
        if ob.axes != nb.axes:
            if not nb.axes or not ob.axes:
                return ob  # numbers are not views
            if t is not None and self.disjoint(b, t, n):
                return ob
            raise self.irr(n, "partially overlapping views")
        return nb

    def disjoint(self, b, t, n):
        """b and t are different parts of one array"""
        def origin(x):
            while x.op in ("inplace", "bin"):  # updated in place: still the same memory
                x = x.args[0]
            return x

        b, t = origin(b), origin(t)
        if not (b.op == "index" and t.op == "index" and b.args[0].vn == t.args[0].vn):
            return False
        base = self.t(b.args[0])
        sel = []
        for x in (b, t):
            parts = list(x.args[1].args) if x.args[1].op == "tuple" else [x.args[1]]
            if any(self.newaxis(p) for p in parts) or len(parts) > len(base.axes):
                return False
            sel.append([self.segments(base.axes[k], p, n)[0] for k, p in enumerate(parts)])
        return any(not set(p) & set(q) for p, q in zip(*sel))

    def diag_index(self, i):
        if i.op == "call" and i.payload[0] in ("numpy.diag_indices_from", "numpy.diag_indices"):
            return 0
        if i.op == "tuple" and len(i.args) == 2 and i.args[0].vn == i.args[1].vn and i.args[0].op == "call" \
                and i.args[0].payload[0] == "numpy.arange":
            a = i.args[0]
            if a.payload[1] == 1:
                return 0
            lo = self.num(a.args[0])
            if lo in (0, 1):
                return int(lo)
        return None

    def aug_diag(self, n, lo):
        base, idx, val = n.args
        if val.op != "bin" or val.payload != "+":
            raise self.irr(n, "diagonal update")
        add = val.args[1]
        v = self.t(add)
        b = self.t(base)
        if len(v.axes) > 1:
            raise self.irr(n, "diagonal update by a matrix")
        segs = list(range(len(b.axes[0])))[lo:]
        part = take(b, 0, segs, False)
        if len(v.axes) == 1 and v.axes[0] != part.axes[0] and v.axes[0] != ("1",):
            raise self.irr(n, "diagonal of the wrong length")
        vv = elementwise(lambda x, y: y, TV((part.axes[0],), {(s,): 0 for s in range(len(segs))}), v)
        data = dict(b.data)
        D = diag_matrix(vv)
        for (s, t_), e in D.data.items():
            data[(s + lo, t_ + lo)] = data[(s + lo, t_ + lo)] + e
        return TV(b.axes, data)

    # ------------------------------------------------------------- indexing
    def full(self, i):
        return (i.op == "slice" and all(is_const(x, None) for x in i.args)) or (
            i.op == "ext" and i.payload == "Ellipsis") or (i.op == "const" and i.payload is Ellipsis)

    def segments(self, axis, i, n):
        """(segs, drop) selected by index node i"""
        if self.full(i):
            return list(range(len(axis))), False
        if i.op == "slice":
            lo, hi = i.args[0], i.args[1]
            st = i.args[2] if len(i.args) > 2 else None
            if st is not None and is_const(st, -1) and is_const(lo, None) and is_const(hi, None) and all(s == "1" for s in axis):
                return list(range(len(axis) - 1, -1, -1)), False
            if st is not None and not is_const(st, None) and not is_const(st, 1):
                raise self.irr(n, "strided slice")
            a = 0 if is_const(lo, None) else self.cut(axis, lo, n)
            b = len(axis) if is_const(hi, None) else self.cut(axis, hi, n)
            return list(range(a, b)), False
        e = sp.sympify(self.num(i))
        if not e.is_Integer:
            raise self.irr(n, f"index {show(i, 3)}")
        k = int(e)
        if k >= 0:
            if k < len(axis) and all(s == "1" for s in axis[:k + 1]):
                return [k], True
        else:
            if -k <= len(axis) and all(s == "1" for s in axis[k:]):
                return [len(axis) + k], True
        raise self.irr(n, f"element {k} of a symbolic axis")

    def cut(self, axis, node, n):
        e = sp.sympify(self.num(node))
        pos = sp.Integer(0)
        for s in range(len(axis) + 1):
            if sp.expand(pos - e) == 0:
                return s
            if s < len(axis):
                pos += size_sym(axis[s])
        if e.is_Integer and e < 0:
            pos = sp.Integer(0)
            for s in range(len(axis), -1, -1):
                if pos == e:
                    return s
                if s:
                    pos -= size_sym(axis[s - 1])
        raise self.irr(n, f"slice bound {e} on axis {axis}")

    def index_value(self, v, i, n):
        parts = list(i.args) if i.op == "tuple" else [i]
        parts = [p for p in parts]
        if any(p.op == "const" and p.payload is Ellipsis or p.op == "ext" and p.payload == "Ellipsis" for p in parts):
            k = [q for q, p in enumerate(parts) if (p.op == "const" and p.payload is Ellipsis) or (p.op == "ext" and p.payload == "Ellipsis")][0]
            nreal = len([p for p in parts if not self.newaxis(p)]) - 1
            parts[k:k + 1] = [N("slice", None, (N("const", None), N("const", None), N("const", None)))] * (len(v.axes) - nreal)
        axis = 0
        for p in parts:
            if self.newaxis(p):
                v = add_axis(v, axis)
                axis += 1
                continue
            if axis >= len(v.axes):
                raise self.irr(n, "too many indices")
            if p.vn in self.loopenv:
                v = self.at_loop(v, axis, p, n)
                continue
            if p.op == "list" and len(parts) == 1 and p.args and not any(x.op == "list" for x in p.args):
                v = self.stack([self.index_value(v, x, n) for x in p.args])
                axis += 1
                continue
            g = self.gather(v, axis, p, n)
            if g is not None:
                axis += len(g.axes) - len(v.axes) + 1
                v = g
                continue
            segs, drop = self.segments(v.axes[axis], p, n)
            v = take(v, axis, segs, drop)
            if not drop:
                axis += 1
        return v

    def newaxis(self, p):
        return is_const(p, None) or (p.op == "ext" and p.payload == "numpy.newaxis")

    def index(self, n):
        b, i = n.args
        if b.op == "getattr" and b.payload == "shape":
            v = self.t(b.args[0])
            k = int(self.num(i))
            return scalar(sum(size_sym(s) for s in v.axes[k]))
        if self.diag_index(i) is not None and (i.op != "tuple"):
            return trace_diag(self.t(b))
        if b.op == "call" and b.payload[0] in ("numpy.unique", "pandas.factorize") and is_const(i) and \
                (b.payload[0] == "pandas.factorize" or "return_inverse" in b.payload[2]):
            lab = self.t(b.args[0])
            if i.payload == (0 if b.payload[0] == "pandas.factorize" else 1) and len(b.payload[2]) <= 1:
                return self.codes(lab, n)
            if i.payload in (0, 1):
                return self.uniques(lab, n)
        if b.op == "call" and b.payload[0] in ("numpy.linalg.lstsq", "scipy.linalg.lstsq") and is_const(i, 0):
            return matmul(inverse(self.t(b.args[0])), self.t(b.args[1]))
        return self.index_value(self.t(b), i, n)

    def literal_index(self, p):
        """positions listed by a literal index array, else None"""
        for _ in range(4):
            if p.op == "call" and p.payload[0] in ("numpy.array", "numpy.asarray") and p.args:
                p = p.args[0]
            elif p.op == "mcall" and p.payload[0] in TRANSPARENT_M:
                p = p.args[0]
            else:
                break
        if p.op == "list" and all(is_const(x) and isinstance(x.payload, int) for x in p.args):
            return [x.payload for x in p.args]
        if p.op == "call" and p.payload[0] == "numpy.arange" and all(is_const(x) and isinstance(x.payload, int) for x in p.args):
            return list(range(*[x.payload for x in p.args]))
        return None

    def store(self, b, i, v, n):
        parts = list(i.args) if i.op == "tuple" else [i]
        lits = [self.literal_index(p) for p in parts]
        if any(x is not None for x in lits):
            if all(x is not None for x in lits) and len(parts) == len(b.axes) and len({len(x) for x in lits}) == 1 and not v.axes \
                    and all(set(a) <= {"1"} for a in b.axes):
                data = dict(b.data)
                for k in zip(*lits):
                    if any(q >= len(a) for q, a in zip(k, b.axes)):
                        raise self.irr(n, "slice bound out of range")
                    data[k] = v.scalar
                return TV(b.axes, data)
            raise self.irr(n, "store through index arrays")
        if len(parts) > len(b.axes):
            raise self.irr(n, "too many indices")
        sel, drops = [], []
        for k, a in enumerate(b.axes):
            if k < len(parts):
                s, d = self.segments(a, parts[k], n)
            else:
                s, d = list(range(len(a))), False
            sel.append(s)
            drops.append(d)
        tgt_axes = [tuple(b.axes[k][s] for s in sel[k]) for k in range(len(b.axes)) if not drops[k]]
        tgt = TV(tgt_axes, {k: sp.Integer(0) for k in keys(tgt_axes)})
        val = elementwise(lambda x, y: y, tgt, v)
        if len(val.axes) != len(tgt_axes):
            raise self.irr(n, "stored value has too many axes")
        # map compact positions back
        pos = [k for k in range(len(b.axes)) if not drops[k]]
        m = {ix(j): ix(p) for j, p in enumerate(pos)}
        data = dict(b.data)
        for k in keys(tgt_axes):
            full = []
            j = 0
            for a in range(len(b.axes)):
                if drops[a]:
                    full.append(sel[a][0])
                else:
                    full.append(sel[a][k[j]])
                    j += 1
            data[tuple(full)] = val.data[k].xreplace(m)
        return TV(b.axes, data)

    def getattr(self, n):
        a = n.payload
        if a == "T":
            return transpose(self.t(n.args[0]))
        if a in ("A", "real"):
            return self.t(n.args[0])
        if a in ("eps", "resolution", "tiny") and n.args[0].op == "call" and n.args[0].payload[0] == "numpy.finfo":
            return scalar(sp.Symbol("EPS"))
        if a == "size":
            v = self.t(n.args[0])
            e = sp.Integer(1)
            for ax in v.axes:
                e *= sum(size_sym(s) for s in ax)
            return scalar(e)
        if a == "ndim":
            return scalar(len(self.t(n.args[0]).axes))
        if a == "shape":
            v = self.t(n.args[0])
            return self.stack([scalar(sum(size_sym(s) for s in ax)) for ax in v.axes])
        raise self.irr(n, f"attribute {show(n, 3)} has no algebraic form")

    # ---------------------------------------------------------------- calls
    def shape_axes(self, node, n):
        """axes denoted by a shape argument"""
        if node.op in ("tuple", "list"):
            return tuple(self.axis_of_size(self.num(a), n) for a in node.args)
        if node.op == "getattr" and node.payload == "shape":
            return self.t(node.args[0]).axes
        return (self.axis_of_size(self.num(node), n),)

    KINDS = ("n", "p", "z", "g", "q", "a", "m")

    def axis_of_size(self, e, n):
        e = sp.expand(sp.sympify(e))
        if e.is_Integer and 0 < e <= 8:
            return ("1",) * int(e)
        ax = ()
        c = e.subs({size_sym(k): 0 for k in self.KINDS})
        if c.is_Integer and c >= 0:
            ax = ("1",) * int(c)
            r = e - c
            for k in self.KINDS:
                q = r.coeff(size_sym(k))
                if q == 1:
                    ax += (k,)
                    r = r - size_sym(k)
            if sp.expand(r) == 0 and ax:
                return ax
        raise self.irr(n, f"array of extent {e}")

    def cols_ok(self, cols, v, n):
        """cols= restriction to the nonzero entries of v changes nothing"""
        if cols is None or is_const(cols, None):
            return True
        seen = set()

        def find(x, d=0):
            if d > 12 or x.id in seen:
                return None
            seen.add(x.id)
            if x.op == "cmp" and x.payload == "!=" and is_const(x.args[1]) and x.args[1].payload == 0:
                return x.args[0]
            if x.op == "call" and x.payload[0] in ("numpy.nonzero", "numpy.flatnonzero") and x.args and \
                    x.args[0].op not in ("cmp",):
                return x.args[0]
            for y in x.args:
                r = find(y, d + 1)
                if r is not None:
                    return r
            return None

        src = find(cols)
        if src is None:
            return False
        return equal(self.t(src), v) is None

    def rows_ok(self, r):
        return r is None or is_const(r, None)

    def call(self, n):
        d, npos, kws = n.payload
        a = n.args
        kw = dict(zip(kws, a[npos:]))
        short = d.split(".")[-1]
        if d in TRANSPARENT and a:
            return self.t(a[0])
        if d == "numpy.array" and a:
            return self.t(a[0])
        if short in ("ones_like", "zeros_like", "empty_like", "full_like"):
            v = self.t(a[0])
            e = {"ones_like": 1, "zeros_like": 0}.get(short)
            if short == "full_like":
                return elementwise(lambda x, y: y, v, self.t(a[1] if npos > 1 else kw["fill_value"]))
            if e is None:
                e = sp.Symbol(f"UNINIT_{n.id}")
            return fill(v.axes, e)
        if short in ("ones", "zeros", "empty") and d.startswith("numpy."):
            e = {"ones": sp.Integer(1), "zeros": sp.Integer(0)}.get(short, sp.Symbol(f"UNINIT_{n.id}"))
            return fill(self.shape_axes(a[0] if npos else kw["shape"], n), e)
        if d == "numpy.full":
            ax = self.shape_axes(a[0] if npos else kw["shape"], n)
            v = self.t(a[1] if npos > 1 else kw["fill_value"])
            return elementwise(lambda x, y: y, fill(ax, 0), v)
        if d in ("numpy.eye", "numpy.identity", "scipy.sparse.identity", "scipy.sparse.eye"):
            return diag_matrix(fill(self.shape_axes(a[0], n), 1))
        if d in ("numpy.diag", "scipy.sparse.diags", "scipy.sparse.diags_array"):
            v = self.t(a[0])
            return diag_matrix(v) if len(v.axes) == 1 else trace_diag(v)
        if d in ("numpy.diagonal",):
            return trace_diag(self.t(a[0]))
        if d in ("numpy.concatenate", "numpy.hstack", "numpy.append", "numpy.r_", "tabmat.hstack", "numpy.vstack",
                 "scipy.sparse.hstack", "numpy.column_stack"):
            items = list(a[0].args) if a[0].op in ("tuple", "list") else None
            if d == "numpy.append":
                items = [a[0], a[1]]
            if items is None:
                raise self.irr(n, "concatenation of an unknown sequence")
            vs = [self.t(x) for x in items]
            vs = [v if v.axes else add_axis(v, 0) for v in vs]
            axis = 0
            if d == "numpy.concatenate" and "axis" in kw:
                axis = int(self.num(kw["axis"]))
            elif d in ("numpy.hstack", "tabmat.hstack", "scipy.sparse.hstack"):
                axis = 0 if len(vs[0].axes) == 1 else 1
            elif d == "numpy.column_stack":
                vs = [v if len(v.axes) == 2 else add_axis(v, 1) for v in vs]
                axis = 1
            elif d == "numpy.vstack":
                vs = [v if len(v.axes) == 2 else add_axis(v, 0) for v in vs]
            return concat(vs, axis)
        if d == "numpy.count_nonzero" and npos == 1:
            v = self.t(a[0])
            if not (a[0].op in ("cmp", "not")):
                v = elementwise(lambda x: 1 - sp.Function("EQ")(*sorted((x, sp.Integer(0)), key=str)), v)
            return self.reduce(v, kw.get("axis"))
        if d == "numpy.stack":
            if a[0].op not in ("tuple", "list"):
                raise self.irr(n, "stack of an unknown sequence")
            vs = [self.t(x) for x in a[0].args]
            axn = kw.get("axis", a[1] if npos > 1 else None)
            axis = 0 if axn is None else int(self.num(axn))
            if axis < 0:
                axis += len(vs[0].axes) + 1
            return concat([add_axis(v, axis) for v in vs], axis)
        if d == "numpy.unique" and npos == 1 and not kws:
            return self.uniques(self.t(a[0]), n)
        if d == "numpy.insert" and npos == 3 and is_const(a[1], 0):
            v, x = self.t(a[0]), self.t(a[2])
            return concat([x if x.axes else add_axis(x, 0), v], 0)
        if d == "numpy.broadcast_to" and npos == 1 and not kws:
            return self.t(a[0])  # one of several arrays broadcast together
        if d == "numpy.broadcast_to":
            return elementwise(lambda x, y: y, fill(self.shape_axes(a[1] if npos > 1 else kw["shape"], n), 0), self.t(a[0]))
        if d == "numpy.tile" and npos == 2:
            return self.tile(self.t(a[0]), a[1], n)
        if d == "numpy.repeat" and (npos == 3 or "axis" in kw):
            v, axn = self.t(a[0]), int(self.num(a[2] if npos > 2 else kw["axis"]))
            axn += len(v.axes) if axn < 0 else 0
            if v.axes[axn] == ("1",):
                return self.widen(v, axn, self.axis_of_size(self.num(a[1]), n))
        if d == "numpy.expand_dims":
            ax = self.num(a[1] if npos > 1 else kw["axis"])
            v = self.t(a[0])
            return add_axis(v, int(ax) if ax >= 0 else len(v.axes) + 1 + int(ax))
        if d == "numpy.outer":
            return elementwise(lambda x, y: x * y, add_axis(self.t(a[0]), 1), self.t(a[1]))
        if d in ("numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot"):
            x, y = self.t(a[0]), self.t(a[1])
            if not x.axes or not y.axes:
                return elementwise(lambda p, q: p * q, x, y)
            return matmul(x, y)
        if d in ("numpy.linalg.inv", "scipy.linalg.inv", "numpy.linalg.pinv", "scipy.linalg.pinvh"):
            return inverse(self.t(a[0]))
        if d in ("numpy.linalg.solve", "scipy.linalg.solve"):
            return matmul(inverse(self.t(a[0])), self.t(a[1]))
        if d in ("numpy.sum", "builtins.sum"):
            v = self.t(a[0])
            axn = kw.get("axis", a[1] if npos > 1 and d == "numpy.sum" else None)
            return self.reduce(v, axn)
        if d == "numpy.mean":
            v = self.t(a[0])
            return self.mean(v, kw.get("axis"))
        if d == "numpy.average":
            v = self.t(a[0])
            w = kw.get("weights", a[2] if npos > 2 else None)
            if w is None or is_const(w, None):
                return self.mean(v, kw.get("axis"))
            wv = self.t(w)
            num = self.reduce(elementwise(lambda x, y: x * y, v, wv), kw.get("axis"))
            den = self.reduce(wv, None)
            return elementwise(lambda x, y: x / y, num, den)
        if d == "builtins.len":
            v = self.t(a[0])
            return scalar(sum(size_sym(s) for s in v.axes[0]))
        if d in ("numpy.squeeze",):
            return self.squeeze(self.t(a[0]))
        if d in ("numpy.ravel",):
            return self.ravel(self.t(a[0]), n)
        if d in ("numpy.reshape",):
            rep = self.repeated(a[0], [a[1]], n)
            if rep is not None:
                return rep
            return self.reshape(self.t(a[0]), list(a[1].args) if a[1].op in ("tuple", "list") else [a[1]], n)
        if d in ("numpy.transpose",):
            return transpose(self.t(a[0]))
        if d in ("numpy.atleast_1d",):
            v = self.t(a[0])
            return v if v.axes else add_axis(v, 0)
        if d in ("numpy.where",) and npos == 3:
            m = self.indicator(a[0])
            if m is not None:
                return self.select(m, self.t(a[1]), self.t(a[2]))
            return self.t(a[1]) if self.cond(a[0]) else self.t(a[2])
        if d == "numpy.clip":
            return self.t(a[0])  # interior of the clip
        if d == "builtins.int" and a:
            v = self.t(a[0])
            return v
        if d == "numpy.shape":
            v = self.t(a[0])
            return self.stack([scalar(sum(size_sym(s) for s in ax)) for ax in v.axes])
        if d in ("numpy.finfo",):
            raise self.irr(n, "finfo")
        if d.startswith("scipy.stats."):
            return self.stats(d.split(".")[-2], short, [self.t(x) for x in a[:npos]] + [self.t(kw[k]) for k in ("df", "loc", "scale") if k in kw], n)
        if d.startswith(("numpy.", "scipy.", "math.", "builtins.")):
            odd = [k for k in kws if k not in ("dtype", "copy", "order", "casting", "check_finite")]
            if odd:
                raise self.irr(n, f"{d} with {odd}")
            vs = [self.t(x) for x in a[:npos]]

            def f(*xs):
                r = math_call(short, list(xs))
                if r is None:
                    raise self.irr(n, f"no algebraic form for {d}")
                return r

            if vs and short not in ("max", "min"):
                return elementwise(f, *vs)
        raise self.irr(n, f"no algebraic form for {d}")

    def widen(self, v, k, axis):
        """the single entry of axis k repeated along the given axis"""
        return elementwise(lambda x, y: y, fill(v.axes[:k] + (axis,) + v.axes[k + 1:], 0), v)

    def tile(self, v, reps, n):
        parts = list(reps.args) if reps.op in ("tuple", "list") else [reps]
        while len(v.axes) < len(parts):
            v = add_axis(v, 0)
        if len(parts) == len(v.axes):
            for k, p in enumerate(parts):
                e = self.num(p)
                if e != 1:
                    if v.axes[k] != ("1",):
                        break
                    v = self.widen(v, k, self.axis_of_size(e, n))
            else:
                return v
        raise self.irr(n, "no algebraic form for this tiling")

    def repeated(self, x, dims, n):
        """reshape(repeat(v, k), (len(v), k)) and reshape(tile(v, k), (k, len(v)))"""
        if not (x.op == "call" and x.payload[0] in ("numpy.repeat", "numpy.tile") and x.payload[1] == 2 and not x.payload[2]):
            return None
        v = self.t(x.args[0])
        if len(v.axes) != 1:
            return None
        if len(dims) == 1:
            if dims[0].op not in ("tuple", "list"):
                axes = self.shape_axes(dims[0], n)
            else:
                dims = dims[0].args
        k = self.axis_of_size(self.num(x.args[1]), n)
        if len(dims) == 2:
            sizes = [self.num(d) for d in dims]
            axes = [k if e == -1 else self.axis_of_size(e, n) for e in sizes]
            if -1 in sizes:
                j = sizes.index(-1)
                axes[j] = v.axes[0] if axes[1 - j] == k and k != v.axes[0] else k
        if len(axes) != 2:
            return None
        axes = tuple(axes)
        want = (v.axes[0], k) if x.payload[0] == "numpy.repeat" else (k, v.axes[0])
        if axes == want:
            return elementwise(lambda p, q: q, fill(axes, 0), add_axis(v, 1 if x.payload[0] == "numpy.repeat" else 0))
        if sorted(axes) == sorted(want):
            raise self.irr(n, "entries scrambled: shape of the repetition and of the result do not agree")
        return None

    def stats(self, dist, m, vs, n):
        """cdf/sf/ppf/isf in terms of cdf and ppf; norm and t are symmetric"""
        if m not in ("cdf", "sf", "ppf", "isf"):
            raise self.irr(n, f"no algebraic form for {dist}.{m}")

        def f(x, *rest):
            sym = dist in ("norm", "t")
            if m in ("cdf", "sf"):
                F = sp.Function(f"cdf_{dist}")
                if sym and x.could_extract_minus_sign():
                    r = 1 - F(-x, *rest)
                else:
                    r = F(x, *rest)
                return r if m == "cdf" else 1 - r
            q = sp.expand(x if m == "ppf" else 1 - x)
            G = sp.Function(f"ppf_{dist}")
            q2 = sp.expand(1 - q)
            if sym and str(q2) < str(q):
                return -G(q2, *rest)
            return G(q, *rest)

        return elementwise(f, *vs)

    def label_name(self, lab, n):
        nm = getattr(lab.data.get((0,), sp.Integer(0)).func, "__name__", "") if lab.axes == (("n",),) else ""
        if not nm.startswith("LAB"):
            raise self.irr(n, "distinct values of a computed array")
        return nm

    def codes(self, lab, n):
        return atom("IDX_g_" + self.label_name(lab, n), (("n",),))

    def uniques(self, lab, n):
        return atom("UNQ_" + self.label_name(lab, n), (("g",),))

    def reduce(self, v, axn):
        if axn is None or is_const(axn, None):
            while v.axes:
                v = sum_axis(v, 0)
            return v
        return sum_axis(v, int(self.num(axn)))

    def mean(self, v, axn):
        r = self.reduce(v, axn)
        if axn is None or is_const(axn, None):
            s = sp.Integer(1)
            for ax in v.axes:
                s *= sum(size_sym(x) for x in ax)
        else:
            s = sum(size_sym(x) for x in v.axes[int(self.num(axn))])
        return elementwise(lambda x: x / s, r)

    def squeeze(self, v):
        k = 0
        while k < len(v.axes):
            if v.axes[k] == ("1",):
                v = take(v, k, [0], True)
            else:
                k += 1
        return v

    def ravel(self, v, n):
        w = self.squeeze(v)
        if len(w.axes) == 0:
            return add_axis(w, 0)
        if len(w.axes) == 1:
            return w
        raise self.irr(n, "ravel of a matrix")

    def reshape_explicit(self, v, ds):
        """row-major rearrangement of axes of known length; a last symbolic axis stays"""
        k = 0
        while k < len(v.axes) and all(s == "1" for s in v.axes[k]):
            k += 1
        rest = v.axes[k:]
        if len(rest) > 1 or k < 2 and len(ds) < 2:
            return None
        ds = [sp.sympify(d) for d in ds]
        if rest:
            if not ds or sp.expand(ds[-1] - sum(size_sym(s) for s in rest[0])) != 0 and ds[-1] != -1:
                return None
            ds = ds[:-1]
        if not all(d.is_Integer for d in ds):
            return None
        total, known = 1, 1
        for a in v.axes[:k]:
            total *= len(a)
        for d in ds:
            known *= int(d) if d != -1 else 1
        if sum(d == -1 for d in ds) > 1 or known == 0 or total % known or (total != known and not any(d == -1 for d in ds)):
            return None
        ds = [int(d) if d != -1 else total // known for d in ds]
        lead = [kk for kk in keys(v.axes[:k])]
        out = {}
        drop = {ix(j): ix(j - k + len(ds)) for j in range(k, len(v.axes))}
        for src, dst in zip(lead, itertools.product(*[range(d) for d in ds])):
            for kk in keys(rest):
                out[dst + kk] = sp.sympify(v.data[src + kk]).xreplace(drop)
        return TV(tuple(("1",) * d for d in ds) + rest, out)

    def reshape(self, v, dims, n):
        ds = [self.num(x) for x in dims]
        r = self.reshape_explicit(v, ds)
        if r is not None:
            return r
        w = self.ravel(v, n)
        if len(ds) == 1:
            return w
        out = w
        if len(ds) == 2 and ds[1] == 1:
            return add_axis(out, 1)
        if len(ds) == 2 and ds[0] == 1:
            return add_axis(out, 0)
        raise self.irr(n, "reshape")

    def mcall(self, n):
        m, npos, kws = n.payload[:3]
        a = n.args
        kw = dict(zip(kws, a[npos:]))
        arg = lambda k, name: a[k] if npos > k else kw.get(name)
        if m in TRANSPARENT_M:
            return self.t(a[0])
        if m == "ravel" or m == "flatten":
            return self.ravel(self.t(a[0]), n)
        if m == "squeeze":
            return self.squeeze(self.t(a[0]))
        if m == "reshape":
            rep = self.repeated(a[0], list(a[1:npos]), n)
            if rep is not None:
                return rep
            dims = list(a[1].args) if a[1].op in ("tuple", "list") else list(a[1:npos])
            return self.reshape(self.t(a[0]), dims, n)
        if m == "transpose":
            return transpose(self.t(a[0]))
        if m == "diagonal":
            return trace_diag(self.t(a[0]))
        if m == "sum":
            return self.reduce(self.t(a[0]), arg(1, "axis"))
        if m == "mean":
            return self.mean(self.t(a[0]), arg(1, "axis"))
        if m == "dot":
            x, y = self.t(a[0]), self.t(a[1])
            if not x.axes or not y.axes:
                return elementwise(lambda p, q: p * q, x, y)
            return matmul(x, y)
        if m == "matvec":
            v = self.t(arg(1, "vec") if npos > 1 or "vec" in kw else kw.get("v"))
            if not self.cols_ok(arg(2, "cols"), v, n):
                raise self.irr(n, "matvec restricted to some columns")
            return matmul(self.t(a[0]), v)
        if m == "transpose_matvec":
            v = self.t(arg(1, "vec"))
            if not (self.rows_ok(arg(2, "rows")) and self.rows_ok(arg(3, "cols"))):
                raise self.irr(n, "transpose_matvec restricted to some rows or columns")
            return matmul(transpose(self.t(a[0])), v)
        if m == "sandwich":
            d = self.t(arg(1, "d"))
            if not (self.rows_ok(arg(2, "rows")) and self.rows_ok(arg(3, "cols"))):
                raise self.irr(n, "sandwich restricted to some rows or columns")
            X = self.t(a[0])
            return matmul(transpose(X), elementwise(lambda x, y: x * y, add_axis(d, 1), X))
        if m in ("getcol", "getrow") and npos == 2:
            axis = 1 if m == "getcol" else 0
            v = self.t(a[0])
            v = self.at_loop(v, axis, a[1], n) if a[1].vn in self.loopenv else self.index_value(transpose(v) if axis else v, a[1], n)
            return add_axis(v, axis)
        if m == "multiply":
            x, y = self.t(a[0]), self.t(a[1])
            if len(x.axes) == 2 and len(y.axes) == 1:
                raise self.irr(n, "multiply by a vector")
            return elementwise(lambda p, q: p * q, x, y)
        if m == "clip":
            return self.t(a[0])
        raise self.irr(n, f"no algebraic form for method {m}")

    # ----------------------------------------------------------- conditions
    def cond(self, n):
        if n.op == "const":
            return bool(n.payload)
        if n.vn in self.env:
            v = self.env[n.vn]
            if isinstance(v, bool):
                return v
        if n.op == "not":
            return not self.cond(n.args[0])
        if n.op == "and":
            return all(self.cond(x) for x in n.args)
        if n.op == "or":
            return any(self.cond(x) for x in n.args)
        if n.op == "phi":
            return self.cond(n.args[0 if self.cond(n.meta) else 1])
        if n.op == "cmp" and n.payload in ("is", "is not") and is_const(n.args[1], None):
            x = n.args[0]
            for _ in range(30):
                if x.op == "phi":
                    x = x.args[0 if self.cond(x.meta) else 1]
                else:
                    break
            if x.op == "const":
                r = x.payload is None
                return r if n.payload == "is" else not r
            if x.vn in self.env or x.op in ("bin", "inplace", "tuple", "list", "un", "dict"):
                return n.payload != "is"
            if x.op == "call" and x.payload[0].startswith(("numpy.", "tabmat.", "scipy.")):
                return n.payload != "is"
            return self.decide.ask(("cond", n.vn, show(n, 3)))
        if n.op == "cmp" and n.payload in ("<", "<=", ">", ">=", "==", "!="):
            try:
                a, b = self.t(n.args[0]), self.t(n.args[1])
                if not a.axes and not b.axes:
                    return self.decide.rel(n.payload, a.scalar, b.scalar)
            except Irregular:
                pass
        return self.decide.ask(("cond", n.vn, show(n, 3)))


def reduce_all(v):
    while v.axes:
        v = sum_axis(v, 0)
    return v.data[()]
