"""Abstract values of caller-supplied inputs: which numbers may and must occur, shapes, types.

Conditions of the analysed code are decided in this domain; what it cannot decide stays open."""
from __future__ import annotations

import math
from dataclasses import dataclass, field, replace

from . import tensor as T
from .nodes import N, is_const

INF = math.inf
# name -> open or degenerate interval; nan has none
CATS = {"-inf": (-INF, -INF), "neg": (-INF, 0), "0": (0, 0), "mid": (0, 1), "1": (1, 1), "big": (1, INF), "inf": (INF, INF), "nan": None}
FINITE = ("neg", "0", "mid", "1", "big")
POS = ("mid", "1", "big")
NONFINITE = ("-inf", "inf", "nan")
PY = {"bool": ("bool", "int"), "int": ("int",), "float": ("float",), "str": ("str",), "dict": ("dict", "Mapping", "Iterable"), "tuple": ("tuple", "Iterable"),
      "list": ("list", "Iterable"), "ndarray": ("ndarray", "Iterable"), "other": ()}


@dataclass(frozen=True)
class V:
    kind: str  # num, str, none, other
    type: str = "float"
    some: frozenset = frozenset()  # categories of which a member certainly occurs
    may: frozenset = frozenset()  # categories members can come from
    dims: tuple = ()  # one token per axis
    cls: tuple = ()  # qualified names of external classes it is an instance of

    @property
    def ndim(self):
        return len(self.dims)


def scalar(*may, type="float"):
    m = frozenset(may)
    return V("num", type, m if len(m) == 1 else frozenset(), m)


def array(dims, may, some=(), type="ndarray", cls=("numpy.ndarray",)):
    return V("num", type, frozenset(some), frozenset(may) | frozenset(some), tuple(dims), tuple(cls))


STRING = V("str", "str")
OTHER = V("other", "other")


def word(*options):
    return V("str", "str", may=frozenset(options))


def cat_of(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, (int, float)):
        if c != c:
            return "nan"
        for k, iv in CATS.items():
            if iv is None:
                continue
            if iv[0] == iv[1]:
                if c == iv[0]:
                    return k
            elif iv[0] < c < iv[1]:
                return k
    return None


def cmp_cat(op, cat, c):
    """truth of ``member of cat  op  c`` for a number c, if the same for all members"""
    iv = CATS[cat]
    if iv is None or c != c:
        return op == "!="
    lo, hi = iv
    point = lo == hi
    if op in ("==", "!="):
        if point:
            r = lo == c
        elif c <= lo or c >= hi:
            r = False
        else:
            return None
        return r if op == "==" else not r
    if op in (">", ">="):
        r = cmp_cat("<=" if op == ">" else "<", cat, c)
        return None if r is None else not r
    if point:
        return lo < c if op == "<" else lo <= c
    if hi <= c:
        return True
    if lo >= c:
        return False
    return None


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


UFUNC = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}


def comparison(n):
    """operator of an elementwise comparison"""
    if n.op == "cmp" and n.payload in FLIP:
        return n.payload
    if n.op == "call" and n.payload[0].startswith(("numpy.", "operator.", "_operator.")) and len(n.args) >= 2:
        s = n.payload[0].split(".")[-1]
        return UFUNC.get(s) or {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}.get(s)
    return None


def parts(d):
    """symbols and constant of the token of a length"""
    xs = d.split("+")
    num = [x for x in xs if x.lstrip("-").isdigit()]
    return [x for x in xs if x not in num], sum(int(x) for x in num)


def arith(op, a, b):
    """categories a result can fall in"""
    ia, ib = CATS[a], CATS[b]
    if ia is None or ib is None:
        return {"nan"}
    every = set(CATS)
    if any(math.isinf(x) for x in (ia[0], ib[0]) if a.endswith("inf") or b.endswith("inf")):
        return every
    (al, ah), (bl, bh) = ia, ib
    try:
        if op == "-":
            lo, hi = al - bh, ah - bl
        elif op == "+":
            lo, hi = al + bl, ah + bh
        elif op == "*":
            if "0" in (a, b):
                return {"0"}
            ps = [0.0 if 0 in (x, y) else x * y for x in (al, ah) for y in (bl, bh)]
            lo, hi = min(ps), max(ps)
        else:
            if b == "0":
                return every
            if a == "0":
                return {"0"}
            if b == "1":
                return {a}
            return set(POS) if (a == "neg") == (b == "neg") else {"neg"}
    except (OverflowError, ValueError):
        return every
    point = al == ah and bl == bh
    return {k for k in FINITE if (CATS[k][0] == CATS[k][1] and (lo < CATS[k][0] < hi or point and lo == CATS[k][0])) or CATS[k][0] != CATS[k][1] and CATS[k][0] < hi and lo < CATS[k][1]
            or point and CATS[k][0] < lo < CATS[k][1]}


class World:
    """Decides conditions of one run for inputs known only abstractly."""

    def __init__(self, it, values=None, less=None):
        self.it = it
        self.values = dict(values or {})  # vn -> V
        self.order = dict(less or {})  # (vn, vn) -> set of comparison outcomes that occur between the two arrays, e.g. {"<", "="}
        it.truth_hook = self.truth
        it.raise_hook = self.raises
        self.st = None
        self.busy = set()
        self.memo, self.tmemo = {}, {}  # within one question
        self.distinct = set()
        self.stds = POS  # standard deviations of the columns

    def put(self, n, v):
        self.values[n.vn] = v
        if v.kind == "num" and v.ndim:
            if not any(c.startswith("tabmat.") for c in v.cls):
                self.it.arrays.add(n.vn)
        elif v.kind in ("num", "str"):
            self.it.scalars.add(n.vn)
        if n.op == "src":
            self.it.nonnull.add(n.payload)
        return n

    # ------------------------------------------------------------- values
    def val(self, n, depth=0):
        v = self.values.get(n.vn)
        if v is not None:
            return v
        if depth > 25:
            return None
        hit = self.memo.get(n.id)
        if hit is not None and (hit[0] is not None or hit[1] <= depth):
            return hit[0]
        v = self._val(n, depth)
        self.memo[n.id] = (v, depth)
        return v

    def _val(self, n, depth):
        rec = lambda x: self.val(x, depth + 1)
        if n.op == "const":
            p = n.payload
            if p is None:
                return V("none", "none")
            if isinstance(p, str):
                return STRING
            c = cat_of(p)
            return None if c is None else scalar(c, type=type(p).__name__)
        if n.op == "ext" and n.payload in ("numpy.inf", "math.inf", "numpy.nan", "math.nan"):
            return scalar(n.payload.split(".")[1])
        if n.op == "refine":
            return rec(n.args[0])
        if n.op == "phi":
            c = self.it.truth(n.meta, self.st) if self.st is not None else None
            if c is not None:
                return rec(n.args[0 if c else 1])
            a, b = rec(n.args[0]), rec(n.args[1])
            if a is not None and b is not None and a.kind == b.kind == "num" and a.dims == b.dims:
                return V("num", a.type if a.type == b.type else "ndarray", a.some & b.some, a.may | b.may, a.dims, tuple(c for c in a.cls if c in b.cls))
            return a if a == b else None
        if n.op == "mcall" and n.payload[0] == "__call__" and len(n.args) > 1 and n.args[0].op == "call" and n.args[0].payload[0] == "builtins.type":
            v, o = rec(n.args[1]), rec(n.args[0].args[0])
            return replace(v, cls=o.cls) if v is not None and o is not None and v.kind == o.kind == "num" else None
        if n.op == "un" and n.payload == "-":
            v = rec(n.args[0])
            if v is not None and v.kind == "num":
                m = {"-inf": "inf", "inf": "-inf", "0": "0", "nan": "nan", "mid": "neg", "1": "neg", "big": "neg"}
                if all(c in m for c in v.may):
                    return replace(v, some=frozenset(m[c] for c in v.some), may=frozenset(m[c] for c in v.may))
            return None
        if n.op == "dict":
            return V("other", "dict")
        if n.op in ("tuple", "list"):
            vs = [rec(a) for a in n.args]
            if vs and all(v is not None and v.kind == "num" and not v.ndim for v in vs):
                may = frozenset().union(*[v.may for v in vs])
                return V("num", n.op, frozenset().union(*[v.some for v in vs]), may, (str(len(vs)),))
            return None
        if n.op == "index" and is_const(n.args[1]) and n.args[0].op == "call" and n.args[0].payload[0].split(".")[-1] in ("validate_data", "_validate_data", "check_X_y"):
            c = n.args[0]
            pos = list(c.args[:c.payload[1]])
            k = n.args[1].payload + (1 if "validate_data" in c.payload[0] else 0)
            if k < len(pos):
                v = rec(pos[k])
                return self.as_array(v)
        if n.op == "elem" and n.args:
            v = rec(n.args[0])
            if v is not None and v.kind == "num" and v.ndim == 1 and v.may:
                return scalar(*v.may)
            if v is not None and v.kind == "num" and v.ndim == 2 and v.may:
                return replace(v, some=frozenset(), dims=v.dims[1:])
            return None
        if n.op == "index" and n.args[1].op == "slice":
            v = rec(n.args[0])
            if v is None or v.kind != "num" or not v.ndim:
                return None
            whole = all(is_const(x, None) or i == 2 and is_const(x, -1) for i, x in enumerate(n.args[1].args))
            return v if whole else replace(v, some=frozenset(), dims=(f"rows{n.args[1].vn}",) + v.dims[1:])
        if n.op == "index" and is_const(n.args[1]) and type(n.args[1].payload) is int and n.args[0].op != "mcall" and not (n.args[0].op == "call" and n.args[0].payload[0].split(".")[-1] in (
                "validate_data", "_validate_data", "check_X_y")):
            v = rec(n.args[0])
            if v is not None and v.kind == "num" and v.ndim and v.may:
                return replace(v, some=frozenset(), dims=v.dims[1:]) if v.ndim > 1 else scalar(*v.may)
        if n.op == "inplace" and n.payload == "setitem" and len(n.args) >= 3:
            a, b = rec(n.args[0]), rec(n.args[-1])
            if a is not None and b is not None and a.kind == b.kind == "num" and a.ndim:
                return replace(a, some=a.some & b.some, may=a.may | b.may)
            return None
        if n.op == "inplace" and n.payload == "alias" and n.args:
            return None
        if n.op == "index" and self.position(n.args[1]) and n.args[0].op != "mcall":
            v = rec(n.args[0])
            if v is not None and v.kind == "num" and v.ndim and v.may:
                return replace(v, some=frozenset(), dims=v.dims[1:]) if v.ndim > 1 else scalar(*v.may)
            return None
        if n.op == "index" and n.args[1].op not in ("const", "slice"):
            # selected rows
            v, k = rec(n.args[0]), n.args[1]
            if k.op == "tuple":
                if not k.args or any(x.op != "slice" or x.args and any(not is_const(y, None) for y in x.args) for x in k.args[1:]) or k.args[0].op in ("const", "slice"):
                    return None
                k = k.args[0]
            if v is not None and v.kind == "num" and v.ndim and k.op not in ("cmp", "and", "or", "not") and self.val(k) is None:
                return replace(v, some=frozenset(), dims=(f"rows{k.vn}",) + v.dims[1:])
            return None
        if n.op == "call":
            d = n.payload[0]
            s = d.split(".")[-1]
            if d in ("typing.cast",) and len(n.args) > 1:
                return rec(n.args[1])
            if s == "_validate_data" or s == "validate_data":
                pos = n.args[:n.payload[1]]
                return self.as_array(rec(pos[1])) if len(pos) > 1 else None
            if d == "numpy.full" and len(n.args) > 1:
                v, t = rec(n.args[1]), self.dim(n.args[0])
                if v is not None and v.kind == "num" and t is not None:
                    return replace(v, type="ndarray", dims=(t,), cls=("numpy.ndarray",))
            if d in ("numpy.ones", "numpy.zeros") and n.args:
                t = self.dim(n.args[0])
                if t is not None:
                    return array((t,), (), ("1" if s == "ones" else "0",))
            if s in ("as_tabmat", "as_tabmatrix") and n.args:
                v = rec(n.args[0])
                return None if v is None else replace(v, cls=tuple(v.cls) + ("tabmat.MatrixBase",))
            if s in ("check_array", "asarray", "asanyarray", "array", "ascontiguousarray", "column_or_1d", "atleast_1d", "ravel", "squeeze", "copy", "deepcopy",
                     "float32", "float64", "_check_sample_weight", "check_non_negative") and n.args:
                v = rec(n.args[0])
                if s in ("copy", "deepcopy", "float32", "float64") and v is not None and not v.ndim:
                    return v
                return self.as_array(v, s)
            if s in ("float", "int") and n.args:
                return rec(n.args[0])
            if d in ("numpy.sort", "builtins.sorted", "numpy.flip", "builtins.reversed", "numpy.unique", "builtins.list", "builtins.tuple") and n.args:
                v = rec(n.args[0])
                return self.as_array(v) if d.startswith("numpy.") else v
            if d == "numpy.tile" and len(n.args) > 1 and n.args[1].op == "tuple" and len(n.args[1].args) == 2:
                v = rec(n.args[0])
                if v is not None and v.kind == "num" and v.ndim == 1:
                    return replace(v, dims=(f"rows{n.vn}",) + v.dims)
            if d == "numpy.sum" and len(n.args) == 1 or d == "builtins.sum":
                return self.total(rec(n.args[0]))
            if d in ("numpy.min", "numpy.amin", "numpy.max", "numpy.amax", "builtins.min", "builtins.max", "numpy.nanmin", "numpy.nanmax") and len(n.args) == 1:
                return self.extreme(rec(n.args[0]), s.lstrip("a").replace("nan", ""))
            if n.args and n.args[0].op == "call" and d == "builtins.type":
                return None
        if n.op == "apply" or n.op == "call" and n.payload[0].startswith("?"):
            return None
        if n.op == "mcall":
            m = n.payload[0]
            if m in T.TRANSPARENT_M or m in ("astype", "copy", "ravel", "flatten", "unpack", "toarray", "to_numpy"):
                return rec(n.args[0])
            if m == "sum" and len(n.args) == 1:
                return self.total(rec(n.args[0]))
            if m in ("min", "max") and len(n.args) == 1:
                return self.extreme(rec(n.args[0]), m)
        if n.op == "index" and is_const(n.args[1]) and n.args[0].op == "mcall" and n.args[0].payload[0] == "standardize":
            v = rec(n.args[0].args[0])
            if v is not None and v.ndim == 2 and n.args[1].payload in (0, 1, 2):
                m = n.args[0]
                if n.args[1].payload == 2:
                    scale = m.args[3] if m.payload[1] > 3 else None
                    t = self.it.truth(scale, self.st) if scale is not None and self.st is not None else None
                    if not t:
                        return V("none", "none") if t is False else None
                return replace(v, cls=("tabmat.StandardizedMatrix",)) if n.args[1].payload == 0 else V("num", "ndarray", frozenset(), frozenset(FINITE if n.args[1].payload == 1 else self.stds), (v.dims[1],), ("numpy.ndarray",))
        if n.op == "bin" and n.payload in ("/", "*", "+", "-"):
            a, b = rec(n.args[0]), rec(n.args[1])
            if a is not None and b is not None and a.kind == b.kind == "num" and not a.ndim and not b.ndim:
                m = frozenset().union(*[arith(n.payload, x, y) for x in a.may for y in b.may])
                return scalar(*m) if m else None
            if n.payload in "+-":
                return None
            if a is not None and b is not None and a.kind == b.kind == "num" and (a.ndim and b.ndim and a.dims == b.dims or bool(a.ndim) != bool(b.ndim)):
                m = frozenset().union(*[arith(n.payload, x, y) for x in a.may for y in b.may])
                sure = frozenset()
                if m:
                    # what certainly occurs: a member of one operand that gives it whatever it is combined with
                    sure |= frozenset(c for x in a.some for c in m if all(arith(n.payload, x, y) == {c} for y in b.may))
                    sure |= frozenset(c for y in b.some for c in m if all(arith(n.payload, x, y) == {c} for x in a.may))
                    big = b if b.ndim else a
                    return V("num", "ndarray", sure, m, big.dims, big.cls or ("numpy.ndarray",))
            # scaling by something positive keeps signs and shape
            if n.payload == "*" and a is not None and b is not None and b.ndim and not a.ndim:
                a, b = b, a
            if a is not None and a.kind == "num" and a.ndim and b is not None and b.kind == "num" and not b.ndim and b.may <= set(POS):
                z = {"mid": POS, "1": POS, "big": POS}
                return replace(a, some=frozenset(c for c in a.some if c not in z), may=frozenset(x for c in a.may for x in z.get(c, (c,))))
        return None

    def position(self, n):
        """a single integer that is looked up somewhere"""
        if n.op == "index" and n.args[0].op == "call" and n.args[0].payload[0] == "numpy.unravel_index":
            return True
        if n.op == "call" and n.payload[0] in ("numpy.argmin", "numpy.argmax", "numpy.nanargmin", "numpy.nanargmax") and len(n.args) == 1:
            return True
        if n.op == "mcall" and n.payload[0] in ("argmin", "argmax") and len(n.args) == 1:
            return True
        return n.op == "call" and n.payload[0] == "builtins.int" or n.op == "phi" and all(self.position(a) for a in n.args)

    def as_array(self, v, how=""):
        if v is None or v.kind != "num":
            return v
        dims = v.dims
        if not dims and how == "atleast_1d":
            dims = ("1",)
        if how in ("ravel", "column_or_1d") and len(dims) == 2 and dims[1] == "1":
            dims = dims[:1]
        return replace(v, type="ndarray", dims=dims, cls=("numpy.ndarray",) if "numpy.ndarray" not in v.cls and not v.cls else v.cls)

    def total(self, v):
        if v is None or v.kind != "num":
            return None
        if v.may <= {"0"}:
            return scalar("0")
        if v.some & {"nan"}:
            return scalar("nan")
        if "big" in v.some and v.may <= set(FINITE):
            return scalar("big")  # one may be as large as desired
        if v.may <= set(POS) | {"0"}:
            return scalar(*POS) if v.some & set(POS) or v.may <= set(POS) else scalar("0", *POS)
        return None

    def extreme(self, v, how):
        if v is None or v.kind != "num" or not v.may:
            return None
        if "nan" in v.may:
            return scalar("nan") if "nan" in v.some else None
        order = ["-inf", "neg", "0", "mid", "1", "big", "inf"]
        if how == "max":
            order = order[::-1]
        ks = sorted((order.index(c) for c in v.may))
        sure = [order.index(c) for c in v.some]
        top = min(sure) if sure else max(ks)
        return scalar(*[order[k] for k in ks if k <= top])

    def dim(self, n):
        """token of a length"""
        if n.op == "const" and isinstance(n.payload, int):
            return str(int(n.payload))
        if n.op in ("refine",):
            return self.dim(n.args[0])
        if n.op == "tuple" and len(n.args) == 1:
            return self.dim(n.args[0])
        if n.op == "index" and (n.args[0].op == "getattr" and n.args[0].payload == "shape" or n.args[0].op == "call" and n.args[0].payload[0] == "numpy.shape") and is_const(n.args[1]):
            v = self.val(n.args[0].args[0])
            k = n.args[1].payload
            if v is not None and isinstance(k, int) and -v.ndim <= k < v.ndim:
                return v.dims[k]
        if n.op == "call" and n.payload[0] in ("builtins.len", "numpy.size") or n.op == "getattr" and n.payload == "size":
            v = self.val(n.args[0])
            if v is not None and v.ndim and (n.op == "call" or v.ndim == 1):
                return v.dims[0]
        if n.op == "phi" and self.st is not None:
            c = self.it.truth(n.meta, self.st)
            if c is not None:
                return self.dim(n.args[0 if c else 1])
        if n.op == "bin" and n.payload == "+":
            a, b = self.dim(n.args[0]), self.dim(n.args[1])
            if a is not None and b is not None:
                (xs, k), (ys, j) = parts(a), parts(b)
                return "+".join(sorted(xs + ys) + ([str(k + j)] if k + j else [])) or "0"
        return None

    def less_dim(self, a, b, strict):
        """whether a length is below another one"""
        (xs, k), (ys, j) = parts(a), parts(b)
        if any(x.startswith(("other", "rows")) for x in xs + ys):
            return None
        if xs == ys:
            return k < j if strict else k <= j
        if not xs and len(ys) == 1 and k < 1 and j >= 0:  # lengths are positive
            return True
        if not ys and len(xs) == 1 and j < 1 and k >= 0:
            return False
        return None

    def same_dim(self, a, b):
        if a == b:
            return True
        if parts(a)[0] == parts(b)[0]:
            return False  # they differ by a constant
        if frozenset((a, b)) in self.distinct or a.startswith("other") or b.startswith("other"):
            return False
        return None

    # ------------------------------------------------------------- elementwise predicates: category -> truth
    def predicate(self, n):
        """(base value node vn, V, {category: truth or None}) of an elementwise condition on one array or number"""
        if n.op in ("not",) or n.op == "un" and n.payload in ("~", "not") or n.op == "call" and n.payload[0] == "numpy.logical_not":
            p = self.predicate(n.args[0])
            return p and (p[0], p[1], {c: (None if b is None else not b) for c, b in p[2].items()})
        if n.op in ("and", "or") or n.op == "bin" and n.payload in ("&", "|") or n.op == "call" and n.payload[0] in ("numpy.logical_and", "numpy.logical_or"):
            ps = [self.predicate(a) for a in n.args[:2]]
            if n.op in ("and", "or") and len(n.args) != 2 or any(p is None for p in ps) or ps[0][0] != ps[1][0]:
                return None
            conj = n.op == "and" or n.payload == "&" or n.op == "call" and n.payload[0].endswith("and")
            return ps[0][0], ps[0][1], {c: self.three(conj, [p[2][c] for p in ps]) for c in ps[0][2]}
        if comparison(n):
            a, b, op = n.args[0], n.args[1], comparison(n)
            x, y = self.val(a), self.val(b)
            if x is None or y is None or x.kind != "num" or y.kind != "num":
                return None
            if self.point(x) is not None and self.point(y) is None:
                a, b, x, y, op = b, a, y, x, FLIP[op]
            c = self.point(y)
            if c is None:
                return None
            return a.vn, x, {k: cmp_cat(op, k, c) for k in x.may}
        if n.op == "call" and n.payload[0] in ("numpy.isfinite", "math.isfinite", "numpy.isnan", "math.isnan", "numpy.isinf", "math.isinf", "numpy.signbit"):
            x = self.val(n.args[0])
            if x is None or x.kind != "num":
                return None
            s = n.payload[0].split(".")[1]
            f = {"isfinite": lambda c: c in FINITE, "isnan": lambda c: c == "nan", "isinf": lambda c: c in ("inf", "-inf"),
                 "signbit": lambda c: True if c in ("neg", "-inf") else False if c in POS + ("inf",) else None}[s]
            return n.args[0].vn, x, {k: f(k) for k in x.may}
        return None

    @staticmethod
    def three(conj, ts):
        if conj:
            return False if any(t is False for t in ts) else True if all(t is True for t in ts) else None
        return True if any(t is True for t in ts) else False if all(t is False for t in ts) else None

    @staticmethod
    def point(v):
        """the number a value certainly is"""
        if v.ndim == 0 and len(v.may) == 1:
            c = next(iter(v.may))
            iv = CATS[c]
            return math.nan if iv is None else iv[0] if iv[0] == iv[1] else None
        return None

    def quantified(self, how, n):
        """all/any of an elementwise condition"""
        p = self.predicate(n)
        if p is None:
            v = self.val(n)
            if v is None or v.kind != "num":
                return self.pairwise(how, n)
            p = n.vn, v, {c: c != "0" for c in CATS}
        _, v, t = p
        if not v.may:
            return None
        if how == "any":
            if any(t.get(c) is True for c in v.some):
                return True
            if v.ndim and all(t[c] is True for c in v.may) and not any(d.startswith(("rows", "other")) for d in v.dims):
                return True  # inputs have at least one row and one column
            return False if all(t[c] is False for c in v.may) else None
        if any(t.get(c) is False for c in v.some):
            return False
        if v.ndim and all(t[c] is False for c in v.may) and not any(d.startswith(("rows", "other")) for d in v.dims):
            return False
        return True if all(t[c] is True for c in v.may) else None

    def pairwise(self, how, n):
        neg = False
        while n.op == "not" or n.op == "un" and n.payload in ("~", "not"):
            n, neg = n.args[0], not neg
        op = comparison(n)
        if op is None:
            return None
        roots = [self.root(a) for a in n.args[:2]]
        rel = self.order.get((roots[0], roots[1]))
        if rel is None:
            rel = self.order.get((roots[1], roots[0]))
            op = FLIP[op]
        if rel is None:
            return None
        hit = {"<": {"<"}, "<=": {"<", "="}, ">": {">"}, ">=": {">", "="}, "==": {"="}, "!=": {"<", ">"}}[op]
        ts = [(r in hit) != neg for r in rel]
        return any(ts) if how == "any" else all(ts)

    def root(self, n):
        """the input an array was converted from"""
        for _ in range(12):
            if n.vn in self.values:
                return n.vn
            if n.op == "refine" or n.op == "mcall" and n.payload[0] in T.TRANSPARENT_M or n.op == "call" and n.args and n.payload[0].split(".")[-1] in (
                    "check_array", "asarray", "array", "asanyarray", "atleast_1d"):
                n = n.args[0]
            elif n.op == "call" and n.payload[0] == "numpy.full" and len(n.args) > 1:
                n = n.args[1]
            elif n.op == "phi" and self.st is not None and self.it.truth(n.meta, self.st) is not None:
                n = n.args[0 if self.it.truth(n.meta, self.st) else 1]
            else:
                break
        return n.vn

    # ------------------------------------------------------------- conditions
    def truth(self, n, st):
        key = n.vn
        if key in self.busy:
            return None
        if not self.busy or self.st is not st:
            self.memo, self.tmemo = {}, {}
        elif n.id in self.tmemo:
            return self.tmemo[n.id]
        self.busy.add(key)
        old, self.st = self.st, st
        try:
            r = self.decide(n)
            self.tmemo[n.id] = r
            return r
        finally:
            self.st = old
            self.busy.discard(key)

    def decide(self, n):
        if n.op == "cmp":
            return self.compare(n)
        if n.op == "call":
            d = n.payload[0]
            s = d.split(".")[-1]
            if d in ("numpy.any", "numpy.all", "builtins.any", "builtins.all") and n.args:
                return self.quantified(s, n.args[0])
            if d == "numpy.isscalar":
                v = self.val(n.args[0])
                return None if v is None else v.kind in ("num", "str") and not v.ndim
            if s == "isinstance":
                return self.instance(n.args[0], n.args[1])
            if s == "issubdtype":
                return self.dtype_test(n.args[0], n.args[1])
            if s == "is_into_dataframe" or s == "issparse" or s.startswith("isspmatrix"):
                v = self.val(n.args[0])
                if v is not None and v.type == "DataFrame":
                    return s == "is_into_dataframe"
                return None if v is None else False if v.kind != "other" else None
            if d == "builtins.hasattr" and is_const(n.args[1], "dtype"):
                v = self.val(n.args[0])
                return True if v is not None and v.kind == "num" and v.ndim and v.type == "ndarray" else None
            if s in ("isfinite", "isnan", "isinf", "signbit", "logical_not", "logical_and", "logical_or"):
                p = self.predicate(n)
                if p is not None and p[1].ndim == 0 and p[1].may:
                    ts = {p[2][c] for c in p[1].may}
                    return ts.pop() if len(ts) == 1 else None
            if s == "callable":
                v = self.val(n.args[0])
                return False if v is not None and v.kind in ("num", "str", "none") else None
            if d in ("re.search", "re.match", "re.fullmatch") and len(n.args) > 1 and n.args[1].vn in self.values:
                return False  # a string that is none of those known
        if n.op == "mcall" and n.payload[0] in ("any", "all") and len(n.args) == 1:
            return self.quantified(n.payload[0], n.args[0])
        if n.op == "mcall" and n.payload[0] in ("max", "min") and len(n.args) == 1 and self.val(n.args[0]) is None:
            return self.quantified("any" if n.payload[0] == "max" else "all", n.args[0])
        v = self.values.get(n.vn)
        if v is not None and v.kind == "num" and not v.ndim and v.may:
            if v.may <= {"0"}:
                return False
            return True if "0" not in v.may else None
        if v is not None and v.kind == "none":
            return False
        return None

    def compare(self, n):
        a, b, op = n.args[0], n.args[1], n.payload
        if op == "is" and is_const(b, None):
            v = self.val(a)
            return None if v is None else v.kind == "none"
        if op == "is" and b.op == "const" and isinstance(b.payload, bool):
            v = self.val(a)
            if v is not None and (v.kind != "num" or v.type not in ("bool",)):
                return False
        if op == "in" and b.op == "dict" and b.payload is not None and self.val(a) is not None and a.vn in self.values and self.val(a).kind in ("str", "other"):
            return False
        if op in ("in", "==", "!="):
            # a string or object of no listed kind equals none of the literals
            for x, y in ((a, b), (b, a)) if op != "in" else ((a, b),):
                v, items = self.values.get(x.vn), y.args if y.op in ("tuple", "list", "set") else (y,)
                if v is not None and v.kind == "str" and v.may:  # one of these words
                    if items and all(z.op == "const" for z in items):
                        hit = {z.payload for z in items} & v.may
                        return op == "!=" if not hit else (op != "!=") if hit == v.may and (op == "in" or len(hit) == 1) else None
                    return None
                if v is not None and items and v.kind in ("str", "other") and all(z.op == "const" for z in items):
                    return op == "!="
                if v is not None and items and v.kind == "num" and all(z.op == "const" and isinstance(z.payload, (str, type(None))) for z in items):
                    return op == "!="
        if op in FLIP:
            da, db = self.dim(a), self.dim(b)
            if da is not None and db is not None and op in ("==", "!="):
                r = self.same_dim(da, db)
                return None if r is None else r if op == "==" else not r
            if da is not None and db is not None and op in ("<", "<=", ">", ">="):
                x, y = (da, db) if op in ("<", "<=") else (db, da)
                return self.less_dim(x, y, op in "<>")
            for x, y, o in ((a, b, op), (b, a, FLIP[op])):
                k = self.ndim(x)
                if k is not None and y.op == "const" and isinstance(y.payload, int):
                    return {"<": k < y.payload, "<=": k <= y.payload, ">": k > y.payload, ">=": k >= y.payload, "==": k == y.payload, "!=": k != y.payload}[o]
            if a.op == "getattr" and b.op == "tuple" and a.payload == "shape":
                v = self.val(a.args[0])
                if v is not None:
                    ts = [self.dim(x) for x in b.args]
                    if v.ndim != len(ts):
                        return op == "!="
                    if all(t is not None for t in ts):
                        r = self.three(True, [self.same_dim(x, y) for x, y in zip(v.dims, ts)])
                        return None if r is None else r if op == "==" else not r
            p = self.predicate(n)
            if p is not None and p[1].ndim == 0 and p[1].may:
                ts = {p[2][c] for c in p[1].may}
                return ts.pop() if len(ts) == 1 else None
            if p is None and self.ordered(a, b):
                return self.pairwise("all", n)
        return None

    def ordered(self, a, b):
        x, y = self.root(a), self.root(b)
        return ((x, y) in self.order or (y, x) in self.order) and all(v in self.values and not self.values[v].ndim for v in (x, y))

    def ndim(self, n):
        if n.op == "getattr" and n.payload == "ndim":
            v = self.val(n.args[0])
            return None if v is None or v.kind != "num" else v.ndim
        if n.op == "call" and n.payload[0] == "numpy.ndim":
            v = self.val(n.args[0])
            return None if v is None or v.kind != "num" else v.ndim
        if n.op == "call" and n.payload[0] == "builtins.len" and n.args[0].op == "getattr" and n.args[0].payload == "shape":
            v = self.val(n.args[0].args[0])
            return None if v is None or v.kind != "num" else v.ndim
        return None

    def instance(self, x, c):
        v = self.val(x)
        if v is None:
            return None
        if c.op == "tuple":
            return self.three(False, [self.instance(x, k) for k in c.args])
        if c.op == "class":
            return False
        if c.op != "ext":
            return None
        nm = c.payload.split(".")[-1]
        if c.payload in v.cls:
            return True
        if nm in PY.get(v.type, ()):
            return True
        if nm in ("Number", "Real", "number") or nm == "Integral":
            return v.kind == "num" and not v.ndim and (nm != "Integral" or v.type in ("int", "bool"))
        if c.payload.startswith(("builtins.", "collections", "typing.")):
            if nm == "Iterable" and v.kind == "str":
                return True
            return False if v.type in PY else None
        if c.payload.startswith(("numpy.", "tabmat.", "pandas.", "scipy.", "narwhals.")):
            if v.type in ("int", "float", "bool", "str", "other", "tuple", "list"):
                return False
            return False if v.cls and c.payload not in v.cls else None
        return None

    def dtype_test(self, d, k):
        if d.op == "getattr" and d.payload == "dtype":
            v = self.val(d.args[0])
            if v is None or k.op != "ext":
                return None
            nm = k.payload.split(".")[-1]
            if v.kind in ("str", "other"):
                return False if nm in ("number", "integer", "floating") else None
            if nm == "number":
                return True
            if nm == "integer":
                return v.type == "int"
            if nm == "floating":
                return v.type != "int"
        return None

    # ------------------------------------------------------------- library validation
    def raises(self, d, recv, args, kwargs, st):
        old, self.st = self.st, st
        self.memo, self.tmemo = {}, {}
        try:
            return self._raises(d.split(".")[-1], d, recv, args, kwargs)
        finally:
            self.st = old

    def flag(self, kwargs, *names, default=True):
        for k in names:
            if k in kwargs:
                n = kwargs[k]
                if n.op == "const":
                    return n.payload
                t = self.it.truth(n, self.st)
                return t
        return default

    def bad_array(self, v, kwargs, ensure_2d=True, finite=True):
        if v is None or v.kind == "none":
            return None
        e2 = self.flag(kwargs, "ensure_2d", default=ensure_2d)
        if v.kind == "num":
            if e2 is True and v.ndim < 2 or v.ndim > 2 and "allow_nd" not in kwargs:
                return True
            f = self.flag(kwargs, "ensure_all_finite", "force_all_finite", default=finite)
            if f is True and v.some & set(NONFINITE):
                return True
            if f == "allow-nan" and v.some & {"inf", "-inf"}:
                return True
            return False
        if v.kind in ("str", "other"):
            return True
        return None

    def _raises(self, s, d, recv, args, kwargs):
        v = self.val(args[0]) if args else None
        if recv is not None:
            if s == "astype" and d == "astype":
                r = self.val(recv)
                return r is not None and r.kind in ("str", "other")
            return False
        if s in ("validate_data", "_validate_data"):
            x = self.val(args[1]) if len(args) > 1 else None
            y = self.val(args[2]) if len(args) > 2 else self.val(kwargs["y"]) if "y" in kwargs else None
            return bool(self.bad_array(x, kwargs) or self.bad_y(y) or self.mismatch([x, y]))
        if not d.startswith(("sklearn.", "builtins.", "numpy.", "re.")):
            return False
        if d in ("re.search", "re.match", "re.fullmatch"):
            x = self.val(args[1]) if len(args) > 1 else None
            return x is not None and x.kind != "str"
        if s == "check_array":
            return bool(self.bad_array(v, kwargs))
        if s == "check_X_y":
            y = self.val(args[1]) if len(args) > 1 else None
            return bool(self.bad_array(v, kwargs) or self.bad_y(y) or self.mismatch([v, y]))
        if s == "column_or_1d":
            return v is not None and (v.kind == "other" or v.kind == "num" and (v.ndim == 0 or v.ndim > 2 or v.ndim == 2 and v.dims[1].startswith("other")))
        if s == "assert_all_finite":
            return v is not None and v.kind == "num" and bool(v.some & set(NONFINITE))
        if s == "check_consistent_length":
            return self.mismatch([self.val(a) for a in args])
        if s == "check_is_fitted":
            return self.unfitted(args)
        if d in ("builtins.float", "builtins.int"):
            return v is not None and v.kind in ("other", "none")
        if d in ("numpy.asarray", "numpy.array", "numpy.full") and "dtype" in kwargs and not is_const(kwargs["dtype"], None):
            x = self.val(args[1]) if s == "full" and len(args) > 1 else v
            return x is not None and x.kind in ("other", "str")
        if d == "numpy.average" and len(args) + len(kwargs) > 1:
            w = self.val(kwargs["weights"]) if "weights" in kwargs else self.val(args[2]) if len(args) > 2 else None
            return w is not None and w.kind == "num" and w.may <= {"0"} and bool(w.may)
        return False

    def bad_y(self, y):
        if y is None:
            return None
        if y.kind == "none":
            return True
        if y.kind == "num":
            return bool(y.some & set(NONFINITE)) or y.ndim == 0 or y.ndim == 2 and y.dims[1].startswith("other")
        return None

    def mismatch(self, vs):
        ds = [v.dims[0] for v in vs if v is not None and v.kind == "num" and v.ndim]
        return any(self.same_dim(a, b) is False for a in ds for b in ds)

    def unfitted(self, args):
        o = self.it.simp(args[0], self.st)
        if o.op != "obj" or len(args) < 2:
            return False
        names = [args[1]] if args[1].op == "const" else args[1].args
        h = self.st.heap.get(o.payload[0], {})
        return all(x.op == "const" and (x.payload not in h or h[x.payload].op == "absent") for x in names)
