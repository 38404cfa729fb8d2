"""Value-flow graph builder: a flow-sensitive, context-sensitive (inlining)
abstract interpreter over the Python ``ast``.  Branches are joined (no path
enumeration), loops are summarised by loop-phi nodes, calls to code outside the
package are uninterpreted nodes.  No program code is executed and no solver is
consulted; what the rules see is a data-flow graph plus an event list."""
from __future__ import annotations

import ast
import itertools
import sys

from .nodes import ABSENT, FALSE, NONE, TRUE, N, _intern, const, is_const, unique
from .program import AnalysisError, ClassInfo, FuncInfo, Module, Program, import_bindings

sys.setrecursionlimit(20000)

MAX_STMTS = 600_000
_BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**",
    ast.Mod: "%", ast.FloorDiv: "//", ast.MatMult: "@", ast.LShift: "<<",
    ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
}
_CMPOPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}
IMPURE = (
    "time.", "numpy.random", "random.", "os.", "builtins.input", "builtins.open",
    "builtins.id", "uuid.", "secrets.", "datetime.", "threading.",
)
TRANSPARENT_DECOS = {
    "functools.wraps", "typing_extensions.deprecated", "warnings.deprecated",
    "abc.abstractmethod", "staticmethod", "classmethod", "property",
    "functools.lru_cache", "functools.cache", "typing.overload", "functools.cached_property",
    "dataclasses.dataclass", "numba.njit",
}
VIEW_CALLS = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze",
    "numpy.atleast_1d", "numpy.atleast_2d", "numpy.transpose", "numpy.ascontiguousarray",
    "numpy.asfortranarray", "numpy.broadcast_to", "numpy.expand_dims", "numpy.require",
    "numpy.swapaxes", "numpy.asarray_chkfinite", "numpy.real", "numpy.diagonal", "numpy.moveaxis",
    "typing.cast", "tabmat.as_tabmat", "tabmat.DenseMatrix", "tabmat.SparseMatrix",
    "tabmat.SplitMatrix", "tabmat.StandardizedMatrix",
    "narwhals.stable.v2.from_native", "narwhals.stable.v2.to_native",
    "narwhals.from_native", "narwhals.to_native", "builtins.memoryview",
    "sklearn.utils.column_or_1d", "sklearn.utils.validation.column_or_1d",
    "builtins.iter", "builtins.reversed", "builtins.zip", "builtins.enumerate",
    "sklearn.utils.validation.as_float_array", "sklearn.utils.as_float_array",
    "numpy.split", "numpy.array_split",
}
COPYABLE_CALLS = {  # view unless copy= says otherwise (index of data argument)
    "sklearn.utils.check_array": 0, "sklearn.utils.validation.check_array": 0,
    "sklearn.utils.validation.validate_data": 1, "sklearn.utils.check_X_y": 0,
    "sklearn.utils.validation.check_X_y": 0,
    "numpy.nan_to_num": 0,
}
COPY_DEFAULT_TRUE = {"numpy.array": 0, "numpy.nan_to_num": 0}
VIEW_METHODS = {
    "ravel", "reshape", "view", "squeeze", "transpose", "swapaxes", "diagonal_view",
    "to_native", "unpack", "standardize", "unstandardize", "getA", "items", "values",
    "keys", "get", "setdefault", "__enter__", "tocsc_view",
}
MUT_METHODS = {
    "sort", "fill", "put", "resize", "itemset", "partition", "setfield", "setflags",
    "setdiag", "eliminate_zeros", "sum_duplicates", "sort_indices", "sorted_indices_",
    "append", "extend", "insert", "remove", "pop", "clear", "update", "add", "discard",
    "reverse", "popitem", "__setitem__", "set_params", "setdefault", "byteswap_",
}
MUT_CALLS = {  # dotted -> index of mutated argument
    "numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0,
    "numpy.fill_diagonal": 0, "numpy.random.shuffle": 0, "random.shuffle": 0,
    "numpy.put_along_axis": 0,
    "numpy.add.at": 0, "numpy.subtract.at": 0, "numpy.multiply.at": 0,
    "numpy.maximum.at": 0, "numpy.minimum.at": 0, "numpy.divide.at": 0,
}
SCALAR_GETATTRS = {"shape", "dtype", "ndim", "size", "nnz", "itemsize", "flags", "kind", "name",
                   "column_names", "term_names", "schema", "eps", "epsneg", "__class__", "__name__"}


class State:
    __slots__ = ("frames", "heap", "guards", "facts", "dead", "_sf", "_sh")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.guards = ()
        self.facts = {}
        self.dead = False
        self._sf = set()
        self._sh = set()

    def clone(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.guards = self.guards
        s.facts = dict(self.facts)
        s.dead = self.dead
        self._sf = set(self.frames)
        self._sh = set(self.heap)
        s._sf = set(self.frames)
        s._sh = set(self.heap)
        return s

    def take(self, o):
        self.frames, self.heap = o.frames, o.heap
        self.guards, self.facts, self.dead = o.guards, o.facts, o.dead
        self._sf, self._sh = o._sf, o._sh

    def setvar(self, fid, var, val):
        if fid in self._sf:
            self.frames[fid] = dict(self.frames[fid])
            self._sf.discard(fid)
        self.frames[fid][var] = val

    def setattr(self, oid, attr, val):
        if oid in self._sh:
            self.heap[oid] = dict(self.heap[oid])
            self._sh.discard(oid)
        self.heap.setdefault(oid, {})[attr] = val


class Event:
    __slots__ = ("kind", "name", "args", "node", "guards", "stack", "site", "data")

    def __init__(self, kind, name, args, node, guards, stack, site, data=None):
        self.kind, self.name, self.args, self.node = kind, name, args, node
        self.guards, self.stack, self.site, self.data = guards, stack, site, data

    def where(self):
        fn = self.stack[-1][0] if self.stack else "<module>"
        return f"{self.site[0]}:{self.site[1]} in {fn}"

    def __repr__(self):
        return f"Event({self.kind} {self.name} @ {self.where()})"


class Frame:
    def __init__(self, fid, fi, module, closure=None):
        self.fid = fid
        self.fi = fi
        self.module = module
        self.closure = closure  # list of enclosing fids (innermost first)
        self.returns = []
        self.loops = []
        self.captured = False
        self.cls = fi.cls if fi is not None else None
        self.yields = []


class Interp:
    def __init__(self, program: Program, opaque_classes=()):
        self.loop_log = []  # one record per analysed loop
        self.p = program
        self.events: list[Event] = []
        self.stack: list = []
        self.nstmts = 0
        self._fid = 0
        self._globals = {}
        self._inprog = set()
        self._roots = {}
        self.opaque_classes = set(opaque_classes)
        self.arrays: set[int] = set()  # value numbers declared to be arrays
        self.scalars: set[int] = set()  # value numbers declared to be plain numbers
        self.ranges: dict = {}  # value number -> (lo, hi, lo_closed, hi_closed)
        self.nonnull: set[str] = set()
        self.notes: list = []
        self.analysed: set = set()
        self.loose_arrays = False  # treat any expression of arrays other than a reduction as an array
        self.len_hook = None  # node -> literal length of a symbolic sequence, or None
        self.mcall_hook = None  # (recv, method, args, kwargs, site) -> node or None
        self.attr_hook = None  # (object, attribute) -> node or None
        self.truth_hook = None  # (node, state) -> truth of an otherwise undecided condition, or None
        self.raise_hook = None  # (name, receiver or None, args, kwargs, state) -> whether an external call raises
        self.isolate_jobs = False  # what a parallel job leaves on shared objects is unknown
        self.jobs = []  # arguments of parallel jobs
        self.stub = {}  # qualname -> callable(interp, bound, st, site) -> N
        self._pyxeff = {}
        self.st0 = State()
        self._objcls: dict = {}
        self._objnodes: dict = {}

    # ------------------------------------------------------------------ utils
    def site(self, fr, node):
        return (self.p.rel(fr.module.path), getattr(node, "lineno", 0))

    def ev(self, kind, name, args, node, st, site, data=None):
        e = Event(kind, name, args, node, st.guards, tuple(self.stack), site, data)
        self.events.append(e)
        return e

    # -------------------------------------------------------------- truth/null
    def truth(self, n, st, depth=0):
        if n.op == "const":
            try:
                return bool(n.payload)
            except Exception:
                return None
        f = st.facts.get(n.vn)
        if f is not None:
            return f
        if depth > 12:
            return None
        if self.truth_hook is not None and depth < 10:
            h = self.truth_hook(n, st)
            if h is not None:
                return h
        if n.op == "not":
            t = self.truth(n.args[0], st, depth + 1)
            return None if t is None else (not t)
        if n.op == "and":
            ts = [self.truth(a, st, depth + 1) for a in n.args]
            if any(t is False for t in ts):
                return False
            return True if all(t is True for t in ts) else None
        if n.op == "or":
            ts = [self.truth(a, st, depth + 1) for a in n.args]
            if any(t is True for t in ts):
                return True
            return False if all(t is False for t in ts) else None
        if n.op == "cmp":
            if n.payload == "is" and is_const(n.args[1], None):
                nl = self.nullness(n.args[0], st)
                if nl is not None:
                    return nl
            if self.ranges and n.payload in ("<", "<=", ">", ">=", "==", "!="):
                return self.range_truth(n)
            return None
        if n.op in ("tuple", "list"):
            return len(n.args) > 0
        if n.op == "dict":
            return len(n.payload) > 0
        if n.op in ("obj", "func", "class", "module", "ext", "closure", "boundmethod", "partial"):
            return True
        if n.op == "phi":
            c = self.truth(n.meta, st, depth + 1)
            if c is not None:
                return self.truth(n.args[0 if c else 1], st, depth + 1)
            a = self.truth(n.args[0], st, depth + 1)
            b = self.truth(n.args[1], st, depth + 1)
            return a if a == b else None
        return None

    CASTS = {"numpy.float32", "numpy.float64", "builtins.float", "numpy.asarray", "numpy.asanyarray"}

    def range_of(self, n, depth=0):
        r = self.ranges.get(n.vn)
        if r is not None:
            return r
        if n.op == "const" and isinstance(n.payload, (int, float)) and not isinstance(n.payload, bool):
            return (n.payload, n.payload, True, True)
        if depth > 8:
            return None
        if n.op == "call" and n.payload[0] in self.CASTS and n.args:
            return self.range_of(n.args[0], depth + 1)
        if n.op == "phi":
            a, b = self.range_of(n.args[0], depth + 1), self.range_of(n.args[1], depth + 1)
            if a is not None and b is not None:
                lo = min((a[0], not a[2]), (b[0], not b[2]))
                hi = max((a[1], a[3]), (b[1], b[3]))
                return (lo[0], hi[0], not lo[1], hi[1])
        return None

    def range_truth(self, n):
        a, b = self.range_of(n.args[0]), self.range_of(n.args[1])
        if a is None or b is None:
            return None
        op = n.payload
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        if op in ("<", "<="):
            if a[1] < b[0] or (a[1] == b[0] and not (a[3] and b[2])):
                return True
            if op == "<=" and a[1] == b[0]:
                return True
            if a[0] > b[1] or (a[0] == b[1] and not (a[2] and b[3])):
                return False
            if op == "<" and a[0] == b[1]:
                return False
            return None
        disjoint = a[1] < b[0] or b[1] < a[0] or (a[1] == b[0] and not (a[3] and b[2])) or (
            b[1] == a[0] and not (b[3] and a[2]))
        same = a[0] == a[1] == b[0] == b[1]
        if disjoint:
            return op == "!="
        if same:
            return op == "=="
        return None

    NONNULL = {"tuple", "list", "dict", "obj", "func", "class", "module", "ext", "closure",
               "boundmethod", "bin", "un", "cmp", "not", "str", "slice", "listof", "inplace",
               "kout", "partial", "dictunk"}

    def nullness(self, n, st, depth=0):
        """True: is None; False: is not None; None: unknown."""
        if n.op == "const":
            return n.payload is None
        if n.op in self.NONNULL:
            return False
        f = st.facts.get(_intern(("cmp", "is", (n.vn, NONE.vn))))
        if f is not None:
            return f
        if st.facts.get(n.vn) is True:
            return False
        if n.op == "src" and n.payload in self.nonnull:
            return False
        if n.op == "call" and n.payload[0].startswith(("numpy.", "scipy.", "tabmat.", "builtins.", "pandas.", "sklearn.")) \
                and n.payload[0] not in ("builtins.getattr",):
            return False
        if n.op == "mcall" and n.payload[0] in ("astype", "copy", "ravel", "flatten", "toarray", "reshape", "sum", "mean",
                                                "matvec", "transpose_matvec", "sandwich", "get_col_stds", "lower", "upper"):
            return False
        if depth > 12:
            return None
        if n.op == "phi":
            c = self.truth(n.meta, st)
            if c is not None:
                return self.nullness(n.args[0 if c else 1], st, depth + 1)
            a = self.nullness(n.args[0], st, depth + 1)
            b = self.nullness(n.args[1], st, depth + 1)
            return a if a == b else None
        return None

    def simp(self, n, st):
        """Resolve phi nodes decided by what is known on this path."""
        for _ in range(12):
            if n.op != "phi":
                return n
            c = self.truth(n.meta, st)
            if c is not None:
                n = n.args[0 if c else 1]
                continue
            f = st.facts.get(_intern(("cmp", "is", (n.vn, NONE.vn))))
            if f is not None:
                a, b = n.args
                na, nb = self.nullness(a, st), self.nullness(b, st)
                if na is (not f) and nb is not (not f):
                    n = b
                    continue
                if nb is (not f) and na is not (not f):
                    n = a
                    continue
            return n
        return n

    def assume(self, st, c, pol):
        st.guards = st.guards + ((c, pol),)
        self._fact(st, c, pol, 0)

    def _fact(self, st, c, pol, depth):
        if depth > 10 or c.op == "const":
            return
        st.facts[c.vn] = pol
        if c.op == "not":
            self._fact(st, c.args[0], not pol, depth + 1)
        elif c.op == "and":
            if pol:
                for a in c.args:
                    self._fact(st, a, True, depth + 1)
            else:
                unk = [a for a in c.args if self.truth(a, st) is not True]
                if len(unk) == 1:
                    self._fact(st, unk[0], False, depth + 1)
        elif c.op == "or":
            if not pol:
                for a in c.args:
                    self._fact(st, a, False, depth + 1)
            else:
                unk = [a for a in c.args if self.truth(a, st) is not False]
                if len(unk) == 1:
                    self._fact(st, unk[0], True, depth + 1)
        elif c.op == "phi":
            a, b = self.truth(c.args[0], st), self.truth(c.args[1], st)
            if a is not None and a != pol and b != (not pol):
                self._fact(st, c.meta, False, depth + 1)
                self._fact(st, c.args[1], pol, depth + 1)
            elif b is not None and b != pol and a != (not pol):
                self._fact(st, c.meta, True, depth + 1)
                self._fact(st, c.args[0], pol, depth + 1)

    # ------------------------------------------------------------------ merge
    def mkphi(self, cond, pol, a, b):
        """value when cond==pol is a, else b"""
        if a is b:
            return a
        if not pol:
            a, b = b, a
        if a.op == "const" and b.op == "const" and a.vn == b.vn:
            return a
        if a.vn == b.vn and a.op in ("src", "func", "class", "obj", "ext", "cmp", "not", "absent"):
            return a
        if is_const(a, True) and is_const(b, False) and cond.op in ("cmp", "not", "and", "or"):
            return cond
        if is_const(a, False) and is_const(b, True):
            return self.mknot(cond)
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return N("tuple", None, [self.mkphi(cond, True, x, y) for x, y in zip(a.args, b.args)])
        if a.op == "phi" and a.meta.vn == cond.vn:
            a = a.args[0]
        if b.op == "phi" and b.meta.vn == cond.vn:
            b = b.args[1]
        if a is b:
            return a
        return N("phi", cond.vn, (a, b), meta=cond)

    def mknot(self, c):
        if c.op == "const":
            return const(not c.payload)
        if c.op == "not":
            return c.args[0]
        return N("not", None, (c,))

    def merge(self, s1, s2):
        if s1 is None or s1.dead:
            return s2 if s2 is not None else s1
        if s2 is None or s2.dead:
            return s1
        k = 0
        g1, g2 = s1.guards, s2.guards
        while k < len(g1) and k < len(g2) and g1[k][0].vn == g2[k][0].vn and g1[k][1] == g2[k][1]:
            k += 1
        if k < len(g1) and k < len(g2) and g1[k][0].vn == g2[k][0].vn:
            cond, pol = g1[k]
        elif k < len(g1):
            cond, pol = g1[k]
            if len(g1) - k > 1:
                cond = N("and", None, [c if p else self.mknot(c) for c, p in g1[k:]])
                pol = True
        elif k < len(g2):
            cond, pol = g2[k]
            pol = not pol
            if len(g2) - k > 1:
                cond = N("and", None, [c if p else self.mknot(c) for c, p in g2[k:]])
                pol = False
        else:
            cond, pol = unique("join"), True
        out = State()
        out.guards = g1[:k]
        out.facts = {v: t for v, t in s1.facts.items() if s2.facts.get(v) is t}
        for store, o in ((("frames"), out.frames), (("heap"), out.heap)):
            d1, d2 = getattr(s1, store), getattr(s2, store)
            for key in d1.keys() | d2.keys():
                a, b = d1.get(key), d2.get(key)
                if a is b:
                    o[key] = a
                elif a is None:
                    o[key] = b
                elif b is None:
                    o[key] = a
                else:
                    m = {}
                    for v in list(a) + [x for x in b if x not in a]:
                        x, y = a.get(v, ABSENT), b.get(v, ABSENT)
                        m[v] = x if x is y else self.mkphi(cond, pol, x, y)
                    o[key] = m
        out._sf = set(out.frames)
        out._sh = set(out.heap)
        return out

    def merge_all(self, states):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            return None
        acc = states[-1]
        for s in reversed(states[:-1]):
            acc = self.merge(s, acc)
        return acc

    # ---------------------------------------------------------------- aliasing
    def roots(self, n, seen=None, depth=0):
        r = self._roots.get(n.id)
        if r is not None:
            return r
        top = seen is None
        if top:
            seen = set()
        if n.id in seen or depth > 400:
            return frozenset()
        seen.add(n.id)
        R = lambda x: self.roots(x, seen, depth + 1)
        op = n.op
        if op in ("src", "unknown", "global", "rec", "cbarg"):
            r = frozenset([n])
        elif op in ("const", "absent", "ext", "func", "class", "module", "closure", "boundmethod",
                    "cmp", "not", "and", "str", "slice", "un", "delayed"):
            r = frozenset()
        elif op == "or":
            r = frozenset().union(*[R(a) for a in n.args])
        elif op in ("phi", "loopphi", "tuple", "list", "dict", "dictunk", "listof", "partial"):
            r = frozenset().union(*[R(a) for a in n.args]) if n.args else frozenset()
            if op in ("list", "dict", "dictunk", "listof"):
                r = r | frozenset([n])
        elif op in ("inplace", "kout"):
            r = R(n.args[0])
            if op == "inplace" and n.payload in ("append", "extend", "update", "add", "insert"):
                for a in n.args[1:]:
                    r = r | R(a)
        elif op == "bin":
            r = R(n.args[0]) if n.meta == "inplace" else frozenset([n])
        elif op == "obj":
            r = frozenset([n])
        elif op == "elem":
            r = R(n.args[0])
        elif op == "index":
            r = R(n.args[0]) if self._is_view_index(n.args[1]) else frozenset([n])
        elif op == "getattr":
            r = frozenset() if n.payload in SCALAR_GETATTRS else R(n.args[0])
        elif op == "call":
            d, npos, kws = n.payload
            kwd = dict(zip(kws, n.args[npos:]))
            if d in COPY_DEFAULT_TRUE:
                cp = kwd.get("copy", TRUE)
                if is_const(cp) and not cp.payload and n.args:
                    r = R(n.args[0])
                elif cp.op != "const" and n.args:
                    r = R(n.args[0]) | frozenset([n])
                else:
                    r = frozenset([n])
            elif d in COPYABLE_CALLS:
                cp = kwd.get("copy", FALSE)
                if is_const(cp) and cp.payload:
                    r = frozenset([n])
                else:
                    r = frozenset([n])
                    for a in n.args[COPYABLE_CALLS[d]: npos]:
                        r = r | R(a)
                    for k in ("X", "y", "array"):
                        if k in kwd:
                            r = r | R(kwd[k])
            elif d in VIEW_CALLS and n.args:
                r = frozenset().union(*[R(a) for a in n.args[:max(npos, 1)]])
            else:
                r = frozenset([n])
        elif op == "mcall":
            m, npos, kws = n.payload[:3]
            kwd = dict(zip(kws, n.args[npos:]))
            if m == "astype":
                cp = kwd.get("copy", TRUE)
                r = frozenset([n]) if is_const(cp) and cp.payload else R(n.args[0])
            elif m in VIEW_METHODS:
                r = R(n.args[0]) | frozenset([n])
            elif m in ("to_numpy", "to_list", "toarray", "todense", "A"):
                r = R(n.args[0]) | frozenset([n]) if m == "to_numpy" else frozenset([n])
            else:
                r = frozenset([n])
        else:
            r = frozenset([n])
        if top:
            self._roots[n.id] = r
        return r

    def _is_view_index(self, idx):
        if idx.op == "slice":
            return True
        if idx.op == "const":
            return True  # element / row / dict entry
        if idx.op == "tuple":
            return all(a.op == "slice" or a.op == "const" or self._scalarish(a) for a in idx.args)
        return self._scalarish(idx)

    def _scalarish(self, n):
        if n.op in ("const",):
            return True
        if n.op == "phi":
            return all(self._scalarish(a) for a in n.args)
        if n.op == "call" and n.payload[0] in ("builtins.int", "builtins.len"):
            return True
        if n.op == "loopidx":
            return True
        return False

    def mutate(self, st, target, new, site, how):
        """target's memory is modified; new is the value afterwards."""
        rt = self.roots(target)
        if self.is_container(target):
            # adding/removing entries changes the container, not its elements
            rt = frozenset(x for x in rt if x.op in ("list", "dict", "dictunk", "listof", "set"))
        self.ev("mutate", how, [target, new], target, st, site, rt)
        if target.op == "const":
            return
        for store, setter in ((st.frames, st.setvar), (st.heap, st.setattr)):
            for key in list(store):
                d = store[key]
                for v, b in list(d.items()):
                    if b is target:
                        setter(key, v, new)
                    elif b.op in ("const", "func", "class", "obj", "ext", "closure", "absent", "cmp", "module"):
                        continue
                    else:
                        if rt and (self.roots(b) & rt):
                            if b.op == "tuple" :
                                setter(key, v, N("tuple", None, [
                                    new if x is target else x for x in b.args]))
                            else:
                                w = N("inplace", "alias", (b, new))
                                setter(key, v, w)

    def is_container(self, n, depth=0):
        if n.op in ("list", "dict", "dictunk", "set", "listof"):
            return True
        if depth > 8 or not n.args:
            return False
        if n.op in ("inplace", "loopphi"):
            return self.is_container(n.args[0], depth + 1)
        if n.op == "phi":
            return all(self.is_container(a, depth + 1) for a in n.args)
        return False

    # ------------------------------------------------------------ name lookup
    def lookup(self, name, st, fr):
        f = st.frames.get(fr.fid, {}).get(name)
        if f is not None and f.op != "absent":
            return self.simp(f, st)
        for fid in fr.closure or ():
            f = st.frames.get(fid, {}).get(name)
            if f is not None and f.op != "absent":
                return self.simp(f, st)
        return self.global_lookup(fr.module, name)

    def global_lookup(self, module, name):
        if name in module.classes:
            return N("class", name, meta=module.classes[name])
        if name in module.functions:
            return self.func_node(module.functions[name])
        if name in module.assigns:
            return self.global_assign(module, name)
        if name in module.imports:
            return self.dotted_node(module.imports[name])
        if name == "__name__":
            return const(module.name)
        import builtins

        if hasattr(builtins, name):
            return N("ext", f"builtins.{name}")
        return N("global", f"{module.name}.{name}")

    def dotted_node(self, dotted):
        r = self.p.resolve_dotted(dotted)
        if isinstance(r, FuncInfo):
            return self.func_node(r)
        if isinstance(r, ClassInfo):
            return N("class", r.name, meta=r)
        if isinstance(r, Module):
            return N("module", r.name, meta=r)
        if isinstance(r, tuple):
            return self.global_assign(r[1], r[2])
        mod = r.rsplit(".", 1)[0] if "." in r else ""
        if mod in self.p.pyx_paths:
            return N("pyx", r)
        return N("ext", r)

    def global_assign(self, module, name):
        key = (module.name, name)
        if key in self._globals:
            return self._globals[key]
        if key in self._inprog:
            return N("global", f"{module.name}.{name}")
        self._inprog.add(key)
        expr = module.assigns[name]
        if isinstance(expr, (ast.Tuple,)) and False:
            pass
        try:
            st = State()
            fr = Frame(self.newfid(), None, module)
            st.frames[fr.fid] = {}
            nev = len(self.events)
            v = self.eval(expr, st, fr)
            del self.events[nev:]
        except AnalysisError:
            raise
        except RecursionError:
            v = N("global", f"{module.name}.{name}")
        self._inprog.discard(key)
        self._globals[key] = v
        return v

    def newfid(self):
        self._fid += 1
        return self._fid

    def func_node(self, fi):
        key = ("func", fi.module.name, fi.qual)
        if key in self._globals:
            return self._globals[key]
        raw = N("func", (fi.module.name, fi.qual), meta=fi)
        self._globals[key] = raw
        v = self.decorate(raw, fi, fi.module)
        self._globals[key] = v
        return v

    def decorate(self, node, fi, module, st=None, fr=None):
        for d in reversed(fi.decorators):
            base = d.func if isinstance(d, ast.Call) else d
            r = self.p.resolve_static(module, base)
            if isinstance(r, FuncInfo):
                st2 = st if st is not None else State()
                fr2 = fr
                if fr2 is None:
                    fr2 = Frame(self.newfid(), None, module)
                    st2.frames[fr2.fid] = {}
                nev = len(self.events)
                deco = self.eval(d, st2, fr2)
                node = self.apply(deco, [node], {}, st2, (self.p.rel(module.path), d.lineno), fr2)
                del self.events[nev:]
                # the closure's captured frames live in st2; make them global
                for fid, env in st2.frames.items():
                    self.st0.frames[fid] = env
        return node

    # -------------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st, fr)

    def stmt(self, s, st, fr):
        self.nstmts += 1
        if self.nstmts > MAX_STMTS:
            raise AnalysisError("statement budget exceeded")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"{fr.module.path}:{s.lineno}: unsupported statement {type(s).__name__}")
        m(s, st, fr)

    def s_Expr(self, s, st, fr):
        self.eval(s.value, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    def s_Global(self, s, st, fr):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.setvar(fr.fid, t.id, ABSENT)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                for oid in self._objs(o):
                    st.setattr(oid, t.attr, ABSENT)
                    self.ev("delattr", t.attr, [o], o, st, self.site(fr, s))
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fr)
                i = self.eval(t.slice, st, fr)
                if b.op == "objdict" and i.op == "const":
                    self.method_model(b, "pop", [i, NONE], {}, st, self.site(fr, s), fr)
                    continue
                self.mutate(st, b, N("inplace", "delitem", (b, i)), self.site(fr, s), "delitem")

    def s_Import(self, s, st, fr):
        for loc, d in import_bindings(s, fr.module.name):
            st.setvar(fr.fid, loc, self.dotted_node(d))

    s_ImportFrom = s_Import

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        if st.dead:
            return
        st.setvar(fr.fid, "$ret", v)
        fr.returns.append(st.clone())
        st.dead = True

    def s_Raise(self, s, st, fr):
        v = self.eval(s.exc, st, fr) if s.exc is not None else NONE
        if st.dead:
            return
        self.ev("raise", exc_name(v), [v], v, st, self.site(fr, s))
        st.dead = True

    def s_Assert(self, s, st, fr):
        c = self.eval(s.test, st, fr)
        if st.dead:
            return
        t = self.truth(c, st)
        if t is True:
            return
        if t is False:
            self.ev("raise", "AssertionError", [c], c, st, self.site(fr, s))
            st.dead = True
            return
        s2 = st.clone()
        self.assume(s2, c, False)
        self.ev("raise", "AssertionError", [c], c, s2, self.site(fr, s))
        self.assume(st, c, True)

    def s_If(self, s, st, fr):
        c = self.eval(s.test, st, fr)
        if st.dead:
            return
        t = self.truth(c, st)
        if t is True:
            self.block(s.body, st, fr)
        elif t is False:
            self.block(s.orelse, st, fr)
        else:
            s1, s2 = st.clone(), st
            s2 = st.clone()
            self.assume(s1, c, True)
            self.assume(s2, c, False)
            self.block(s.body, s1, fr)
            self.block(s.orelse, s2, fr)
            m = self.merge(s1, s2)
            st.take(m)

    def s_Break(self, s, st, fr):
        fr.loops[-1]["break"].append(st.clone())
        st.dead = True

    def s_Continue(self, s, st, fr):
        fr.loops[-1]["cont"].append(st.clone())
        st.dead = True

    def s_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        if st.dead:
            return
        for t in s.targets:
            self.assign(t, v, st, fr, s)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.eval(s.value, st, fr)
            if not st.dead:
                self.assign(s.target, v, st, fr, s)

    def s_AugAssign(self, s, st, fr):
        op = _BINOPS[type(s.op)]
        t = s.target
        site = self.site(fr, s)
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, fr)
            v = self.eval(s.value, st, fr)
            if st.dead:
                return
            new = self.binop(op, old, v, st, site)
            if new.op == "bin" and self.maybe_array(old):
                new = N("bin", op, (old, v), site, meta="inplace")
                self.mutate(st, old, new, site, f"aug{op}")
            elif old.op == "list":
                self.mutate(st, old, new, site, f"aug{op}")
            st.setvar(fr.fid, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            old = self.getattr(o, t.attr, st, site, fr)
            v = self.eval(s.value, st, fr)
            if st.dead:
                return
            new = self.binop(op, old, v, st, site)
            if new.op == "bin" and self.maybe_array(old):
                new = N("bin", op, (old, v), site, meta="inplace")
                self.mutate(st, old, new, site, f"aug{op}")
            self.setattr(o, t.attr, new, st, site)
        else:
            b = self.eval(t.value, st, fr)
            i = self.eval(t.slice, st, fr)
            v = self.eval(s.value, st, fr)
            if st.dead:
                return
            nv = self.binop(op, self.index(b, i, st, site), v, st, site)
            self.setitem(t.value, b, i, nv, st, fr, site, f"aug{op}")

    def maybe_array(self, n):
        if n.op in ("const", "cmp", "str", "loopidx"):
            return False
        if n.op == "phi":
            return any(self.maybe_array(a) for a in n.args)
        if n.op == "call" and n.payload[0] in ("builtins.int", "builtins.float", "builtins.len", "builtins.sum",
                                               "builtins.str", "time.time", "time.perf_counter", "numpy.sum"):
            return False
        if n.op == "loopphi":
            return bool(n.args) and self.maybe_array(n.args[0])
        if n.op == "bin":
            return any(self.maybe_array(a) for a in n.args)
        return True

    def assign(self, t, v, st, fr, s):
        site = self.site(fr, s)
        if isinstance(t, ast.Name):
            st.setvar(fr.fid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr, s)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.setattr(o, t.attr, v, st, site)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fr)
            i = self.eval(t.slice, st, fr)
            self.setitem(t.value, b, i, v, st, fr, site, "setitem")
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, s)
        else:
            raise AnalysisError(f"unsupported target {ast.dump(t)}")

    def unpack(self, elts, v, st, fr, s):
        site = self.site(fr, s)
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            k = star[0]
            n_after = len(elts) - k - 1
            if v.op in ("tuple", "list"):
                for e, x in zip(elts[:k], v.args[:k]):
                    self.assign(e, x, st, fr, s)
                self.assign(elts[k].value, N("list", None, v.args[k: len(v.args) - n_after]), st, fr, s)
                for e, x in zip(elts[k + 1:], v.args[len(v.args) - n_after:]):
                    self.assign(e, x, st, fr, s)
            else:
                for e in elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                                N("index", None, (v, unique("star"))), st, fr, s)
            return
        for k, e in enumerate(elts):
            self.assign(e, self.index(v, const(k), st, site), st, fr, s)

    def setitem(self, target_expr, b, i, v, st, fr, site, how):
        if b.op == "objdict" and i.op == "const" and isinstance(i.payload, str):
            self.setattr(b.args[0], i.payload, v, st, site)
            return
        if b.op == "dict" and i.op == "const":
            keys = list(b.payload)
            vals = list(b.args)
            if i.payload in keys:
                vals[keys.index(i.payload)] = v
            else:
                keys.append(i.payload)
                vals.append(v)
            new = N("dict", tuple(keys), vals, site)
        else:
            new = N("inplace", how, (b, i, v), site)
        self.mutate(st, b, new, site, how)

    def _objs(self, o):
        if o.op == "obj":
            return [o.payload[0]]
        if o.op in ("phi", "loopphi"):
            out = []
            for a in o.args:
                for x in self._objs(a) if a is not o else []:
                    if x not in out:
                        out.append(x)
            return out
        return []

    def setattr(self, o, attr, v, st, site):
        o = self.simp(o, st)
        objs = self._objs(o)
        self.ev("setattr", attr, [o, v], v, st, site)
        if not objs:
            self.mutate(st, o, N("inplace", "setattr:" + attr, (o, v), site), site, "setattr:" + attr)
            return
        for oid in objs:
            cls = self.cls_of(oid)
            if cls is not None:
                for c in cls.mro():
                    if attr in c.setters:
                        self.call_func(c.setters[attr], [self.objnode(oid), v], {}, st, site)
                        break
                else:
                    if len(objs) == 1:
                        st.setattr(oid, attr, v)
                    else:
                        old = st.heap.get(oid, {}).get(attr, ABSENT)
                        st.setattr(oid, attr, self.mkphi(unique("which"), True, v, old))
                continue
            st.setattr(oid, attr, v)

    def cls_of(self, oid):
        return self._objcls.get(oid)

    def objnode(self, oid):
        return self._objnodes[oid]

    def new_obj(self, cls, key):
        oid = (cls.name, key)
        if oid not in self._objnodes:
            self._objcls[oid] = cls
            self._objnodes[oid] = N("obj", (oid, cls.name))
        return self._objnodes[oid]

    # loops ------------------------------------------------------------------
    def run_loop(self, st, fr, head, body, site, orelse=None):
        """head(st) -> cond node or None (executed at the loop head);
        body(st) executes one iteration."""
        pre = st.clone()
        phid = {}  # (store, key, var) -> loopphi
        for attempt in range(6):
            nev = len(self.events)
            cur = pre.clone()
            for (store, key, var), lp in phid.items():
                if store == "frames":
                    cur.setvar(key, var, lp)
                else:
                    cur.setattr(key, var, lp)
            headst = cur.clone()
            c = head(headst) if head else None
            bodyst = headst.clone()
            if c is not None:
                t = self.truth(c, bodyst)
                if t is False:
                    bodyst.dead = True
                else:
                    self.assume(bodyst, c, True)
            else:
                itc = unique("iter", site)
                self.assume(bodyst, itc, True)
            fr.loops.append({"break": [], "cont": []})
            if not bodyst.dead:
                body(bodyst)
            lp_ctx = fr.loops.pop()
            back = self.merge_all([bodyst] + lp_ctx["cont"])
            changed = set()
            if back is not None:
                for store in ("frames", "heap"):
                    d0, d1 = getattr(cur, store), getattr(back, store)
                    for key, env in d1.items():
                        e0 = d0.get(key)
                        if e0 is env or e0 is None:
                            continue
                        for v, x in env.items():
                            y = e0.get(v, ABSENT)
                            if x is not y and x.vn != y.vn or (x is not y and x.op in ("call", "mcall", "inplace")):
                                if v != "$ret":
                                    changed.add((store, key, v))
            new = changed - set(phid)
            if not new:
                break
            del self.events[nev:]
            for k in new:
                d = getattr(pre, k[0]).get(k[1], {})
                init = d.get(k[2], ABSENT)
                phid[k] = unique("loopphi", k[2] if isinstance(k[2], str) else str(k[2]), (init,), site)
        # patch back edges
        for k, lp in phid.items():
            init = lp.args[0]
            if back is None:
                lp.args = (init,)
                continue
            b = getattr(back, k[0]).get(k[1], {}).get(k[2], ABSENT)
            lp.args = (init, b)
        self._roots.clear()
        # exits
        exits = []
        if c is not None:
            t = self.truth(c, headst)
            if t is not True:
                ex = headst.clone()
                if t is None:
                    self.assume(ex, c, False)
                exits.append(ex)
        else:
            exits.append(headst.clone())
        if orelse and exits:
            self.block(orelse, exits[0], fr)
        allx = exits + lp_ctx["break"]
        m = self.merge_all(allx)
        if m is None:
            st.take(pre)
            st.dead = True
            return
        self.loop_log.append({"site": site, "func": getattr(fr.fi, "qual", None), "phi": phid, "cond": c, "start": cur, "back": back,
                              "exits": exits, "breaks": lp_ctx["break"], "iter": None if head else itc,
                              "events": (nev, len(self.events))})
        # guards collected inside must not leak beyond the pre-loop guards,
        # except the negated loop condition when that is the only exit
        if len([x for x in allx if not x.dead]) > 1 or c is None:
            m.guards = pre.guards if m.guards[: len(pre.guards)] == pre.guards else m.guards
        st.take(m)

    def s_While(self, s, st, fr):
        self.run_loop(st, fr, lambda x: self.eval(s.test, x, fr),
                      lambda x: self.block(s.body, x, fr), self.site(fr, s), s.orelse)

    def s_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        if st.dead:
            return
        it = self.simp(it, st)
        items = self.literal_items(it, st)
        site = self.site(fr, s)
        if items is not None and len(items) <= 12:
            fr.loops.append({"break": [], "cont": []})
            brk = []
            for x in items:
                if st.dead:
                    break
                fr.loops[-1]["cont"] = []
                self.assign(s.target, x, st, fr, s)
                self.block(s.body, st, fr)
                m = self.merge_all([st.clone()] + fr.loops[-1]["cont"]) if fr.loops[-1]["cont"] else None
                if m is not None:
                    st.take(m)
            ctx = fr.loops.pop()
            if not st.dead and s.orelse:
                self.block(s.orelse, st, fr)
            m = self.merge_all([st.clone()] + ctx["break"]) if ctx["break"] else None
            if m is not None:
                st.take(m)
            return

        def body(x):
            self.assign(s.target, self.elem(it, site), x, fr, s)
            self.block(s.body, x, fr)

        self.run_loop(st, fr, None, body, site, s.orelse)

    def literal_items(self, it, st):
        if it.op in ("tuple", "list"):
            return list(it.args)
        if it.op == "mcall" and it.payload[0] == "items" and it.args[0].op == "dict":
            d = it.args[0]
            return [N("tuple", None, (const(k), v)) for k, v in zip(d.payload, d.args)]
        if it.op == "dict":
            return [const(k) for k in it.payload]
        if it.op == "call" and it.payload[0] == "builtins.enumerate" and it.payload[1] == 1 and len(it.args) == 1:
            sub = self.literal_items(it.args[0], st)
            if sub is not None:
                return [N("tuple", None, (const(k), x)) for k, x in enumerate(sub)]
        if it.op == "call" and it.payload[0] in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "builtins.list") and it.args and \
                it.args[0].op in ("list", "tuple"):
            return list(it.args[0].args)
        if it.op == "call" and it.payload[0] in ("builtins.range", "numpy.arange") and it.payload[1] == len(it.args) and all(
                is_const(a) and isinstance(a.payload, int) for a in it.args):
            r = range(*[a.payload for a in it.args])
            if len(r) <= 12:
                return [const(k) for k in r]
        if it.op == "mcall" and it.payload[0] in ("keys", "values") and it.args[0].op == "dict":
            d = it.args[0]
            return [const(k) for k in d.payload] if it.payload[0] == "keys" else list(d.args)
        if self.len_hook is not None:
            if it.op == "call" and it.payload[0] in ("builtins.zip", "itertools.product") and it.payload[1] == len(it.args):
                subs = [self.literal_items(self.simp(a, st) if st is not None else a, st) for a in it.args]
                if all(x is not None for x in subs):
                    join = zip(*subs) if it.payload[0] == "builtins.zip" else itertools.product(*subs)
                    return [N("tuple", None, x) for x in join]
            elif it.op == "call" and it.payload[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(it.args) == 1:
                return self.literal_items(it.args[0], st)
            else:
                k = self.len_hook(it)
                if k is not None and k <= 12:
                    return [self.index(it, const(j), st, it.site if hasattr(it, "site") else None) for j in range(k)]
        return None

    def elem(self, it, site):
        if it.op in ("tuple", "list") and it.args:
            out = it.args[-1]
            for a in reversed(it.args[:-1]):
                out = self.mkphi(unique("which"), True, a, out)
            return out
        if it.op == "listof":
            return it.args[0]
        if it.op == "phi":
            return self.mkphi(it.meta, True, self.elem(it.args[0], site), self.elem(it.args[1], site))
        if it.op == "call":
            d, npos, kws = it.payload
            if d == "builtins.zip":
                return N("tuple", None, [self.elem(a, site) for a in it.args[:npos]])
            if d == "builtins.enumerate":
                return N("tuple", None, (N("loopidx", site, (it.args[0],)), self.elem(it.args[0], site)))
            if d == "builtins.range":
                return N("loopidx", site, it.args)
            if d in ("builtins.reversed", "builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted") and npos:
                return self.elem(it.args[0], site)
        if it.op == "mcall" and it.payload[0] == "items":
            return N("tuple", None, (N("elem", "key", (it.args[0],)), N("elem", None, (it.args[0],))))
        if it.op == "mcall" and it.payload[0] in ("keys", "values"):
            return N("elem", "key" if it.payload[0] == "keys" else None, (it.args[0],))
        return N("elem", None, (it,), site)

    def s_Try(self, s, st, fr):
        pre = st.clone()
        nret = len(fr.returns)
        nev = len(self.events)
        self.block(s.body, st, fr)
        # removing an attribute fails only when it is absent
        removed = [e for e in self.events[nev:] if e.kind == "delattr"] if len(s.body) == 1 else []
        outs = []
        body_end = st.clone()
        hs_base = pre if body_end.dead else None
        handler_states = []
        for h in s.handlers:
            hst = pre.clone()
            if not body_end.dead:
                a, b = pre.clone(), body_end.clone()
                c = unique("exc-at", self.site(fr, h))
                a.guards = pre.guards + ((c, True),)
                b.guards = pre.guards + ((c, False),)
                hst = self.merge(a, b)
                hst.guards = pre.guards
            for e in removed:
                for oid in self._objs(e.args[0]):
                    hst.setattr(oid, e.name, ABSENT)
            tynm = ast.unparse(h.type) if h.type is not None else "BaseException"
            self.assume(hst, unique("except", (tynm, self.site(fr, h))), True)
            if h.name:
                st_val = unique("exc", tynm)
                hst.setvar(fr.fid, h.name, st_val)
            self.block(h.body, hst, fr)
            handler_states.append(hst)
        if not body_end.dead and s.orelse:
            self.block(s.orelse, body_end, fr)
        m = self.merge_all([body_end] + handler_states)
        if m is None:
            st.dead = True
        else:
            if len([x for x in [body_end] + handler_states if not x.dead]) > 1:
                m.guards = pre.guards if m.guards[: len(pre.guards)] == pre.guards else m.guards
            st.take(m)
        if s.finalbody:
            if st.dead:
                tmp = pre.clone()
                self.block(s.finalbody, tmp, fr)
            else:
                self.block(s.finalbody, st, fr)

    def s_With(self, s, st, fr):
        mgrs = []
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if st.dead:
                return
            site = self.site(fr, s)
            r = v
            if v.op == "obj":
                cls = self.cls_of(v.payload[0])
                e = cls.lookup("__enter__")
                if e is not None:
                    r = self.call_func(e, [v], {}, st, site)
                mgrs.append((v, cls, site))
            elif v.op == "call":
                self.ev("with", v.payload[0], [v], v, st, site)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st, fr, s)
        self.block(s.body, st, fr)
        if st.dead:
            return
        for v, cls, site in reversed(mgrs):
            x = cls.lookup("__exit__")
            if x is not None:
                self.call_func(x, [v, NONE, NONE, NONE], {}, st, site)

    def s_FunctionDef(self, s, st, fr):
        fr.captured = True
        fi = FuncInfo(fr.module, (fr.fi.qual + "." if fr.fi else "") + s.name, s, None)
        fi.encl_cls = fr.cls
        node = self.closure(fi, fr, st)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st, fr)
            base = dv
            if base.op == "call" and base.payload[0] in TRANSPARENT_DECOS:
                continue
            if base.op == "ext" and (base.payload in TRANSPARENT_DECOS or base.payload.startswith("builtins.")):
                continue
            if base.op in ("func", "closure"):
                node = self.apply(dv, [node], {}, st, self.site(fr, s), fr)
        st.setvar(fr.fid, s.name, node)

    s_AsyncFunctionDef = s_FunctionDef

    def closure(self, fi, fr, st):
        encl = (fr.fid,) + tuple(fr.closure or ())
        return N("closure", (fi.module.name, fi.qual, encl), meta=(fi, encl, fr.cls))

    def s_ClassDef(self, s, st, fr):
        ci = ClassInfo(fr.module, s.name, s)
        ci.bases = [self.p.resolve_static(fr.module, b) for b in s.bases]
        st.setvar(fr.fid, s.name, N("class", s.name, meta=ci))

    def s_Match(self, s, st, fr):
        subj = self.eval(s.subject, st, fr)
        outs = []
        for c in s.cases:
            x = st.clone()
            cond = unique("match", self.site(fr, s))
            if isinstance(c.pattern, ast.MatchValue):
                pv = self.eval(c.pattern.value, x, fr)
                cond = self.compare("==", subj, pv, st)
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                cond = TRUE
                if c.pattern.name:
                    x.setvar(fr.fid, c.pattern.name, subj)
            t = self.truth(cond, x)
            if t is False:
                continue
            if t is None:
                self.assume(x, cond, True)
            self.block(c.body, x, fr)
            outs.append(x)
            if t is True:
                st.dead = True
                break
            self.assume(st, cond, False)
        m = self.merge_all(outs + [st.clone()])
        if m is None:
            st.dead = True
        else:
            st.take(m)

    # ------------------------------------------------------------- expressions
    def eval(self, e, st, fr) -> N:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"{fr.module.path}:{getattr(e,'lineno',0)}: unsupported expression {type(e).__name__}")
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value, self.site(fr, e)) if e.value is not Ellipsis else N("ext", "Ellipsis")

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        st.setvar(fr.fid, e.target.id, v)
        return v

    def e_Tuple(self, e, st, fr):
        return N("tuple", None, self.elts(e.elts, st, fr), self.site(fr, e))

    def e_List(self, e, st, fr):
        return self.mklist(self.elts(e.elts, st, fr), self.site(fr, e))

    def mklist(self, args, site):
        n = N("list", None, args, site)
        return n

    def e_Set(self, e, st, fr):
        return N("set", None, self.elts(e.elts, st, fr), self.site(fr, e))

    def elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                if v.op in ("tuple", "list"):
                    out.extend(v.args)
                else:
                    out.append(N("star", None, (v,)))
            else:
                out.append(self.eval(x, st, fr))
        return out

    def e_Dict(self, e, st, fr):
        keys, vals, unk = [], [], False
        rest = []
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st, fr)
            if k is None:
                if vv.op == "dict":
                    for kk, x in zip(vv.payload, vv.args):
                        if kk in keys:
                            vals[keys.index(kk)] = x
                        else:
                            keys.append(kk)
                            vals.append(x)
                else:
                    unk = True
                    rest.append(vv)
                continue
            kn = self.eval(k, st, fr)
            if kn.op == "const":
                keys.append(kn.payload)
                vals.append(vv)
            elif kn.op == "class":
                keys.append("class:" + kn.payload)
                vals.append(vv)
            else:
                unk = True
                rest += [kn, vv]
        if unk:
            return N("dictunk", tuple(keys), vals + rest, self.site(fr, e))
        return N("dict", tuple(keys), vals, self.site(fr, e))

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.eval(v.value, st, fr))
            else:
                parts.append(const(v.value))
        if all(p.op == "const" and isinstance(p.payload, str) for p in parts):
            return const("".join(p.payload for p in parts))
        return N("str", None, parts, self.site(fr, e))

    def e_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        ev = lambda x: self.eval(x, st, fr) if x is not None else NONE
        return N("slice", None, (ev(e.lower), ev(e.upper), ev(e.step)))

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            if t is not None:
                return const(not t)
            return self.mknot(v)
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        if v.op == "const" and isinstance(v.payload, (int, float)) and op == "-":
            return const(-v.payload)
        if op == "~":
            return N("not", None, (v,)) if v.op in ("cmp", "not", "and", "or") else N("un", op, (v,))
        return N("un", op, (v,), self.site(fr, e))

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(_BINOPS[type(e.op)], a, b, st, self.site(fr, e))

    def binop(self, op, a, b, st, site):
        if a.op == "const" and b.op == "const":
            try:
                if isinstance(a.payload, (int, float, str)) and isinstance(b.payload, (int, float, str)):
                    if op == "+":
                        return const(a.payload + b.payload)
                    if op == "-":
                        return const(a.payload - b.payload)
                    if op == "*" and not isinstance(a.payload, str):
                        return const(a.payload * b.payload)
                    if op == "/" and b.payload:
                        return const(a.payload / b.payload)
                    if op == "**" and abs(b.payload) < 10:
                        return const(a.payload ** b.payload)
            except Exception:
                pass
        if op == "+" and a.op in ("list", "tuple") and b.op == a.op:
            return N(a.op, None, a.args + b.args, site)
        if op == "*" and a.op in ("list", "tuple") and is_const(b) and isinstance(b.payload, int) and 0 <= b.payload <= 12:
            return N(a.op, None, a.args * b.payload, site)
        return N("bin", op, (a, b), site)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        vals = []
        cur = st.clone()
        base = st.clone()
        for x in e.values:
            v = self.eval(x, cur, fr)
            if cur.dead:
                break
            t = self.truth(v, cur)
            if isand and t is True:
                vals.append(v)
                continue
            if not isand and t is False:
                vals.append(v)
                continue
            vals.append(v)
            if (isand and t is False) or (not isand and t is True):
                break
            self.assume(cur, v, isand)
        # side effects of operand evaluation
        if not cur.dead:
            self._commit_effects(st, cur)
        if isand:
            nt = [v for v in vals if self.truth(v, st) is not True]
            if not nt:
                return vals[-1]
            fl = [v for v in vals if self.truth(v, st) is False]
            if fl:
                return fl[0] if len(nt) == 1 else const(False)
            if len(nt) == 1 and nt[0] is vals[-1]:
                return nt[0]
            if len(nt) == 1:
                return nt[0]
            return N("and", None, nt, self.site(fr, e))
        nf = [v for v in vals if self.truth(v, st) is not False]
        if not nf:
            return vals[-1]
        if self.truth(nf[0], st) is True:
            return nf[0]
        if len(nf) == 1:
            return nf[0]
        if nf[-1].op != "const" and any(self.truth(v, st) is True for v in nf) and all(
                v.op in ("cmp", "not", "and", "or") for v in nf):
            return TRUE
        return N("or", None, nf, self.site(fr, e))

    def _commit_effects(self, st, cur):
        """Make heap/frame effects of conditionally evaluated operands visible."""
        g, f = st.guards, st.facts
        for store, setter in (("frames", st.setvar), ("heap", st.setattr)):
            d0, d1 = getattr(st, store), getattr(cur, store)
            for key, env in d1.items():
                e0 = d0.get(key)
                if e0 is env:
                    continue
                if e0 is None:
                    d0[key] = env
                    continue
                for v, x in list(env.items()):
                    y = e0.get(v, ABSENT)
                    if x is not y:
                        setter(key, v, self.mkphi(unique("shortcircuit"), True, x, y))

    def e_IfExp(self, e, st, fr):
        c = self.eval(e.test, st, fr)
        if st.dead:
            return NONE
        t = self.truth(c, st)
        if t is not None:
            return self.eval(e.body if t else e.orelse, st, fr)
        s1, s2 = st.clone(), st.clone()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        a = self.eval(e.body, s1, fr)
        b = self.eval(e.orelse, s2, fr)
        if s1.dead and s2.dead:
            st.dead = True
            return NONE
        st.take(self.merge(s1, s2))
        if s1.dead:
            return b
        if s2.dead:
            return a
        return self.mkphi(c, True, a, b)

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        out = []
        for o, c in zip(e.ops, e.comparators):
            right = self.eval(c, st, fr)
            out.append(self.compare(_CMPOPS[type(o)], left, right, st, self.site(fr, e)))
            left = right
        if len(out) == 1:
            return out[0]
        if any(self.truth(x, st) is False for x in out):
            return FALSE
        out = [x for x in out if self.truth(x, st) is not True] or [TRUE]
        return out[0] if len(out) == 1 else N("and", None, out)

    def compare(self, op, a, b, st, site=None, depth=0):
        if op == "is not":
            return self.mknot(self.compare("is", a, b, st, site))
        if op == "not in":
            return self.mknot(self.compare("in", a, b, st, site))
        if op == "is" and a.op == "const" and b.op != "const":
            a, b = b, a
        if a.op == "phi" and depth < 8 and (b.op == "const" or b.op in ("list", "tuple")):
            c = self.truth(a.meta, st)
            if c is not None:
                return self.compare(op, a.args[0 if c else 1], b, st, site, depth + 1)
            x = self.compare(op, a.args[0], b, st, site, depth + 1)
            y = self.compare(op, a.args[1], b, st, site, depth + 1)
            if x.op == "const" or y.op == "const" or op == "is":
                if x.vn == y.vn:
                    return x
                return self.mkphi(a.meta, True, x, y)
        if op == "is":
            if a.op == "const" and b.op == "const":
                return const(a.payload is b.payload if (a.payload is None or b.payload is None or isinstance(a.payload, bool) or isinstance(b.payload, bool)) else a.payload == b.payload)
            if is_const(b, None):
                nl = self.nullness(a, st)
                if nl is not None:
                    return const(nl)
            elif a.op in ("obj", "class", "func") and b.op in ("obj", "class", "func"):
                return const(a.vn == b.vn)
        if op in ("==", "!=") and a.op == "const" and b.op == "const":
            r = a.payload == b.payload
            return const(r if op == "==" else not r)
        if op in ("==", "!=") and (is_const(b, None) or is_const(a, None)):
            other = a if is_const(b, None) else b
            nl = self.nullness(other, st)
            if nl is not None:
                return const(nl if op == "==" else not nl)
        if op in ("<", "<=", ">", ">=") and a.op == "const" and b.op == "const":
            try:
                x, y = a.payload, b.payload
                return const({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
            except TypeError:
                pass
        if op == "in" and b.op == "objdict" and a.op == "const":
            return self.method_model(b, "__contains__", [a], {}, st, site, None)
        if op == "in" and b.op in ("list", "tuple", "set"):
            if a.op == "const":
                hit = False
                unk = False
                for x in b.args:
                    if x.op == "const":
                        if x.payload == a.payload and type(x.payload) is type(a.payload):
                            hit = True
                    else:
                        unk = True
                if hit:
                    return TRUE
                if not unk:
                    return FALSE
        if op == "in" and a.op == "const" and b.op == "const" and isinstance(b.payload, str):
            return const(a.payload in b.payload)
        if op == "in" and a.op == "const" and b.op == "phi" and depth < 8:
            x = self.compare(op, a, b.args[0], st, site, depth + 1)
            y = self.compare(op, a, b.args[1], st, site, depth + 1)
            if x.op == "const" or y.op == "const":
                if x.vn == y.vn:
                    return x
                return self.mkphi(b.meta, True, x, y)
        if op == "in" and a.op == "const" and b.op == "dict":
            return const(a.payload in b.payload)
        return N("cmp", op, (a, b), site)

    def e_Attribute(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        return self.getattr(o, e.attr, st, self.site(fr, e), fr)

    def getattr(self, o, attr, st, site, fr=None, default=None):
        o = self.simp(o, st)
        if self.attr_hook is not None:
            r = self.attr_hook(o, attr)
            if r is not None:
                return r
        if o.op == "module":
            return self.global_lookup(o.meta, attr)
        if o.op == "ext":
            return N("ext", f"{o.payload}.{attr}")
        if o.op == "pyx":
            return N("ext", f"{o.payload}.{attr}")
        if o.op == "class":
            ci = o.meta
            m = ci.lookup(attr)
            if m is not None:
                return self.func_node(m)
            ca = ci.lookup_attr(attr)
            if ca is not None:
                return self.eval_class_attr(*ca)
            return N("getattr", attr, (o,), site)
        if o.op == "super":
            cls, selfn = o.meta
            obj = selfn
            oid = obj.payload[0]
            m = self.cls_of(oid).lookup_after(cls, attr)
            if m is not None:
                return N("boundmethod", (attr, m.qual), (obj,), meta=m)
            return N("getattr", attr, (obj,), site, meta="super")
        if o.op == "obj":
            oid = o.payload[0]
            cls = self.cls_of(oid)
            h = st.heap.get(oid, {}).get(attr)
            if h is not None and h.op != "absent":
                h = self.simp(h, st)
                if h.op != "absent":
                    if default is not None and h.op == "phi" and self.has_absent(h):
                        return self.replace_absent(h, default)
                    return h
            if attr == "__class__":
                return N("class", cls.name, meta=cls)
            if attr == "__dict__":
                return N("objdict", oid, (o,), site)
            m = cls.lookup(attr)
            if m is not None:
                decos = {ast.unparse(d) for d in m.decorators}
                if any(d.endswith("property") for d in decos):
                    nd = self.call_func(m, [o], {}, st, site)
                    return nd
                if "staticmethod" in decos:
                    return N("func", (m.module.name, m.qual), meta=m)
                f = self.func_node(m)
                if f.op == "closure":
                    return N("boundclosure", attr, (o, f))
                return N("boundmethod", (attr, m.qual), (o,), meta=m)
            ca = cls.lookup_attr(attr)
            if ca is not None:
                return self.eval_class_attr(*ca)
            if default is not None:
                return default
            if h is not None and h.op == "absent" and not cls.ext_bases():
                return N("getattr", attr, (o,), site, meta="absent")
            return N("getattr", attr, (o,), site)
        if o.op == "phi":
            a = self.getattr(o.args[0], attr, st, site, fr)
            b = self.getattr(o.args[1], attr, st, site, fr)
            return self.mkphi(o.meta, True, a, b)
        return N("getattr", attr, (o,), site)

    def has_absent(self, n, d=0):
        if n.op == "absent":
            return True
        return n.op == "phi" and d < 12 and any(self.has_absent(a, d + 1) for a in n.args)

    def replace_absent(self, n, dflt, d=0):
        if n.op == "absent":
            return dflt
        if n.op == "phi" and d < 12:
            return self.mkphi(n.meta, True, self.replace_absent(n.args[0], dflt, d + 1),
                              self.replace_absent(n.args[1], dflt, d + 1))
        return n

    def eval_class_attr(self, ci, expr):
        key = ("classattr", ci.module.name, ci.name, id(expr))
        if key not in self._globals:
            st = State()
            fr = Frame(self.newfid(), None, ci.module)
            st.frames[fr.fid] = {}
            for k, v in ci.class_attrs.items():
                if v is expr:
                    break
                try:
                    st.frames[fr.fid][k] = self.eval(v, st, fr)
                except AnalysisError:
                    pass
            self._globals[key] = self.eval(expr, st, fr)
        return self._globals[key]

    def e_Subscript(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        i = self.eval(e.slice, st, fr)
        return self.index(b, i, st, self.site(fr, e))

    def index(self, b, i, st, site):
        b = self.simp(b, st)
        if b.op in ("tuple", "list") and i.op == "const" and isinstance(i.payload, int):
            try:
                if not any(a.op == "star" for a in b.args):
                    return b.args[i.payload]
            except IndexError:
                pass
        if b.op in ("tuple", "list") and i.op == "slice" and all(x.op == "const" for x in i.args):
            return N(b.op, None, b.args[slice(*[x.payload for x in i.args])])
        if b.op == "dict":
            if i.op == "const" and i.payload in b.payload:
                return b.args[b.payload.index(i.payload)]
            if i.op == "class" and "class:" + i.payload in b.payload:
                return b.args[b.payload.index("class:" + i.payload)]
        if b.op == "phi" and i.op == "const" and isinstance(i.payload, (int, str)):
            if any(self._has_tuple(a) for a in b.args):
                return self.mkphi(b.meta, True, self.index(b.args[0], i, st, site),
                                  self.index(b.args[1], i, st, site))
        if b.op == "loopphi" and i.op == "const" and b.args and b.args[0].op == "tuple":
            pass
        if b.op == "listof" and i.op in ("const", "loopidx"):
            return b.args[0]
        return N("index", None, (b, i), site)

    def _has_tuple(self, n, d=0):
        if n.op in ("tuple", "dict"):
            return True
        if n.op == "phi" and d < 8:
            return any(self._has_tuple(a, d + 1) for a in n.args)
        return False

    def e_Lambda(self, e, st, fr):
        fr.captured = True
        fi = FuncInfo(fr.module, (fr.fi.qual + "." if fr.fi else "") + "<lambda>", e, None)
        return self.closure(fi, fr, st)

    def e_ListComp(self, e, st, fr):
        return self.comp(e, [e.elt], st, fr, "list")

    def e_SetComp(self, e, st, fr):
        r = self.comp(e, [e.elt], st, fr, "set")
        return N("listof", "set", r.args) if r.op == "listof" else N("set", None, r.args)

    def e_GeneratorExp(self, e, st, fr):
        self.stack.append(("<genexpr>", self.site(fr, e)))
        try:
            return self.comp(e, [e.elt], st, fr, "gen")
        finally:
            self.stack.pop()

    def e_DictComp(self, e, st, fr):
        r = self.comp(e, [e.key, e.value], st, fr, "dict")
        return r

    def comp(self, e, elts, st, fr, kind):
        """Comprehension scope: own frame chained to the current one."""
        site = self.site(fr, e)
        cfr = Frame(self.newfid(), fr.fi, fr.module, (fr.fid,) + tuple(fr.closure or ()))
        cfr.cls = fr.cls
        st.frames[cfr.fid] = {}
        gens = e.generators
        # small literal iterables without filters: exact
        if len(gens) == 1 and (kind in ("list", "gen", "set") or kind == "dict" and self.attr_hook is not None):
            it = self.simp(self.eval(gens[0].iter, st, fr), st)
            items = self.literal_items(it, st)
            if items is not None and len(items) <= 12:
                out = []
                for x in items:
                    self.assign(gens[0].target, x, st, cfr, e)
                    ts = []
                    for c in gens[0].ifs:
                        t = self.truth(self.eval(c, st, cfr), st)
                        ts.append(t)
                        if t is not True:
                            break
                    if any(t is None for t in ts):
                        break
                    if all(ts):
                        out.append(self.eval(elts[0], st, cfr) if kind != "dict" else tuple(self.eval(z, st, cfr) for z in elts))
                else:
                    if kind != "dict":
                        return N("list", None, out, site)
                    if all(is_const(k) for k, v in out):
                        d = {k.payload: v for k, v in out}
                        return N("dict", tuple(d), list(d.values()), site)
        if self.len_hook is not None and len(gens) > 1 and kind in ("list", "gen") and not any(g.ifs for g in gens):
            out = []

            def exact(k):
                if k == len(gens):
                    out.append(self.eval(elts[0], st, cfr))
                    return True
                items = self.literal_items(self.simp(self.eval(gens[k].iter, st, cfr), st), st)
                if items is None or len(items) > 12:
                    return False
                for x in items:
                    self.assign(gens[k].target, x, st, cfr, e)
                    if not exact(k + 1):
                        return False
                return True

            if exact(0):
                return N("list", None, out, site)
        iters, conds = [], []
        cell = {}

        def level(k, x):
            if k == len(gens):
                cell["v"] = [self.eval(z, x, cfr) for z in elts]
                cell["g"] = x.guards
                return
            g = gens[k]
            it = self.simp(self.eval(g.iter, x, cfr if k else fr_like), x)
            if len(iters) <= k:
                iters.append(it)
            else:
                iters[k] = it

            def body(y):
                self.assign(g.target, self.elem(it, site), y, cfr, e)
                for c in g.ifs:
                    cv = self.eval(c, y, cfr)
                    if y.dead:
                        return
                    t = self.truth(cv, y)
                    conds.append(cv)
                    if t is None:
                        self.assume(y, cv, True)
                level(k + 1, y)

            self.run_loop(x, cfr, None, body, site)

        fr_like = cfr
        level(0, st)
        vals = cell.get("v", [NONE])
        if kind == "dict":
            return N("listof", "dict", (vals[1], vals[0], *iters, *conds), site)
        return N("listof", None, (vals[0], *iters, *conds), site)

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value is not None else NONE
        fr.yields.append(v)
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        fr.yields.append(self.elem(v, self.site(fr, e)))
        return NONE

    # ------------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        site = self.site(fr, e)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = fr.cls
            selfname = fr.fi.node.args.args[0].arg
            return N("super", cls.name, meta=(cls, self.lookup(selfname, st, fr)))
        f = self.eval(e.func, st, fr)
        if st.dead:
            return NONE
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                v = self.simp(v, st)
                if v.op in ("tuple", "list"):
                    args.extend(v.args)
                else:
                    args.append(N("star", None, (v,)))
            else:
                args.append(self.eval(a, st, fr))
            if st.dead:
                return NONE
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if st.dead:
                return NONE
            if k.arg is None:
                if v.op in ("dict", "dictunk"):
                    for kk, x in zip(v.payload, v.args):
                        kwargs[str(kk)] = x
                    if v.op == "dictunk":
                        for j, x in enumerate(v.args[len(v.payload):]):
                            kwargs[f"**{j}"] = x
                else:
                    kwargs[f"**{len(kwargs)}"] = v
            else:
                kwargs[k.arg] = v
        return self.apply(f, args, kwargs, st, site, fr)

    def apply(self, f, args, kwargs, st, site, fr=None):
        f = self.simp(f, st)
        op = f.op
        if op == "func":
            return self.call_func(f.meta, args, kwargs, st, site)
        if op == "closure":
            fi, encl, cls = f.meta
            for fid in encl:
                if fid not in st.frames and fid in self.st0.frames:
                    st.frames[fid] = self.st0.frames[fid]
                    st._sf.add(fid)
            return self.call_func(fi, args, kwargs, st, site, encl, cls)
        if op == "boundmethod":
            return self.call_func(f.meta, [f.args[0]] + args, kwargs, st, site)
        if op == "boundclosure":
            return self.apply(f.args[1], [f.args[0]] + args, kwargs, st, site, fr)
        if op == "class":
            return self.instantiate(f.meta, args, kwargs, st, site)
        if op == "partial":
            npos, kws = f.payload
            base = f.args[0]
            a = list(f.args[1:1 + npos]) + args
            k = dict(zip(kws, f.args[1 + npos:]))
            k.update(kwargs)
            return self.apply(base, a, k, st, site, fr)
        if op == "delayed":
            self.ev("worker", "enter", [f.args[0]], f, st, site)
            n0 = len(self.events)
            heap = {o: dict(v) for o, v in st.heap.items()}
            r = self.apply(f.args[0], args, kwargs, st, site, fr)
            self.jobs.append((list(args) + list(kwargs.values()), n0, len(self.events), heap, {o: dict(v) for o, v in st.heap.items()}))
            if self.isolate_jobs:
                for o, v in heap.items():
                    new = st.heap.get(o, {})
                    st.heap[o] = {a: N("src", f"left by a job:{a}") if a not in v or v[a].vn != x.vn else x for a, x in new.items()}
            self.ev("worker", "leave", [r], r, st, site)
            return r
        if op == "pyx":
            return self.call_pyx(f.payload, args, kwargs, st, site)
        if op == "ext":
            return self.call_ext(f.payload, args, kwargs, st, site, fr)
        if op == "getattr":
            return self.call_method(f, args, kwargs, st, site, fr)
        if op == "phi":
            c = f.meta
            s1, s2 = st.clone(), st.clone()
            self.assume(s1, c, True)
            self.assume(s2, c, False)
            a = self.apply(f.args[0], args, kwargs, s1, site, fr)
            b = self.apply(f.args[1], args, kwargs, s2, site, fr)
            if s1.dead and s2.dead:
                st.dead = True
                return NONE
            st.take(self.merge(s1, s2))
            return b if s1.dead else a if s2.dead else self.mkphi(c, True, a, b)
        if op == "call" and f.payload[0].endswith("joblib.Parallel"):
            self.ev("call", "joblib.Parallel()", [f] + args, f, st, site)
            return args[0] if args else N("unknown", "Parallel")
        if op == "obj":
            cls = self.cls_of(f.payload[0])
            m = cls.lookup("__call__")
            if m is not None:
                return self.call_func(m, [f] + args, kwargs, st, site)
        kws = tuple(kwargs)
        n = N("mcall", ("__call__", len(args) + 1, kws), [f] + args + [kwargs[k] for k in kws], site)
        self.ev("mcall", "__call__", n.args, n, st, site, dict(kwargs))
        return n

    def bind(self, fi, args, kwargs, st, closure_st=None):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        bound, rest = {}, []
        args = list(args)
        # trailing star of unknown length fills remaining positionals
        i = 0
        for x in args:
            if x.op == "star":
                j = 0
                while i < len(pos):
                    bound[pos[i]] = N("index", None, (x.args[0], const(j)))
                    i += 1
                    j += 1
                rest.append(x)
                continue
            if i < len(pos):
                bound[pos[i]] = x
                i += 1
            else:
                rest.append(x)
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwo:
                bound[k] = v
            else:
                extra[k] = v
        nd = len(a.defaults)
        missing = []
        for k, dflt in zip(pos[len(pos) - nd:], a.defaults):
            if k not in bound:
                missing.append((k, dflt))
        for k, dflt in zip(kwo, a.kw_defaults):
            if k not in bound and dflt is not None:
                missing.append((k, dflt))
        dst = State()
        dfr = Frame(self.newfid(), None, fi.module)
        dst.frames[dfr.fid] = {}
        for k, dflt in missing:
            bound[k] = self.eval(dflt, dst, dfr)
        for k in pos + kwo:
            if k not in bound:
                bound[k] = N("unknown", f"missing:{fi.qual}.{k}", [x for kk, x in extra.items() if kk.startswith("**")])
        if a.vararg:
            bound[a.vararg.arg] = N("tuple", None, rest)
        if a.kwarg:
            bound[a.kwarg.arg] = N("dict", tuple(extra), list(extra.values()))
        return bound

    def call_func(self, fi, args, kwargs, st, site, encl=None, cls=None):
        depth = len(self.stack)
        rec = sum(1 for s in self.stack if s[0] == fi.qual)
        bound = self.bind(fi, args, kwargs, st)
        if rec >= 2 or depth > 60:
            n = N("rec", fi.qual, list(bound.values()), site)
            return n
        key = fi.qual
        self.analysed.add((fi.module.name, fi.qual))
        if key in self.stub:
            r = self.stub[key](self, bound, st, site)
            if r is not None:
                return r
        self.ev("enter", fi.qual, list(bound.values()), None, st, site, bound)
        fr = Frame(self.newfid(), fi, fi.module, encl)
        if cls is not None and fr.cls is None:
            fr.cls = cls
        st.frames[fr.fid] = dict(bound)
        st._sf.discard(fr.fid)
        gpre = st.guards
        self.stack.append((fi.qual, site))
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, st, fr)
                if not st.dead:
                    st.setvar(fr.fid, "$ret", v)
                    fr.returns.append(st.clone())
                    st.dead = True
            else:
                self.block(fi.node.body, st, fr)
                if not st.dead:
                    st.setvar(fr.fid, "$ret", NONE)
                    fr.returns.append(st.clone())
        finally:
            self.stack.pop()
        m = self.merge_all(fr.returns)
        if m is None:
            st.dead = True
            return NONE
        ret = m.frames[fr.fid].get("$ret", NONE)
        if fr.yields:
            out = fr.yields[-1]
            for y in reversed(fr.yields[:-1]):
                out = self.mkphi(unique("which"), True, y, out)
            ret = N("listof", None, (out,), site)
        if not fr.captured:
            m.frames.pop(fr.fid, None)
            m._sf.discard(fr.fid)
        st.take(m)
        self.ev("leave", fi.qual, [ret], ret, st, site, bound)
        return self.simp(ret, st)

    def instantiate(self, ci, args, kwargs, st, site):
        if any("Exception" in b or "Error" in b or "Warning" in b for b in ci.ext_bases()):
            return N("call", (ci.name, len(args), tuple(kwargs)), args + list(kwargs.values()), site)
        key = (site, tuple(s[1] for s in self.stack[-6:]))
        o = self.new_obj(ci, key)
        oid = o.payload[0]
        st.heap[oid] = {}
        st._sh.discard(oid)
        self.ev("new", ci.name, args + list(kwargs.values()), o, st, site, dict(kwargs))
        init = ci.lookup("__init__")
        if init is not None:
            self.call_func(init, [o] + args, kwargs, st, site)
            return o
        if ci.is_dataclass() or any(b.split(".")[-1] == "NamedTuple" for b in ci.ext_bases()):
            self.dataclass_init(ci, o, args, kwargs, st, site)
        return o

    def dataclass_init(self, ci, o, args, kwargs, st, site):
        vals = dict(kwargs)
        names = [f[0] for f in ci.fields]
        for k, a in zip(names, args):
            vals[k] = a
        post = []
        for name, ann, default in ci.fields:
            initvar = "InitVar" in ast.unparse(ann)
            v = vals.get(name)
            if v is None:
                if default is None:
                    v = N("unknown", f"missing:{ci.name}.{name}")
                else:
                    v = self.eval_class_attr(ci, default)
                    if v.op == "call" and v.payload[0] == "dataclasses.field":
                        v = N("unknown", "field")
            if initvar:
                post.append(v)
            else:
                st.setattr(o.payload[0], name, v)
        pi = ci.lookup("__post_init__")
        if pi is not None:
            self.call_func(pi, [o] + post, {}, st, site)

    # pyx kernels --------------------------------------------------------------
    def pyx_effects(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        cm = self.p.pyx(mod)
        if name not in cm.functions:
            raise AnalysisError(f"kernel {dotted} vanished from the Cython source")
        key = mod
        if key not in self._pyxeff:
            self._pyxeff[key] = compute_pyx_effects(cm)
        return cm.functions[name], self._pyxeff[key][name]

    def call_pyx(self, dotted, args, kwargs, st, site):
        fn, written = self.pyx_effects(dotted)
        bound = dict(zip(fn.params, args))
        bound.update(kwargs)
        names = [p for p in fn.params if p in bound]
        call = N("kcall", (dotted, tuple(names)), [bound[p] for p in names], site)
        self.ev("kcall", dotted, call.args, call, st, site, bound)
        for p in names:
            if p in written:
                t = bound[p]
                out = N("kout", (dotted, p), (t, call), site)
                self.mutate(st, t, out, site, f"kernel:{dotted.split('.')[-1]}:{p}")
        return call

    # external -------------------------------------------------------------------
    def call_ext(self, d, args, kwargs, st, site, fr):
        h = getattr(self, "x_" + d.replace(".", "_"), None)
        if h is not None:
            r = h(args, kwargs, st, site, fr)
            if r is not None:
                return r
        if d.endswith("validate_data"):
            r = self.validate_data(d, args, kwargs, st, site, fr)
            if r is not None:
                return r
        if d.endswith("functools.partial") or d == "functools.partial":
            kws = tuple(kwargs)
            return N("partial", (len(args) - 1, kws), args + [kwargs[k] for k in kws], site)
        if d in ("joblib.delayed", "sklearn.utils.parallel.delayed", "sklearn.utils.fixes.delayed"):
            return N("delayed", None, args, site)
        if d in ("typing.cast",):
            return args[1] if len(args) > 1 else kwargs.get("val", NONE)
        # callbacks handed to external code
        cb = []
        for a in list(args) + list(kwargs.values()):
            if a.op in ("closure", "partial", "func", "boundmethod") and not d.startswith("builtins.isinstance"):
                cb.append(self.run_callback(a, args, kwargs, st, site, fr))
        kws = tuple(kwargs)
        nargs = list(args) + [kwargs[k] for k in kws] + cb
        payload = (d, len(args), kws)
        if d.startswith(IMPURE) and not d.startswith("numpy.random.RandomState"):
            n = unique("call", payload, nargs, site)
        else:
            n = N("call", payload, nargs, site)
        if d == "warnings.warn":
            cat = args[1] if len(args) > 1 else kwargs.get("category")
            self.ev("warn", exc_name(cat) if cat is not None else "UserWarning", nargs, n, st, site)
            return NONE
        self.ev("call", d, nargs, n, st, site, dict(kwargs))
        if self.refused(d, None, args, kwargs, n, st, site):
            return n
        out = kwargs.get("out")
        if out is not None and not is_const(out, None):
            t = out.args[0] if out.op == "tuple" and out.args else out
            self.mutate(st, t, N("inplace", "out:" + d, (t, n), site), site, "out=" + d)
        for k, v in kwargs.items():
            if k.startswith("overwrite_") and not (v.op == "const" and not v.payload) and args:
                for t in args[:2]:
                    self.mutate(st, t, N("inplace", k, (t, n), site), site, k)
        if d in MUT_CALLS and len(args) > MUT_CALLS[d]:
            t = args[MUT_CALLS[d]]
            self.mutate(st, t, N("inplace", d, (t, *args[1:]), site), site, d)
        # numpy ufunc with positional out
        if d.startswith("numpy.") and d.split(".")[-1] in UFUNC2 and len(args) > 2:
            self.mutate(st, args[2], N("inplace", "out:" + d, (args[2], n), site), site, "out=" + d)
        if d.startswith("numpy.") and d.split(".")[-1] in UFUNC1 and len(args) > 1:
            self.mutate(st, args[1], N("inplace", "out:" + d, (args[1], n), site), site, "out=" + d)
        if d == "numpy.nan_to_num" and "copy" in kwargs and not (is_const(kwargs["copy"], True)) and args:
            self.mutate(st, args[0], N("inplace", d, (args[0],), site), site, d)
        return n

    def run_callback(self, f, args, kwargs, st, site, fr):
        """External code may call f with values derived from its own arguments."""
        base = f
        bound_k, npos = set(), 0
        while base.op == "partial":
            npos += base.payload[0]
            bound_k |= set(base.payload[1])
            base = base.args[0]
        fi = base.meta[0] if base.op == "closure" else base.meta
        if not isinstance(fi, FuncInfo):
            return N("unknown", "callback")
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if base.op == "boundmethod":
            pos = pos[1:]
        nreq = len(pos) - len(a.defaults)
        cbargs = []
        others = [x for x in list(args) + list(kwargs.values()) if x is not f]
        for k, p in enumerate(pos[npos:]):
            if p in bound_k or k + npos >= nreq:
                break
            cbargs.append(N("cbarg", (site, k), others))
        c = st.clone()
        r = self.apply(f, cbargs, {}, c, site, fr)
        return r if not c.dead else N("unknown", "callback-raises")

    def call_method(self, f, args, kwargs, st, site, fr):
        recv, m = f.args[0], f.payload
        h = self.method_model(recv, m, args, kwargs, st, site, fr)
        if h is not None:
            return h
        cb = []
        for a in list(args) + list(kwargs.values()):
            if a.op in ("closure", "partial"):
                cb.append(self.run_callback(a, args, kwargs, st, site, fr))
        kws = tuple(kwargs)
        nargs = [recv] + list(args) + [kwargs[k] for k in kws] + cb
        payload = (m, len(args) + 1, kws)
        impure = m in ("randint", "rand", "permutation", "shuffle", "normal", "uniform", "choice", "now")
        n = unique("mcall", payload, nargs, site) if impure else N("mcall", payload, nargs, site)
        self.ev("mcall", m, nargs, n, st, site, dict(kwargs))
        if self.refused(m, recv, args, kwargs, n, st, site):
            return n
        if m in MUT_METHODS:
            self.mutate(st, recv, N("inplace", m, tuple(nargs), site), site, "." + m)
        ip = kwargs.get("inplace")
        if ip is not None and not (ip.op == "const" and not ip.payload):
            self.mutate(st, recv, N("inplace", m, tuple(nargs), site), site, "." + m)
        out = kwargs.get("out")
        if out is not None and not is_const(out, None):
            self.mutate(st, out, N("inplace", m, (out, n), site), site, "." + m + "(out=)")
        return n

    def method_model(self, recv, m, args, kwargs, st, site, fr):
        if self.mcall_hook is not None:
            r = self.mcall_hook(recv, m, args, kwargs, site)
            if r is not None:
                return r
        if recv.op == "objdict" and args and args[0].op == "const" and m in ("pop", "get", "setdefault", "__contains__"):
            o, a = recv.args[0], args[0]
            have = self.x_builtins_hasattr([o, a], {}, st, site, fr) if st.heap.get(recv.payload, {}).get(a.payload) is not None else FALSE
            v = self.getattr(o, a.payload, st, site, fr, default=args[1] if len(args) > 1 else NONE) if not is_const(have, False) else (
                args[1] if len(args) > 1 else NONE)
            if m == "__contains__":
                return have
            if m == "pop":
                self.ev("delattr", a.payload, [o], o, st, site)
                st.setattr(recv.payload, a.payload, ABSENT)
            elif m == "setdefault" and is_const(have, False):
                self.setattr(o, a.payload, v, st, site)
            return v
        if recv.op == "objdict" and m == "update" and len(args) == 1 and args[0].op == "dict" and all(isinstance(k, str) for k in args[0].payload):
            for k, v in zip(args[0].payload, args[0].args):
                self.setattr(recv.args[0], k, v, st, site)
            return NONE
        if recv.op == "const" and isinstance(recv.payload, str):
            if m in ("lower", "upper", "strip") and not args:
                return const(getattr(recv.payload, m)())
            if m in ("startswith", "endswith") and args and is_const(args[0]) and isinstance(args[0].payload, str):
                return const(getattr(recv.payload, m)(args[0].payload))
        if recv.op == "phi" and m in ("lower", "upper", "strip", "startswith", "endswith"):
            a = self.call_method(N("getattr", m, (recv.args[0],)), args, kwargs, st, site, fr)
            b = self.call_method(N("getattr", m, (recv.args[1],)), args, kwargs, st, site, fr)
            return self.mkphi(recv.meta, True, a, b)
        if recv.op == "dict":
            if m == "get" and args and args[0].op == "const":
                if args[0].payload in recv.payload:
                    return recv.args[recv.payload.index(args[0].payload)]
                return args[1] if len(args) > 1 else NONE
            if m == "copy" and not args:
                return N("dict", recv.payload, recv.args, site)
            if m in ("keys", "values", "items") and not args:
                return N("list", None, self.literal_items(N("mcall", (m, 1, ()), (recv,)), st), site)
            if m == "update" and (args and args[0].op == "dict" or (not args and kwargs)):
                keys, vals = list(recv.payload), list(recv.args)
                pairs = list(zip(args[0].payload, args[0].args)) if args else []
                pairs += list(kwargs.items())
                for k, v in pairs:
                    if k in keys:
                        vals[keys.index(k)] = v
                    else:
                        keys.append(k)
                        vals.append(v)
                self.mutate(st, recv, N("dict", tuple(keys), vals, site), site, ".update")
                return NONE
            if m == "pop" and args and args[0].op == "const" and args[0].payload in recv.payload:
                k = recv.payload.index(args[0].payload)
                v = recv.args[k]
                self.mutate(st, recv, N("dict", recv.payload[:k] + recv.payload[k + 1:],
                                        recv.args[:k] + recv.args[k + 1:], site), site, ".pop")
                return v
        if recv.op in ("list", "tuple") and m == "index" and len(args) == 1 and args[0].op == "const" and all(
                x.op == "const" for x in recv.args):
            for k, x in enumerate(recv.args):
                if x.vn == args[0].vn:
                    return const(k)
        if recv.op in ("list", "tuple") and m == "tolist":
            return N("list", None, recv.args, site)
        if recv.op == "list" and m == "append" and len(args) == 1:
            self.mutate(st, recv, N("list", None, recv.args + (args[0],), site), site, ".append")
            return NONE
        if recv.op in ("inplace", "loopphi", "phi") and m == "append" and len(args) == 1 and self._listy(recv):
            self.mutate(st, recv, N("inplace", "append", (recv, args[0]), site), site, ".append")
            return NONE
        if recv.op == "obj" or recv.op == "class":
            cls = self.cls_of(recv.payload[0]) if recv.op == "obj" else recv.meta
        return None

    def _listy(self, n, d=0):
        if n.op == "list":
            return True
        if d > 8:
            return False
        if n.op in ("loopphi", "phi", "inplace") and n.args:
            return self._listy(n.args[0], d + 1)
        return False

    # builtin models ----------------------------------------------------------
    def x_builtins_hasattr(self, args, kwargs, st, site, fr):
        o, a = self.simp(args[0], st), args[1]
        if a.op != "const":
            return None
        attr = a.payload
        if o.op == "obj":
            oid = o.payload[0]
            cls = self.cls_of(oid)
            h = st.heap.get(oid, {}).get(attr)
            if h is not None and h.op != "absent":
                h = self.simp(h, st)
                if h.op == "absent":
                    return FALSE
                if self.has_absent(h):
                    return self._present(h, st)
                if h.op == "loopphi" and any(x.op == "absent" for x in h.args):
                    return N("call", ("builtins.hasattr", 2, ()), (h, a), site)
                return TRUE
            m = cls.lookup(attr)
            if m is not None:
                if any(ast.unparse(d).endswith("property") for d in m.decorators):
                    c = st.clone()
                    nev = len(self.events)
                    self.call_func(m, [o], {}, c, site)
                    raised = any(e.kind == "raise" for e in self.events[nev:])
                    del self.events[nev:]
                    if c.dead:
                        return FALSE
                    if not raised:
                        return TRUE
                    # property raises on some path: condition is the guard of the surviving state
                    g = c.guards[len(st.guards):]
                    if g:
                        conds = [x if p else self.mknot(x) for x, p in g]
                        return conds[0] if len(conds) == 1 else N("and", None, conds)
                    return N("call", ("builtins.hasattr", 2, ()), (o, a, unique("st")), site)
                return TRUE
            if cls.lookup_attr(attr) is not None:
                return TRUE
            if h is not None:
                return FALSE
            if oid in getattr(self, "closed_objs", ()) or not cls.ext_bases():
                return FALSE
            return FALSE if attr.endswith("_") or attr.startswith("_") else None
        if o.op in ("tuple", "list", "const"):
            return const(hasattr(o.payload if o.op == "const" else (), attr))
        return None

    def _present(self, h, st):
        if h.op == "absent":
            return FALSE
        if h.op == "phi":
            a, b = self._present(h.args[0], st), self._present(h.args[1], st)
            if a.vn == b.vn:
                return a
            return self.mkphi(h.meta, True, a, b)
        return TRUE

    def x_builtins_getattr(self, args, kwargs, st, site, fr):
        if len(args) < 2 or args[1].op != "const":
            return None
        o = self.simp(args[0], st)
        if len(args) == 2:
            return self.getattr(o, args[1].payload, st, site, fr)
        if o.op == "obj":
            return self.getattr(o, args[1].payload, st, site, fr, default=args[2])
        if o.vn in self.arrays and args[1].payload in ("ndim", "shape", "size", "dtype", "T"):
            return self.getattr(o, args[1].payload, st, site, fr)
        return N("call", ("builtins.getattr", 3, ()), (o, args[1], args[2]), site)

    def x_builtins_setattr(self, args, kwargs, st, site, fr):
        if len(args) == 3 and args[1].op == "const":
            self.setattr(args[0], args[1].payload, args[2], st, site)
            return NONE
        if len(args) == 3:
            self.ev("setattr", "?", [args[0], args[2]], args[1], st, site)
            for oid in self._objs(args[0]):
                pass
            return NONE
        return None

    def refused(self, d, recv, args, kwargs, n, st, site):
        """whether the hook says that this external call raises: the path ends"""
        if self.raise_hook is None or st.dead or not self.raise_hook(d, recv, args, kwargs, st):
            return False
        self.ev("raise", "from " + ("." if recv is not None else "") + d, n.args, n, st, site)
        st.dead = True
        return True

    def validate_data(self, d, args, kwargs, st, site, fr):
        """sets n_features_in_ on the estimator"""
        o = self.simp(args[0], st) if args else None
        if o is None or o.op != "obj" or is_const(kwargs.get("reset", TRUE), False):
            return None
        kws = tuple(kwargs)
        n = N("call", (d, len(args), kws), list(args) + [kwargs[k] for k in kws], site)
        self.ev("call", d, n.args, n, st, site, dict(kwargs))
        if self.refused(d, None, args, kwargs, n, st, site):
            return n
        x = n
        if any(not is_const(a, None) for a in args[2:3]) or "y" in kwargs and not is_const(kwargs["y"], None):
            x = self.index(n, const(0), st, site)
        st.setattr(o.payload[0], "n_features_in_", self.index(self.getattr(x, "shape", st, site), const(1), st, site))
        return n

    def x_builtins_vars(self, args, kwargs, st, site, fr):
        if len(args) == 1 and self.simp(args[0], st).op == "obj":
            return self.getattr(args[0], "__dict__", st, site, fr)

    def x_builtins_delattr(self, args, kwargs, st, site, fr):
        if len(args) == 2 and args[1].op == "const":
            self.ev("delattr", args[1].payload, [args[0]], args[0], st, site)
            for oid in self._objs(args[0]):
                st.setattr(oid, args[1].payload, ABSENT)
            return NONE

    PYTYPES = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool,
               "builtins.dict": dict, "builtins.list": list, "builtins.tuple": tuple}

    def x_builtins_isinstance(self, args, kwargs, st, site, fr):
        return self.isinst(args[0], args[1], st, site)

    def isinst(self, x, c, st, site, depth=0):
        x = self.simp(x, st)
        if c.op == "tuple":
            rs = [self.isinst(x, k, st, site, depth) for k in c.args]
            if any(self.truth(r, st) is True for r in rs):
                return TRUE
            rs = [r for r in rs if self.truth(r, st) is not False]
            if not rs:
                return FALSE
            return rs[0] if len(rs) == 1 else N("or", None, rs)
        if x.op == "phi" and depth < 8:
            a = self.isinst(x.args[0], c, st, site, depth + 1)
            b = self.isinst(x.args[1], c, st, site, depth + 1)
            if a.vn == b.vn:
                return a
            if a.op == "const" or b.op == "const":
                return self.mkphi(x.meta, True, a, b)
        if c.op == "class":
            if x.op == "obj":
                k = self.cls_of(x.payload[0])
                if k.is_subclass(c.meta):
                    return TRUE
                if k.name in self.opaque_classes and c.meta.is_subclass(k):
                    return N("call", ("builtins.isinstance", 2, ()), (x, c), site)
                return FALSE
            if x.op in ("const", "tuple", "list", "dict", "class", "str"):
                return FALSE
            if x.op in ("bin", "call", "inplace", "cmp") :
                return FALSE if x.op != "call" else N("call", ("builtins.isinstance", 2, ()), (x, c), site)
        if c.op == "ext" and self.arrayish(x) and not self.may_array_type(c.payload):
            return FALSE
        if c.op == "ext" and c.payload == "builtins.float" and self.loose_arrays and (
                x.op == "call" and x.payload[0] in ("numpy.average", "numpy.mean", "numpy.sum")
                and not set(x.payload[2]) - {"weights"} or x.op == "mcall" and x.payload[0] in ("sum", "mean") and len(x.args) == 1):
            return TRUE  # a total over a double-precision array is a Python float as well
        if c.op == "ext" and c.payload.split(".")[-1] in ("Mapping", "MutableMapping") and x.op in ("dict", "tuple", "list"):
            return const(x.op == "dict")
        if c.op == "ext" and c.payload in self.PYTYPES:
            t = self.PYTYPES[c.payload]
            if x.op == "const":
                return const(isinstance(x.payload, t))
            if x.op in ("tuple", "list", "dict"):
                return const({"tuple": tuple, "list": list, "dict": dict}[x.op] is t)
            if x.op == "str":
                return const(t is str)
            if x.op in ("obj", "class", "func", "closure"):
                return FALSE
        if c.op == "ext" and x.op in ("const", "obj") and not c.payload.startswith("collections"):
            if x.op == "obj" and c.payload in (self.cls_of(x.payload[0]).ext_bases()):
                return TRUE
            if x.op == "const":
                return FALSE if not c.payload.startswith(("numpy.", "numbers.")) or x.payload is None or isinstance(x.payload, (str, bool)) else N(
                    "call", ("builtins.isinstance", 2, ()), (x, c), site)
            return FALSE
        if c.op == "ext" and x.op in ("const", "tuple", "list") and c.payload.endswith("Iterable"):
            return const(x.op != "const" or isinstance(x.payload, str))
        if c.op == "ext" and c.payload.startswith("collections") and x.op == "const":
            return FALSE
        return N("call", ("builtins.isinstance", 2, ()), (x, c), site)

    def x_numexpr_evaluate(self, args, kwargs, st, site, fr):
        """The expression string is code over the caller's local names."""
        if not args or not is_const(args[0]) or not isinstance(args[0].payload, str) or fr is None:
            return None
        try:
            tree = ast.parse(args[0].payload.strip(), mode="eval").body
        except SyntaxError:
            return None
        ld = args[1] if len(args) > 1 else kwargs.get("local_dict")
        env = dict(zip(ld.payload, ld.args)) if ld is not None and ld.op == "dict" else None
        return self.numexpr(tree, st, fr, site, env)

    def numexpr(self, t, st, fr, site, env):
        if isinstance(t, ast.Constant):
            return const(t.value)
        if isinstance(t, ast.Name):
            if env is not None and t.id in env:
                return env[t.id]
            return self.lookup(t.id, st, fr)
        if isinstance(t, ast.BinOp):
            return self.binop(_BINOPS[type(t.op)], self.numexpr(t.left, st, fr, site, env),
                              self.numexpr(t.right, st, fr, site, env), st, site)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.USub):
            return N("un", "-", (self.numexpr(t.operand, st, fr, site, env),), site)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name):
            a = [self.numexpr(x, st, fr, site, env) for x in t.args]
            nm = {"arctan": "arctan", "ln": "log"}.get(t.func.id, t.func.id)
            return N("call", (f"numpy.{nm}", len(a), ()), a, site)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            return self.compare(_CMPOPS[type(t.ops[0])], self.numexpr(t.left, st, fr, site, env),
                                self.numexpr(t.comparators[0], st, fr, site, env), st, site)
        return N("call", ("numexpr.evaluate", 1, ()), (const(ast.unparse(t)),), site)

    def x_numpy_broadcast_arrays(self, args, kwargs, st, site, fr):
        if any(a.op == "star" for a in args):
            return None
        return N("list", None, [N("call", ("numpy.broadcast_to", 1, ()), (a,), site) for a in args], site)

    def x_builtins_len(self, args, kwargs, st, site, fr):
        a = self.simp(args[0], st)
        if a.op in ("tuple", "list") and not any(x.op == "star" for x in a.args):
            return const(len(a.args))
        if a.op == "const" and isinstance(a.payload, str):
            return const(len(a.payload))
        if a.op == "call" and a.payload[0] in ("numpy.array", "numpy.asarray") and a.args and a.args[0].op in ("list", "tuple"):
            return const(len(a.args[0].args))
        if a.op == "dict":
            return const(len(a.payload))
        if self.len_hook is not None:
            k = self.len_hook(a)
            if k is not None:
                return const(k)
        return None

    def x_builtins_int(self, args, kwargs, st, site, fr):
        if len(args) == 1:
            if args[0].op == "const" and isinstance(args[0].payload, (int, float, bool)):
                return const(int(args[0].payload))
            t = self.truth(args[0], st) if args[0].op in ("cmp", "not", "and", "or") else None
            if t is not None:
                return const(int(t))
        return None

    def x_builtins_sum(self, args, kwargs, st, site, fr):
        if len(args) == 1 and args[0].op in ("list", "tuple") and all(
                is_const(x) and isinstance(x.payload, (int, float)) for x in args[0].args):
            return const(sum(x.payload for x in args[0].args))
        return None

    def _hits(self, c):
        """positions at which a literal array equals a constant"""
        if c.op == "cmp" and c.payload in ("==", "!="):
            a, b = c.args
            if b.op != "const":
                a, b = b, a
            if a.op == "call" and a.payload[0] in ("numpy.array", "numpy.asarray") and a.args:
                a = a.args[0]
            if a.op in ("list", "tuple") and b.op == "const" and all(x.op == "const" for x in a.args):
                return [k for k, x in enumerate(a.args) if (x.vn == b.vn) == (c.payload == "==")]
        return None

    def x_numpy_where(self, args, kwargs, st, site, fr):
        if len(args) == 1:
            h = self._hits(args[0])
            if h is not None:
                return N("tuple", None, (N("call", ("numpy.array", 1, ()), (N("list", None, [const(k) for k in h]),), site),))
        return None

    x_numpy_nonzero = x_numpy_where

    def x_numpy_flatnonzero(self, args, kwargs, st, site, fr):
        r = self.x_numpy_where(args, kwargs, st, site, fr)
        return r.args[0] if r is not None else None

    def x_builtins_bool(self, args, kwargs, st, site, fr):
        t = self.truth(args[0], st) if args else None
        return const(t) if t is not None else None

    def x_builtins_list(self, args, kwargs, st, site, fr):
        if not args:
            return N("list", None, (), site)
        if args[0].op in ("tuple", "list"):
            return N("list", None, args[0].args, site)
        return None

    def x_builtins_tuple(self, args, kwargs, st, site, fr):
        if args and args[0].op in ("tuple", "list"):
            return N("tuple", None, args[0].args, site)
        return None

    def x_builtins_dict(self, args, kwargs, st, site, fr):
        if not args and not any(k.startswith("**") for k in kwargs):
            return N("dict", tuple(kwargs), list(kwargs.values()), site)
        if len(args) == 1 and args[0].op == "dict" and not any(k.startswith("**") for k in kwargs):
            keys, vals = list(args[0].payload), list(args[0].args)
            for k, v in kwargs.items():
                if k in keys:
                    vals[keys.index(k)] = v
                else:
                    keys.append(k)
                    vals.append(v)
            return N("dict", tuple(keys), vals, site)
        if len(args) == 1 and not kwargs and args[0].op in ("list", "tuple") and all(
                x.op == "tuple" and len(x.args) == 2 and is_const(x.args[0]) for x in args[0].args):
            d = {x.args[0].payload: x.args[1] for x in args[0].args}
            return N("dict", tuple(d), list(d.values()), site)
        return None

    def x_builtins_set(self, args, kwargs, st, site, fr):
        if not args:
            return N("set", None, (), site)
        return None

    def x_builtins_type(self, args, kwargs, st, site, fr):
        if len(args) == 1 and args[0].op == "obj":
            k = self.cls_of(args[0].payload[0])
            return N("class", k.name, meta=k)
        return None

    def x_builtins_next(self, args, kwargs, st, site, fr):
        if args and args[0].op in ("listof",):
            return args[0].args[0]
        return None

    def x_builtins_sorted(self, args, kwargs, st, site, fr):
        items = self.literal_items(args[0], st) if args and not kwargs else None
        if items is None:
            return None
        if all(x.op == "const" for x in items):
            try:
                return N("list", None, [const(v) for v in sorted(x.payload for x in items)], site)
            except TypeError:
                return None
        if len(items) > 1 and self.loose_arrays:
            return N("list", None, list(reversed(items)), site)  # one of the orders the values can have
        return None

    def x_builtins_zip(self, args, kwargs, st, site, fr):
        if args and all(a.op in ("tuple", "list") for a in args) and len({len(a.args) for a in args}) == 1:
            return N("list", None, [N("tuple", None, t) for t in zip(*[a.args for a in args])], site)
        return None

    ELEMWISE = {"empty_like", "ones_like", "zeros_like", "full_like", "asarray", "asanyarray", "array", "broadcast_to",
                "exp", "log", "log1p", "expm1", "sqrt", "abs", "maximum", "minimum", "clip", "where", "xlogy",
                "expit", "logit", "power", "square", "empty", "ones", "zeros", "full"}

    def arrayish(self, n, depth=0):
        """certainly an array (only src nodes declared in self.arrays are believed)"""
        if n.vn in self.arrays or n.op in ("kout",):
            return True
        if self.loose_arrays:
            if depth > 14:
                return False
            if n.op in ("bin", "un", "inplace", "refine"):
                return any(self.arrayish(a, depth + 1) for a in n.args[:2])
            if n.op == "phi":
                return all(self.arrayish(a, depth + 1) for a in n.args)
            if n.op == "mcall" and n.payload[0] in ("astype", "copy", "ravel", "flatten", "toarray", "unpack", "__call__", "matvec"):
                return any(self.arrayish(a, depth + 1) for a in n.args)
            if n.op == "call" and n.payload[0].split(".")[-1] in ("check_array", "column_or_1d") and n.args:
                return self.arrayish(n.args[0], depth + 1)
        if depth > 10:
            return False
        if n.op in ("bin", "un"):
            return any(self.arrayish(a, depth + 1) for a in n.args) and n.payload != "@"
        if n.op == "inplace":
            return n.payload in ("setitem",) and self.arrayish(n.args[0], depth + 1)
        if n.op == "mcall" and n.payload[0] in ("astype", "copy", "ravel", "flatten"):
            return self.arrayish(n.args[0], depth + 1)
        if n.op == "call":
            s = n.payload[0].split(".")[-1]
            if s in ("check_array", "column_or_1d") and n.args:
                return self.arrayish(n.args[0], depth + 1)
            if s in ("empty", "ones", "zeros", "full") and n.payload[0].startswith("numpy."):
                return True
            return s in self.ELEMWISE and n.payload[0].startswith(("numpy.", "scipy.")) and bool(
                n.args) and any(self.arrayish(a, depth + 1) for a in n.args)
        if n.op == "phi":
            return all(self.arrayish(a, depth + 1) for a in n.args)
        return False

    @staticmethod
    def may_array_type(d):
        return d.split(".")[-1] in ("ndarray", "object", "Sized", "Iterable", "Sequence", "Collection", "Container")

    def x_numpy_isscalar(self, args, kwargs, st, site, fr):
        if self.arrayish(args[0]):
            return FALSE
        if args[0].op == "const" and args[0].payload is not None or args[0].vn in self.scalars:
            return TRUE
        if is_const(args[0], None) or args[0].op in ("list", "tuple", "dict", "obj"):
            return FALSE
        if args[0].op == "call" and args[0].payload[0] in ("builtins.int", "builtins.float", "builtins.len", "operator.index"):
            return TRUE
        if args[0].op in ("call", "mcall") and args[0].payload[0] in ("numpy.argmin", "argmin") and len(args[0].args) == 1:
            return TRUE
        return None

    def x_functools_partial(self, args, kwargs, st, site, fr):
        kws = tuple(kwargs)
        return N("partial", (len(args) - 1, kws), args + [kwargs[k] for k in kws], site)

    def x_functools_wraps(self, args, kwargs, st, site, fr):
        return N("ext", "functools.wraps")


UFUNC2 = {"add", "subtract", "multiply", "divide", "true_divide", "maximum", "minimum", "power",
          "floor_divide", "fmax", "fmin", "matmul", "logaddexp"}
UFUNC1 = {"exp", "log", "sqrt", "abs", "absolute", "negative", "square", "log1p", "expm1", "reciprocal"}


def exc_name(v):
    if v is None:
        return "?"
    if v.op == "call":
        return v.payload[0].split(".")[-1]
    if v.op == "ext":
        return v.payload.split(".")[-1]
    if v.op == "class":
        return v.payload
    if v.op == "obj":
        return v.payload[1]
    return v.op


def compute_pyx_effects(cm):
    """Parameters (memoryviews/pointers) a Cython function may write through."""
    written = {n: set() for n in cm.functions}
    changed = True
    while changed:
        changed = False
        for n, f in cm.functions.items():
            alias = {p: {p} for p in f.params}
            for node in ast.walk(ast.Module(f.body, [])):
                if isinstance(node, ast.Assign) and isinstance(node.value, ast.Name) and node.value.id in alias:
                    for t in node.targets:
                        if isinstance(t, ast.Name) and (f.is_memview(t.id) or f.is_ptr(t.id)):
                            alias.setdefault(t.id, set()).update(alias[node.value.id])
            w = set(written[n])
            for node in ast.walk(ast.Module(f.body, [])):
                tg = []
                if isinstance(node, ast.Assign):
                    tg = node.targets
                elif isinstance(node, ast.AugAssign):
                    tg = [node.target]
                for t in tg:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        w |= {p for p in alias.get(t.value.id, ()) if p in f.params}
                if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in cm.functions:
                    g = cm.functions[node.func.id]
                    for p, a in zip(g.params, node.args):
                        if p in written[g.name] and isinstance(a, ast.Name):
                            w |= {q for q in alias.get(a.id, ()) if q in f.params}
            if w != written[n]:
                written[n] = w
                changed = True
    return written
