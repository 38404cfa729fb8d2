"""Data frames and formulas: what the fit stored about its data decides how later data is encoded."""
from __future__ import annotations

from ..driver import Session
from ..engine import Interp, State
from ..nodes import ABSENT, FALSE, N, const, is_const, show
from ..parallel import split
from ..program import AnalysisError
from .inference import unresolved
from .irls import prog_func, walk
from .monotonic import leaves, prog_where
from .postfit import Fitted, kind_test

CLASSES = ("GeneralizedLinearRegressor", "GeneralizedLinearRegressorCV")
UNKNOWN = None


def last(n):
    return str(n.payload[0]).split(".")[-1] if n.op in ("call", "mcall") else ""


def kwargs_of(n):
    """(positional, keyword) arguments of an external call"""
    _, npos, kws = n.payload
    return list(n.args[:npos]), dict(zip(kws, n.args[npos:npos + len(kws)]))


def plain(n):
    """the value behind conversions to an array"""
    while n.op == "call" and last(n) in ("asarray", "asanyarray", "array", "copy", "atleast_1d") and n.args or \
            n.op == "mcall" and last(n) in ("copy", "astype"):
        n = n.args[0]
    return n


def tagged(lv):
    return lv is not None and any(x.startswith(("L:", "found:")) for x in lv)


class Series:
    """what is known of a column: its type, its levels, and whether values outside the levels stored by the fit or nulls occur"""

    def __init__(self, kind, levels, other, null, filled=()):
        self.kind, self.levels, self.other, self.null, self.filled = kind, levels, other, null, filled

    def but(self, **kw):
        return Series(**{**self.__dict__, **kw})


class Frame:
    """columns: {name: dict(kind=, same=, other=, null=, missing=)}, read by the hooks of the interpreter"""

    def __init__(self, it, X, columns, backend="pandas", names=None, missing_name=None, ncat=None, dims=None, pen=None):
        self.it, self.X, self.columns, self.backend = it, X, columns, backend
        self.names, self.missing_name, self.ncat, self.dims, self.pen = names, missing_name, ncat or {}, dims, pen
        it.truth_hook, it.attr_hook, it.mcall_hook, it.len_hook = self.truth, self.attr, self.mcall, self.length
        self.unclear = []

    # ---- frames and series
    def root(self, n):
        while n.op == "call" and last(n) in ("from_native", "to_native", "cast") and n.args:
            n = n.args[-1] if last(n) == "cast" else n.args[0]
        return n.vn == self.X.vn

    def is_frame(self, n):
        return self.root(n) or n.op == "mcall" and last(n) in ("with_columns", "clone", "select") and self.is_frame(n.args[0])

    def col(self, n, name):
        if n.op == "mcall" and last(n) == "with_columns":
            pos, kws = kwargs_of(n)
            if name in kws:
                return self.series(kws[name])
            return self.col(n.args[0], name) if len(pos) == 1 else UNKNOWN
        if n.op == "mcall" and last(n) == "clone":
            return self.col(n.args[0], name)
        if self.root(n) and name in self.columns:
            c = self.columns[name]
            lv = ("L:" + name,) if c.get("same") else ("found:" + name,)
            return Series(c["kind"], lv if c["kind"] in ("enum", "categorical") else None, c.get("other", False), c.get("null", False))
        return UNKNOWN

    def series(self, n):
        if n.op == "index" and is_const(n.args[1]) and self.is_frame(n.args[0]):
            return self.col(n.args[0], n.args[1].payload)
        if n.op == "call" and last(n) in ("set", "list", "tuple", "frozenset") and len(n.args) == 1:
            return self.series(n.args[0])
        if n.op != "mcall":
            return UNKNOWN
        m = last(n)
        if m == "get_column" and is_const(n.args[1]) and self.is_frame(n.args[0]):
            return self.col(n.args[0], n.args[1].payload)
        s = self.series(n.args[0])
        if s is UNKNOWN:
            return UNKNOWN
        if m == "drop_nulls":
            return s.but(null=False)
        if m in ("unique", "to_list", "clone", "to_numpy"):
            return s
        if m == "cast" and len(n.args) == 2:
            t = n.args[1]
            if t.op == "call" and last(t) == "Enum" and t.args:
                lv = self.levels(t.args[0])
                if lv is not None:
                    # values outside the levels become missing
                    return s.but(kind="enum", levels=lv, other=False, null=s.null or s.other)
        if m == "fill_null" and len(n.args) >= 2:
            return s.but(null=False, filled=s.filled + ((show(n.args[1], 3),) if s.null else ()))
        return UNKNOWN

    def levels(self, n):
        if n.op == "src" and str(n.payload).startswith("L:"):
            return (n.payload,)
        if n.op in ("call", "mcall") and last(n) in ("list", "tuple", "to_list", "tolist", "copy") and len(n.args) == 1:
            return self.levels(n.args[0])
        if n.op == "call" and last(n) in ("sorted", "reversed") and len(n.args) == 1:
            lv = self.levels(n.args[0])
            return None if lv is None else tuple(f"{last(n)}({x})" for x in lv)
        if n.op == "mcall" and last(n) == "get_categories":
            c = n.args[0]
            s = self.series(c.args[0]) if c.op == "getattr" and c.payload == "cat" else UNKNOWN
            return s.levels if s is not UNKNOWN else None
        if n.op in ("list", "tuple"):
            out = []
            for x in n.args:
                if x.op == "star":
                    lv = self.levels(x.args[0])
                    if lv is None:
                        return None
                    out += lv
                else:
                    out.append(show(x, 3))
            return tuple(out)
        if n.op in ("bin", "binop") and n.payload == "+":
            a, b = self.levels(n.args[0]), self.levels(n.args[1])
            return None if a is None or b is None else a + b
        return None

    def kind(self, n):
        """type of a column from a type expression"""
        return n.payload.split(":")[1] if n.op == "src" and str(n.payload).startswith("dtype:") else None

    # ---- hooks
    def attr(self, o, attr):
        if self.is_frame(o):
            if attr == "schema":
                return N("dict", tuple(self.columns), tuple(self.dtype(c, self.col(o, c)) for c in self.columns))
            if attr == "columns":
                return N("list", None, tuple(const(c) for c in self.columns))
            if attr == "shape":
                return N("tuple", None, (N("src", "rows"), const(len(self.columns))))
        if attr == "dtype":
            s = self.series(o)
            if s is not UNKNOWN:
                return self.dtype("column", s)
        if attr == "__name__" and o.op == "call" and last(o) in ("get_native_namespace",):
            return const(self.backend)
        if attr in ("shape", "ndim", "size") and self.dims is not None and self.pen is not None and plain(o).vn == self.pen.vn:
            return {"shape": N("tuple", None, tuple(const(k) for k in self.dims)), "ndim": const(len(self.dims)),
                    "size": const(self.dims[0] ** len(self.dims))}[attr]
        return None

    def dtype(self, c, s):
        return N("src", f"dtype:{s.kind if s is not UNKNOWN else '?'}:{c}")

    def mcall(self, recv, m, args, kwargs, site):
        if m == "any" and recv.op == "mcall" and last(recv) == "is_null":
            s = self.series(recv.args[0])
            if s is not UNKNOWN:
                return const(s.null)
        if m == "null_count":
            s = self.series(recv)
            if s is not UNKNOWN:
                return const(3 if s.null else 0)
        if m == "format" and is_const(recv) and not args and all(is_const(v) for v in kwargs.values()):
            return const(recv.payload.format(**{k: v.payload for k, v in kwargs.items()}))
        return None

    def length(self, n):
        for c, k in self.ncat.items():
            if n.op == "mcall" and last(n) in ("get_categories", "to_list", "drop_nulls", "unique"):
                idx = [x for x in walk([n]) if x.op == "index" and is_const(x.args[1], c)]
                if idx and all(x.payload[0] in ("get_categories", "to_list", "drop_nulls", "unique") for x in walk([n]) if x.op == "mcall"):
                    counted = any(x.op == "mcall" and last(x) == "unique" for x in walk([n])) and not any(
                        x.op == "mcall" and last(x) == "drop_nulls" for x in walk([n]))
                    return k + (counted and self.columns[c].get("null", False))
        return None

    def truth(self, n, st):
        t = self.decide(n, st)
        if t is not None:
            return t
        return kind_test(n) if n.op == "call" and last(n) not in ("is_into_dataframe", "isinstance") else None

    def outside(self, a, b):
        """are there values of a outside the levels b?"""
        s, lv = self.series(a), self.levels(b.args[0] if b.op == "call" and last(b) in ("set", "frozenset") and b.args else b)
        if s is UNKNOWN or lv is None:
            return None
        lv = [x.split("(")[-1].rstrip(")") for x in lv]
        return bool(s.other or s.null) if all(x.startswith("L:") for x in lv) else None

    def decide(self, n, st):
        if n.op == "call" and last(n) == "is_into_dataframe":
            return self.is_frame(n.args[0])
        if n.op == "call" and last(n) == "isinstance" and len(n.args) == 2:
            c = str(n.args[1].payload).split(".")[-1]
            k = self.kind(n.args[0])
            if k in ("enum", "categorical", "number", "string") and c in ("Enum", "Categorical", "String", "Boolean"):
                return {"Enum": "enum", "Categorical": "categorical", "String": "string"}.get(c) == k
            if self.is_frame(n.args[0]) and n.args[1].op == "ext":
                return c == "DataFrame" and ("narwhals" in str(n.args[1].payload) or self.backend == "pandas" and n.args[0].op == "src")
            if n.args[0].op == "call" and last(n.args[0]) in ("from_df", "from_formula"):
                return c in ("MatrixBase", "SplitMatrix")
            return None
        if n.op == "call" and last(n) in ("any", "all") and len(n.args) == 1 and n.args[0].op in ("list", "tuple"):
            ts = [self.it.truth(x, st) for x in n.args[0].args]
            if None in ts:
                return None
            return any(ts) if last(n) == "any" else all(ts)
        if n.op == "cmp" and n.payload == "is" and is_const(n.args[1], None) and self.series(n.args[0]) is not UNKNOWN:
            return False
        if n.op == "cmp" and n.payload in ("==", "!="):
            a, b = self.levels(n.args[0]), self.levels(n.args[1])
            if tagged(a) and tagged(b):
                return (a == b) == (n.payload == "==")
        if n.op == "cmp" and n.payload == "in" and tagged(self.levels(n.args[1])):
            return show(n.args[0], 3) in self.levels(n.args[1])
        if n.op == "cmp" and n.payload == "in" and is_const(n.args[0]) and n.args[1].op == "set" and not n.args[1].args:
            return False
        if n.op == "cmp" and n.payload in (">", "!=") and is_const(n.args[1], 0) and n.args[0].op == "call" and last(n.args[0]) == "len":
            return self.decide(n.args[0].args[0], st)
        if n.op == "bin" and n.payload == "-" or n.op == "binop" and n.payload == "-":
            return self.outside(*n.args)
        if n.op == "mcall" and last(n) == "difference" and len(n.args) == 2:
            return self.outside(*n.args)
        if n.op == "mcall" and last(n) == "issubset" and len(n.args) == 2:
            t = self.outside(*n.args)
            return None if t is None else not t
        if n.op == "cmp" and n.payload == "<=" and n.args[0].op == "call" and last(n.args[0]) in ("set", "frozenset"):
            t = self.outside(*n.args)
            return None if t is None else not t
        return None


def src(it, name):
    it.nonnull.add(name)
    return N("src", name)


def arguments(ev, sig=("df",)):
    """arguments of an external call by name"""
    kw = dict(ev.data or {})
    for k, v in zip(sig, ev.args):
        kw.setdefault(k, v)
    return kw


def open_raises(events, st, it):
    """raises on paths that are not decided"""
    return [e for e in events if e.kind == "raise"]


# ------------------------------------------------------------------ after the fit
NAME, FORMAT = "(none)", "{name}/{category}"


def fitted(prog, cls, method, columns, missing, fmt=FORMAT, extra=None):
    s = Fitted(prog, True, cls=cls, params={"cat_missing_method": const(method), "categorical_format": const(fmt), "cat_missing_name": const(NAME)})
    lv = {c: N("src", "L:" + c) for c in columns if columns[c]["kind"] != "number"}
    for n in lv.values():
        s.it.nonnull.add(n.payload)
    s.set("_categorical_levels_", N("dict", tuple(lv), tuple(lv.values())))
    s.set("has_missing_category_", N("dict", tuple(lv), tuple(const(bool(missing.get(c))) for c in lv)))
    names = [fmt.format(name=c, category="u") for c in lv] + [fmt.format(name=c, category=NAME) for c in lv if missing.get(c)]
    s.set("feature_names_", N("list", None, tuple(const(x) for x in names)))
    for k, v in (extra or {}).items():
        s.set(k, v)
    return s


def conversions(s, ev):
    return [e for e in ev if e.kind in ("call", "mcall") and e.name.split(".")[-1] in ("from_df", "from_pandas")]


def scenarios():
    """(method, columns, seen missing at the fit, format, raises?)"""
    base = {"b": dict(kind="enum", same=True), "x": dict(kind="number")}
    for method in ("fail", "zero", "convert"):
        for kind, same in (("enum", True), ("enum", False), ("categorical", True), ("categorical", False), ("string", False)):
            for other in ((False, True) if not same else (False,)):
                for null in (False, True):
                    for miss in ((False, True) if method == "convert" else (False,)):
                        a = dict(kind=kind, same=same, other=other, null=null)
                        raises = other or (null and (method == "fail" or method == "convert" and not miss))
                        yield method, {"a": a, **base}, {"a": miss}, FORMAT, raises
                        if miss and not null and not other:
                            yield method, {**base, "a": a}, {"a": miss}, FORMAT, raises
                            yield method, {"a": a, **base}, {"a": miss}, "{category}", raises


def check_after(prog, chk):
    """columns a later data frame is turned into"""
    for cls in CLASSES:
        for method, cols, missing, fmt, raises in scenarios():
            a = cols["a"]
            tag = f"{cls}: column {'missing-aware ' if missing['a'] else ''}{a['kind']}, levels {'as' if a['same'] else 'not as'} stored" + \
                f"{', new level' if a['other'] else ''}{', missing values' if a['null'] else ''}, cat_missing_method={method}" + \
                ("" if fmt == FORMAT else f", categorical_format={fmt!r}") + ("" if next(iter(cols)) == "a" else ", other order")
            s = fitted(prog, cls, method, cols, missing, fmt)
            X = src(s.it, "frame")
            fr = Frame(s.it, X, cols)
            try:
                _, ev = s.call("linear_predictor", X=X, offset=const(None), **({"alpha_index": const(None), "alpha": const(None)}), context=const(None))
            except AnalysisError as e:
                unresolved(chk, "R3", tag, e)
                continue
            conv = conversions(s, ev)
            chk.count("later data frames", 1)
            if not conv:
                if raises is False:
                    r = [e for e in ev if e.kind == "raise"]
                    if r:
                        chk.bad("R3", tag, r[-1].where(), f"data that fits the levels of the fit is refused ({r[-1].name})")
                    else:
                        unresolved(chk, "R3", tag, "no conversion found")
                else:
                    chk.ok("R3", f"{tag}: refused")
                continue
            e = conv[0]
            early = [x for x in ev[:ev.index(e)] if x.kind == "raise"]
            if early:
                unresolved(chk, "R3", tag, f"raise at {early[0].where()} is undecided")
                continue
            kw = arguments(e)
            m = kw.get("cat_missing_method", const("fail"))
            df = kw["df"]
            here = [fr.col(df, c) for c in ("a", "b")]
            if is_const(m, "fail") and any(x is not UNKNOWN and x.null for x in here) and raises is not False:
                chk.ok("R3", f"{tag}: refused by the conversion")
                continue
            if raises and UNKNOWN in here:
                unresolved(chk, "R3", tag, show(df, 5))
                continue
            if raises:
                chk.bad("R3", tag, e.where(), "a value that the fit has not seen in this column is accepted" if a["other"] else
                        "missing values are accepted although the fit had no column for them")
                continue
            bad = open_ = None
            for c in ("a", "b"):
                sr = fr.col(df, c)
                want = ("L:" + c,) + ((repr(NAME),) if missing.get(c) else ())
                if sr is UNKNOWN:
                    open_ = f"column {c}: {show(df, 5)}"
                elif sr.kind not in ("enum", "categorical") or sr.levels != want:
                    bad = f"column {c} is encoded with the levels {sr.levels} of type {sr.kind} instead of {want}"
                elif missing.get(c) and cols[c].get("null") and (sr.null or sr.filled != (repr(NAME),)):
                    bad = f"missing values of column {c} do not get the column they had at the fit"
            if bad:
                chk.bad("R3", tag, e.where(), bad)
            elif open_:
                unresolved(chk, "R3", tag, open_)
            else:
                chk.ok("R3", tag)
            want = {"convert": ("fail", "zero")}.get(method, (method,)) if any(missing.values()) else {"convert": ("fail",)}.get(method, (method,))
            if is_const(m):
                chk.test(m.payload in want, "R2", f"{tag}: missing values", e.where(), f"missing values are treated by {m.payload!r} instead of {want[0]!r}")
            else:
                unresolved(chk, "R2", f"{tag}: missing values", show(m, 3))


# ------------------------------------------------------------------ every method converts with the stored state
READ = ("linear_predictor", "predict", "score", "covariance_matrix", "std_errors", "coef_table", "wald_test", "aic", "aicc", "bic")


def capture(s, prog):
    """record in which frame the context is taken"""
    f = prog_func(prog, "capture_context")
    if f is None:
        return False

    def stub(it, b, st, site):
        c = next(iter(b.values()))
        if c.op == "captured" or is_const(c, None):
            return c
        return N("captured", len(it.stack), (c,))
    s.it.stub[f.qual] = stub
    return True


def method_args(s, m, X):
    f = s.cls.lookup(m)
    kw = {}
    for k in f.params[1:]:
        if k == "X":
            kw[k] = X
        elif k == "y":
            kw[k] = src(s.it, "user:y")
        elif k == "context":
            kw[k] = src(s.it, "user:context")
        elif k in ("alpha_index", "alpha", "offset", "sample_weight", "mu", "dispersion", "clusters", "R", "features", "terms", "r"):
            kw[k] = const(None)
        elif k in ("robust", "expected_information"):
            kw[k] = const(None)
    if m == "wald_test":
        kw["R"] = src(s.it, "user:R")
    return kw


def check_methods(prog, chk, cls):
    for m in READ:
        probe = Fitted(prog, True, cls=cls)
        if probe.cls.lookup(m) is None:
            continue
        chk.functions.add(probe.cls.lookup(m).qual)
        # a data frame
        tag = f"{cls}.{m}, data frame"
        cols = {"a": dict(kind="enum", same=True), "x": dict(kind="number")}
        s = fitted(prog, cls, "zero", cols, {}, extra={"_info_criteria": ABSENT})
        s.it.ctor = None
        X = src(s.it, "frame")
        Frame(s.it, X, cols)
        try:
            _, ev = s.call(m, **method_args(s, m, X))
            conv = conversions(s, ev)
            if not conv:
                r = [e for e in ev if e.kind == "raise"]
                (unresolved(chk, "R2", tag, f"no conversion found; raises {[e.where() for e in r[:2]]}"))
            for e in conv:
                kw = arguments(e)
                for k in ("drop_first", "categorical_format"):
                    v = kw.get(k)
                    t = f"{tag}: {k}"
                    want = s.attr(k)
                    if v is None:
                        chk.bad("R2", t, e.where(), f"{k} is not passed to the conversion")
                    elif v.vn == want.vn:
                        chk.ok("R2", t)
                    elif v.op in ("const", "src"):
                        chk.bad("R2", t, e.where(), f"{k} is {show(v, 3)} instead of the estimator's {k}")
                    else:
                        unresolved(chk, "R2", t, show(v, 3))
                for k in kw:
                    if k not in ("df", "drop_first", "categorical_format", "cat_missing_method", "cat_missing_name", "dtype", "sparse_threshold",
                                 "cat_threshold"):
                        chk.test(k == "object_as_cat" and is_const(kw[k], False) or k == "cat_position" and is_const(kw[k], "expand"), "R2",
                                 f"{tag}: {k}", e.where(), f"{k} = {show(kw[k], 3)} is not what the fit used")
                chk.test(Frame.root(_F(X), root_of(kw["df"])), "R2", f"{tag}: the data passed in is converted", e.where(), f"converts {show(kw['df'], 4)}")
        except AnalysisError as e:
            unresolved(chk, "R2", tag, e)
        # a formula
        tag = f"{cls}.{m}, formula"
        for two_sided in ((False, True) if m == "covariance_matrix" else (False,)):
            s = Fitted(prog, True, cls=cls, params={"cat_missing_method": const("zero")})
            s.it.nonnull |= {"spec:X", "spec:y"}
            s.set("X_model_spec_", src(s.it, "spec:X"))
            if two_sided:
                s.set("y_model_spec_", src(s.it, "spec:y"))
            if not capture(s, prog):
                unresolved(chk, "R7", tag, "capture_context vanished")
                continue
            X = src(s.it, "frame")
            Frame(s.it, X, {"x": dict(kind="number")})
            t2 = tag + (", two-sided" if two_sided else "")
            try:
                _, ev = s.call(m, **{**method_args(s, m, X), **({"y": const(None)} if two_sided else {})})
            except AnalysisError as e:
                unresolved(chk, "R7", t2, e)
                continue
            got = [e for e in ev if e.kind == "mcall" and e.name == "get_model_matrix"]
            other = conversions(s, ev)
            if other:
                chk.bad("R7", t2, other[0].where(), "the data frame is converted without the formula")
            if not any(e.args[0].op == "src" and e.args[0].payload == "spec:X" for e in got):
                if not other:
                    unresolved(chk, "R7", t2, "no model matrix found")
                continue
            if two_sided:
                chk.test(any(e.args[0].op == "src" and e.args[0].payload == "spec:y" for e in got), "R7", f"{t2}: response", got[0].where(),
                         "the response is not taken from the formula")
            for e in got:
                which = e.args[0].payload if e.args[0].op == "src" else show(e.args[0], 2)
                d = e.args[1] if len(e.args) > 1 else (e.data or {}).get("data")
                if d is not None:
                    chk.test(root_of(d).vn == X.vn, "R7", f"{t2}: {which} is evaluated on the data passed in", e.where(), f"evaluates {show(d, 4)}")
                c = (e.data or {}).get("context")
                t = f"{t2}: context of {which}"
                if c is None:
                    chk.bad("R7", t, e.where(), "the context is not passed to the formula")
                elif c.op == "captured":
                    good = c.payload == 1 and c.args[0].op == "src" and c.args[0].payload == "user:context"
                    chk.test(good, "R7", t, e.where(), f"the context is taken {c.payload - 1} calls below the method the user calls, so that a frame "
                             "number names the wrong frame" if c.args[0].op == "src" else f"the context is {show(c.args[0], 3)}")
                elif c.op in ("src", "const"):
                    chk.bad("R7", t, e.where(), f"the formula receives {show(c, 2)} instead of the caller's context")
                else:
                    unresolved(chk, "R7", t, show(c, 4))


class _F:
    def __init__(self, X):
        self.X = X


def root_of(n):
    while n.op in ("call", "mcall") and last(n) in ("from_native", "to_native", "with_columns", "clone", "cast") and n.args:
        n = n.args[-1] if last(n) == "cast" and n.op == "call" else n.args[0]
    return n


def check_capture(prog, chk):
    """frame numbers count from the caller of the public method"""
    f = prog_func(prog, "capture_context")
    if f is None:
        unresolved(chk, "R7", "capture_context", "vanished")
        return
    chk.functions.add(f.qual)
    w = prog_where(prog, f)
    for k in (0, 1, 3):
        it, st = Interp(prog), State()
        try:
            r = it.call_func(f, [const(k)], {}, st, ("<entry>", 0))
        except AnalysisError as e:
            unresolved(chk, "R7", "capture_context", e)
            continue
        if r.op == "call" and r.payload[0].endswith("capture_context") and r.args and is_const(r.args[0]):
            chk.test(r.args[0].payload == k + 2, "R7", f"capture_context({k})", w,
                     f"frame {k} of the caller is looked up {r.args[0].payload} frames above capture_context instead of {k + 2}")
        else:
            unresolved(chk, "R7", f"capture_context({k})", show(r, 3))
    it, st = Interp(prog), State()
    m = N("dict", ("v",), (const(1),))
    r = it.call_func(f, [m], {}, st, ("<entry>", 0))
    if r.op == "call" and r.args:
        r = r.args[0]
    chk.test(r.vn == m.vn, "R7", "capture_context(mapping)", w, f"a mapping becomes {show(r, 3)}") if r.op in ("dict", "const") else \
        unresolved(chk, "R7", "capture_context(mapping)", show(r, 3))


# ------------------------------------------------------------------ the fit
def fit_session(prog, cls, method, formula=None, extra=None):
    params = {"warm_start": FALSE, "solver": const("irls-ls"), "cat_missing_method": const(method), "l1_ratio": const(0.0),
              "formula": formula if formula is not None else const(None)}
    for k in ("monotonic_constraints", "A_ineq", "b_ineq", "lower_bounds", "upper_bounds"):
        params[k] = const(None)
    if cls == CLASSES[0]:
        params.update(alpha=const(1.0), alpha_search=FALSE)
    params.update(extra or {})
    names = [x for x in params]
    ci = prog.cls(cls)
    have = ci.lookup("__init__").params
    return Session(prog, cls, {k: params[k] for k in names if k in have})


class Reached(BaseException):
    """the rest of the fit does not matter"""


def run_fit(s, **kw):
    n0 = len(s.it.events)
    try:
        s.call("fit", **kw)
    except Reached as e:
        s.st.take(e.args[0])
    return s.it.events[n0:]


def penalties(s, prog, seen, until):
    for nm in ("setup_p1", "setup_p2"):
        f = prog_func(prog, nm)
        if f is None:
            return False

        def stub(it, b, st, site, nm=nm):
            seen.setdefault(nm, []).append(next(iter(b.values())))
            if nm == until:
                raise Reached(st)
            return N("src", "stub:" + nm)
        s.it.stub[f.qual] = stub
    return True


def check_fit(prog, chk, cls):
    f = prog.cls(cls).lookup("fit")
    chk.functions.add(f.qual)
    w = prog_where(prog, f)
    # data frame
    for method in ("fail", "zero", "convert"):
        for null in ((False, True) if method != "fail" else (False,)):
            tag = f"{cls}.fit, cat_missing_method={method}, {'with' if null else 'without'} missing values"
            cols = {"a": dict(kind="enum", same=False, null=null), "c": dict(kind="categorical", same=False), "x": dict(kind="number")}
            s = fit_session(prog, cls, method)
            X = src(s.it, "frame")
            fr = Frame(s.it, X, cols)
            penalties(s, prog, {}, "setup_p1")
            try:
                ev = run_fit(s, X=X)
            except AnalysisError as e:
                unresolved(chk, "R1", tag, e)
                continue
            conv = conversions(s, ev)
            if not conv:
                unresolved(chk, "R1", tag, "no conversion found")
                continue
            e = conv[0]
            kw = arguments(e)
            for k in ("drop_first", "categorical_format", "cat_missing_method", "cat_missing_name"):
                v, want = kw.get(k), s.ctor_kw[k]
                if v is None:
                    chk.bad("R1", f"{tag}: {k}", e.where(), f"{k} is not passed to the conversion")
                elif v.vn == want.vn:
                    chk.ok("R1", f"{tag}: {k}")
                elif v.op in ("const", "src"):
                    chk.bad("R1", f"{tag}: {k}", e.where(), f"{k} is {show(v, 3)} instead of the estimator's {k}")
                else:
                    unresolved(chk, "R1", f"{tag}: {k}", show(v, 3))
            lv = s.attr("_categorical_levels_")
            if lv.op == "dict":
                got = {k: fr.levels(v) for k, v in zip(lv.payload, lv.args)}
                want = {"a": ("found:a",), "c": ("found:c",)}
                if None in got.values():
                    unresolved(chk, "R1", f"{tag}: stored levels", show(lv, 5))
                else:
                    chk.test(got == want, "R1", f"{tag}: stored levels", w, f"stores {got} instead of the levels of the data {want}")
            else:
                unresolved(chk, "R1", f"{tag}: stored levels", show(lv, 3))
            hm = s.attr("has_missing_category_")
            if hm.op == "dict":
                got = {k: s.it.truth(v, s.st) for k, v in zip(hm.payload, hm.args)}
                want = {"a": null and method == "convert", "c": False}
                if None in got.values():
                    unresolved(chk, "R1", f"{tag}: columns with missing values", show(hm, 5))
                else:
                    chk.test(got == want, "R1", f"{tag}: columns with missing values", w, f"notes {got} instead of {want}")
            else:
                unresolved(chk, "R1", f"{tag}: columns with missing values", show(hm, 3))
            for a, k in (("feature_names_", "column"), ("term_names_", "term")):
                v = s.attr(a)
                if v.op == "mcall" and v.payload[0] == "get_names":
                    kind = [x.payload for x in v.args[1:] if is_const(x)][:1]
                    from_data = any(x.op == "call" and last(x) == "from_df" for x in walk([v.args[0]]))
                    chk.test(kind == [k], "R1", f"{tag}: {a}", w, f"{a} are the names of each {kind}")
                    chk.test(from_data, "R1", f"{tag}: {a} belong to the converted data", w, show(v, 3))
                else:
                    unresolved(chk, "R1", f"{tag}: {a}", show(v, 3))
    # formula
    tag = f"{cls}.fit, formula"
    s = fit_session(prog, cls, "zero", N("src", "ctor:formula"))
    s.it.nonnull.add("ctor:formula")
    X = src(s.it, "frame")
    Frame(s.it, X, {"x": dict(kind="number")})
    pf = prog_func(prog, "parse_formula")
    if pf is None or not capture(s, prog):
        unresolved(chk, "R6", tag, "a function vanished")
        return
    parsed = []

    def parse(it, b, st, site):
        parsed.append(b)
        it.nonnull |= {"lhs", "rhs"}
        return N("tuple", None, (N("src", "lhs"), N("src", "rhs")))
    s.it.stub[pf.qual] = parse
    penalties(s, prog, {}, "setup_p1")
    try:
        ev = run_fit(s, X=X, y=const(None), context=src(s.it, "user:context"))
    except AnalysisError as e:
        unresolved(chk, "R6", tag, e)
        return
    for b in parsed[:1]:
        for k, want in (("formula", s.ctor_kw["formula"]), ("include_intercept", s.ctor_kw["fit_intercept"])):
            if k in b:
                chk.test(b[k].vn == want.vn, "R6", f"{tag}: {k}", w, f"{k} is {show(b[k], 3)}")
    mats = [e for e in ev if e.kind == "call" and e.name.endswith("from_formula")]
    sides = {}
    for e in mats:
        kw = arguments(e, ("formula", "data"))
        x = kw.get("formula")
        if x is not None and x.op == "src":
            sides[x.payload] = (e, kw)
    for side in ("lhs", "rhs"):
        if side not in sides and any(k not in ("lhs", "rhs") for k in sides):
            k = next(k for k in sides if k not in ("lhs", "rhs"))
            chk.bad("R6", f"{tag}: {side}", sides[k][0].where(), f"evaluates {k} instead of the {side} of the formula")
            continue
        if side not in sides:
            unresolved(chk, "R6", f"{tag}: {side}", "no model matrix found")
            continue
        e, kw = sides[side]
        want = {"data": X}
        if side == "rhs":
            want.update(ensure_full_rank=s.ctor_kw["drop_first"], categorical_format=s.ctor_kw["categorical_format"],
                        cat_missing_method=s.ctor_kw["cat_missing_method"], cat_missing_name=s.ctor_kw["cat_missing_name"],
                        interaction_separator=s.ctor_kw["interaction_separator"])
        for k, x in want.items():
            v = kw.get(k)
            if v is None:
                chk.bad("R6", f"{tag}: {k} of the {side}", e.where(), f"{k} is not passed to the formula")
            elif v.vn == x.vn or root_of(v).vn == x.vn:
                chk.ok("R6", f"{tag}: {k} of the {side}")
            elif v.op in ("const", "src"):
                chk.bad("R6", f"{tag}: {k} of the {side}", e.where(), f"{k} is {show(v, 3)}")
            else:
                unresolved(chk, "R6", f"{tag}: {k} of the {side}", show(v, 3))
        c = kw.get("context")
        if c is not None and c.op == "captured":
            chk.test(c.payload == 1 and c.args[0].op == "src" and c.args[0].payload == "user:context", "R7", f"{tag}: context of the {side}", e.where(),
                     f"the context is taken {c.payload - 1} calls below fit")
        else:
            chk.bad("R7", f"{tag}: context of the {side}", e.where(), "the formula does not receive the caller's context") if c is None or c.op in (
                "src", "const") else unresolved(chk, "R7", f"{tag}: context of the {side}", show(c, 3))
        attr = {"lhs": "y_model_spec_", "rhs": "X_model_spec_"}[side]
        vs = [v for v in leaves(s.attr(attr)) if v.op != "absent"]
        if not vs:
            chk.bad("R6", f"{tag}: {attr}", e.where(), f"{attr} is not stored")
        for v in vs:
            made = v.op == "getattr" and v.payload == "model_spec" and v.args[0].op == "call" and last(v.args[0]) == "from_formula"
            if made and any(x.op == "src" and x.payload == side for x in v.args[0].args[:1]):
                chk.ok("R6", f"{tag}: {attr}")
            elif made:
                chk.bad("R6", f"{tag}: {attr}", e.where(), f"{attr} is {show(v, 3)}")
            else:
                unresolved(chk, "R6", f"{tag}: {attr}", show(v, 3))


def is_list(n):
    while n.op == "inplace" or n.op in ("bin", "binop") and n.payload in ("+", "*"):
        n = n.args[0]
    return n.op == "list"


def expanded(n):
    """elements of a penalty vector, or None"""
    n = plain(n)
    if n.op in ("list", "tuple"):
        return [x for x in n.args]
    if n.op == "inplace" and n.payload in ("extend", "append") and len(n.args) == 2:
        a, b = expanded(n.args[0]), [n.args[1]] if n.payload == "append" else expanded(n.args[1])
        return None if a is None or b is None else a + b
    if n.op in ("bin", "binop") and n.payload == "+":
        a, b = expanded(n.args[0]), expanded(n.args[1])
        return None if a is None or b is None or not is_list(n.args[0]) else a + b
    if n.op in ("bin", "binop") and n.payload == "*" and is_list(n.args[0]) and is_const(n.args[1]):
        return expanded(n.args[0]) * int(n.args[1].payload)
    if n.op == "call" and last(n) == "repeat" and len(n.args) >= 2:
        a, k = expanded(n.args[0]), expanded(n.args[1])
        if a is not None and k is not None and len(a) == len(k) and all(is_const(x) for x in k):
            return [x for x, m in zip(a, k) for _ in range(int(m.payload))]
    if n.op == "call" and last(n) in ("concatenate", "hstack") and n.args and n.args[0].op in ("list", "tuple"):
        parts = [expanded(x) for x in n.args[0].args]
        return None if any(p is None for p in parts) else [x for p in parts for x in p]
    if n.op == "call" and last(n) == "full" and is_const(n.args[0]):
        return [n.args[1]] * n.args[0].payload
    return None


def check_penalties(prog, chk, cls):
    """penalties given for the columns of the data frame"""
    f = prog.cls(cls).lookup("fit")
    w = prog_where(prog, f)
    for which in ("P1", "P2"):
        for drop in (False, True):
            for null in (False, True):
                for backend, kind in (("pandas", "categorical"), ("polars", "enum"), ("polars", "categorical")):
                    for order in (("a", "x"), ("x", "a")):
                        for form in ("column", "expanded", "string") if not null and backend == "pandas" else ("column",):
                            tag = f"{cls}.fit: {which} {'per column' if form == 'column' else form}, drop_first={drop}, " + \
                                f"{'missing, ' if null else ''}{backend} {kind}, {order}"
                            width = 3 + null - drop
                            n = {"column": 2, "expanded": width + 1, "string": 0}[form]
                            pen = N("list", None, tuple(N("src", f"penalty:{k}") for k in range(n))) if form != "string" else const("identity")
                            v = penalty_of(prog, chk, cls, tag, which, pen, order, kind, null, drop, backend, 3, (n,) if n else None)
                            if v is None:
                                continue
                            if form == "string":
                                chk.test(is_const(v, "identity"), "R5", tag, w, f"becomes {show(v, 3)}") if v.op in ("const", "list", "call") else \
                                    unresolved(chk, "R5", tag, show(v, 3))
                                continue
                            got = expanded(v)
                            if got is None:
                                unresolved(chk, "R5", tag, show(v, 5))
                                continue
                            got = [x.payload if x.op == "src" else show(x, 2) for x in got]
                            want = [f"penalty:{k}" for k in range(n)] if form == "expanded" else [
                                f"penalty:{k}" for k, c in enumerate(order) for _ in range(width if c == "a" else 1)]
                            chk.test(got == want, "R5", tag, w, f"columns are penalised by {got} instead of {want}")
    for levels, drop in ((2, True), (3, True), (3, False)):
        tag = f"{cls}.fit: P2 matrix for the expanded columns, {levels} levels, drop_first={drop}"
        n = levels - drop + 1
        v = penalty_of(prog, chk, cls, tag, "P2", N("src", "penalty:matrix"), ("a", "x"), "categorical", False, drop, "pandas", levels, (n, n))
        if v is not None:
            vs = [plain(x) for x in leaves(v)]
            if all(x.op in ("src", "list", "const") for x in vs):
                chk.test(all(x.op == "src" and x.payload == "penalty:matrix" for x in vs), "R5", tag, w, f"becomes {show(v, 3)}")
            else:
                unresolved(chk, "R5", tag, show(v, 4))


def penalty_of(prog, chk, cls, tag, which, pen, order, kind, null, drop, backend, levels, dims):
    """what the set-up of the penalty receives for a frame with a categorical and a numeric column"""
    cols = {c: dict(kind=kind, same=False, null=null) if c == "a" else dict(kind="number") for c in order}
    s = fit_session(prog, cls, "convert", extra={which: pen, "drop_first": const(drop), ("P2" if which == "P1" else "P1"): const("identity")})
    if pen.op == "src":
        s.it.nonnull.add(pen.payload)
    X = src(s.it, "frame")
    Frame(s.it, X, cols, backend=backend, ncat={"a": levels}, dims=dims, pen=pen)
    seen = {}
    if not penalties(s, prog, seen, "setup_" + which.lower()):
        unresolved(chk, "R5", tag, "a function vanished")
        return None
    try:
        ev = run_fit(s, X=X)
    except AnalysisError as e:
        unresolved(chk, "R5", tag, e)
        return None
    v = seen.get("setup_" + which.lower())
    if not v:
        r = [e for e in ev if e.kind == "raise"]
        if s.st.dead and r and "penalt" in r[-1].where():
            chk.bad("R5", tag, r[-1].where(), f"a penalty of the right size is refused ({r[-1].name})")
        else:
            unresolved(chk, "R5", tag, "penalty set-up not reached")
        return None
    return v[0]


def check_frames(prog, chk, tier):
    chk.rules = ["R1 fit converts a data frame with the estimator's options and stores levels, columns with missing values, and names of that data",
                 "R2 every method converts a later data frame with the same options",
                 "R3 a later column gets exactly the columns it had at the fit; unseen levels (or unseen missing values with 'convert') raise",
                 "R5 penalties per data-frame column are repeated for each column it expands to, others are left alone",
                 "R6 formulas are evaluated with the estimator's options and their specification is stored",
                 "R7 formulas are evaluated by the stored specification, on the data passed in, in the context of the caller of the public method"]
    jobs = [("after", None), ("capture", None)] + [(k, c) for c in CLASSES for k in ("fit", "methods", "penalties")]

    def work(it, sub):
        k, c = it
        try:
            {"after": lambda: check_after(prog, sub), "capture": lambda: check_capture(prog, sub), "fit": lambda: check_fit(prog, sub, c),
             "methods": lambda: check_methods(prog, sub, c), "penalties": lambda: check_penalties(prog, sub, c)}[k]()
        except AnalysisError as e:
            unresolved(sub, "R1", f"{k} {c}", e)

    split(chk, jobs, work)
    for r, n in (("R1", 20), ("R2", 60), ("R3", 60), ("R5", 20), ("R6", 12), ("R7", 20)):
        chk.need(r, n)
