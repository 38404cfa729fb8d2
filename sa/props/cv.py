"""Cross-validation: what every fold fits and scores, how results are arranged, what is selected and refit."""
from __future__ import annotations

import re

from ..algebra import sp
from sympy.core.function import AppliedUndef  # noqa: E402

from .. import tensor as T
from ..nodes import FALSE, N, const, is_const, show
from ..parallel import split
from ..symexec import Decide, Irregular, Split
from .fitting import (ALPHA, CLASSES, NA, PX, FitRun, FitTen, arg_of, aX, compare, cols, inverse_of, m_tv, nA, penalty_args, problem, s_tv, user_p1, x_tv)
from .inference import decide_equal, unresolved
from .effects import sources
from .postfit import where

NF, NL = 2, 2  # folds and l1_ratios analysed
TRAIN, TEST = "gk", "hl"  # row kinds of the training and test rows of each fold
L1S = [sp.Symbol(f"l1_{i}") for i in range(NL)]


def alpha_sym(i, k):
    return sp.Symbol(f"alpha{i}{k}" if i is not None else f"alpha{k}")


def gather(v, kind):
    """rows of v selected by an index array"""
    def f(e):
        return sp.sympify(e).replace(lambda x: isinstance(x, AppliedUndef) and T.ix(0) in x.args,
                                     lambda x: sp.Function(f"{x.func.__name__}_{kind}")(*x.args))
    return T.TV(((kind,),) + v.axes[1:], {k: f(e) for k, e in v.data.items()})


def fold_tv(base, kind):
    """column statistics of the training rows (constant columns keep their value)"""
    def f(k, e):
        return sp.sympify(e).replace(lambda x: isinstance(x, AppliedUndef), lambda x: sp.Function(f"{x.func.__name__}_{kind}")(*x.args)) if k == (0,) else e
    return T.TV(base.axes, {k: f(k, e) for k, e in base.data.items()})


class Any(Decide):
    """takes one side of every open condition: lengths do not depend on it"""

    def __init__(self, side):
        super().__init__({})
        self.side = side

    def ask(self, key, f=lambda t: t):
        return f(self.side)


class CvRun(FitRun):
    def __init__(self, prog, l1="list", alphas="given", isolate=False, **kw):
        kw.setdefault("params", {})
        super().__init__(prog, CLASSES[1], **kw)
        self.l1, self.nl = l1, NL if l1 == "list" else 1
        self.it.len_hook = self.length
        self.it.mcall_hook = self.mcalls
        self.it.isolate_jobs = isolate
        self.it.nonnull |= {"ctor:cv"}
        self.folds = {}
        self.sols = {}
        for f in range(NF):
            for nm, kind in (("train", TRAIN[f]), ("test", TEST[f])):
                n = N("src", f"{nm}{f}")
                self.folds[n.vn] = kind
                self.it.arrays.add(n.vn)
                self.it.nonnull.add(f"{nm}{f}")
        if l1 == "list":
            self.set("l1_ratio", N("list", None, [self.src(f"l1_{i}", T.scalar(L1S[i])) for i in range(NL)]))
        else:
            self.set("l1_ratio", self.src("l1_0", T.scalar(L1S[0])))
        if alphas == "given":
            self.set("alphas", self.src("alphas", T.TV((aX,), {(j,): alpha_sym(None, k) for j, k in enumerate((1, 0, 2))})))
        else:
            self.grid = [self.src(f"grid{i}", T.TV((aX,), {(k,): alpha_sym(i, k) for k in range(NA)})) for i in range(self.nl)]
            self.grids = []
            q = self.cls.lookup("_get_alpha_path")
            self.it.stub[q.qual] = self.alpha_path
        self.given = alphas == "given"
        for name, owner, attr in (("DEVIANCE", "_family_instance", "deviance"), ("INVERSE", "_link_instance", "inverse")):
            for mod in prog.modules.values():
                for m in [c.methods[attr] for c in mod.classes.values() if attr in c.methods]:
                    self.it.stub[m.qual] = lambda it, b, st, site, name=name: self.opaque_call(name, b, site)
        self.ten0 = None
        self.starts = []
        q = self.cls.lookup("_get_start_coef")
        if q is not None:  # its values are the subject of P10
            self.it.stub[q.qual] = self.start

    def start(self, it, bound, st, site):
        k = len(self.starts)
        self.starts.append(dict(bound))
        return self.src(f"START{k}", T.atom(f"start{k}", (cols(self.intercept),)))

    def opaque_call(self, name, bound, site):
        b = dict(bound)
        keys = ("y", "mu", "sample_weight") if name == "DEVIANCE" else ("lin_pred",)
        r = N("call", (name, len(keys), ()), [b.get(k, const(None)) for k in keys], site)
        if name == "INVERSE":
            self.it.arrays.add(r.vn)
        return r

    def alpha_path(self, it, bound, st, site):
        g = self.grid[min(len(self.grids), self.nl - 1)]
        self.grids.append(dict(bound))
        return g

    def solver(self, f, bound, st):
        b = dict(bound)
        k = len(self.calls)
        self.calls.append((f, b, {o: dict(v) for o, v in st.heap.items()}))
        s = N("src", f"SOLUTION{k}")
        self.it.arrays.add(s.vn)
        self.it.nonnull.add(f"SOLUTION{k}")
        self.env[s.vn] = T.atom(f"sol{k}", (cols(self.intercept),))
        return N("tuple", None, (s, N("src", f"n_iter{k}"), N("src", f"n_cycles{k}"), N("src", f"diagnostics{k}")))

    def mcalls(self, recv, m, args, kwargs, site):
        if recv.op == "call" and recv.payload[0].split(".")[-1] == "check_cv":
            if m == "get_n_splits":
                return const(NF)
            if m == "split":
                return N("list", None, [N("tuple", None, (N("src", f"train{f}"), N("src", f"test{f}"))) for f in range(NF)])
        return None

    def length(self, n):
        """explicit length of a symbolic array"""
        if n.op in ("src",) and n.vn not in self.env or n.op in ("const", "obj", "class", "str", "dict", "ext"):
            return None
        if self.ten0 is None:
            self.ten0 = [CvTen(Any(x), self) for x in (True, False)]
        v = None
        for ten in self.ten0:
            try:
                v = ten.t(n)
                break
            except (Irregular, Split, RecursionError):
                continue
        if v is None:
            return None
        if v.axes and all(s == "1" for s in v.axes[0]):
            return len(v.axes[0])
        return None


def unwrap(n):
    while n.op == "mcall" and n.payload[0] in T.TRANSPARENT_M or n.op == "refine" or n.op == "call" and n.payload[0] in T.TRANSPARENT and n.args:
        n = n.args[0]
    return n


class CvTen(FitTen):
    best = 0

    def __init__(self, decide, run, sparse_p2=False, best=0):
        super().__init__(decide, run, sparse_p2)
        self.env = run.env  # solutions are added while the call is followed
        self.best = best
        self.std = []  # (row kind or None, matrix given, weights given)
        self.argmins = []

    def standardization(self, n, c):
        base = self.t(c.args[0])
        for kind in (None,) + tuple(TRAIN + TEST):
            x = x_tv() if kind is None else gather(x_tv(), kind)
            if T.equal(base, x) is None:
                self.std.append((kind, arg_of(c, 1, "weights", 1)))
                if kind is None:
                    return x, m_tv(), s_tv(), inverse_of(s_tv())
                s = fold_tv(s_tv(), kind)
                return x, fold_tv(m_tv(), kind), s, inverse_of(s)
        raise self.irr(n, "standardization of something else than the design matrix")

    def fit_hook(self, t, n):
        if n.op == "index":
            parts = list(n.args[1].args) if n.args[1].op == "tuple" else [n.args[1]]
            kind = t.run.folds.get(unwrap(parts[0]).vn) if parts else None
            if kind is not None:
                v = t.t(n.args[0])
                if not v.axes or v.axes[0] != nA:
                    raise t.irr(n, "rows of a fold taken from something that is not the data")
                if any(not t.full(p) for p in parts[1:]):
                    raise t.irr(n, "columns of a fold")
                return gather(v, kind)
            b = n.args[0]
            if b.op == "call" and b.payload[0] in ("builtins.divmod", "numpy.divmod") and is_const(n.args[1]) and len(b.args) == 2:
                p, q = sp.sympify(t.num(b.args[0])), sp.sympify(t.num(b.args[1]))
                if p.is_Integer and q.is_Integer:
                    return T.scalar(divmod(int(p), int(q))[n.args[1].payload])
            if b.op == "call" and b.payload[0] == "numpy.unravel_index" and is_const(n.args[1]):
                flat = int(t.num(b.args[0]))
                dims = list(b.args[1].args) if b.args[1].op in ("tuple", "list") else None
                if dims is None:
                    x = b.args[1]
                    if x.op == "getattr" and x.payload == "shape":
                        ax = t.t(x.args[0]).axes
                        if any(k != "1" for a in ax for k in a):
                            raise t.irr(n, "unravel_index over a symbolic shape")
                        dims = [len(a) for a in ax]
                else:
                    dims = [int(t.num(d)) for d in dims]
                order = dict(zip(b.payload[2], b.args[b.payload[1]:])).get("order", const("C"))
                if dims is not None and is_const(order) and order.payload in ("C", "F"):
                    pos = []
                    for d in reversed(dims) if order.payload == "C" else dims:
                        flat, r = divmod(flat, d)
                        pos.append(r)
                    return T.scalar((pos[::-1] if order.payload == "C" else pos)[n.args[1].payload])
        if n.op == "call" and n.payload[0] in ("numpy.sort", "builtins.sorted") and len(n.args) == 1:
            v = t.t(n.args[0])
            if len(v.axes) == 1 and all(str(e).startswith("alpha") for e in v.data.values()):
                es = sorted(v.data.values(), key=str)  # alpha0 < alpha1 < alpha2
                return T.TV(v.axes, {(k,): e for k, e in enumerate(es)})
            if len(v.axes) == 1 and all(str(-e).startswith("alpha") for e in v.data.values()):
                return T.TV(v.axes, {(k,): e for k, e in enumerate(sorted(v.data.values(), key=lambda e: str(-e), reverse=True))})
        if n.op == "mcall" and n.payload[0] == "argmin" or n.op == "call" and n.payload[0] == "numpy.argmin":
            v = t.t(n.args[0])
            if len(n.args) > 1:
                raise t.irr(n, "argmin along an axis")
            t.argmins.append((n, v))
            return T.scalar(t.best)
        if n.op == "call" and n.payload[0] == "DEVIANCE":
            y, mu = t.t(n.args[0]), t.t(n.args[1])
            w = T.scalar(1) if is_const(n.args[2], None) else t.t(n.args[2])
            return T.scalar(T.reduce_all(T.elementwise(lambda a, b, c: c * sp.Function("dev")(a, b), y, mu, w)))
        if n.op == "call" and n.payload[0] == "INVERSE":
            return T.elementwise(sp.Function("hinv"), t.t(n.args[0]))
        return super().fit_hook(t, n)


    def cond(self, n):
        if n.op == "cmp" and n.payload in ("is", "is not") and is_const(n.args[1], None):
            x = n.args[0]
            while x.op in ("phi", "refine"):
                x = x.args[0 if x.op == "refine" or self.cond(x.meta) else 1]
            if x.op == "index" and x.args[0].op != "mcall":
                try:
                    self.t(x)
                    return n.payload != "is"
                except Irregular:
                    pass
        return super().cond(n)


def entry(v, *idx):
    """element of an explicitly arranged array; trailing axes of length one beyond the index are dropped"""
    if len(v.axes) < len(idx) or any(len(v.axes[j]) <= k or set(v.axes[j]) != {"1"} for j, k in enumerate(idx)):
        raise Irregular("?", f"shape {tuple(map(len, v.axes))} of the collected results")
    for k in idx:
        v = T.take(v, 0, [k], True)
    return v


def dims(v, want):
    return len(v.axes) >= len(want) and all(len(v.axes[j]) == k and set(v.axes[j]) == {"1"} for j, k in enumerate(want))


def cv_run(prog, solver, intercept, scale, p1, p2, extra, l1, alphas, isolate=False):
    run = CvRun(prog, l1, alphas, isolate, params={"scale_predictors": const(scale)}, solver=solver, intercept=intercept)
    d = {k: run.src(k, T.atom(k, (nA,))) for k in ("y", "w", "off")}
    d["X"] = run.src("X", x_tv())
    penalty_args(run, p1, p2)
    if extra == "bounds":
        for k in ("lower_bounds", "upper_bounds"):
            run.set(k, run.src(k, T.atom(k, (PX,))))
    if extra == "ineq":
        run.set("A_ineq", run.src("A_ineq", T.atom("Au", (("q",), PX))))
        run.set("b_ineq", run.src("b_ineq", T.atom("bu", (("q",),))))
    _, ev = run.run(X=d["X"], y=d["y"], sample_weight=d["w"], offset=d["off"], store_covariance_matrix=FALSE)
    return run, ev


def solution_of(v):
    """numbers of the solver calls whose solution a value is made of"""
    return numbers(v, "sol")


def numbers(v, what):
    out = set()
    for e in v.data.values():
        for x in sp.sympify(e).atoms(AppliedUndef, sp.Symbol):
            nm = x.func.__name__ if isinstance(x, AppliedUndef) else str(x)
            m = re.match(what + r"(\d+)(_|$)", nm)
            if m:
                out.add(int(m.group(1)))
    return out


def probe(f):
    """value of f under some resolution of the open conditions"""
    err = None
    for side in (True, False):
        try:
            return f(Any(side))
        except (Irregular, Split) as e:
            err = e
    raise err if isinstance(err, Irregular) else Irregular("?", "undecided")


def deviance(kind, coef, icpt):
    """weighted deviance per unit weight of some rows"""
    rows = lambda v: gather(v, kind)
    w = rows(T.atom("w", (nA,)))
    eta = T.elementwise(lambda a, b: a + b + icpt, T.matmul(rows(x_tv()), coef), rows(T.atom("off", (nA,))))
    num = T.reduce_all(T.elementwise(lambda y, e, w: w * sp.Function("dev")(y, sp.Function("hinv")(e)), rows(T.atom("y", (nA,))), eta, w))
    return T.scalar(T.clean(num / T.reduce_all(w)))


def cv_case(prog, chk, solver, intercept, scale, p1, p2, extra, l1, alphas):
    args = (solver, intercept, scale, p1, p2, extra, l1, alphas)
    run, ev = cv_run(prog, *args)
    tag = f"CV.fit({solver}, intercept={intercept}, scale={scale}, P1={p1}, P2={p2}, {l1} l1_ratio, alphas {alphas}{', ' + extra if extra else ''})"
    w = where(prog, run, "fit")
    nl = run.nl
    if run.st.dead:
        chk.bad("V0", tag, w, "the call always raises")
        return
    sparse = p2 == "sparse"
    ten = lambda dd, best=0: CvTen(dd, run, sparse, best)
    attr = run.attr
    try:
        paths = {a: probe(lambda dd: ten(dd).t(attr(a))) for a in ("coef_path_", "deviance_path_", "train_deviance_path_", "alphas_")}
        if intercept:
            paths["intercept_path_"] = probe(lambda dd: ten(dd).t(attr("intercept_path_")))
    except Irregular as e:
        unresolved(chk, "V0", tag, e)
        return
    for a, v in paths.items():
        want = (NF, nl, NA) if a != "alphas_" else (nl, NA) if nl > 1 else (NA,)
        if not chk.test(dims(v, want), "V0", f"{tag}: {a} is arranged by fold, l1_ratio and alpha", w, f"has shape {[len(x) for x in v.axes]}"):
            return
    asym = lambda i, k: alpha_sym(None, NA - 1 - k) if run.given else alpha_sym(i, k)
    for i in range(nl):
        for k in range(NA):
            ix = (i, k) if nl > 1 else (k,)
            decide_equal(chk, "V4", f"{tag}: alphas_[{', '.join(map(str, ix))}]", w, lambda dd, ix=ix: entry(ten(dd).t(attr("alphas_")), *ix),
                         lambda dd, i=i, k=k: T.scalar(asym(i, k)))
    for f in range(NF):
        rows = lambda v, f=f: gather(v, TRAIN[f])
        for i in range(nl):
            for k in range(NA):
                t = f"{tag}: fold {f}, l1_ratio {i}, alpha {k}"
                coef = lambda dd, p=(f, i, k): entry(ten(dd).t(attr("coef_path_")), *p)
                icpt = (lambda dd, p=(f, i, k): entry(ten(dd).t(attr("intercept_path_")), *p).scalar) if intercept else lambda dd: sp.Integer(0)
                try:
                    s = solution_of(probe(coef))
                except Irregular as e:
                    unresolved(chk, "V1", t, e)
                    continue
                if not chk.test(len(s) == 1, "V1", f"{t}: coefficients of one solution", w, f"made of {len(s)} solutions"):
                    continue
                s = s.pop()
                p = problem(*run.calls[s])
                compare(prog, Renamed(chk, "V2"), run, p, t, w, ten, T.atom(f"sol{s}", (cols(intercept),)), asym(i, k), coef, icpt, intercept, scale, p1,
                        p2, extra, rows=rows, L1=L1S[i])
                start_values(chk, run, p, t, w, ten, TRAIN[f])
                for a, kind in (("deviance_path_", TEST[f]), ("train_deviance_path_", TRAIN[f])):
                    decide_equal(chk, "V3", f"{t}: {a}", w, lambda dd, a=a, p=(f, i, k): entry(ten(dd).t(attr(a)), *p),
                                 lambda dd, kind=kind: deviance(kind, coef(dd), icpt(dd)))
    grids(chk, run, tag, w, ten, intercept, scale, p1)
    # the scaling of a fold uses its training rows
    seen = set()

    def std(dd):
        t = ten(dd)
        for p in run.calls:
            t.t(problem(*p)["X"])
        return t.std

    try:
        for kind, wn in probe(std):
            if wn is None or (kind, wn.vn) in seen:
                continue
            seen.add((kind, wn.vn))
            wv = T.atom("w", (nA,)) if kind is None else gather(T.atom("w", (nA,)), kind)
            decide_equal(chk, "V2", f"{tag}: weights for the scaling of {'all' if kind is None else 'training'} rows", w, lambda dd: ten(dd).t(wn),
                         lambda dd: T.elementwise(lambda x: x / T.reduce_all(wv), wv))
    except Irregular as e:
        unresolved(chk, "V2", f"{tag}: scaling", e)
    selection(prog, chk, run, tag, w, ten, intercept, scale, p1, p2, extra, asym)


def start_values(chk, run, p, t, w, ten, kind):
    """start values computed for a solver call come from the rows it is fitted to"""
    rows = (lambda v: v) if kind is None else lambda v: gather(v, kind)
    try:
        v = probe(lambda dd: ten(dd).t(p["coef"]))
    except Irregular as e:
        unresolved(chk, "V2", f"{t}: start values", e)
        return
    for k in sorted(numbers(v, "start")):
        b = run.starts[k]
        wv = rows(T.atom("w", (nA,)))
        eq = lambda what, build, want: decide_equal(chk, "V2", f"{t}: {what} for the start values", w, build, want)
        eq("response", lambda dd: ten(dd).t(b["y"]), lambda dd: rows(T.atom("y", (nA,))))
        eq("weights", lambda dd: ten(dd).t(b["sample_weight"]), lambda dd: T.elementwise(lambda x: x / T.reduce_all(wv), wv))
        eq("offset", lambda dd: ten(dd).t(b["offset"]), lambda dd: rows(T.atom("off", (nA,))))
        for a, q in (("lower_bounds", "lb"), ("upper_bounds", "ub")):
            if b.get(a) is not None and p.get(q) is not None:
                chk.test(b[a].vn == p[q].vn or None_or_equal(ten, b[a], p[q]), "V2", f"{t}: {a} for the start values", w, "differ from those of the solver")


def None_or_equal(ten, a, b):
    def f(dd):
        x, y = (None if is_const(v, None) else ten(dd).t(v) for v in (a, b))
        return (x is None and y is None) or (x is not None and y is not None and T.equal(x, y) is None)
    try:
        return probe(f)
    except Irregular:
        return True  # not understood here; compared with the documented bounds above


def grids(chk, run, tag, w, ten, intercept, scale, p1):
    """an automatic grid belongs to the l1_ratio it is used for and is made from all the data"""
    if run.given:
        return
    for i in range(run.nl):
        try:
            v = probe(lambda dd: entry(ten(dd).t(run.attr("alphas_")), *((i, 0) if run.nl > 1 else (0,))))
        except Irregular as e:
            unresolved(chk, "V4", f"{tag}: grid {i}", e)
            continue
        m = re.match(r"alpha(\d)(\d)$", str(v.scalar))
        if not m or int(m.group(1)) >= len(run.grids):
            unresolved(chk, "V4", f"{tag}: grid {i}", "not the result of the grid function")
            continue
        b = run.grids[int(m.group(1))]
        eq = lambda what, build, want: decide_equal(chk, "V4", f"{tag}: {what} for the alphas of l1_ratio {i}", w, build, want)
        wv = T.atom("w", (nA,))
        names = dict(zip(("P1", "X", "y", "w", "offset"), [b.get(k) for k in ("P1_no_alpha", "X", "y", "w", "offset")]))
        if names["P1"] is not None:
            eq("L1 penalty", lambda dd: ten(dd).t(names["P1"]), lambda dd: T.elementwise(lambda a, v: L1S[i] * a * (1 if scale else v), user_p1(p1), inverse_of(s_tv())))
        if names["X"] is not None:
            eq("predictors", lambda dd: ten(dd).t(names["X"]), lambda dd: T.elementwise(
                lambda x, m, v: (x - m if intercept else x) * v, x_tv(), m_tv(), inverse_of(s_tv())))
        if names["y"] is not None:
            eq("response", lambda dd: ten(dd).t(names["y"]), lambda dd: T.atom("y", (nA,)))
        if names["w"] is not None:
            eq("weights", lambda dd: ten(dd).t(names["w"]), lambda dd: T.elementwise(lambda x: x / T.reduce_all(wv), wv))
        if names["offset"] is not None:
            eq("offset", lambda dd: ten(dd).t(names["offset"]), lambda dd: T.atom("off", (nA,)))


def selection(prog, chk, run, tag, w, ten, intercept, scale, p1, p2, extra, asym):
    """for every position the minimum can have: selected values, refit and reported coefficients"""
    attr = run.attr
    nl = run.nl

    def mins(dd):
        t = ten(dd)
        t.t(attr("alpha_"))
        return t.argmins

    def average(dd):
        v = ten(dd).t(attr("deviance_path_"))
        return T.elementwise(lambda *x: sum(x) / len(x), *[T.take(v, 0, [f], True) for f in range(NF)])

    try:
        ms = probe(mins)
    except Irregular as e:
        unresolved(chk, "V5", f"{tag}: selection", e)
        return
    if not ms:
        unresolved(chk, "V5", f"{tag}: selection", "no minimum over the deviances was recognised")
        return
    for n, _ in {m[0].vn: m for m in ms}.values():
        decide_equal(chk, "V5", f"{tag}: the mean test deviance over folds is minimised", w,
                     lambda dd: flat(ten(dd).t(n.args[0])), lambda dd: flat(average(dd)))
    for best in range(nl * NA):
        i, k = divmod(best, NA)
        t = f"{tag}: best at l1_ratio {i}, alpha {k}"
        tb = lambda dd, best=best: ten(dd, best)
        decide_equal(chk, "V5", f"{t}: alpha_", w, lambda dd: tb(dd).t(attr("alpha_")), lambda dd: T.scalar(asym(i, k)))
        decide_equal(chk, "V5", f"{t}: l1_ratio_", w, lambda dd: tb(dd).t(attr("l1_ratio_")), lambda dd: T.scalar(L1S[i]))
        coef, icpt = (lambda dd: tb(dd).t(attr("coef_"))), (lambda dd: tb(dd).num(attr("intercept_")))
        try:
            s = solution_of(probe(coef))
        except Irregular as e:
            unresolved(chk, "V6", t, e)
            continue
        if not chk.test(len(s) == 1, "V6", f"{t}: coef_ of one solution", w, f"made of {len(s)} solutions"):
            continue
        s = s.pop()
        compare(prog, Renamed(chk, "V6"), run, problem(*run.calls[s]), f"{t}: refit", w, tb, T.atom(f"sol{s}", (cols(intercept),)), asym(i, k), coef,
                icpt, intercept, scale, p1, p2, extra, L1=L1S[i])
        start_values(chk, run, problem(*run.calls[s]), f"{t}: refit", w, tb, None)
        for a, b in (("_refit_coef_path", "coef_"), ("_refit_intercept_path", "intercept_")):
            if attr(a).op != "absent":
                decide_equal(chk, "V6", f"{t}: {b} is the selected entry of the refit path", w, lambda dd, b=b: tb(dd).t(attr(b)),
                             lambda dd, a=a: entry(tb(dd).t(attr(a)), k))
        if attr("_alphas").op != "absent":
            for j in range(NA):
                decide_equal(chk, "V6", f"{t}: refit alpha {j}", w, lambda dd, j=j: entry(tb(dd).t(attr("_alphas")), j), lambda dd, j=j: T.scalar(asym(i, j)))


def flat(v):
    return T.TV((("1",) * len(v.data),), {(j,): v.data[k] for j, k in enumerate(sorted(v.data))})


class Renamed:
    """reports under one rule name, keeping the original one in the construct"""

    def __init__(self, chk, rule):
        self.chk, self.rule = chk, rule

    def __getattr__(self, name):
        f = getattr(self.chk, name)
        if name in ("ok", "bad", "undecided"):
            return lambda rule, construct, *a, **k: f(self.rule, construct, *a, **k)
        if name == "test":
            return lambda c, rule, construct, *a, **k: f(c, self.rule, construct, *a, **k)
        return f


def isolation_case(prog, chk, solver, intercept, scale, p1, p2, extra, l1, alphas):
    """jobs share nothing: neither memory they write nor attributes the results depend on"""
    args = (solver, intercept, scale, p1, p2, extra, l1, alphas)
    run, ev = cv_run(prog, *args, isolate=True)
    tag = f"CV.fit({solver}, {l1} l1_ratio)"
    w = where(prog, run, "fit")
    if not run.it.jobs:
        unresolved(chk, "V7", tag, "no parallel jobs were recognised")
        return
    for k, v in sorted(run.st.heap[run.oid].items()):
        left = sorted(x.split(":")[1] for x in sources(v, loops=False) if x.startswith("left by a job"))
        chk.test(not left, "V7", f"{tag}: {k} does not depend on what jobs leave on the estimator", w,
                 f"depends on {', '.join(left)}, which jobs in other processes do not set" if left else "")
    for j, (jargs, n0, n1, _, _) in enumerate(run.it.jobs):
        shared = {x.vn for x in jargs if x.op not in ("const", "obj")}
        for x in jargs:  # inputs behind conversions that need not copy
            shared |= {z.vn for z in run.it.roots(x)} if hasattr(run.it, "roots") else set()
        hits = [e for e in run.it.events[n0:n1] if e.kind == "mutate" and any(z.vn in shared for z in (e.data or ()))]
        for e in hits[:2]:
            chk.bad("V7", f"{tag}: job {j} writes into data shared with other jobs", e.where(), e.name)
        if not hits:
            chk.ok("V7", f"{tag}: job {j} leaves shared data alone", f"{sum(e.kind == 'mutate' for e in run.it.events[n0:n1])} in-place writes")


def cv_cases(tier):
    out = []
    for l1 in ("list", "one"):
        for alphas in ("given", "auto"):
            for intercept, scale in ((True, False), (True, True), (False, False)):
                out.append(("irls-cd", intercept, scale, "array", "matrix", "bounds", l1, alphas))
            out.append(("irls-ls", True, True, "identity", "vector", "", l1, alphas))
            out.append(("lbfgs", True, False, "identity", "identity", "", l1, alphas))
            out.append(("trust-constr", True, True, "identity", "sparse", "ineq", l1, alphas))
            out.append(("irls-ls-monotonic", False, False, "identity", "identity", "ineq", l1, alphas))
    return out


def check_cv(prog, chk, tier):
    chk.rules = ["V0 results are arranged by fold, l1_ratio and alpha", "V1 every entry of the path comes from one solver call",
                 "V2 the problem of a fold is the documented one on its training rows; nothing of its test rows enters",
                 "V3 deviance_path_ and train_deviance_path_ are the weighted deviances of the test and training rows at the fold's coefficients",
                 "V4 alphas_ are the alphas given, in descending order, or the grid of each l1_ratio",
                 "V5 alpha_ and l1_ratio_ minimise the test deviance averaged over folds", "V6 the refit solves the selected problem on all rows and is what is reported",
                 "V7 parallel jobs neither write into shared data nor leave anything the results depend on"]
    jobs = [("case",) + c for c in cv_cases(tier)]
    jobs += [("iso", s, True, True, "identity", "identity", "", "list", "given") for s in ("irls-ls", "irls-cd", "lbfgs")]
    split(chk, jobs, lambda c, k: (cv_case if c[0] == "case" else isolation_case)(prog, k, *c[1:]))
    chk.bounds = f"{NF} folds, {NL} l1_ratios, {NA} alphas; any data"
    for r, n in (("V0", 40), ("V2", 300), ("V3", 100), ("V4", 20), ("V5", 50), ("V6", 100), ("V7", 20)):
        chk.need(r, n)
