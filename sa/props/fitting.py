"""What fit hands to the solvers and how the solution is turned into coefficients."""
from __future__ import annotations

import copy

from .. import tensor as T
from ..algebra import sp
from ..driver import Session
from ..nodes import ABSENT, FALSE, NONE, TRUE, N, const, show
from ..parallel import split
from ..symexec import Decide, Irregular, Split
from .inference import decide_equal, unresolved
from .postfit import Named, hook_default, kind_test, nA, pA, where

CLASSES = ("GeneralizedLinearRegressor", "GeneralizedLinearRegressorCV")
SOLVERS = ("_irls_solver", "_monotonic_irls_solver", "_lbfgs_solver", "_trust_constr_solver", "_tikhonov_solver")


class FitRun(Session):
    """One abstract call of fit on numeric data with symbolic hyperparameters"""

    def __init__(self, prog, cls="GeneralizedLinearRegressor", params=None, family="gamma", link="log", solver="irls-ls", intercept=True):
        pr = dict(family=const(family), link=const(link), solver=const(solver), fit_intercept=const(intercept), formula=NONE,
                  P1=const("identity"), P2=const("identity"), lower_bounds=NONE, upper_bounds=NONE, A_ineq=NONE, b_ineq=NONE,
                  monotonic_constraints=NONE, start_params=NONE, warm_start=FALSE, verbose=const(0), gradient_tol=NONE,
                  scale_predictors=FALSE, alphas=NONE)
        if cls == CLASSES[0]:
            pr.update(alpha_search=FALSE)
        pr.update(params or {})
        super().__init__(prog, cls, {k: v for k, v in pr.items() if k in prog.cls(cls).lookup("__init__").params})
        self.intercept = intercept
        self.it.loose_arrays = True
        self.env = {}
        self.calls = []
        for f in SOLVERS:
            q = self.qual(f)
            if q:
                self.it.stub[q] = lambda it, bound, st, site, f=f: self.solver(f, bound, st)

    def qual(self, name):
        for m in self.p.modules.values():
            f = m.functions.get(name)
            if f is not None:
                return f.qual
        return None

    def src(self, name, tv):
        n = N("src", name)
        self.env[n.vn] = tv
        self.it.nonnull.add(name)
        if tv.axes:
            self.it.arrays.add(n.vn)
        else:
            self.it.scalars.add(n.vn)
        return n

    def solver(self, f, bound, st):
        b = dict(bound)
        self.calls.append((f, b, {o: dict(v) for o, v in st.heap.items()}))
        return N("tuple", None, (N("src", "SOLUTION"), N("src", "n_iter"), N("src", "n_cycles"), N("src", "diagnostics")))

    def run(self, **kw):
        return self.call("fit", "", context=NONE, **kw)


PX = ("p", "z")  # columns that vary and constant columns


def cols(intercept):
    return (("1",) if intercept else ()) + PX


def m_tv():
    return T.atom("m", (PX,))


def s_tv():
    return T.TV((PX,), {(0,): sp.Function("s")(T.ix(0)), (1,): 0})


def x_tv():
    return T.TV((nA, PX), {(0, 0): sp.Function("X")(T.ix(0), T.ix(1)), (0, 1): sp.Function("m_1")(T.ix(1))})


def inverse_of(s):
    return T.TV(s.axes, {(0,): 1 / s.data[(0,)], (1,): 1})


def sol_tv(intercept):
    return T.atom("sol", (cols(intercept),))


def arg_of(n, k, name, first=1):
    """argument k (or keyword) of a method call node; the receiver is argument 0"""
    m, npos, kws = n.payload[:3]
    if npos > k:
        return n.args[k]
    return dict(zip(kws, n.args[npos:])).get(name)


def loop_indices(n, seen=None):
    """positions and elements of loops"""
    seen = set() if seen is None else seen
    if not isinstance(n, N) or n.id in seen:
        return
    seen.add(n.id)
    if n.op == "loopidx" or n.op == "elem" and n.payload is None:
        yield n
    for a in n.args:
        yield from loop_indices(a, seen)
    if isinstance(n.meta, N):
        yield from loop_indices(n.meta, seen)


NA = 3  # length of the explicit regularization path
aX = ("1",) * NA


class FitTen(Named):
    tiny = True
    step = None  # position on the regularization path

    def __init__(self, decide, run, sparse_p2=False):
        super().__init__(decide, run.env, None, self.fit_hook)
        self.run, self.sparse_p2 = run, sparse_p2

    def inside(self, roots, s, size):
        """a copy that reads loop-dependent values in iteration s of the loop over alphas"""
        sub = copy.copy(self)
        sub.cache = {}
        sub.loopenv = dict(self.loopenv)
        sub.step = s
        sub.env = dict(self.env)
        for r in roots:
            for li in loop_indices(r):
                if li.op == "loopidx":
                    sub.loopenv.setdefault(li.vn, (("1",) * size, s, None))
                    continue
                try:
                    v = self.t(li.args[0])
                except (Irregular, Split):
                    continue
                if v.axes and v.axes[0] == ("1",) * size:
                    sub.env[li.vn] = T.take(v, 0, [s], True)
        return sub

    def flag(self, n):
        return bool(self.t(n).scalar != 0)

    def standardization(self, n, c):
        """the matrix standardized by the call c, its column means, deviations and their inverse"""
        if T.equal(self.t(c.args[0]), x_tv()) is not None:
            raise self.irr(n, "standardization of something else than the design matrix")
        return x_tv(), m_tv(), s_tv(), inverse_of(s_tv())

    def fit_hook(self, t, n):
        if n.op == "src" and n.payload == "SOLUTION":
            k = t.step if t.step is not None else next(iter(t.loopenv.values()))[1] if t.loopenv else ""
            return T.atom(f"sol{k}", (cols(t.run.intercept),))
        if n.op == "index" and n.args[0].op == "mcall" and n.args[0].payload[0] == "standardize" and n.args[1].op == "const":
            c = n.args[0]
            center, scale = t.flag(arg_of(c, 2, "center_predictors")), t.flag(arg_of(c, 3, "scale_predictors"))
            x, m, s, inv = t.standardization(n, c)
            k = n.args[1].payload
            if k == 0:
                return T.elementwise(lambda x, m, i: (x - m if center else x) * (i if scale else 1), x, m, inv)
            if k == 1:
                return m if center else T.fill((PX,), sp.Integer(0))
            return s if scale else None
        if n.op == "mcall" and n.payload[0] == "unstandardize":
            return x_tv()
        if n.op == "index" and n.args[0].op in ("call", "mcall") and n.args[1].op == "const" \
                and n.args[0].payload[0].split(".")[-1] in ("validate_data", "_validate_data", "check_X_y"):
            for k, name in enumerate(("X", "y")):
                if n.args[1].payload == k:
                    for a in n.args[0].args:
                        try:
                            v = t.t(a)
                        except (Irregular, Split):
                            continue
                        if len(v.axes) == 2 - k:
                            return v
        if n.op == "call" and n.payload[0].split(".")[-1] in ("diags", "diags_array", "dia_matrix", "dia_array") and n.args:
            a = n.args[0]
            if a.op in ("tuple", "list") and len(a.args) == 2:
                a = a.args[0]
            return T.diag_matrix(t.t(a))
        return hook_default(t, n)

    def cond(self, n):
        if n.op == "call" and n.payload[0].split(".")[-1] in ("issparse", "isspmatrix", "isspmatrix_csc", "isspmatrix_csr"):
            try:
                v = self.t(n.args[0])
                return self.sparse_p2 and len(v.axes) == 2 and v.axes[0] == v.axes[1]
            except (Irregular, Split):
                return False
        if n.op == "cmp" and n.payload in ("is", "is not") and n.args[1].op == "const" and n.args[1].payload is None:
            x = n.args[0]
            if x.op == "index" and x.args[0].op == "mcall" and x.args[0].payload[0] == "standardize":
                return (self.fit_hook(self, x) is None) == (n.payload == "is")
        return super().cond(n)


# ------------------------------------------------------------------ the problem handed to the solver
ALPHA, L1 = sp.Symbol("alpha", positive=True), sp.Symbol("l1")
IRLS_FIELDS = {"X": "X", "y": "y", "w": "sample_weight", "P1": "P1", "P2": "P2", "off": "offset", "lb": "_lower_bounds", "ub": "_upper_bounds",
               "family": "family", "link": "link", "fit_intercept": "fit_intercept"}
ARG_FIELDS = {"X": "X", "y": "y", "w": "sample_weight", "P2": "P2", "off": "offset", "A": "A_ineq", "b": "b_ineq", "family": "family",
              "link": "link", "fit_intercept": "fit_intercept"}


def problem(f, bound, heap):
    """what one solver call is asked to solve: name -> node"""
    data = bound.get("data")
    out = {}
    if data is not None and data.op == "obj":
        h = heap.get(data.payload[0], {})
        out = {k: h.get(a) for k, a in IRLS_FIELDS.items()}
        for k, a in (("A", "A_ineq"), ("b", "b_ineq")):
            out[k] = bound.get(a)
        out["opts"] = h
    else:
        out = {k: bound.get(a) for k, a in ARG_FIELDS.items()}
        out["opts"] = bound
    out["coef"] = bound.get("coef")
    return out


def penalty_args(run, p1, p2):
    out = {}
    if p1 == "array":
        out["P1"] = run.src("P1", T.atom("P1u", (PX,)))
    elif p1 == "none":
        out["P1"] = NONE
    if p2 == "vector":
        out["P2"] = run.src("P2", T.atom("P2u", (PX,)))
    elif p2 in ("matrix", "sparse"):
        out["P2"] = run.src("P2", T.atom("P2u", (PX, PX)))
    elif p2 == "none":
        out["P2"] = NONE
    for k, v in out.items():
        run.set(k, v)


def user_p1(p1):
    return T.atom("P1u", (PX,)) if p1 == "array" else T.fill((PX,), sp.Integer(1))


def quad(P2, c):
    if len(P2.axes) == 1:
        return T.reduce_all(T.elementwise(lambda p, x: p * x * x, P2, c))
    return T.reduce_all(T.matmul(c, T.matmul(P2, c)))


def user_p2(p2):
    return {"vector": T.atom("P2u", (PX,)), "matrix": T.atom("P2u", (PX, PX)), "sparse": T.atom("P2u", (PX, PX))}.get(
        p2, T.fill((PX,), sp.Integer(1)))


def fit_case(prog, chk, solver, family, link, intercept, scale, p1, p2, extra, search=False):
    """extra: 'bounds' | 'ineq' | ''"""
    run = FitRun(prog, params={"scale_predictors": const(scale), "alpha_search": const(search)}, family=family, link=link, solver=solver,
                 intercept=intercept)
    d = {k: run.src(k, T.atom(k, (nA,))) for k in ("y", "w", "off")}
    d["X"] = run.src("X", x_tv())
    if search:
        run.set("alpha", run.src("alphas", T.TV((aX,), {(k,): sp.Symbol(f"alpha{k}") for k in range(NA)})))
    else:
        run.set("alpha", run.src("alpha", T.scalar(ALPHA)))
    run.set("l1_ratio", run.src("l1_ratio", T.scalar(L1)))
    penalty_args(run, p1, p2)
    if extra == "bounds":
        for k in ("lower_bounds", "upper_bounds"):
            run.set(k, run.src(k, T.atom(k, (PX,))))
    if extra == "ineq":
        run.set("A_ineq", run.src("A_ineq", T.atom("Au", (("q",), PX))))
        run.set("b_ineq", run.src("b_ineq", T.atom("bu", (("q",),))))
    sol = N("src", "SOLUTION")
    run.it.arrays.add(sol.vn)
    run.it.nonnull.add("SOLUTION")
    r, ev = run.run(X=d["X"], y=d["y"], sample_weight=d["w"], offset=d["off"], store_covariance_matrix=FALSE)
    tag = f"fit({solver}, {family}, intercept={intercept}, scale={scale}, P1={p1}, P2={p2}{', ' + extra if extra else ''}{', path' if search else ''})"
    w = where(prog, run, "fit")
    if run.st.dead:
        chk.bad("B0", tag, w, "the call always raises")
        return
    if not run.calls:
        unresolved(chk, "B0", tag, "no solver call was recognised")
        return
    chk.ok("B0", tag)
    p = problem(*run.calls[-1])
    sparse = p2 == "sparse"
    if not search:
        compare(prog, chk, run, p, tag, w, lambda dd: FitTen(dd, run, sparse), sol_tv(intercept), ALPHA,
                lambda dd: FitTen(dd, run, sparse).t(run.attr("coef_")), lambda dd: FitTen(dd, run, sparse).num(run.attr("intercept_")),
                intercept, scale, p1, p2, extra)
        return
    roots = [x for x in p.values() if isinstance(x, N)]
    row = lambda dd, a, k: T.take(FitTen(dd, run, sparse).t(run.attr(a)), 0, [k], True)
    for k in range(NA):
        compare(prog, chk, run, p, f"{tag}[{k}]", w, lambda dd, k=k: FitTen(dd, run, sparse).inside(roots, k, NA),
                T.atom(f"sol{k}", (cols(intercept),)), sp.Symbol(f"alpha{k}"), lambda dd, k=k: row(dd, "coef_path_", k),
                lambda dd, k=k: row(dd, "intercept_path_", k).scalar, intercept, scale, p1, p2, extra)
    for a, b in (("coef_", "coef_path_"), ("intercept_", "intercept_path_")):
        decide_equal(chk, "B8", f"{tag}: {a} is the last entry of the path", w, lambda dd: FitTen(dd, run, sparse).t(run.attr(a)),
                     lambda dd: row(dd, b, NA - 1))


def compare(prog, chk, run, p, tag, w, ten, sol, alpha, coef, icpt, intercept, scale, p1, p2, extra, rows=lambda v: v, L1=L1):
    """the solver's problem p at its solution sol against the documented problem at the reported coefficients"""
    sol_c = T.take(sol, 0, list(range(int(intercept), int(intercept) + 2)), False)
    sol_b = sol.data[(0,)] if intercept else sp.Integer(0)
    lin = lambda X, c, b: T.elementwise(lambda e: e + b, T.matmul(X, c))
    eq = lambda rule, what, build, want: decide_equal(chk, rule, f"{tag}: {what}", w, build, want)
    # B1: the solver's linear predictor is that of the reported coefficients
    eq("B1", "linear predictor of the reported coefficients", lambda dd: lin(rows(x_tv()), coef(dd), icpt(dd)),
       lambda dd: lin(ten(dd).t(p["X"]), sol_c, sol_b))
    yv, wv = rows(T.atom("y", (nA,))), rows(T.atom("w", (nA,)))
    eq("B2", "response", lambda dd: ten(dd).t(p["y"]), lambda dd: yv)
    eq("B2", "weights sum to one", lambda dd: ten(dd).t(p["w"]), lambda dd: T.elementwise(lambda x: x / T.reduce_all(wv), wv))
    eq("B2", "offset", lambda dd: ten(dd).t(p["off"]), lambda dd: rows(T.atom("off", (nA,))))
    # penalties refer to the reported coefficients, or to those of the scaled columns
    pen = lambda dd: sol_c if scale else coef(dd)
    eq("B3", "L2 penalty", lambda dd: T.scalar(T.clean(quad(ten(dd).t(p["P2"]), sol_c))),
       lambda dd: T.scalar(T.clean(alpha * (1 - L1) * quad(user_p2(p2), pen(dd)))))
    eq("B3", "L2 penalty is symmetric", lambda dd: ten(dd).t(p["P2"]), lambda dd: T.transpose(ten(dd).t(p["P2"])))
    if p.get("P1") is not None:
        eq("B4", "L1 penalty", lambda dd: T.elementwise(lambda a, c: a * c, ten(dd).t(p["P1"]), sol_c),
           lambda dd: T.elementwise(lambda a, c: alpha * L1 * a * c, user_p1(p1), pen(dd)))
    if extra == "bounds":
        for k, u in (("lb", "lower_bounds"), ("ub", "upper_bounds")):
            eq("B5", u, lambda dd, k=k: T.elementwise(lambda l, c: l * c, ten(dd).t(p[k]), coef(dd)),
               lambda dd, u=u: T.elementwise(lambda l, c: l * c, T.atom(u, (PX,)), sol_c))
    if extra == "ineq":
        eq("B6", "constraint matrix", lambda dd: T.matmul(ten(dd).t(p["A"]), sol_c),
           lambda dd: T.matmul(T.atom("Au", (("q",), PX)), coef(dd)))
        eq("B6", "constraint bounds", lambda dd: ten(dd).t(p["b"]), lambda dd: T.atom("bu", (("q",),)))
    for k, a in (("family", "_family_instance"), ("link", "_link_instance")):
        if p.get(k) is not None:
            v = run.attr(a)
            chk.test(p[k].vn == v.vn, "B7", f"{tag}: {k}", w, f"the solver is given {show(p[k], 3)}")
    if p.get("fit_intercept") is not None:
        eq("B7", "fit_intercept", lambda dd: ten(dd).t(p["fit_intercept"]), lambda dd: T.scalar(int(intercept)))


# ------------------------------------------------------------------ settings
PLAIN = {"builtins.int", "builtins.float", "builtins.bool", "builtins.str", "sklearn.utils.check_random_state",
         "sklearn.utils.validation.check_random_state", "builtins.max", "builtins.min", "builtins.tuple", "builtins.list"} | set(T.TRANSPARENT)


def mentions(n, vns, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(n, N) or n.id in seen:
        return False
    seen.add(n.id)
    return n.vn in vns or any(mentions(a, vns, seen) for a in n.args) or (isinstance(n.meta, N) and mentions(n.meta, vns, seen))


def carries(ten, v, want):
    """True: v is the value want; False: want does not enter v at all or another constant is used; None: unclear"""
    for _ in range(60):
        if v.vn == want.vn:
            return True
        if v.op == "phi":
            try:
                v = v.args[0 if ten.cond(v.meta) else 1]
                continue
            except (Split, Irregular):
                rs = [carries(ten, a, want) for a in v.args]
                return True if all(rs) else False if any(x is False for x in rs) and v.op != "phi" else None
        if v.op in ("refine",) and v.args:
            v = v.args[0]
            continue
        if v.op == "mcall" and v.payload[0] in T.TRANSPARENT_M or v.op == "call" and v.payload[0] in PLAIN and len(v.args) == 1:
            v = v.args[0]
            continue
        break
    if want.op == "const" and v.op == "const":
        return v.payload == want.payload
    return None if mentions(v, {want.vn}) else False


def settings_case(prog, chk, cls, solver, family, link):
    """hyperparameters that steer the solver reach it unchanged"""
    run = FitRun(prog, cls, params={"gradient_tol": N("src", "ctor:gradient_tol")}, family=family, link=link, solver=solver)
    run.it.nonnull.add("ctor:gradient_tol")
    d = {k: run.src(k, T.atom(k, (nA,))) for k in ("y", "w", "off")}
    d["X"] = run.src("X", x_tv())
    run.set("alpha" if cls == CLASSES[0] else "alphas", run.src("alpha", T.scalar(ALPHA)))
    run.set("l1_ratio", run.src("l1_ratio", T.scalar(L1)))
    if "monotonic" in solver or "trust" in solver:
        run.set("A_ineq", run.src("A_ineq", T.atom("Au", (("q",), PX))))
        run.set("b_ineq", run.src("b_ineq", T.atom("bu", (("q",),))))
    run.it.nonnull.add("SOLUTION")
    run.run(X=d["X"], y=d["y"], sample_weight=d["w"], offset=d["off"], store_covariance_matrix=FALSE)
    w = where(prog, run, "fit")
    tag = f"{cls}.fit({solver}, {family}-{link})"
    for f, bound, heap in run.calls:
        p = problem(f, bound, heap)
        src = lambda k: N("src", "ctor:" + k)
        quadratic = family == "normal" and link == "identity" and "monotonic" not in solver
        want = {}
        if "irls" in solver:
            want = {"max_iter": src("max_iter"), "max_inner_iter": src("max_inner_iter"),
                    "gradient_tol": src("gradient_tol"), "step_size_tol": src("step_size_tol"), "hessian_approx": src("hessian_approx"),
                    "selection": src("selection"), "random_state": src("random_state")}
            if cls != CLASSES[0]:
                want.pop("max_inner_iter")
        elif solver == "lbfgs":
            want = {"max_iter": src("max_iter"), "tol": src("gradient_tol")}
        elif solver == "trust-constr":
            want = {"max_iter": src("max_iter"), "gtol": src("gradient_tol")}
        for k, e in want.items():
            v = p["opts"].get(k)
            if v is None:
                unresolved(chk, "B9", f"{tag}: {k}", f"{f} has no parameter {k}")
                continue
            try:
                ok = carries(FitTen(Decide({}), run), v, e)
                if k == "max_iter" and quadratic and "cd" not in solver and not ok:  # one step without an active set suffices
                    ok = carries(FitTen(Decide({}), run), v, const(1)) or ok
            except (Irregular, Split) as ex:
                ok = None
            if ok is None:
                unresolved(chk, "B9", f"{tag}: {k}", show(v, 4))
            else:
                chk.test(ok, "B9", f"{tag}: {k}", w, f"{f} receives {show(v, 4)} instead of {show(e, 2)}")
        inner = bound.get("inner_solver")
        if inner is not None:
            names = set(reach_names(inner, {**run.it.st0.frames, **run.st.frames}))
            other = {"irls-cd": "_least_squares_solver", "irls-ls": "_cd_solver"}.get(solver)
            good = {"irls-cd": "_cd_solver", "irls-ls": "_least_squares_solver"}.get(solver)
            if good in names or other in names:
                chk.test(good in names, "B9", f"{tag}: inner solver", w, f"uses {other}")


def reach_names(n, frames, seen=None, d=0):
    """names of the functions a function value refers to, through the variables it closes over"""
    seen = set() if seen is None else seen
    if not isinstance(n, N) or n.id in seen or d > 6:
        return
    seen.add(n.id)
    if n.op in ("func", "closure"):
        p = n.payload
        if isinstance(p, tuple):
            yield str(p[1] if len(p) > 1 else p[0]).split(".")[-1]
            for fid in p[2] if len(p) > 2 else ():
                for v in frames.get(fid, {}).values():
                    yield from reach_names(v, frames, seen, d + 1)
        else:
            yield str(p).split(".")[-1]
    for a in n.args:
        yield from reach_names(a, frames, seen, d + 1)


# ------------------------------------------------------------------ covariance matrix stored by fit
def stored_covariance(prog, chk, cls, intercept, scale):
    run = FitRun(prog, cls, params={"scale_predictors": const(scale)}, solver="irls-ls", intercept=intercept)
    d = {k: run.src(k, T.atom(k, (nA,))) for k in ("y", "w", "off")}
    d["X"] = run.src("X", x_tv())
    run.set("alpha" if cls == CLASSES[0] else "alphas", run.src("alpha", T.scalar(ALPHA)))
    run.set("l1_ratio", run.src("l1_ratio", T.scalar(L1)))
    run.it.nonnull.add("SOLUTION")
    clusters = N("src", "clusters")
    got = []

    def stub(it, bound, st, site):
        got.append((dict(bound), st.heap[run.oid].get("coef_", ABSENT), st.heap[run.oid].get("intercept_", ABSENT)))
        return N("src", "VCOV")

    run.it.stub[run.cls.lookup("covariance_matrix").qual] = stub
    run.run(X=d["X"], y=d["y"], sample_weight=d["w"], offset=d["off"], store_covariance_matrix=TRUE, clusters=clusters)
    w = where(prog, run, "fit")
    tag = f"{cls}.fit(store_covariance_matrix, intercept={intercept}, scale={scale})"
    if not got:
        chk.bad("B10", tag, w, "covariance_matrix is not called")
        return
    b, c0, i0 = got[-1]
    ten = lambda dd: FitTen(dd, run)
    eq = lambda what, node, want: decide_equal(chk, "B10", f"{tag}: {what}", w, lambda dd: ten(dd).t(node), lambda dd: want) \
        if node is not None else unresolved(chk, "B10", f"{tag}: {what}", "no such argument")
    eq("design matrix", b.get("X"), x_tv())
    eq("response", b.get("y"), T.atom("y", (nA,)))
    eq("sample weights", b.get("sample_weight"), T.atom("w", (nA,)))
    eq("offset", b.get("offset"), T.atom("off", (nA,)))
    chk.test(c0.vn == run.attr("coef_").vn and i0.vn == run.attr("intercept_").vn, "B10", f"{tag}: at the final coefficients", w,
             "coefficients are changed after the covariance matrix was computed")
    for k, want in (("clusters", clusters), ("robust", N("src", "ctor:robust")), ("expected_information", N("src", "ctor:expected_information"))):
        v = b.get(k)
        ok = None if v is None else carries(ten(Decide({})), v, want)
        if ok is None and v is not None and v.op == "const" and v.payload is None and k != "clusters":
            ok = True  # covariance_matrix reads the hyperparameter itself (P06)
        if ok is None:
            unresolved(chk, "B10", f"{tag}: {k}", "no such argument" if v is None else show(v, 4))
        else:
            chk.test(ok, "B10", f"{tag}: {k}", w, f"covariance_matrix receives {show(v, 4)}")


# ------------------------------------------------------------------ start values
def start_case(prog, chk, intercept, scale, how):
    """the solver starts at the linear predictor of the given (or previous) coefficients"""
    run = FitRun(prog, params={"scale_predictors": const(scale), "warm_start": const(how == "warm")}, solver="irls-ls", intercept=intercept)
    d = {k: run.src(k, T.atom(k, (nA,))) for k in ("y", "w", "off")}
    d["X"] = run.src("X", x_tv())
    run.set("alpha", run.src("alpha", T.scalar(ALPHA)))
    run.set("l1_ratio", run.src("l1_ratio", T.scalar(L1)))
    c0 = T.atom("st", (cols(intercept),))
    i = int(intercept)
    if how == "warm":
        run.set("coef_", run.src("coef_", T.take(c0, 0, [i, i + 1], False)))
        run.set("intercept_", run.src("intercept_", T.scalar(c0.data[(0,)] if intercept else 0)))
    else:
        run.set("start_params", run.src("start_params", c0))
    run.it.nonnull.add("SOLUTION")
    run.run(X=d["X"], y=d["y"], sample_weight=d["w"], offset=d["off"], store_covariance_matrix=FALSE)
    w = where(prog, run, "_get_start_coef")
    tag = f"start values({how}, intercept={intercept}, scale={scale})"
    if not run.calls:
        unresolved(chk, "B11", tag, "no solver call was recognised")
        return
    p = problem(*run.calls[-1])

    def lin(X, c):
        b = c.data[(0,)] if intercept else sp.Integer(0)
        return T.elementwise(lambda e: e + b, T.matmul(X, T.take(c, 0, [i, i + 1], False)))

    vary = lambda v: T.TV((nA,), {k: constant_free(x) for k, x in v.data.items()})
    decide_equal(chk, "B11", tag, w, lambda dd: vary(lin(FitTen(dd, run).t(p["X"]), FitTen(dd, run).t(p["coef"]))),
                 lambda dd: vary(lin(x_tv(), c0)))


def constant_free(e):
    """drops the contributions of constant columns: their start values have no effect once the columns are centred"""
    e = sp.expand(e)
    return sum(t for t in sp.Add.make_args(e) if not t.has(sp.Function("m_1")) and "d_z" not in str(t))


def fit_cases(tier):
    out = []
    for intercept in (True, False):
        for scale in (False, True) if intercept else (False,):
            for p2 in ("identity", "vector", "matrix", "sparse", "none"):
                for p1 in (("identity", "array", "none") if p2 in ("identity", "matrix") else ("identity",)):
                    out.append(("irls-cd", "gamma", "log", intercept, scale, p1, p2, "bounds" if p1 != "none" else ""))
                out.append(("irls-ls", "gamma", "log", intercept, scale, "identity", p2, ""))
                out.append(("closed-form", "normal", "identity", intercept, scale, "identity", p2, ""))
                out.append(("lbfgs", "gamma", "log", intercept, scale, "identity", p2, ""))
                out.append(("trust-constr", "gamma", "log", intercept, scale, "identity", p2, "ineq"))
                out.append(("irls-ls-monotonic", "gamma", "log", intercept, scale, "identity", p2, "ineq"))
    out += [c + (True,) for c in out if c[0] in ("irls-cd", "irls-ls") and c[6] in ("identity", "matrix")]
    return out


def check_fit(prog, chk, tier):
    chk.rules = ["B0 the solver is reached", "B1 linear predictor", "B2 data", "B3 L2", "B4 L1", "B5 bounds", "B6 inequality constraints",
                 "B7 family, link, intercept", "B8 coef_ is the end of the path"]
    split(chk, fit_cases(tier), lambda c, k: fit_case(prog, k, *c))
    for r, n in (("B0", 60), ("B1", 60), ("B2", 200), ("B3", 100), ("B4", 40), ("B5", 40), ("B6", 20), ("B7", 150), ("B8", 16)):
        chk.need(r, n)


def check_settings(prog, chk, tier):
    chk.rules = ["B9 hyperparameters reach the solver", "B10 arguments of the stored covariance matrix", "B11 start values"]
    jobs = []
    for cls in CLASSES:
        for sv in ("irls-cd", "irls-ls", "irls-ls-monotonic", "lbfgs", "trust-constr"):
            jobs.append(lambda k, c=(cls, sv, "gamma", "log"): settings_case(prog, k, *c))
        for sv in ("irls-cd", "irls-ls"):
            jobs.append(lambda k, c=(cls, sv, "normal", "identity"): settings_case(prog, k, *c))
        for sv in ("irls-ls", "irls-ls-monotonic"):
            jobs.append(lambda k, c=(cls, sv, "normal", "log"): settings_case(prog, k, *c))
        jobs.append(lambda k, c=(cls, "irls-ls-monotonic", "normal", "identity"): settings_case(prog, k, *c))
    for i, sc in ((True, False), (True, True), (False, False)):
        for cls in CLASSES:
            jobs.append(lambda k, c=(cls, i, sc): stored_covariance(prog, k, *c))
        for how in ("given", "warm"):
            jobs.append(lambda k, c=(i, sc, how): start_case(prog, k, *c))
    split(chk, jobs, lambda j, k: j(k))
    for r, n in (("B9", 30), ("B10", 10), ("B11", 4)):
        chk.need(r, n)
