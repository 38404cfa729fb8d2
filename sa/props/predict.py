"""Predictions, scores and information criteria of a fitted model."""
from __future__ import annotations

from .. import tensor as T
from ..algebra import sp
from ..nodes import ABSENT, FALSE, NONE, TRUE, N, const, show
from ..parallel import split
from ..symexec import Decide, Irregular, Split
from .inference import decide_equal, unresolved
from .postfit import Fitted, Named, eta_tv, hook_default, kind_test, nA, pA, where

aA = ("a",)
CLASSES = ("GeneralizedLinearRegressor", "GeneralizedLinearRegressorCV")


class Ten(Named):
    pass


def path_hook(alphas, value_of):
    """argmin(|alphas - a|) is the position IDX_a_<a> of the alpha closest to a"""
    def hook(t, n):
        if n.op == "call" and n.payload[0] in ("numpy.argmin", "numpy.nanargmin") or n.op == "mcall" and n.payload[0] == "argmin":
            d = t.t(n.args[0])
            for name, val in value_of.items():
                want = T.elementwise(lambda x: sp.Abs(x - val), alphas)
                if T.equal(d, want) is None:
                    return T.scalar(sp.Symbol(f"IDX_a_{name}"))
            return None
        if n.op == "call" and n.payload[0] in ("builtins.int", "operator.index"):
            return t.t(n.args[0])
        return hook_default(t, n)
    return hook


def linpred_cases():
    for cls in CLASSES:
        for intercept in (True, False):
            for offset in (True, False):
                for mode in ("last", "one", "first", "many", "near", "nears"):
                    yield cls, intercept, offset, mode


def session(prog, cls, intercept, path, offset=None):
    search = cls == CLASSES[0] and path is not None
    s = Fitted(prog, intercept, cls=cls, params={"alpha_search": const(search)} if cls == CLASSES[0] else {})
    if path is not None:
        ax, coefs, b0 = path
        for c, i in (("coef_path_", "intercept_path_"), ("_refit_coef_path", "_refit_intercept_path")):
            other = cls == CLASSES[0] and c.startswith("_refit") or cls != CLASSES[0] and c == "coef_path_"
            if other:  # the cross-validation paths are per fold and must not be used
                s.set(c, s.src(c, T.atom("FOLD" + c, (aA, pA))))
                s.set(i, s.src(i, T.atom("FOLD" + i, (aA,))))
            else:
                s.set(c, s.src(c, coefs))
                s.set(i, s.src(i, b0))
    return s


def paths(mode, intercept):
    if mode in ("one", "first", "many"):
        ax = ("1",) * 3
        coefs = T.TV((ax, pA), {(j, 0): sp.Function(f"cp{j}")(T.ix(1)) for j in range(3)})
        b0 = T.TV((ax,), {(j,): sp.Symbol(f"bp{j}") if intercept else sp.Integer(0) for j in range(3)})
    else:
        ax = aA
        coefs = T.atom("cp", (aA, pA))
        b0 = T.atom("bp", (aA,)) if intercept else T.fill((aA,), sp.Integer(0))
    return ax, coefs, b0


def expected_eta(intercept, offset, mode, path):
    if mode == "last":
        return eta_tv(intercept, offset)
    ax, coefs, b0 = path
    sel = {"one": [1], "first": [0], "many": [2, 0], "near": ["q0"], "nears": ["q1", "q0"]}[mode]
    cols = []
    for k in sel:
        if isinstance(k, int):
            c, b = T.take(coefs, 0, [k], True), T.take(b0, 0, [k], True)
        else:
            sy = sp.Symbol("IDX_a_" + k)
            at = lambda v: T.TV(v.axes, {kk: e.xreplace({T.ix(0): sy}) for kk, e in v.data.items()})
            c, b = T.take(at(coefs), 0, [0], True), T.take(at(b0), 0, [0], True)
        e = T.matmul(T.atom("X", (nA, pA)), c)
        e = T.elementwise(lambda x, y: x + y, e, b)
        if offset:
            e = T.elementwise(lambda x, y: x + y, e, T.atom("off", (nA,)))
        cols.append(e)
    if mode in ("one", "first", "near"):
        return cols[0]
    return T.concat([T.add_axis(c, 1) for c in cols], 1)


def request(s, mode):
    """the alpha / alpha_index arguments of a mode"""
    q0, q1 = (s.src(f"alpha:{k}", T.scalar(sp.Symbol(f"q{k}"))) for k in (0, 1))
    for q in (q0, q1):
        s.it.scalars.add(q.vn)
    return {"last": {}, "one": dict(alpha_index=const(1)), "first": dict(alpha_index=const(0)),
            "many": dict(alpha_index=N("list", None, (const(2), const(0)))),
            "near": dict(alpha=q0), "nears": dict(alpha=N("list", None, (q1, q0)))}[mode]


def linear_predictor(prog, chk, cls, intercept, offset, mode, method, weights=False):
    path = None if mode == "last" else paths(mode, intercept)
    s = session(prog, cls, intercept, path)
    alphas = T.atom("alphas", (aA,))
    s.set("_alphas", s.src("_alphas", alphas))
    d = s.data()
    kw = dict(X=d["X"], offset=d["off"] if offset else NONE, alpha_index=NONE, alpha=NONE, context=NONE)
    kw.update(request(s, mode))
    if method == "predict":
        kw["sample_weight"] = d["w"] if weights else NONE
    r, ev = s.call(method, "", **kw)
    tag = f"{cls}.{method}({mode}, intercept={intercept}, offset={offset}" + (f", weights={weights})" if method == "predict" else ")")
    w = where(prog, s, method)
    if s.st.dead:
        chk.bad("M1" if method == "linear_predictor" else "M2", tag, w, "the request is refused on every path")
        return
    hook = path_hook(alphas, {"q0": sp.Symbol("q0"), "q1": sp.Symbol("q1")})
    ten = lambda dd: Ten(dd, s.env, None, hook)
    eta = expected_eta(intercept, offset, mode, path)
    if method == "linear_predictor":
        decide_equal(chk, "M1", tag, w, lambda dd: ten(dd).t(r), lambda dd: eta)
    else:
        mu = T.elementwise(sp.exp, eta)
        if weights:
            wt = T.atom("w", (nA,))
            if len(mu.axes) == 2:
                wt = T.add_axis(wt, 1)
            mu = T.elementwise(lambda a, b: a * b, mu, wt)
        decide_equal(chk, "M2", tag, w, lambda dd: ten(dd).t(r), lambda dd: mu)


def gamma_kernels(t, n):
    """the two gamma totals as sums over observations (P02 and P04 relate the compiled kernels to these forms)"""
    if n.op != "kcall":
        return None
    name = n.payload[0].split(".")[-1]
    if name not in ("gamma_deviance", "gamma_log_likelihood"):
        return None
    y, w, mu = (t.t(x) for x in n.args[:3])
    if name == "gamma_deviance":
        f = lambda y, w, m: 2 * w * (sp.log(m) - sp.log(y) + y / m - 1)
    else:
        f = lambda y, w, m: w * sp.Function("ell")(y, m)
    return T.scalar(T.clean(T.reduce_all(T.elementwise(f, y, w, mu))))


def total(y, mu, w):
    return T.clean(T.reduce_all(T.elementwise(lambda y, w, m: 2 * w * (sp.log(m) - sp.log(y) + y / m - 1), y, w, mu)))


def score_hook(t, n):
    r = gamma_kernels(t, n)
    return r if r is not None else hook_default(t, n)


def scores(prog, chk, cls, intercept, offset, weights):
    s = session(prog, cls, intercept, None)
    d = s.data()
    r, ev = s.call("score", "", X=d["X"], y=d["y"], sample_weight=d["w"] if weights else NONE,
                   offset=d["off"] if offset else NONE, context=NONE)
    tag = f"{cls}.score(intercept={intercept}, offset={offset}, weights={weights})"
    w = where(prog, s, "score")
    if s.st.dead:
        chk.bad("M3", tag, w, "the call always raises")
        return
    y = T.atom("y", (nA,))
    wt = T.atom("w", (nA,)) if weights else T.fill((nA,), sp.Integer(1))
    mu = T.elementwise(sp.exp, eta_tv(intercept, offset))
    ybar = T.reduce_all(T.elementwise(lambda a, b: a * b, y, wt)) / T.reduce_all(wt)
    null = T.elementwise(lambda a: ybar + 0 * a, y)
    decide_equal(chk, "M3", tag, w, lambda dd: Ten(dd, s.env, None, score_hook).t(r),
                 lambda dd: T.scalar(1 - total(y, mu, wt) / total(y, null, wt)))


def check_predictions(prog, chk, tier):
    chk.rules = ["M1 linear_predictor = X coef + intercept + offset, for the requested entry of the path",
                 "M2 predict = inverse link of it, times the weights", "M3 score = 1 - D(y, mu)/D(y, weighted mean)"]
    jobs = []
    for c in linpred_cases():
        jobs.append(lambda k, c=c: linear_predictor(prog, k, *c, "linear_predictor"))
        for wt in (False, True):
            jobs.append(lambda k, c=c, wt=wt: linear_predictor(prog, k, *c, "predict", wt))
    for cls in CLASSES:
        for i in (True, False):
            for o in (True, False):
                for wt in (True, False):
                    jobs.append(lambda k, c=(cls, i, o, wt): scores(prog, k, *c))
    split(chk, jobs, lambda j, c: j(c))
    for cls in CLASSES:
        for m in ("linear_predictor", "_compute_linear_predictor", "predict", "score", "_find_alpha_index", "_resolve_alpha_index"):
            f = prog.cls(cls).lookup(m)
            if f:
                chk.functions.add(f.qual)
    chk.need("M1", 40)
    chk.need("M2", 40)
    chk.need("M3", 8)


# ------------------------------------------------------------------ information criteria
ICS = ("aic", "aicc", "bic")


def ic_values(k, n, ll):
    aic = -2 * ll + 2 * k
    return {"aic": aic, "bic": -2 * ll + sp.log(n) * k, "aicc": aic + 2 * k * (k + 1) / (n - k - 1)}


def ic_hook(t, n):
    r = score_hook(t, n)
    if r is not None:
        return r
    return None


def counts(intercept):
    """accepted counts of non-zero coefficients"""
    c = T.atom("coef", (pA,))
    gt, eq = sp.Function("GT"), sp.Function("EQ")
    e = sp.Symbol("EPS")
    forms = [lambda x: gt(sp.Abs(x), e), lambda x: 1 - eq(*sorted((x, sp.Integer(0)), key=str)), lambda x: gt(sp.Abs(x), 0),
             lambda x: 1 - gt(e, sp.Abs(x)), lambda x: 1 - eq(*sorted((sp.Abs(x), sp.Integer(0)), key=str))]
    return [T.reduce_all(T.elementwise(f, c)) + int(intercept) for f in forms]


def criteria(prog, chk, intercept, weights, search):
    for which in ICS:
        s = Fitted(prog, intercept, params={"alpha_search": const(search)})
        d = s.data()
        nobs = s.src("_num_obs", T.scalar(T.size_sym("n")))
        s.set("_num_obs", nobs)
        s.set("_alphas", s.src("_alphas", T.atom("alphas", (aA,))) if search else ABSENT)
        r, ev = s.call(which, "", X=d["X"], y=d["y"], sample_weight=d["w"] if weights else NONE, context=NONE)
        tag = f"{which}(intercept={intercept}, weights={weights}, alpha_search={search})"
        w = where(prog, s, which)
        if s.st.dead:
            chk.bad("K1", tag, w, "the call always raises")
            continue
        y = T.atom("y", (nA,))
        wt = T.atom("w", (nA,)) if weights else T.fill((nA,), sp.Integer(1))
        mu = T.elementwise(sp.exp, eta_tv(intercept, False))
        ll = T.clean(T.reduce_all(T.elementwise(lambda y, w, m: w * sp.Function("ell")(y, m), y, wt, mu)))
        n = T.size_sym("n")

        def want(dd, got):
            best = None
            for k in counts(intercept):
                v = T.scalar(ic_values(k, n, ll)[which])
                if T.equal(got, v) is None:
                    return got
                best = best or v
            return best

        box = {}

        def build(dd):
            box["v"] = Ten(dd, s.env, None, ic_hook).t(r)
            return box["v"]

        decide_equal(chk, "K1", tag, w, build, lambda dd: want(dd, box["v"]))


def guards(prog, chk):
    """other data than the training data are refused; too many parameters are refused by aicc"""
    for which in ICS:
        s = Fitted(prog, True)
        d = s.data()
        s.set("_num_obs", s.src("_num_obs", T.scalar(sp.Symbol("OTHER"))))
        r, ev = s.call(which, "", X=d["X"], y=d["y"], sample_weight=NONE, context=NONE)
        g = [e for e in ev if e.kind == "raise" and any(mentions(c, "_num_obs") for c, _ in e.guards)]
        for here, there in ((5, 7), (7, 5), (1000, 999)):
            hit = any(feasible(e.guards, s, {T.size_sym("n"): here, sp.Symbol("OTHER"): there}) for e in g)
            chk.test(hit, "K2", f"{which}: {'more' if here > there else 'fewer'} observations than in training ({here}, {there})",
                     where(prog, s, which), "no path compares the number of rows with that of the training data and raises")


class Numbers(Decide):
    """decides comparisons by substituting numbers for sizes"""

    def __init__(self, sub):
        super().__init__({})
        self.sub = sub

    def rel(self, op, a, b):
        return super().rel(op, sp.sympify(a).xreplace(self.sub), sp.sympify(b).xreplace(self.sub))


def feasible(guards, s, sub):
    """no guard is known to be false"""
    for c, pol in guards:
        try:
            if Ten(Numbers(sub), s.env, None, ic_hook).cond(c) is not pol:
                return False
        except (Split, Irregular):
            continue
    return True


def mentions(n, name, d=0, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(n, N) or n.id in seen:
        return False
    seen.add(n.id)
    if n.op == "src" and n.payload == name:
        return True
    return any(mentions(a, name, d + 1, seen) for a in n.args) or (isinstance(n.meta, N) and mentions(n.meta, name, d + 1, seen))


def check_criteria(prog, chk, tier):
    chk.rules = ["K1 aic = -2 ll + 2k, bic = -2 ll + k log n, aicc = aic + 2k(k+1)/(n-k-1); k = nonzero coefficients + intercept",
                 "K2 data of another size are refused"]
    jobs = [lambda k, c=(i, w, a): criteria(prog, k, *c) for i in (True, False) for w in (True, False) for a in (True, False)]
    jobs.append(lambda k: guards(prog, k))
    split(chk, jobs, lambda j, c: j(c))
    chk.need("K1", 12)
    chk.need("K2", 3)
