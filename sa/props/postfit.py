"""Everything computed from a fitted model: covariance estimators, coefficient tables,
Wald tests, predictions, scores and information criteria."""
from __future__ import annotations

from .. import tensor as T
from ..algebra import sp
from ..driver import Session, obj_of
from ..nodes import ABSENT, N, const, show
from ..program import AnalysisError
from ..symexec import Decide
from .inference import PHI, decide_equal, design, unresolved

nA, pA = ("n",), ("p",)
Nn, Np = T.size_sym("n"), T.size_sym("p")


def is_frame_test(n):
    return n.op == "call" and n.payload[0].split(".")[-1] in ("is_into_dataframe", "is_into_series", "is_pandas_dataframe", "issparse",
                                                             "isspmatrix")


def hook_default(t, n):
    """conditions about container kinds: a plain float array / tabmat matrix"""
    if is_frame_test(n):
        return T.scalar(0)
    if n.op == "mcall" and n.payload[0] == "__call__" and n.args[0].op == "call" and n.args[0].payload[0] == "builtins.type" \
            and n.payload[1] >= 2:
        return t.t(n.args[1])  # rebuilding an array as its own type
    if n.op == "call" and n.payload[0] in ("sklearn.utils.check_array", "sklearn.utils.column_or_1d",
                                           "sklearn.utils.validation.column_or_1d", "sklearn.utils.as_float_array"):
        return t.t(n.args[0])
    if n.op == "kcall" and n.payload[0].split(".")[-1].endswith(("_deviance", "_log_likelihood")):
        return T.scalar(sp.Symbol("KERNEL_" + n.payload[0].split(".")[-1]))  # a total over the data
    return None


SPECIAL_MATRICES = ("SplitMatrix", "CategoricalMatrix", "StandardizedMatrix")


def kind_test(n):
    """decide container tests for the representative input: one plain (tabmat) matrix or array"""
    if is_frame_test(n):
        return False
    if n.op == "call" and n.payload[0] == "builtins.isinstance" and len(n.args) == 2:
        c = n.args[1]
        cl = c.args if c.op in ("tuple", "list") else (c,)
        names = [str(x.payload).split(".")[-1] for x in cl]
        if all(x in SPECIAL_MATRICES for x in names):
            return False
        if any(x in ("DenseMatrix", "MatrixBase") for x in names):
            return True
    if n.op == "call" and n.payload[0] == "numpy.isscalar":
        return None
    return None


class Fitted(Session):
    """An estimator whose fitted attributes are symbolic."""

    def __init__(self, prog, intercept, family="GammaDistribution", link="LogLink", cls="GeneralizedLinearRegressor", params=None,
                 unset=("y_model_spec_", "X_model_spec_", "_categorical_levels_", "_feature_dtypes_", "_alphas", "alpha_",
                        "coef_path_", "intercept_path_", "_info_criteria"), attrs=None):
        pr = {"fit_intercept": const(intercept), "alpha": const(0.0), "alpha_search": const(False)}
        if cls != "GeneralizedLinearRegressor":
            pr.pop("alpha_search")
            pr.pop("alpha")
        pr.update(params or {})
        super().__init__(prog, cls, pr)
        self.intercept = intercept
        self.it.loose_arrays = True
        self.env = {}
        self.fam = obj_of(prog, self.st, family, "fam", self.it)
        self.link = obj_of(prog, self.st, link, "link", self.it)
        self.set("_family_instance", self.fam)
        self.set("_link_instance", self.link)
        self.set("coef_", self.src("coef_", T.atom("coef", (pA,))))
        self.set("intercept_", self.src("intercept_", T.scalar(sp.Symbol("b0"))) if intercept else self.zero())
        self.set("n_features_in_", self.src("n_features_in_", T.scalar(Np)))
        self.set("covariance_matrix_", const(None))
        for a in unset:
            self.st.heap[self.oid][a] = ABSENT
        for k, v in (attrs or {}).items():
            self.set(k, v)

    def zero(self):
        return const(0.0)

    def src(self, name, tv, nonnull=True):
        n = N("src", name)
        self.env[n.vn] = tv
        if nonnull:
            self.it.nonnull.add(name)
        if tv.axes:
            self.it.arrays.add(n.vn)
        return n

    def data(self):
        return {k: self.src(k, T.atom(k, (nA,) if k != "X" else (nA, pA))) for k in ("X", "y", "w", "off", "mu")}

    def meth(self, obj, name, *args, **kw):
        st = self.st.clone()
        f = self.it.getattr(obj, name, st, ("<entry>", 0))
        return self.it.apply(f, list(args), dict(kw), st, ("<entry>", 0))


def eta_tv(intercept, offset=True, X=None, coef=None):
    e = T.matmul(X or T.atom("X", (nA, pA)), coef or T.atom("coef", (pA,)))
    if intercept:
        e = T.elementwise(lambda x: x + sp.Symbol("b0"), e)
    if offset:
        e = T.elementwise(lambda x, y: x + y, e, T.atom("off", (nA,)))
    return e


class Named(T.Ten):
    """Ten that folds the model mean exp(eta) back into the array ``mu``."""

    def __init__(self, decide, env, mu_expr=None, hook=hook_default):
        super().__init__(decide, env, hook)
        self.mu_expr = mu_expr
        self.seen_mu = False

    def t(self, n):
        r = super().t(n)
        if self.mu_expr is not None and r.axes == (nA,):
            e = r.data[(0,)]
            if e.has(sp.exp) and e == self.mu_expr:
                self.seen_mu = True
                r = T.atom("mu", (nA,))
                self.cache[n.id] = r
        return r

    def cond(self, n):
        k = kind_test(n)
        if k is not None:
            return k
        return super().cond(n)


def where(prog, s, m):
    f = s.cls.lookup(m)
    return f"{prog.rel(f.module.path)}:{f.node.lineno}" if f else "?"


# ------------------------------------------------------------------ covariance
def mu_exp(intercept, offset):
    return T.clean(sp.exp(eta_tv(intercept, offset).data[(0,)]))


class Fold(Named):
    """additionally folds known scalars (the estimated dispersion) into symbols"""

    def __init__(self, decide, env, mu_expr=None, scalars=(), **kw):
        super().__init__(decide, env, mu_expr, **kw)
        self.scalars = scalars

    def t(self, n):
        r = super().t(n)
        if not r.axes and self.scalars:
            e = r.data[()]
            if e.has(T.SUM):
                for form, name in self.scalars:
                    if e == form or T.is_zero_t(e - form):
                        r = T.scalar(name)
                        self.cache[n.id] = r
                        break
        return r


def gamma_parts(intercept, w):
    """score and information of a gamma model with log link (non-canonical) in terms of mu"""
    J = design(intercept)
    y, mu = T.atom("y", (nA,)), T.atom("mu", (nA,))
    f = lambda g: T.elementwise(g, y, mu, w)
    fisher = f(lambda y, m, w: w / PHI + 0 * y * m)
    oim = f(lambda y, m, w: (1 + (y - m) * 2 / m - (y - m) / m) * w / PHI)
    sc = f(lambda y, m, w: (y - m) / m * w / PHI)
    quad = lambda W: T.matmul(T.transpose(J), T.elementwise(lambda p, q: p * q, T.add_axis(W, 1), J))
    return J, quad(fisher), quad(oim), T.elementwise(lambda p, q: p * q, T.add_axis(sc, 1), J)


def expected_vcov(intercept, mode, expected_info, w, nobs):
    J, fisher, oim, G = gamma_parts(intercept, w)
    p = Np + int(intercept)
    if mode == "plain":
        v = T.inverse(fisher)
        return T.elementwise(lambda x: x * nobs / (nobs - p), v)
    H = T.inverse(fisher if expected_info else oim)
    if mode == "robust":
        inner = T.matmul(T.transpose(G), G)
        corr = nobs / (nobs - p)
    else:
        Ng = T.size_sym("g")
        ind = T.TV((("g",), nA), {(0, 0): T.KD(T.ix(0), sp.Function("IDX_g_LABclusters")(T.ix(1)))})
        S = T.matmul(ind, G)
        inner = T.matmul(T.transpose(S), S)
        corr = Ng / (Ng - 1) * (nobs - 1) / (nobs - p)
    v = T.matmul(T.matmul(H, inner), H)
    return T.elementwise(lambda x: x * corr, v)


def covariance_cases(tier):
    out = []
    for intercept in (True, False):
        for mode in ("plain", "robust", "clustered"):
            for ei in ((False,) if mode == "plain" else (True, False)):
                for how in ("given", "estimated", "unweighted"):
                    for checks in (True, False):
                        out.append((intercept, mode, ei, how, checks))
    return out


def covariance_case(prog, chk, intercept, mode, ei, how, checks):
    """mode: robustness; how: whether mu, the dispersion and the weights are passed"""
    rob_param = mode == "robust"
    # robustness and the information matrix are taken from the argument or, when it is None, from the model
    via_attr = how == "estimated"
    s = Fitted(prog, intercept, params={"robust": const(rob_param if via_attr else not rob_param),
                                        "expected_information": const(ei if via_attr else not ei)})
    d = s.data()
    one = T.fill((nA,), sp.Integer(1))
    w = T.atom("w", (nA,))
    kw = dict(X=d["X"], y=d["y"], sample_weight=d["w"], offset=d["off"], mu=d["mu"], dispersion=s.src("phi", T.scalar(PHI)),
              robust=rob_param, clusters=None, expected_information=ei, store_covariance_matrix=False, skip_checks=not checks, context=None)
    if mode == "clustered":
        kw["clusters"] = s.src("clusters", T.atom("LABclusters", (nA,)))
        kw["robust"] = False if not via_attr else None
    if via_attr:
        kw.update(mu=None, dispersion=None, robust=None, expected_information=None)
    if how == "unweighted":
        if not checks:
            return
        kw.update(sample_weight=None, mu=None)
        w = one
    r, ev = s.call("covariance_matrix", "", **kw)
    nobs = T.reduce_all(w)
    mu, wt, y = T.atom("mu", (nA,)), w, T.atom("y", (nA,))
    pearson = T.reduce_all(T.elementwise(lambda y, m, q: q * (y - m) ** 2 / m ** 2, y, mu, wt)) / (nobs - Np - int(intercept))
    pearson = T.clean(pearson)
    expr = mu_exp(intercept, True) if kw["mu"] is None or is_none(kw["mu"]) else None
    folds = ((pearson, PHI),) if is_none(kw["dispersion"]) else ()
    tag = f"covariance({mode}, intercept={intercept}, expected={ei}, {how}, checks={checks})"
    decide_equal(chk, "C1", tag, where(prog, s, "covariance_matrix"),
                 lambda dd: Fold(dd, s.env, expr, folds).t(r),
                 lambda dd: expected_vcov(intercept, mode, ei, w, nobs))


def is_none(x):
    return x is None or (isinstance(x, N) and x.op == "const" and x.payload is None)


def forwarding(prog, chk):
    """std_errors, coef_table and wald_test pass every inference argument on to covariance_matrix"""
    names = ("X", "y", "sample_weight", "offset", "mu", "dispersion", "robust", "clusters", "expected_information")
    for m, extra in (("std_errors", {}), ("coef_table", {}), ("wald_test", {"R": 1}), ("wald_test", {"features": 1}),
                     ("wald_test", {"terms": 1}), ("wald_test", {"formula": 1})):
        for cls in ("GeneralizedLinearRegressor", "GeneralizedLinearRegressorCV"):
            s = Fitted(prog, True, cls=cls)
            got = {}

            def stub(it, bound, st, site):
                got.setdefault("b", []).append(dict(bound))
                return N("src", "VCOV")

            target = s.cls.lookup("covariance_matrix")
            s.it.stub[target.qual] = stub
            kw = {k: s.src("arg:" + k, T.scalar(sp.Symbol(k))) for k in names}
            for k in ("R", "features", "terms", "formula", "r"):
                if m == "wald_test":
                    kw[k] = const(None)
            for k in extra:
                kw[k] = s.src("arg:" + k, T.scalar(sp.Symbol(k))) if k != "features" and k != "terms" else N("list", None, (const("f1"),))
            if m == "std_errors":
                kw["store_covariance_matrix"] = const(False)
            s.set("feature_names_", N("list", None, (const("f1"), const("f2"))))
            s.set("term_names_", N("list", None, (const("f1"), const("f2"))))
            s.call(m, "", context=None, **kw)
            tag = f"{cls}.{m}({','.join(extra)})"
            w = where(prog, s, m)
            if not got.get("b"):
                chk.bad("C2", f"{tag} -> covariance_matrix", w, "covariance_matrix is not used")
                continue
            for b in got["b"]:
                for k in names:
                    v = b.get(k)
                    v = s.it.simp(v, s.st) if v is not None else None
                    chk.test(v is not None and v.vn == kw[k].vn, "C2", f"{tag} forwards {k}", w,
                             f"covariance_matrix receives {show(v, 4) if v is not None else 'nothing'}")


def small(s, k=3):
    """replace the coefficients by k explicit ones named f1.."""
    ax = (("1",) * k,)
    s.set("coef_", s.src("coef3", T.TV(ax, {(j,): sp.Symbol(f"c{j}") for j in range(k)})))
    nm = N("list", None, tuple(const(f"f{j + 1}") for j in range(k)))
    s.set("feature_names_", nm)
    s.set("term_names_", N("list", None, (const("t1"), const("t2"), const("t1"))))
    n = k + int(s.intercept)
    V = T.TV((("1",) * n,) * 2, {(i, j): sp.Symbol(f"V{min(i, j)}{max(i, j)}") for i in range(n) for j in range(n)})
    Vn = s.src("VCOV", V)
    target = s.cls.lookup("covariance_matrix")
    s.it.stub[target.qual] = lambda it, bound, st, site: Vn
    beta = [sp.Symbol("b0")] * int(s.intercept) + [sp.Symbol(f"c{j}") for j in range(k)]
    return V, beta


def coef_table(prog, chk):
    for intercept in (True, False):
        s = Fitted(prog, intercept)
        V, beta = small(s)
        cl = s.src("level", T.scalar(sp.Symbol("level", positive=True)))
        kw = {k: s.src("arg:" + k, T.scalar(sp.Symbol(k))) for k in ("X", "y")}
        r, ev = s.call("coef_table", "", confidence_level=cl, context=None, **kw)
        tab = find_table(r)
        w = where(prog, s, "coef_table")
        tag = f"coef_table(intercept={intercept})"
        if tab is None:
            unresolved(chk, "C3", tag, show(r, 3))
            continue
        se = [sp.sqrt(V.data[(i, i)]) for i in range(len(beta))]
        a = 1 - sp.Symbol("level", positive=True)
        ten = lambda d: T.Ten(d, s.env, hook_default)
        nq = T.Ten(None).stats("norm", "ppf", [T.scalar(1 - a / 2)], None).scalar
        cdf = sp.Function("cdf_norm")
        vec = lambda xs: T.TV((("1",) * len(xs),), {(i,): x for i, x in enumerate(xs)})
        want = {"coef": beta, "se": se, "t_value": [b / e for b, e in zip(beta, se)],
                "p_value": [2 * (1 - cdf(sp.Abs(b / e))) for b, e in zip(beta, se)],
                "ci_lower": [b - nq * e for b, e in zip(beta, se)], "ci_upper": [b + nq * e for b, e in zip(beta, se)]}
        for col, xs in want.items():
            if col not in tab:
                chk.bad("C3", f"{tag}[{col}]", w, "column missing")
                continue
            decide_equal(chk, "C3", f"{tag}[{col}]", w, lambda d, c=col: ten(d).t(tab[c]), lambda d, x=xs: vec(x))
        idx = table_index(r)
        want_names = ["intercept"] * int(intercept) + ["f1", "f2", "f3"]
        got = [x.payload for x in idx.args] if idx is not None and idx.op == "list" and all(x.op == "const" for x in idx.args) else None
        if got is not None:
            chk.test(got == want_names, "C3", f"{tag} row labels", w, f"labels {got}")


def find_table(r, d=0):
    if r.op == "call" and r.payload[0] == "pandas.DataFrame" and r.args and r.args[0].op == "dict":
        return dict(zip(r.args[0].payload, r.args[0].args))
    if r.op == "phi" and d < 5:
        for a in r.args:
            x = find_table(a, d + 1)
            if x is not None:
                return x
    return None


def table_index(r, d=0):
    if r.op == "call" and r.payload[0] == "pandas.DataFrame":
        npos, kws = r.payload[1:]
        kw = dict(zip(kws, r.args[npos:]))
        return kw.get("index", r.args[1] if npos > 1 else None)
    if r.op == "phi" and d < 5:
        for a in r.args:
            x = table_index(a, d + 1)
            if x is not None:
                return x
    return None


def wald_stat(R, V, beta, r):
    q = len(R)
    ax = (("1",) * q,)
    m = T.TV(ax + (("1",) * len(beta),), {(i, j): R[i][j] for i in range(q) for j in range(len(beta))})
    b = T.TV((("1",) * len(beta),), {(i,): x for i, x in enumerate(beta)})
    d = T.elementwise(lambda x, y: x - y, T.matmul(m, b), T.TV(ax, {(i,): x for i, x in enumerate(r)}))
    W = T.inverse(T.matmul(T.matmul(m, V), T.transpose(m)))
    return T.matmul(d, T.matmul(W, d))


def wald(prog, chk):
    for intercept in (True, False):
        o = int(intercept)
        e = lambda j, k: [1 if i == j else 0 for i in range(k)]
        k = 3 + o
        r0, r1 = sp.Symbol("r0"), sp.Symbol("r1")
        Rsym = [[sp.Symbol(f"R{i}{j}") for j in range(k)] for i in range(2)]
        cases_ = [("R,r", dict(R=Rsym, r=2), Rsym, [r0, r1]), ("R", dict(R=Rsym), Rsym, [0, 0]),
                  ("features,r", dict(features=("f3", "f1"), r=2), [e(2 + o, k), e(o, k)], [r0, r1]),
                  ("features", dict(features=("f3", "f1")), [e(2 + o, k), e(o, k)], [0, 0]),
                  ("feature", dict(features="f2"), [e(1 + o, k)], [0]),
                  ("terms,r", dict(terms=("t2", "t1"), r=2), [e(1 + o, k), e(o, k), e(2 + o, k)], [r0, r1, r1]),
                  ("terms", dict(terms=("t2", "t1")), [e(1 + o, k), e(o, k), e(2 + o, k)], [0, 0, 0]),
                  ("term", dict(terms="t1"), [e(o, k), e(2 + o, k)], [0, 0])]
        if intercept:
            cases_.append(("intercept", dict(features="intercept"), [e(0, k)], [0]))
        for name, kw, R, r in cases_:
            s = Fitted(prog, intercept)
            V, beta = small(s)
            a = {x: const(None) for x in ("R", "features", "terms", "formula", "r")}
            if "R" in kw:
                a["R"] = s.src("R", T.TV((("1", "1"), ("1",) * k), {(i, j): Rsym[i][j] for i in range(2) for j in range(k)}))
            for x in ("features", "terms"):
                if x in kw:
                    a[x] = const(kw[x]) if isinstance(kw[x], str) else N("list", None, tuple(const(v) for v in kw[x]))
            if "r" in kw:
                a["r"] = N("list", None, (s.src("r0", T.scalar(r0)), s.src("r1", T.scalar(r1))))
            xy = {q: s.src("arg:" + q, T.scalar(sp.Symbol(q))) for q in ("X", "y")}
            st = s.st
            res, ev = s.call("wald_test", "", context=None, **a, **xy)
            tag = f"wald_test({name}, intercept={intercept})"
            w = where(prog, s, "wald_test")
            if st.dead:
                chk.bad("C4", tag, w, "the call always raises")
                continue
            f = fields(res, ("test_statistic", "p_value", "df"), s)
            if f is None:
                unresolved(chk, "C4", tag, show(res, 3))
                continue
            stat = lambda d: wald_stat(R, V, beta, r)
            ten = lambda d: T.Ten(d, s.env, hook_default)
            sq = lambda d, n: ten(d).squeeze(ten(d).t(n))
            cdf = sp.Function("cdf_chi2")
            ok = decide_equal(chk, "C4", f"{tag} statistic", w, lambda d: sq(d, f[0]), stat)
            if ok:
                decide_equal(chk, "C4", f"{tag} p-value", w, lambda d: pv(ten(d).squeeze(ten(d).t(f[1])), stat(d), len(R)),
                             lambda d: T.scalar(0))
            decide_equal(chk, "C4", f"{tag} degrees of freedom", w, lambda d: sq(d, f[2]), lambda d: T.scalar(len(R)))


def pv(tv, stat, q):
    """p-value minus 1 - cdf_chi2(stat, q)"""
    cdf = sp.Function("cdf_chi2")
    e = tv.scalar
    for c in e.atoms(sp.core.function.AppliedUndef):
        if c.func == cdf and len(c.args) == 2:
            z = T.is_zero_t(c.args[0] - stat.scalar)
            e = e.xreplace({c: sp.Function("cdf_chi2")(sp.Symbol("STAT") if z else c.args[0], c.args[1])})
    return T.scalar(e - 1 + cdf(sp.Symbol("STAT"), sp.Integer(q)))


def fields(res, names, s):
    """components of a named tuple / tuple result"""
    if res.op in ("tuple", "list") and len(res.args) == len(names):
        return list(res.args)
    if res.op == "obj":
        out = [s.it.getattr(res, n, s.st.clone(), ("<entry>", 0)) for n in names]
        return out if all(x.op not in ("getattr", "absent") for x in out) else None
    if res.op == "call":
        npos, kws = res.payload[1:]
        kw = dict(zip(kws, res.args[npos:]))
        out = list(res.args[:npos]) + [kw.get(n) for n in names[npos:]]
        if all(x is not None for x in out):
            return out
    return None


def check_covariance(prog, chk, tier):
    chk.rules = ["C1 covariance = inv(fisher) N/(N-p) | H^-1 G'G H^-1 N/(N-p) | H^-1 S'S H^-1 M/(M-1) (N-1)/(N-p), N = sum of weights",
                 "C2 every inference argument reaches covariance_matrix unchanged",
                 "C3 coefficient table columns", "C4 Wald statistic (Rb-r)'(RVR')^-1(Rb-r), chi-square(Q) p-value"]
    from ..parallel import split

    jobs = [lambda c, x=x: covariance_case(prog, c, *x) for x in covariance_cases(tier)]
    jobs += [lambda c: forwarding(prog, c), lambda c: coef_table(prog, c), lambda c: wald(prog, c)]
    split(chk, jobs, lambda j, c: j(c))
    for m in ("covariance_matrix", "std_errors", "coef_table", "wald_test", "_wald_test_matrix"):
        f = prog.cls("GeneralizedLinearRegressor").lookup(m)
        if f:
            chk.functions.add(f.qual)
    chk.need("C1", 20)
    chk.need("C2", 40)
    chk.need("C3", 6)
    chk.need("C4", 12)
