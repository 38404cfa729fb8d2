"""The intercept-only start value and the automatic regularization path."""
from __future__ import annotations

from ..algebra import sp
from .. import tensor as T
from ..nodes import FALSE, NONE, TRUE, N, const, is_const, show
from ..parallel import split
from ..symexec import Irregular, Split
from .cv import Any, probe
from .families import Ctx, concrete, instances
from .fitting import ALPHA, CLASSES, L1, PX, FitRun, FitTen, cols, inverse_of, m_tv, penalty_args, s_tv, user_p1, x_tv
from .inference import decide_equal, unresolved
from .postfit import Fitted, Named, nA, where

GUESS = "guess_intercept"


class NullTen(Named):
    def __init__(self, decide, env, hook=None):
        super().__init__(decide, env, None, self.null_hook)

    def cond(self, n):
        if n.op == "call" and n.payload[0] == "numpy.isscalar":
            return not self.t(n.args[0]).axes
        if n.op == "call" and n.payload[0] in ("numpy.all", "numpy.any") or n.op == "mcall" and n.payload[0] in ("all", "any"):
            how = n.payload[0].split(".")[-1]
            vs = self.truths(n.args[0])
            if vs is not None:
                return all(vs) if how == "all" else any(vs)
        return super().cond(n)

    def truths(self, x):
        """truth per segment of a comparison with zero of entries whose sign is known"""
        op, flip = "!=", False
        while x.op in ("not",) or x.op == "un" and x.payload == "~":
            flip, x = not flip, x.args[0]
        a = x
        if x.op == "cmp" and is_const(x.args[1]) and x.args[1].payload == 0 and x.payload in ("==", "!=", ">", ">=", "<", "<="):
            op, a = x.payload, x.args[0]
        try:
            v = self.t(a)
        except Irregular:
            return None
        if len(v.axes) != 1:
            return None
        out = []
        for k in range(len(v.axes[0])):
            e = v.data[(k,)]
            sign = 0 if e == 0 else 1 if e.is_positive or isinstance(e, sp.Function) and e.func.__name__.startswith("P1u") else None
            if sign is None:
                return None
            r = {"==": sign == 0, "!=": sign != 0, ">": sign > 0, ">=": sign >= 0, "<": sign < 0, "<=": sign <= 0}[op]
            out.append(r != flip)
        return out

    def null_hook(self, t, n):
        if n.op == "index":
            m = n.args[1]
            if m.op == "index" and is_const(m.args[1], 0):  # np.nonzero(mask)[0]
                m = m.args[0]
            if m.op == "call" and m.payload[0] in ("numpy.flatnonzero", "numpy.nonzero", "numpy.where") and len(m.args) == 1:
                m = m.args[0]
            if m.op in ("cmp", "not", "un"):
                vs = t.truths(m)
                if vs is not None:
                    v = t.t(n.args[0])
                    if len(v.axes) == 1 and len(v.axes[0]) == len(vs):
                        return T.take(v, 0, [k for k, b in enumerate(vs) if b], False)
        how = None
        if n.op == "call":
            how = {"numpy.max": "LARGEST", "numpy.amax": "LARGEST", "builtins.max": "LARGEST", "numpy.min": "SMALLEST", "numpy.amin": "SMALLEST",
                   "builtins.min": "SMALLEST"}.get(n.payload[0])
        elif n.op == "mcall":
            how = {"max": "LARGEST", "min": "SMALLEST"}.get(n.payload[0])
        if how and len(n.args) == 1:
            v = t.t(n.args[0])
            if len(v.axes) == 1:
                return T.scalar(sp.Function(how)(*[sp.Function("over_" + s)(v.data[(k,)]) for k, s in enumerate(v.axes[0])]))
        if how and len(n.args) == 2 and n.op == "call" and n.payload[0].startswith("builtins."):
            vs = [t.t(a) for a in n.args]
            if all(not v.axes for v in vs):
                return T.scalar(sp.Function(how + "_OF")(*[v.data[()] for v in vs]))
        return None


# ------------------------------------------------------------------ start value of the intercept
POWERS = {"NormalDistribution": 0, "PoissonDistribution": 1, "GammaDistribution": 2, "InverseGaussianDistribution": 3}


def guess_case(prog, chk, cls, params, label, link, lparams, eta):
    c = Ctx(prog)
    c.it.loose_arrays = True
    fam = c.inst(cls.name, params, "fam")
    lk = c.inst(link.name, lparams, "link")
    env = {}

    def src(name, tv):
        n = c.src(name, None)
        c.env.pop(n.vn)
        env[n.vn] = tv
        return n

    y, w = src("y", T.atom("y", (nA,))), src("w", T.atom("w", (nA,)))
    e = src("eta", T.atom("eta", (nA,))) if eta else NONE
    for vn, sym in c.env.items():
        env[vn] = T.scalar(sym) if not isinstance(sym, T.TV) else sym
    f = next((m.functions[GUESS] for m in prog.modules.values() if GUESS in m.functions), None)
    tag = f"guess_intercept({cls.name}{label and '(' + label + ')'}, {link.name}, {'offset' if eta else 'no offset'})"
    if f is None:
        unresolved(chk, "A1", tag, "function not found")
        return
    names = f.params
    vals = dict(zip(names, (y, w, lk, fam, e)))
    r = c.it.call_func(f, [], vals, c.st, ("<entry>", 0))
    wh = f"{prog.rel(f.module.path)}:{f.node.lineno}"
    if c.st.dead:
        chk.bad("A1", tag, wh, "always raises")
        return
    yv, wv = T.atom("y", (nA,)), T.atom("w", (nA,))
    W = T.reduce_all(wv)
    one = lambda v: T.TV(v.axes, {k: T.clean(sp.sympify(x).xreplace({W: sp.Integer(1)})) for k, x in v.data.items()})  # weights sum to one
    avg = T.reduce_all(T.elementwise(lambda a, b: a * b, yv, wv))
    ev = T.atom("eta", (nA,))
    name = link.name
    if name == "IdentityLink":
        want = avg - (T.reduce_all(T.elementwise(lambda a, b: a * b, ev, wv)) if eta else 0)
        if eta and cls.name != "NormalDistribution":
            return
    elif name == "LogLink":
        p = POWERS.get(cls.name, next((v[0] if isinstance(v, tuple) else v for k, v in params.items() if k == "power"), None))
        if not eta:
            want = sp.log(avg)
        elif p is None:
            return
        else:
            num = T.reduce_all(T.elementwise(lambda a, b, e: a * b * sp.exp(e) ** (1 - p), wv, yv, ev))
            den = T.reduce_all(T.elementwise(lambda a, e: a * sp.exp(e) ** (2 - p), wv, ev))
            want = sp.log(num) - sp.log(den)
    elif eta:
        return
    else:
        want = None
    ten = lambda dd: NullTen(dd, env)
    if want is None:
        # the mean of a model without predictors is the average response
        q = link.lookup("link")
        g = c.it.call_func(q, [lk, src("avg", T.scalar(avg))], {}, c.st, ("<entry>", 0))
        decide_equal(chk, "A1", tag, wh, lambda dd: logs(one(ten(dd).t(r))), lambda dd: logs(one(ten(dd).t(g))))
    else:
        decide_equal(chk, "A1", tag, wh, lambda dd: logs(one(ten(dd).t(r))), lambda dd: logs(one(T.scalar(want))))


def logs(v):
    """differences of logarithms as the logarithm of a quotient"""
    return T.TV(v.axes, {k: sp.expand_log(x, force=True) for k, x in v.data.items()})


# ------------------------------------------------------------------ the grid
class PathRun(Fitted):
    def __init__(self, prog, cls, intercept, params):
        super().__init__(prog, intercept, cls=cls, params=params)
        self.null, self.guess = [], []
        for mod in prog.modules.values():
            for k in mod.classes.values():
                m = k.methods.get("_mu_deviance_derivative")
                if m is not None:
                    self.it.stub[m.qual] = self.derivative
            f = mod.functions.get(GUESS)
            if f is not None:
                self.it.stub[f.qual] = self.guessed

    def derivative(self, it, bound, st, site):
        self.null.append(dict(bound))
        return N("tuple", None, (N("src", "MU"), self.src("DEVDER", T.atom("dder", (cols(self.intercept),)))))

    def guessed(self, it, bound, st, site):
        self.guess.append(dict(bound))
        return self.src("b0", T.scalar(sp.Symbol("b0")))


def spread(r):
    """first and last value, and number, of a geometric sequence"""
    while r.op == "mcall" and r.payload[0] in T.TRANSPARENT_M or r.op == "refine" or r.op == "call" and r.payload[0] in T.TRANSPARENT:
        r = r.args[0]
    if r.op != "call":
        return None
    d, npos, kws = r.payload[:3]
    kw = dict(zip(kws, r.args[npos:]))
    g = lambda k, nm: r.args[k] if npos > k else kw.get(nm)
    short = d.split(".")[-1]
    end = g(4 if short == "geomspace" else 3, "endpoint")
    if end is not None and not is_const(end, True):
        return "endpoint"
    if short == "logspace":
        return g(0, "start"), g(1, "stop"), g(2, "num"), g(4, "base"), "log"
    if short == "geomspace":
        return g(0, "start"), g(1, "stop"), g(2, "num"), None, "lin"
    if short == "exp":
        r = r.args[0]
        while r.op == "mcall" and r.payload[0] in T.TRANSPARENT_M:
            r = r.args[0]
        if r.op == "call" and r.payload[0] == "numpy.linspace":
            _, npos, kws = r.payload[:3]
            kw = dict(zip(kws, r.args[npos:]))
            g = lambda k, nm: r.args[k] if npos > k else kw.get(nm)
            return g(0, "start"), g(1, "stop"), g(2, "num"), N("ext", "numpy.e"), "log"
    return None


def grid_case(prog, chk, cls, intercept, kind, offset, floor):
    """kind: some | all | none of the columns have an L1 penalty; floor: ratio | default | given"""
    params = {"min_alpha": NONE, "min_alpha_ratio": NONE}
    run = PathRun(prog, cls, intercept, params)
    syms = {}
    for k in {"ratio": ("min_alpha_ratio",), "given": ("min_alpha",), "both": ("min_alpha", "min_alpha_ratio"), "default": ()}[floor]:
        syms[k] = sp.Symbol(k, positive=True)
        run.set(k, run.src(k, T.scalar(syms[k])))
    run.set("n_alphas", run.src("n_alphas", T.scalar(sp.Symbol("n_alphas", positive=True, integer=True))))
    pf = sp.Function("P1u")(T.ix(0))
    data = {(0,): pf if kind != "none" else 0, (1,): sp.Function("P1uz")(T.ix(0)) if kind == "all" else 0}
    P1 = run.src("P1", T.TV((PX,), data))
    X, y, w = run.src("X", x_tv()), run.src("y", T.atom("y", (nA,))), run.src("w", T.atom("w", (nA,)))
    off = run.src("off", T.atom("off", (nA,))) if offset else NONE
    m = run.cls.lookup("_get_alpha_path")
    tag = f"{cls}: automatic path (intercept={intercept}, L1 on {kind} columns, {'offset' if offset else 'no offset'}, min_alpha {floor})"
    if m is None:
        unresolved(chk, "A2", tag, "_get_alpha_path not found")
        return
    wh = f"{prog.rel(m.module.path)}:{m.node.lineno}"
    r, ev = run.call("_get_alpha_path", "", P1_no_alpha=P1, X=X, y=y, w=w, offset=off)
    if run.st.dead:
        chk.bad("A2", tag, wh, "always raises")
        return
    ten = lambda dd: NullTen(dd, run.env)
    if len(run.null) != 1:
        unresolved(chk, "A2", tag, "gradient of the null model not recognised")
        return
    b = run.null[0]
    eq = lambda rule, what, build, want: decide_equal(chk, rule, f"{tag}: {what}", wh, build, want)
    icpt = (sp.Symbol("b0"),) if intercept else ()
    eq("A2", "gradient at zero coefficients", lambda dd: ten(dd).t(b["coef"]),
       lambda dd: T.TV((cols(intercept),), {(k,): icpt[0] if intercept and k == 0 else 0 for k in range(len(cols(intercept)))}))
    for k, want in (("X", X), ("y", y), ("sample_weight", w), ("offset", off)):
        if k in b:
            same(chk, tag, wh, f"{k} of the gradient", b[k], want)
    if intercept:
        if len(run.guess) != 1:
            unresolved(chk, "A2", f"{tag}: intercept of the null model", "not recognised")
        else:
            g = run.guess[0]
            for k, want in (("y", y), ("sample_weight", w), ("eta", off)):
                if k in g:
                    same(chk, tag, wh, f"{k} for the intercept", g[k], want)
                elif k == "eta" and offset:
                    chk.bad("A2", f"{tag}: {k} for the intercept", wh, "not passed on")
    sp_ = spread(r)
    if sp_ is None:
        unresolved(chk, "A3", tag, show(r, 3))
        return
    if sp_ == "endpoint":
        chk.bad("A3", tag, wh, "the last value is left out")
        return
    a, z, n, base, form = sp_
    if form == "log":
        if base is None or base.op == "const" and isinstance(base.payload, (int, float)) and abs(base.payload - 2.718281828459045) > 1e-9:
            bv = 10 if base is None else sp.nsimplify(base.payload)
        else:
            bv = sp.E
        val = lambda node: (lambda dd: T.scalar(sp.powdenest(sp.expand_log(bv ** ten(dd).num(node), force=True), force=True)))
    else:
        val = lambda node: (lambda dd: ten(dd).t(node))
    over = lambda f: sp.Function("LARGEST")(*[sp.Function("over_" + s)(f(k)) for k, s in f.keys])

    def grad(k):
        return sp.Abs(sp.Function(f"dder_{k + int(intercept)}")(T.ix(0))) / 2

    def largest(dd):
        if kind == "none":
            e = sp.Function("LARGEST")(*[sp.Function("over_" + s)(grad(k)) for k, s in enumerate(PX)]) / sp.Rational(1, 1000)
        else:
            e = sp.Function("LARGEST")(*[sp.Function("over_" + s)(grad(k) / data[(k,)]) for k, s in enumerate(PX) if data[(k,)] != 0])
        return sp.Integer(10) if dd.rel("==", e, 0) else e

    eq("A3", "largest alpha", val(a), lambda dd: T.scalar(largest(dd)))

    def smallest(dd):
        if "min_alpha" in syms:
            return syms["min_alpha"]
        if "min_alpha_ratio" in syms:
            return largest(dd) * syms["min_alpha_ratio"]
        big = dd.rel(">=", T.size_sym("n"), sum(T.size_sym(s) for s in PX))
        return largest(dd) * (sp.Rational(1, 10 ** 6) if big else sp.Rational(1, 100))

    eq("A3", "smallest alpha", val(z), lambda dd: T.scalar(smallest(dd)))
    eq("A3", "number of alphas", lambda dd: ten(dd).t(n), lambda dd: T.scalar(sp.Symbol("n_alphas", positive=True, integer=True)))


def same(chk, tag, wh, what, got, want):
    while got.op in ("refine",) or got.op == "mcall" and got.payload[0] in T.TRANSPARENT_M or got.op == "call" and got.payload[0] in T.TRANSPARENT and got.args:
        got = got.args[0]
    if got.vn == want.vn:
        chk.ok("A2", f"{tag}: {what}")
    elif got.op in ("const", "src"):
        chk.bad("A2", f"{tag}: {what}", wh, f"is {show(got, 3)}")
    else:
        unresolved(chk, "A2", f"{tag}: {what}", show(got, 3))


# ------------------------------------------------------------------ what the grid is computed from
def search_case(prog, chk, intercept, scale, p1):
    run = FitRun(prog, params={"scale_predictors": const(scale), "alpha_search": TRUE, "alpha": NONE}, solver="irls-cd", intercept=intercept)
    d = {k: run.src(k, T.atom(k, (nA,))) for k in ("y", "w", "off")}
    d["X"] = run.src("X", x_tv())
    run.set("l1_ratio", run.src("l1_ratio", T.scalar(L1)))
    penalty_args(run, p1, "identity")
    run.it.nonnull.add("SOLUTION")
    run.it.arrays.add(N("src", "SOLUTION").vn)
    got = []

    def stub(it, bound, st, site):
        got.append(dict(bound))
        return run.src("GRID", T.TV((("1",) * 3,), {(k,): sp.Symbol(f"alpha{k}") for k in range(3)}))

    q = run.cls.lookup("_get_alpha_path")
    tag = f"fit(alpha_search, intercept={intercept}, scale={scale}, P1={p1})"
    if q is None:
        unresolved(chk, "A4", tag, "_get_alpha_path not found")
        return
    run.it.stub[q.qual] = stub
    run.run(X=d["X"], y=d["y"], sample_weight=d["w"], offset=d["off"], store_covariance_matrix=FALSE)
    w = where(prog, run, "fit")
    if not got:
        chk.bad("A4", tag, w, "no automatic path is computed")
        return
    b = got[-1]
    ten = lambda dd: FitTen(dd, run)
    wv = T.atom("w", (nA,))
    eq = lambda what, k, want: decide_equal(chk, "A4", f"{tag}: {what}", w, lambda dd: ten(dd).t(b[k]), want) if k in b else None
    eq("L1 penalty", "P1_no_alpha", lambda dd: T.elementwise(lambda a, v: L1 * a * (1 if scale else v), user_p1(p1), inverse_of(s_tv())))
    eq("predictors", "X", lambda dd: T.elementwise(lambda x, m, v: (x - m if intercept else x) * v, x_tv(), m_tv(), inverse_of(s_tv())))
    eq("response", "y", lambda dd: T.atom("y", (nA,)))
    eq("weights", "w", lambda dd: T.elementwise(lambda x: x / T.reduce_all(wv), wv))
    eq("offset", "offset", lambda dd: T.atom("off", (nA,)))


def check_path(prog, chk, tier):
    chk.rules = ["A1 the intercept start value is the minimiser of the deviance of the model without predictors wherever a closed form exists",
                 "A2 the path starts from the gradient at zero coefficients and that intercept, offset included",
                 "A3 the largest alpha is max |gradient| / P1 over penalised columns, the others are spaced geometrically down to min_alpha or the ratio",
                 "A4 fit passes the standardized data and penalty of the fit"]
    jobs = []
    for cls in concrete(prog, "ExponentialDispersionModel"):
        for label, params in instances(prog, cls):
            for link in concrete(prog, "Link"):
                for ll, lp in instances(prog, link)[:1]:
                    for eta in (False, True):
                        jobs.append(("guess", cls, params, label, link, lp, eta))
    for cls in CLASSES:
        for intercept in (True, False):
            for kind in ("some", "all", "none"):
                for off in (True, False):
                    for floor in ("default", "ratio", "given", "both"):
                        jobs.append(("grid", cls, intercept, kind, off, floor))
    jobs += [("search", i, s, p) for i, s in ((True, False), (True, True), (False, False)) for p in ("identity", "array")]
    run = {"guess": guess_case, "grid": grid_case, "search": search_case}
    split(chk, jobs, lambda c, k: run[c[0]](prog, k, *c[1:]))
    for r, n in (("A1", 15), ("A2", 60), ("A3", 60), ("A4", 20)):
        chk.need(r, n)
