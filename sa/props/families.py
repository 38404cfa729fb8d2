"""P01-P05: formula identities of links and families.

The formulas are extracted from the value-flow graph of the Python methods and
from the Cython kernels they dispatch to, for every family x link x parameter
region, and identities between them are decided by exact normal form."""
from __future__ import annotations

from ..algebra import is_zero, sp
from ..driver import obj_of
from ..engine import Interp, State
from ..nodes import N, const, show
from ..program import AnalysisError
from ..symexec import K, Decide, Irregular, Region, Sym, cases

INF = float("inf")
y_pos = sp.Symbol("y", positive=True)
NROWS = sp.Symbol("NROWS_")
P = sp.Symbol("p", real=True)
THETA = sp.Symbol("theta", positive=True)
W = sp.Symbol("w", positive=True)
PHI = sp.Symbol("phi", positive=True)
DDOF = sp.Symbol("ddof", real=True)

# constructor-parameter regions: class -> list of (label, {param: const or ("range", symbol, lo, hi)})
PARAMS = {
    "TweedieLink": [("p=0", {"power": 0}), ("p=1", {"power": 1}),
                    ("1<p<2", {"power": (P, 1, 2)}), ("2<p", {"power": (P, 2, None)}),
                    ("p<0", {"power": (P, None, 0)}), ("p=2", {"power": 2})],
    "TweedieDistribution": [("p=0", {"power": 0}), ("p=1", {"power": 1}), ("p=2", {"power": 2}),
                            ("p=3", {"power": 3}), ("1<p<2", {"power": (P, 1, 2)}),
                            ("2<p<3", {"power": (P, 2, 3)}), ("3<p", {"power": (P, 3, None)}),
                            ("p<0", {"power": (P, None, 0)})],
    "NegativeBinomialDistribution": [("theta>0", {"theta": (THETA, 0, None)})],
}


class Ctx:
    """An abstract instance of a link or family inside one interpreter."""

    def __init__(self, prog, it=None, st=None):
        self.p = prog
        self.it = it or Interp(prog)
        self.st = st or State()
        self.env = {}
        self.intervals = {}

    def src(self, name, sym, array=True):
        n = N("src", name)
        self.env[n.vn] = sym
        if array:
            self.it.arrays.add(n.vn)
        self.it.nonnull.add(name)
        return n

    def inst(self, cls, params, tag):
        kw = {}
        for k, v in params.items():
            if isinstance(v, tuple):
                s, lo, hi = v
                n = N("src", f"{cls}:{k}")
                self.env[n.vn] = s
                self.it.nonnull.add(n.payload)
                self.it.ranges[n.vn] = (-INF if lo is None else lo, INF if hi is None else hi, False, False)
                self.intervals[s] = (lo, hi)
                kw[k] = n
            else:
                kw[k] = const(v)
        return obj_of(self.p, self.st, cls, tag, self.it, kw)

    def call(self, obj, method, args=(), kw=None):
        st = self.st.clone()
        ci = self.it.cls_of(obj.payload[0])
        m = ci.lookup(method)
        if m is None:
            raise AnalysisError(f"{ci.name}.{method} vanished")
        f = self.it.getattr(obj, method, st, ("<entry>", 0))
        n0 = len(self.it.events)
        r = self.it.apply(f, list(args), dict(kw or {}), st, ("<entry>", 0))
        self.last = self.it.events[n0:]
        self.dead = st.dead
        self.after = st
        return r

    def attr(self, obj, name):
        return self.it.getattr(obj, name, self.st.clone(), ("<entry>", 0))

    def sym(self, assumed, extra=None):
        env = dict(self.env)
        env.update(extra or {})
        return Sym(self.p, env, Decide(assumed), Region(self.intervals))


def concrete(prog, base):
    b = prog.cls(base)
    out = []
    for m in prog.modules.values():
        for c in m.classes.values():
            if c is not b and c.is_subclass(b) and not any(
                    getattr(getattr(d, "decorators", None), "x", None) for d in ()):
                out.append(c)
    return sorted(out, key=lambda c: c.name)


def instances(prog, cls):
    if cls.name in PARAMS:
        return PARAMS[cls.name]
    init = cls.lookup("__init__")
    if init is not None and len(init.params) - 1 - len(init.node.args.defaults) > 0:
        return []
    return [("", {})]


def prove(chk, rule, construct, where, build, params=(P,)):
    """build(assumed) -> expression(s) that must vanish in every case."""
    try:
        res = cases(build)
    except Irregular as e:
        if getattr(e, "violation", False) or "row" in e.why and ("visit" in e.why or "store" in e.why or "accumul" in e.why):
            chk.bad(rule, construct, e.where, e.why)
        else:
            chk.obligations += 1
            chk.count("unresolved")
            chk.notes.append(f"{construct}: {e}")
        return None
    for assumed, exprs in res:
        if exprs is None:
            continue
        for label, e in exprs:
            e = sp.sympify(e)
            z = is_zero(e, params)
            cond = ", ".join(f"{k[0]} {k[1]}={v}" if len(k) > 1 else str(k) for k, v in assumed.items())
            if not z:
                chk.bad(rule, f"{construct}: {label}", where,
                        f"residual {sp.simplify(e) if sp.count_ops(e) < 60 else e}" + (f" when {cond}" if cond else ""))
                return False
            chk.ok(rule, f"{construct}: {label}", cond)
    return True


def where_of(prog, cls, m):
    f = cls.lookup(m)
    return f"{prog.rel(f.module.path)}:{f.node.lineno} {f.qual}" if f else cls.name


# ------------------------------------------------------------------ links
def check_links(prog, chk, tier):
    chk.rules = ["L1 g(h(eta)) = eta (or h(g(mu)) = mu)", "L2 g'(mu) = d g/d mu",
                 "L3 h'(eta) = d h/d eta", "L4 h''(eta) = d^2 h/d eta^2"]
    n = 0
    for cls in concrete(prog, "Link"):
        if any(cls.lookup(m) is None for m in ("link", "derivative", "inverse", "inverse_derivative",
                                                "inverse_derivative2")):
            chk.bad("L0", cls.name, cls.module.path, "link operation missing")
            continue
        for label, params in instances(prog, cls):
            n += 1
            ident = link_identities(prog, cls, params)
            for rule, m, build in ident:
                prove(chk, rule, f"{cls.name}({label}).{m}", where_of(prog, cls, m), build)
            if cls.name != "TweedieLink" or params.get("power") in (0, 1):
                # negative linear predictors are in the domain of the inverse as well
                for rule, m, build in link_identities(prog, cls, params, sp.Symbol("x", negative=True)):
                    if m.startswith("inverse"):
                        prove(chk, rule, f"{cls.name}({label}).{m} eta<0", where_of(prog, cls, m), build)
            chk.functions.update(f"{cls.name}.{m}" for m in ("link", "derivative", "inverse", "inverse_derivative",
                                                             "inverse_derivative2"))
    chk.count("links", n)
    for r in ("L1", "L2", "L3", "L4"):
        chk.need(r, 6)


def link_funcs(prog, cls, params, x):
    """symbolic expressions of the five link operations as python callables."""
    c = Ctx(prog)
    o = c.inst(cls.name, params, "link")
    src = c.src("x", x)
    nodes = {m: c.call(o, m, [src]) for m in ("link", "derivative", "inverse", "inverse_derivative",
                                             "inverse_derivative2")}

    def f(m, assumed):
        return c.sym(assumed).s(nodes[m]), x

    return f


def link_identities(prog, cls, params, x=None):
    f = link_funcs(prog, cls, params, x if x is not None else sp.Symbol("x", positive=True))

    def L1(a):
        h, x = f("inverse", a)
        g, _ = f("link", a)
        return [("link(inverse(.)) is the identity", g.subs(x, h) - x)]

    def L1b(a):
        h, x = f("inverse", a)
        g, _ = f("link", a)
        return [("inverse(link(.)) is the identity", sp.powdenest(h.subs(x, g), force=True) - x)]

    def L2(a):
        g, x = f("link", a)
        return [("derivative of link", f("derivative", a)[0] - sp.diff(g, x))]

    def L3(a):
        h, x = f("inverse", a)
        return [("derivative of inverse", f("inverse_derivative", a)[0] - sp.diff(h, x))]

    def L4(a):
        h, x = f("inverse", a)
        return [("second derivative of inverse", f("inverse_derivative2", a)[0] - sp.diff(h, x, 2))]

    sym_p = any(isinstance(v, tuple) for v in params.values())
    return [("L1", "inverse", L1b if sym_p else L1), ("L2", "derivative", L2), ("L3", "inverse_derivative", L3),
            ("L4", "inverse_derivative2", L4)]


# --------------------------------------------------------------- families
def support(prog, c, fam):
    """[(label, y symbol/value, mu symbol)] regions of the response."""
    def b(name):
        n = c.attr(fam, name)
        n = c.it.simp(n, c.st)
        if n.op == "un" and n.payload == "-":
            import math
            return -INF
        if n.op == "const":
            return n.payload
        if n.op == "ext" and n.payload.endswith(".inf"):
            return INF
        if n.op == "getattr":
            return INF
        raise AnalysisError(f"{fam.payload[1]}.{name} is not constant: {show(n)}")

    return b("lower_bound"), b("upper_bound"), b("include_lower_bound"), b("include_upper_bound")


def regions(sup, power_neg=False):
    lo, hi, il, iu = sup
    out = []
    if lo == 0 and hi == 1:
        mu = sp.Symbol("mu", positive=True)
        out.append(("0<y<1", sp.Symbol("y", positive=True), mu))
        if il:
            out.append(("y=0", sp.Integer(0), mu))
        if iu:
            out.append(("y=1", sp.Integer(1), mu))
        return out
    if lo == 0:
        mu = sp.Symbol("mu", positive=True)
        out.append(("y>0", sp.Symbol("y", positive=True), mu))
        if il:
            out.append(("y=0", sp.Integer(0), mu))
        return out
    mu = sp.Symbol("mu", positive=True) if power_neg else sp.Symbol("mu", real=True)
    out.append(("y>0", sp.Symbol("y", positive=True), mu))
    out.append(("y<0", sp.Symbol("y", negative=True), mu))
    out.append(("y=0", sp.Integer(0), mu))
    return out


def poles(chk, tag, where, build, mu, y, sup):
    """D4: the unit deviance has no interior singularity (a branch of an inverse function would jump there)"""
    try:
        res = cases(build)
    except Irregular:
        return
    t, u = sp.Symbol("t_", positive=True), sp.Symbol("u_", positive=True)
    sub = {mu: t / (1 + t), y: u / (1 + u)} if sup[:2] == (0, 1) else {}
    for a, e in res:
        for q in sp.sympify(e).atoms(sp.Pow):
            b = q.base
            if not (q.exp.is_negative or q.exp.could_extract_minus_sign()) or not (b.free_symbols & {mu, y}):
                continue
            b = sp.factor(b.subs(sub)) if sub else b
            if b.is_zero is not False and sp.factor(b).is_zero is not False:
                chk.bad("D4", f"{tag}: pole", where, f"the denominator {q.base} can vanish inside the domain")
                return
    chk.ok("D4", f"{tag}: no interior poles")


def family_cases(prog):
    for cls in concrete(prog, "ExponentialDispersionModel"):
        for label, params in instances(prog, cls):
            yield cls, label, params


def norm_rows(e):
    return sp.sympify(e).subs(NROWS, K)


def check_families(prog, chk, tier):
    chk.rules = [
        "V1 d(unit variance)/d mu = declared derivative", "D1 d(unit deviance)/d mu = -2 (y-mu)/V(mu) = declared derivative",
        "D2 unit deviance vanishes at y = mu", "D4 unit deviance has no interior poles", "D3 deviance = sum_i w_i * unit deviance_i (w absent = 1)",
        "F1 Pearson dispersion = sum w (y-mu)^2/V / (sum w - ddof)", "F2 variance = phi V / w",
        "F3 deviance dispersion = deviance / (sum w - ddof)", "R1 support test agrees with the declared bounds"]
    for cls, label, params in family_cases(prog):
        for m in ("unit_variance", "unit_variance_derivative", "unit_deviance", "unit_deviance_derivative",
                  "deviance", "dispersion", "variance"):
            if cls.lookup(m):
                chk.functions.add(cls.lookup(m).qual)
        family_obligations(prog, chk, cls, label, params)
    chk.need("V1", 8)
    chk.need("D1", 12)
    chk.need("D3", 12)
    chk.need("F1", 12)


def family_obligations(prog, chk, cls, label, params):
    name = f"{cls.name}({label})"
    c0 = Ctx(prog)
    fam0 = c0.inst(cls.name, params, "fam")
    sup = support(prog, c0, fam0)
    neg = label == "p<0"
    for rlabel, ysym, mu in regions(sup, neg):
        c = Ctx(prog)
        fam = c.inst(cls.name, params, "fam")
        y, m, w = c.src("y", ysym), c.src("mu", mu), c.src("w", W)
        phi, ddof = c.src("phi", PHI, False), c.src("ddof", DDOF, False)
        V = c.call(fam, "unit_variance", [m])
        dV = c.call(fam, "unit_variance_derivative", [m])
        ud = c.call(fam, "unit_deviance", [y, m])
        dd = c.call(fam, "unit_deviance_derivative", [y, m])
        dev_w = c.call(fam, "deviance", [y, m], {"sample_weight": w})
        dev_n = c.call(fam, "deviance", [y, m], {"sample_weight": const(None)})
        devd = c.call(fam, "deviance_derivative", [y, m], {"sample_weight": w})
        var = c.call(fam, "variance", [m], {"dispersion": phi, "sample_weight": w})
        dvar = c.call(fam, "variance_derivative", [m], {"dispersion": phi, "sample_weight": w})
        disp = {}
        for meth in ("pearson", "deviance"):
            for wl, wn in (("weights", w), ("no weights", const(None))):
                disp[meth, wl] = c.call(fam, "dispersion", [y, m],
                                        {"sample_weight": wn, "ddof": ddof, "method": const(meth)})
        tag = f"{name} {rlabel}"
        wh = lambda meth: where_of(prog, cls, meth)
        if rlabel in ("y>0", "0<y<1"):
            prove(chk, "V1", tag, wh("unit_variance_derivative"), lambda a: [
                ("variance derivative", (lambda s: sp.diff(s.s(V), mu) - s.s(dV))(c.sym(a)))])
            prove(chk, "F2", tag, wh("variance"), lambda a: [
                ("variance", (lambda s: s.s(var) - PHI * s.s(V) / W)(c.sym(a))),
                ("variance derivative", (lambda s: s.s(dvar) - PHI * s.s(dV) / W)(c.sym(a)))])
        if rlabel == "y>0" or (rlabel in ("y=0", "y=1") and sup[1] == 1):
            # (Bernoulli quasi-deviance for fractional responses is not saturated, by design)
            prove(chk, "D2", tag, wh("unit_deviance"), lambda a: [
                ("zero at mu=y", c.sym(a).s(ud).subs(mu, ysym))])
        yv = ysym

        def D1(a):
            s = c.sym(a)
            v = s.s(V)
            return [("unit deviance slope", sp.diff(s.s(ud), mu) + 2 * (yv - mu) / v),
                    ("declared unit deviance derivative", s.s(dd) + 2 * (yv - mu) / v),
                    ("declared deviance derivative", s.s(devd) + 2 * W * (yv - mu) / v)]

        prove(chk, "D1", tag, wh("unit_deviance"), D1)
        if params or rlabel in ("y>0", "y<0", "0<y<1"):
            poles(chk, tag, wh("unit_deviance"), lambda a: c.sym(a).s(ud), mu, ysym, sup)

        def D3(a):
            s = c.sym(a)
            u = s.s(ud)
            return [("weighted deviance", norm_rows(s.s(dev_w)) - K * W * u),
                    ("unweighted deviance", norm_rows(s.s(dev_n)) - K * u)]

        prove(chk, "D3", tag, wh("deviance"), D3)

        def F1(a):
            s = c.sym(a)
            v = s.s(V)
            return [("Pearson dispersion", norm_rows(s.s(disp["pearson", "weights"]))
                     - K * W * (yv - mu) ** 2 / v / (K * W - DDOF)),
                    ("unweighted Pearson dispersion", norm_rows(s.s(disp["pearson", "no weights"]))
                     - K * (yv - mu) ** 2 / v / (K - DDOF))]

        prove(chk, "F1", tag, wh("dispersion"), F1)

        def F3(a):
            s = c.sym(a)
            u = s.s(ud)
            return [("deviance dispersion", norm_rows(s.s(disp["deviance", "weights"])) - K * W * u / (K * W - DDOF)),
                    ("unweighted deviance dispersion", norm_rows(s.s(disp["deviance", "no weights"])) - K * u / (K - DDOF))]

        prove(chk, "F3", tag, wh("dispersion"), F3)
        # R1: membership test at the region agrees with the declared bounds
        inr = c.call(fam, "in_y_range", [y])
        prove(chk, "R1", tag, wh("in_y_range"), lambda a: [
            ("support membership", 0 if c.sym(a).cond(inr) or (ysym.is_Symbol and sup[1] == 1) else 1)])


# ---------------------------------------------------------- fused kernels
def check_fused(prog, chk, tier):
    chk.rules = ["E1 eta_out = eta + factor*direction", "E2 mu_out = inverse link(eta_out)",
                 "E3 d(deviance)/d eta = -2 w (y-mu)/V(mu) h'(eta), additive over rows, linear in the weights",
                 "G1 gradient rows = w (y-mu)/V(mu) h'(eta)",
                 "G2 curvature rows = expected or observed information of the row"]
    links = concrete(prog, "Link")
    n = 0
    for cls, label, params in family_cases(prog):
        for lcls in links:
            for llabel, lparams in instances(prog, lcls):
                if lcls.name == "TweedieLink" and llabel not in ("p=0", "p=1", "1<p<2"):
                    continue
                if lcls.name == "TweedieLink" and llabel == "1<p<2":
                    lparams = {"power": (sp.Symbol("q", real=True), 1, 2)}
                n += 1
                fused_obligations(prog, chk, cls, label, params, lcls, llabel, lparams)
        chk.functions.update(f"{cls.name}.{m}" for m in ("eta_mu_deviance", "rowwise_gradient_hessian"))
    chk.count("family x link", n)
    chk.need("E2", 60)
    chk.need("E3", 60)
    chk.need("G1", 60)
    chk.need("G2", 60)


def fused_obligations(prog, chk, cls, label, params, lcls, llabel, lparams):
    name = f"{cls.name}({label}) x {lcls.name}({llabel})"
    c0 = Ctx(prog)
    fam0 = c0.inst(cls.name, params, "fam")
    sup = support(prog, c0, fam0)
    q = [v[0] for v in lparams.values() if isinstance(v, tuple)]
    prm = (P,) + tuple(q)
    eta0 = sp.Symbol("eta", real=True)
    pos_eta = lcls.name == "TweedieLink" and llabel == "1<p<2" or (
        lcls.name in ("IdentityLink",) or llabel == "p=0") and label not in ("p=0", "") 
    if pos_eta or q:
        eta0 = sp.Symbol("eta", positive=True)
    for rlabel, ysym, mu0 in regions(sup, label == "p<0"):
        c = Ctx(prog)
        fam = c.inst(cls.name, params, "fam")
        link = c.inst(lcls.name, lparams, "link")
        d = sp.Symbol("Xd", real=True)
        t = sp.Symbol("factor", real=True)
        y, w = c.src("y", ysym), c.src("w", W)
        cur, xd, fac = c.src("cur_eta", eta0), c.src("X_dot_d", d), c.src("factor", t, False)
        eta = c.src("eta", eta0)
        mu = c.src("mu", sp.Symbol("mu", positive=True))
        r = c.call(fam, "eta_mu_deviance", [link, fac, cur, xd, y, w])
        g = c.call(fam, "rowwise_gradient_hessian", [link],
                   {"coef": c.src("coef", sp.Symbol("coef")), "dispersion": c.src("phi", PHI, False),
                    "X": c.src("X", sp.Symbol("X")), "y": y, "sample_weight": w, "eta": eta, "mu": mu,
                    **({"offset": const(None)} if "offset" in cls.lookup("rowwise_gradient_hessian").params else {})})
        msrc = c.src("m", sp.Symbol("m", positive=True))
        V = c.call(fam, "unit_variance", [msrc])
        dV = c.call(fam, "unit_variance_derivative", [msrc])
        h = c.call(link, "inverse", [eta])
        h1 = c.call(link, "inverse_derivative", [eta])
        h2 = c.call(link, "inverse_derivative2", [eta])
        if c.it.simp(r, c.st).op != "tuple" or c.it.simp(g, c.st).op != "tuple":
            chk.obligations += 1
            chk.count("unresolved")
            continue
        tag = f"{name} {rlabel}"
        where = where_of(prog, cls, "eta_mu_deviance")

        def E(a):
            # at factor=0 symbols: eta_out must be cur + factor*Xd; use u = eta_out
            s = c.sym(a)
            e_out = s.s(r.args[0])
            out = [("E1 linear predictor update", e_out - (eta0 + t * d))]
            return out

        prove(chk, "E1", tag, where, E, prm)

        def E23(a):
            s = c.sym(a, {c_n.vn: v for c_n, v in ((fac, sp.Integer(0)),)})
            m_out = s.s(r.args[1])
            dev = norm_rows(s.s(r.args[2]))
            hh = s.s(h)
            s2 = c.sym(a, {msrc.vn: hh})
            v = s2.s(V)
            return [("mean", m_out - hh),
                    ("deviance slope", sp.diff(dev, eta0) + 2 * K * W * (ysym - hh) / v * s.s(h1)),
                    ("deviance linear in weights", dev.subs(W, 0) if dev.has(W) else 1)]

        ok = prove(chk, "E2", tag, where, lambda a: E23(a)[:1], prm)
        if ok is not False:
            prove(chk, "E3", tag, where, lambda a: E23(a)[1:], prm)

        def G(a):
            s0 = c.sym(a)
            hh = s0.s(h)
            s = c.sym(a, {mu.vn: hh})
            s2 = c.sym(a, {msrc.vn: hh})
            v, dv = s2.s(V), s2.s(dV)
            d1, d2 = s.s(h1), s.s(h2)
            return [("gradient row", s.s(g.args[0]) - W * (ysym - hh) / v * d1)]

        whg = where_of(prog, cls, "rowwise_gradient_hessian")
        prove(chk, "G1", tag, whg, G, prm)

        def G2(a):
            s0 = c.sym(a)
            hh = s0.s(h)
            s = c.sym(a, {mu.vn: hh})
            s2 = c.sym(a, {msrc.vn: hh})
            v, dv = s2.s(V), s2.s(dV)
            d1, d2 = s.s(h1), s.s(h2)
            H = s.s(g.args[1])
            fisher = W * d1 ** 2 / v
            observed = W * (d1 ** 2 / v - d2 * (ysym - hh) / v + (ysym - hh) * d1 ** 2 * dv / v ** 2)
            if is_zero(H - fisher, prm) or is_zero(H - observed, prm):
                return [("curvature row is a Hessian", sp.Integer(0))]
            return [("curvature row is neither the expected nor the observed information", H - fisher)]

        prove(chk, "G2", tag, whg, G2, prm)


# --------------------------------------------------------- log-likelihood
def density(cls, label, y, mu, w, params):
    """log-density of the family at dispersion phi, times the weight."""
    lg = sp.loggamma
    n = cls
    if n == "NormalDistribution" or label == "p=0":
        return -w * (y - mu) ** 2 / (2 * PHI) - w * sp.log(2 * sp.pi * PHI) / 2
    if n == "PoissonDistribution" or label == "p=1":
        return w * (-mu) if y == 0 else w * (y * sp.log(mu) - mu - lg(1 + y))
    if n == "GammaDistribution" or label == "p=2":
        return w * (-sp.log(PHI) / PHI - lg(1 / PHI) + (sp.log(y) - sp.log(mu) - y / mu) / PHI - sp.log(y))
    if n == "InverseGaussianDistribution" or label == "p=3":
        return w * (-(y - mu) ** 2 / (2 * PHI * mu ** 2 * y) - sp.log(2 * sp.pi * PHI * y ** 3) / 2)
    if n == "BinomialDistribution":
        if y == 0:
            return w * sp.log(1 - mu)
        if y == 1:
            return w * sp.log(mu)
        return w * (y * sp.log(mu) + (1 - y) * sp.log(1 - mu))
    if n == "NegativeBinomialDistribution":
        r = 1 / THETA
        if y == 0:
            return w * (-r * sp.log(1 + THETA * mu))
        return w * (y * sp.log(THETA * mu) - (y + r) * sp.log(1 + THETA * mu) + lg(y + r) - lg(r) - lg(y + 1))
    return None


def check_loglik(prog, chk, tier):
    chk.rules = ["LL1 d(log-likelihood)/d mu = sum w (y-mu)/(phi V(mu))",
                 "LL2 log-likelihood equals the weighted log-density of the family (closed-form families)",
                 "LL3 without a dispersion argument the Pearson estimate is used; without weights, weights are 1"]
    for cls, label, params in family_cases(prog):
        if cls.lookup("log_likelihood") is None:
            continue
        chk.functions.add(cls.lookup("log_likelihood").qual)
        loglik_obligations(prog, chk, cls, label, params)
    chk.need("LL1", 9)
    chk.need("LL2", 9)


def loglik_obligations(prog, chk, cls, label, params):
    name = f"{cls.name}({label})"
    c0 = Ctx(prog)
    fam0 = c0.inst(cls.name, params, "fam")
    sup = support(prog, c0, fam0)
    fixed_phi = cls.name in ("PoissonDistribution", "BinomialDistribution", "NegativeBinomialDistribution") or label == "p=1"
    for rlabel, ysym, mu in regions(sup, label == "p<0"):
        c = Ctx(prog)
        fam = c.inst(cls.name, params, "fam")
        y, m, w = c.src("y", ysym), c.src("mu", mu), c.src("w", W)
        phi = c.src("phi", PHI, False)
        ll = c.call(fam, "log_likelihood", [y, m], {"sample_weight": w, "dispersion": phi})
        tag = f"{name} {rlabel}"
        wh = where_of(prog, cls, "log_likelihood")
        if c.dead:
            chk.test(label in ("p<0", "2<p<3", "3<p"), "LL0", tag, wh, "log-likelihood rejected")
            continue
        lln = c.call(fam, "log_likelihood", [y, m], {"sample_weight": const(None), "dispersion": phi})
        ll_nodisp = c.call(fam, "log_likelihood", [y, m], {"sample_weight": w, "dispersion": const(None)})
        V = c.call(fam, "unit_variance", [m])
        disp = c.call(fam, "dispersion", [y, m], {"sample_weight": w})
        ph = sp.Integer(1) if fixed_phi else PHI
        if label in ("p<0", "2<p<3", "3<p"):
            chk.bad("LL0", tag, wh, "a value is returned although no density is implemented for this power")
            continue

        def LL1(a):
            s = c.sym(a)
            L = norm_rows(s.s(ll))
            return [("score", sp.diff(L, mu) - K * W * (ysym - mu) / (ph * s.s(V))),
                    ("weights default to one", norm_rows(s.s(lln)) - L.subs(W, 1)),
                    ]

        prove(chk, "LL1", tag, wh, LL1)
        dens = density(cls.name, label, ysym, mu, W, params)
        if dens is not None:
            prove(chk, "LL2", tag, wh, lambda a: [("log-density", norm_rows(c.sym(a).s(ll)) - K * dens)])
        if not fixed_phi and rlabel == "y>0" and dens is not None:
            def LL3(a):
                s = c.sym(a)
                L = norm_rows(s.s(ll)).subs(PHI, norm_rows(s.s(disp)))
                return [("estimated dispersion", norm_rows(s.s(ll_nodisp)) - L)]
            prove(chk, "LL3", tag, wh, LL3)
