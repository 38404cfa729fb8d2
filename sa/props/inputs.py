"""Malformed inputs and hyperparameters are refused before anything is fitted; valid ones are not."""
from __future__ import annotations

import ast
import math

from ..abstract import FINITE, OTHER, POS, STRING, V, World, array, parts, scalar
from ..nodes import FALSE, NONE, TRUE, N, const, is_const
from ..parallel import split
from .families import concrete, instances
from .fitting import CLASSES, FitRun
from .inference import unresolved
from .postfit import where

GLM, CV = CLASSES
PFIN = ("0",) + POS


def S(name):
    return N("src", "IN:" + name)


DATA = {"X": array(("n", "p"), FINITE, ("neg", "big")), "y": array(("n",), POS, POS), "sample_weight": array(("n",), PFIN, POS), "offset": array(("n",), FINITE, ("neg", "big"))}
TAB = array(("n", "p"), FINITE, ("neg", "big"), cls=("tabmat.MatrixBase", "tabmat.DenseMatrix"))


class Scenario:
    def __init__(self, tag, cls, params=None, data=None, refuse=True, order=None, stub=None, focus=None, fam=None, drop=()):
        self.tag, self.cls, self.params, self.data, self.refuse = tag, cls, params or {}, data or {}, refuse
        self.order, self.stub, self.focus, self.fam, self.drop = order or {}, stub or {}, focus, fam, drop


def build(prog, s):
    nodes, vals = {}, {}
    for k, v in s.params.items():
        if isinstance(v, V):
            nodes[k] = S(k)
            vals[k] = v
        elif isinstance(v, N):
            nodes[k] = v
        else:
            nodes[k] = const(v)
    init = prog.cls(s.cls).lookup("__init__")
    run = FitRun(prog, cls=s.cls, params={**defaults(init), **BASE, **{k: v for k, v in nodes.items() if k in init.params}})
    w = World(run.it)
    run.it.closed_objs = {run.oid}  # (the classes it inherits from bring no hyperparameters)
    run.it.nonnull.add("SOLUTION")
    run.it.arrays.add(N("src", "SOLUTION").vn)
    for k, v in vals.items():
        w.put(nodes[k], v)
    data = {}
    for k in ("X", "y", "sample_weight", "offset"):
        v = s.data.get(k, DATA[k])
        data[k] = v if isinstance(v, N) else w.put(S(k), v)
    at = {**nodes, **data}
    for (a, b), rel in s.order.items():
        w.order[(at[a].vn, at[b].vn)] = rel
    for name, r in s.stub.items():
        for m in prog.modules.values():
            f = m.functions.get(name)
            if f is not None:
                run.it.stub[f.qual] = lambda it, bound, st, site, r=r: r
    if s.fam is not None:
        cls, params = s.fam
        o = instance(prog, run, cls, params)
        run.set("family", o)
    return run, w, data, at


BASE = {"family": const("normal"), "link": const("identity"), "solver": const("irls-cd"), "P1": const("identity"), "P2": const("identity")}


def defaults(init):
    """the hyperparameters' defaults, where they are literals"""
    a = init.node.args
    pos = list(zip([x.arg for x in a.args[-len(a.defaults):]], a.defaults)) if a.defaults else []
    out = {}
    for k, d in pos + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        try:
            out[k] = const(ast.literal_eval(d))
        except ValueError:
            pass
    return out


def instance(prog, run, cls, params):
    o = run.it.new_obj(cls, "family")
    run.st.heap[o.payload[0]] = {}
    init = cls.lookup("__init__")
    if init is not None:
        kw = {}
        for k in init.params[1:]:
            if k in params:
                v = params[k]
                if isinstance(v, tuple):  # a range
                    n = N("src", "fam:" + k)
                    run.it.nonnull.add(n.payload)
                    run.it.ranges[n.vn] = (-math.inf if v[1] is None else v[1], math.inf if v[2] is None else v[2], False, False)
                    kw[k] = n
                else:
                    kw[k] = const(v)
        run.it.call_func(init, [o], kw, run.st, ("<entry>", 0))
    return o


def reach(n, targets, seen):
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.vn in targets:
            return True
        stack.extend(x.args)
        if isinstance(x.meta, N):
            stack.append(x.meta)
    return False


def beyond(ev):
    """index of the event at which the predictors are standardized: validation is over"""
    return next((k for k, e in enumerate(ev) if e.kind == "mcall" and e.name == "standardize"), len(ev))


_REF: dict = {}


def reference(prog, cls):
    """raise statements that stay open after validation on ordinary inputs: they do not depend on what is wrong with an input"""
    if (id(prog), cls) not in _REF:
        out = set()
        for p in ({}, {"P2": mat("p", "p"), "solver": const("trust-constr"), "l1_ratio": const(0)}, {"family": const("binomial"), "link": const("logit")}):
            run, w, data, at = build(prog, Scenario("reference", cls, p, stub={"is_pos_semidef": TRUE}, refuse=False))
            n0 = len(run.it.events)
            run.run(**data)
            ev = run.it.events[n0:]
            late = beyond(ev)
            out |= {(e.name, e.where()) for e in ev if e.kind == "raise" and any(c.op != "iter" for c, _ in e.guards)}
        _REF[(id(prog), cls)] = out
    return _REF[(id(prog), cls)]


VALIDATORS = ("check", "valid", "assert")


def run_case(prog, chk, s):
    run, w, data, at = build(prog, s)
    n0 = len(run.it.events)
    run.run(**data)
    rule = "I1" if s.refuse else "I2"
    tag = f"{s.cls}.fit: {s.tag}"
    wh = where(prog, run, "fit")
    ev = run.it.events[n0:]
    late = beyond(ev)
    noise = reference(prog, s.cls)
    focus = {at[k].vn for k in (s.focus or list(s.params) + list(s.data)) if k in at and at[k].op != "const"}
    if s.fam is not None:
        focus |= {at["y"].vn}
    openr = [e for k, e in enumerate(ev) if e.kind == "raise" and not (k > late and (e.name, e.where()) in noise) and any(reach(c, focus, set()) for c, _ in e.guards)]
    if s.refuse:
        sure = [e for e in ev if e.kind == "raise" and (e.name, e.where()) not in noise and not any(reach(c, focus, set()) for c, _ in e.guards)]
        if all(n.vn in w.values and w.values[n.vn].kind == "num" for n in at.values() if n.vn in focus):
            sure = [e for e in sure if not any(c.op == "except" and pos for c, pos in e.guards)]  # converting numbers does not fail
        if run.st.dead or any(all(c.op == "iter" for c, _ in e.guards) for e in sure):
            chk.ok(rule, tag, "every path raises")  # an iteration of a loop over folds or mixing parameters counts as a path
            return
        openr += sure
        unknown = [e for e in ev if e.kind in ("call", "mcall") and any(k in e.name.lower() for k in VALIDATORS) and e.name.split(".")[-1] not in KNOWN
                   and any(reach(a, focus, set()) for a in e.args)]
        if openr:
            unresolved(chk, rule, tag, f"refusal at {openr[0].where()} depends on a condition that is not decided")
        elif unknown:
            unresolved(chk, rule, tag, f"unknown validation {unknown[0].name}")
        else:
            chk.bad(rule, tag, wh, "accepted: no check on any path to the solver refuses it")
    else:
        if run.st.dead:
            rs = [e for e in ev if e.kind == "raise"]
            chk.bad(rule, tag, rs[-1].where() if rs else wh, f"refused ({rs[-1].name})" if rs else "refused")
        elif openr:
            unresolved(chk, rule, tag, f"refusal at {openr[0].where()} is not decided")
        else:
            chk.ok(rule, tag)


KNOWN = {"check_array", "validate_data", "_validate_data", "check_X_y", "column_or_1d", "assert_all_finite", "check_consistent_length", "check_is_fitted", "check_cv",
         "check_random_state"}

neg, zero, nan = scalar("neg"), scalar("0"), scalar("nan")
INT = lambda *c: scalar(*c, type="int")
BOOL = scalar("0", "1", type="bool")
vec = lambda may, some=(), d="p": array((d,), may, some)
mat = lambda r, c, may=FINITE, some=(): array((r, c), may, some)


def WRONG(d):
    a, k = parts(d)
    return ("long", f"{a[0]}+{k + 1}"), ("short", f"{a[0]}+{k - 1}" if k != 1 else a[0])


def hyper():
    out = []

    def bad(tag, params, cls=None, **k):
        for c in (cls,) if cls else CLASSES:
            out.append(Scenario(tag, c, params, **k))

    def good(tag, params, cls=None, **k):
        for c in (cls,) if cls else CLASSES:
            out.append(Scenario(tag, c, params, refuse=False, **k))

    f = ("alpha",)
    for t, v in (("a negative number", neg), ("a negative integer", INT("neg")), ("a string", STRING), ("nan", nan), ("an array", vec(PFIN, POS, "k"))):
        bad(f"alpha is {t}", {"alpha": v, "alpha_search": FALSE}, GLM, focus=f)
    for t, v in (("contains a negative number", vec(FINITE, ("neg", "big"), "k")), ("is a scalar", scalar(*POS)), ("contains nan", vec(PFIN + ("nan",), ("nan", "big"), "k"))):
        bad(f"alpha {t} with alpha_search", {"alpha": v, "alpha_search": TRUE}, GLM, focus=f)
    bad("alphas contains a negative number", {"alphas": vec(FINITE, ("neg", "big"), "k"), "alpha_search": TRUE, "alpha": NONE}, GLM, focus=("alphas",))
    bad("alphas contains a negative number", {"alphas": vec(FINITE, ("neg", "big"), "k")}, CV)
    bad("alphas contains nan", {"alphas": vec(PFIN + ("nan",), ("nan", "big"), "k")}, CV)
    for t, v in (("a nonnegative number", scalar(*PFIN)), ("a nonnegative integer", INT(*PFIN)), ("None", NONE)):
        good(f"alpha is {t}", {"alpha": v, "alpha_search": FALSE}, GLM, focus=f)
    good("alpha is an array of nonnegative numbers with alpha_search", {"alpha": vec(PFIN, POS, "k"), "alpha_search": TRUE}, GLM, focus=f)
    good("alphas is an array of nonnegative numbers", {"alphas": vec(PFIN, POS, "k")}, CV)
    unit = scalar("0", "mid", "1")
    for t, v in (("negative", neg), ("above 1", scalar("big")), ("a string", STRING), ("nan", nan)):
        bad(f"l1_ratio is {t}", {"l1_ratio": v})
    bad("l1_ratio is an array", {"l1_ratio": vec(("0", "mid", "1"), ("mid",), "k")}, GLM)
    for t, c in (("a negative number", "neg"), ("a number above 1", "big"), ("nan", "nan")):
        bad(f"l1_ratio contains {t}", {"l1_ratio": vec(("0", "mid", "1", c), (c, "mid"), "k")}, CV)
    good("l1_ratio is in [0, 1]", {"l1_ratio": unit})
    for k in ("P1", "P2"):
        bad(f"{k} is an unknown string", {k: STRING})
        bad(f"{k} contains a negative number", {k: vec(FINITE, ("neg", "big")), "check_input": TRUE, "l1_ratio": scalar("mid")}, focus=(k,))
        for t, d in WRONG("p"):
            bad(f"{k} is too {t}", {k: vec(PFIN, POS, d)})
        bad(f"{k} is not numeric", {k: OTHER})
        good(f"{k} is a nonnegative vector", {k: vec(PFIN, POS), "check_input": TRUE, "l1_ratio": scalar("mid")}, focus=(k,))
    bad("P1 is a matrix", {"P1": mat("p", "p", PFIN)})
    for t, d in WRONG("p"):
        bad(f"P2 is a matrix with too {t} rows and columns", {"P2": mat(d, d, PFIN)})
        bad(f"P2 is not square: too {t} columns", {"P2": mat("p", d, PFIN)})
        bad(f"P2 is not square: too {t} rows", {"P2": mat(d, "p", PFIN)})
    bad("P2 is not positive semidefinite", {"P2": mat("p", "p"), "check_input": TRUE}, stub={"is_pos_semidef": FALSE})
    good("P2 is a positive semidefinite matrix", {"P2": mat("p", "p"), "check_input": TRUE}, stub={"is_pos_semidef": TRUE})
    for k in ("family", "link"):
        bad(f"{k} is an unknown string", {k: STRING})
        bad(f"{k} is of another type", {k: OTHER})
    for k in ("fit_intercept", "warm_start", "copy_X", "check_input"):
        bad(f"{k} is a string", {k: STRING})
        bad(f"{k} is an integer", {k: INT(*POS)})
    bad("solver is an unknown string", {"solver": STRING})
    bad("selection is an unknown string", {"selection": STRING})
    for t, v in (("zero", INT("0")), ("negative", INT("neg")), ("a fraction", scalar("mid")), ("a string", STRING)):
        bad(f"max_iter is {t}", {"max_iter": v})
    good("max_iter is a positive integer", {"max_iter": INT("1", "big")})
    for k in ("gradient_tol", "step_size_tol"):
        for t, v in (("zero", zero), ("negative", neg), ("a string", STRING)):
            bad(f"{k} is {t}", {k: v})
        good(f"{k} is positive", {k: scalar(*POS)})
        good(f"{k} is None", {k: NONE})
    bad("scale_predictors without fit_intercept", {"scale_predictors": TRUE, "fit_intercept": FALSE})
    good("scale_predictors with fit_intercept", {"scale_predictors": TRUE, "fit_intercept": TRUE})
    cd = const("irls-cd")
    for k in ("lower_bounds", "upper_bounds"):
        for t, d in WRONG("p"):
            bad(f"{k} is too {t}", {k: vec(FINITE, (), d), "solver": cd})
        bad(f"{k} is a matrix", {k: mat("p", "p"), "solver": cd})
        good(f"{k} is a vector", {k: vec(FINITE), "solver": cd})
        good(f"{k} is a number", {k: scalar(*FINITE), "solver": cd})
    v, num = vec(FINITE), scalar(*FINITE)
    for t, a, b in (("vectors", v, v), ("number and vector", num, v), ("vector and number", v, num), ("numbers", num, num)):
        bad(f"some lower bound above the upper bound ({t})", {"lower_bounds": a, "upper_bounds": b, "solver": cd}, order={("lower_bounds", "upper_bounds"): {"<", ">"} if a.ndim or b.ndim else {">"}})
        good(f"lower bounds at most upper bounds ({t})", {"lower_bounds": a, "upper_bounds": b, "solver": cd}, order={("lower_bounds", "upper_bounds"): {"<", "="} if a.ndim or b.ndim else {"<"}})
    A, b, tc = mat("m", "p"), array(("m",), FINITE), const("trust-constr")
    z = {"l1_ratio": const(0)}
    bad("A_ineq without b_ineq", {"A_ineq": A, "b_ineq": NONE, "solver": tc})
    bad("b_ineq without A_ineq", {"A_ineq": NONE, "b_ineq": b, "solver": tc})
    for t, d in WRONG("p"):
        bad(f"A_ineq has too {t} rows", {"A_ineq": mat("m", d), "b_ineq": b, "solver": tc})
    for t, d in WRONG("m"):
        bad(f"b_ineq is too {t}", {"A_ineq": A, "b_ineq": array((d,), FINITE), "solver": tc})
    bad("A_ineq is a vector", {"A_ineq": vec(FINITE), "b_ineq": b, "solver": tc})
    bad("b_ineq is a matrix", {"A_ineq": A, "b_ineq": mat("m", "1"), "solver": tc})
    good("A_ineq and b_ineq fit together", {"A_ineq": A, "b_ineq": b, "solver": tc, **z}, focus=("A_ineq", "b_ineq"))
    mono = N("dict", ("x",), (const("increasing"),))
    m = {"solver": const("auto"), "formula": STRING, **z}
    bad("monotonic_constraints without formula", {"monotonic_constraints": mono, "solver": const("auto"), "formula": NONE, **z})
    bad("monotonic_constraints is not a mapping", {"monotonic_constraints": OTHER, **m}, focus=("monotonic_constraints",))
    bad("monotonic_constraints is a string", {"monotonic_constraints": STRING, **m}, focus=("monotonic_constraints",))
    bad("monotonic_constraints is empty", {"monotonic_constraints": N("dict", (), ()), **m}, focus=("monotonic_constraints",))
    bad("monotonic_constraints has an unknown direction", {"monotonic_constraints": N("dict", ("x",), (const("up"),)), **m}, focus=("monotonic_constraints",))
    bad("monotonic_constraints with inequality constraints", {"monotonic_constraints": mono, "A_ineq": A, "b_ineq": b, **m}, focus=("monotonic_constraints",))
    for t, d in WRONG("p+1"):
        bad(f"start_params is too {t}", {"start_params": array((d,), FINITE)})
    bad("start_params is a column", {"start_params": mat("p+1", "1")})
    bad("start_params is a matrix", {"start_params": mat("p", "p")})
    bad("start_params leaves out the intercept", {"start_params": array(("p",), FINITE), "fit_intercept": TRUE})
    bad("start_params contains nan", {"start_params": array(("p+1",), FINITE + ("nan",), ("nan", "big"))})
    good("start_params has an element per parameter", {"start_params": array(("p+1",), FINITE), "fit_intercept": TRUE})
    good("start_params has an element per coefficient", {"start_params": array(("p",), FINITE), "fit_intercept": FALSE})
    return out


def data(prog):
    out = []

    def both(tag, d, refuse=True, **k):
        for c in CLASSES:
            out.append(Scenario(tag, c, {}, d, refuse, **k))

    for t, X in (("array", None), ("tabmat matrix", TAB)):
        x = DATA["X"] if X is None else X
        for w, d in WRONG("n"):
            both(f"X ({t}) and y have different lengths (too {w})", {"X": V("num", "ndarray", x.some, x.may, (d, "p"), x.cls)}, focus=("X", "y"))
        for c in ("nan", "inf"):
            for k in CLASSES:
                out.append(Scenario(f"y contains {c} and X is a {t}, input not checked further", k, {"check_input": FALSE}, {"X": x, "y": array(("n",), POS + (c,), (c, "big"))}, focus=("y",)))
        for c in ("nan", "inf"):
            both(f"X ({t}) contains {c}", {"X": V("num", "ndarray", x.some | {c}, x.may | {c}, x.dims, x.cls)}, stub={}, focus=("X",))
        both(f"valid data ({t})", {"X": x, "y": DATA["y"]}, False)
    both("X is a vector", {"X": array(("n",), FINITE, ("neg", "big"))})
    both("y is None", {"y": NONE})
    for c in ("nan", "inf"):
        both(f"y contains {c}", {"y": array(("n",), POS + (c,), (c, "big"))})
        both(f"sample_weight contains {c}", {"sample_weight": array(("n",), POS + (c,), (c, "big"))})
        both(f"offset contains {c}", {"offset": array(("n",), FINITE + (c,), (c, "big"))})
        both(f"offset is {c}", {"offset": scalar(c)})
        both(f"sample_weight is {c}", {"sample_weight": scalar(c)})
    both("y has more than one column", {"y": array(("n", "other"), POS, POS)})
    both("sample_weight contains a negative number", {"sample_weight": array(("n",), FINITE, ("neg", "big"))})
    both("sample_weight is zero everywhere", {"sample_weight": array(("n",), ("0",), ("0",))})
    both("sample_weight is negative", {"sample_weight": neg})
    both("sample_weight is zero", {"sample_weight": zero})
    for k in ("sample_weight", "offset"):
        v = DATA[k]
        for t, d in WRONG("n"):
            both(f"{k} is too {t}", {k: array((d,), v.may, v.some)})
        both(f"{k} is a matrix", {k: array(("n", "1"), v.may, v.some)})
        both(f"{k} is a valid vector", {k: v}, False)
        both(f"{k} is None", {k: NONE}, False)
    both("sample_weight is a positive number", {"sample_weight": scalar(*POS)}, False)
    both("offset is a number", {"offset": scalar(*FINITE)}, False)
    for cls in concrete(prog, "ExponentialDispersionModel"):
        for label, params in instances(prog, cls):
            for c in ("neg", "0", "1", "big"):
                ok = allowed(cls.name, params, c)
                if ok is None:
                    continue
                for k in CLASSES:
                    nm = f"{cls.name}{label and '(' + label + ')'}: y contains {NAMES[c]}"
                    other = [x for x in ("mid", "1", "big", "0", "neg") if allowed(cls.name, params, x)]
                    out.append(Scenario(nm, k, {"check_input": TRUE}, {"y": array(("n",), other[:1] + [c], other[:1] + [c])}, not ok, fam=(cls, params), focus=("y",)))
    return out


NAMES = {"neg": "a negative number", "0": "zero", "mid": "a fraction", "1": "one", "big": "a number above one"}


def allowed(name, params, c):
    """whether a response may take a value of this kind"""
    if name in ("NormalDistribution", "GeneralizedHyperbolicSecant"):
        return True
    if name == "BinomialDistribution":
        return c in ("0", "mid", "1")
    if name in ("PoissonDistribution", "NegativeBinomialDistribution"):
        return c != "neg"
    if name in ("GammaDistribution", "InverseGaussianDistribution"):
        return c in POS
    if name == "TweedieDistribution":
        v = params.get("power")
        lo, hi = (v, v) if isinstance(v, (int, float)) else v[1:]
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo >= 2:
            return c in POS
        if lo is not None and lo >= 1 and hi is not None and hi <= 2:
            return c != "neg"
    return None


def check_inputs(prog, chk, tier):
    chk.rules = ["I1 fit raises on every path for a malformed input", "I2 fit does not refuse a valid input"]
    jobs = [("h", k) for k in range(len(hyper()))] + [("d", k) for k in range(len(data(prog)))]

    split(chk, jobs, lambda c, k: run_case(prog, k, (hyper() if c[0] == "h" else data(prog))[c[1]]))
    for r, n in (("I1", 100), ("I2", 40)):
        chk.need(r, n)


