"""What the public methods may change: inputs, hyperparameters, results of earlier fits, random state."""
from __future__ import annotations

from ..driver import Session
from ..nodes import ABSENT, FALSE, TRUE, N, const, show
from ..parallel import split

CLASSES = ("GeneralizedLinearRegressor", "GeneralizedLinearRegressorCV")
READERS = ("predict", "linear_predictor", "score", "wald_test", "coef_table", "std_errors", "covariance_matrix",
           "aic", "aicc", "bic", "get_formatted_diagnostics", "report_diagnostics")
RESULT = ("predict", "linear_predictor", "score")
GLOBAL_OK = ("RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "MT19937", "BitGenerator", "mtrand")


def sources(n, loops=True):
    """names of the inputs a value depends on (data, and conditions that select it);
    loops=False: the value of a loop that runs at least once"""
    out, seen, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if not isinstance(x, N) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "src":
            out.add(str(x.payload))
        if x.op == "loopphi" and not loops and len(x.args) > 1 and x.args[0].op == "src":
            stack.extend(x.args[1:])
        else:
            stack.extend(x.args)
        if isinstance(x.meta, N):
            stack.append(x.meta)
    return out


def own(e, s):
    o = e.args[0]
    return o.op == "obj" and o.payload == s.obj.payload


def attributes(s, ev):
    """attributes of the estimator that the events assign"""
    return {e.name for e in ev if e.kind in ("setattr", "delattr") and own(e, s)}


def user(x):
    return x.op == "src" and ":" in str(x.payload) and not str(x.payload).startswith(("fitted:", "stale:"))


def inputs_untouched(chk, tag, ev):
    hits = [e for e in ev if e.kind == "mutate" and any(user(x) for x in e.data)]
    n = sum(e.kind == "mutate" for e in ev)
    chk.count("in-place writes examined", n)
    for e in hits[:4]:
        names = sorted({str(x.payload).split(":", 1)[-1] for x in e.data if user(x)})
        chk.bad("E1", f"{tag}: writes into {names[0]}", e.where(), f"{e.name} may modify the caller's {', '.join(names)}")
    if not hits:
        chk.ok("E1", f"{tag}: inputs are left alone", f"{n} in-place writes, none into an argument or hyperparameter")


def rng(chk, tag, ev):
    bad = []
    for e in ev:
        if e.kind != "call":
            continue
        d = e.name
        if d.startswith(("numpy.random.", "random.")) and d.split(".")[-1] not in GLOBAL_OK:
            bad.append((e, f"{d} draws from the global random state"))
        elif d.split(".")[-1] in ("RandomState", "default_rng", "check_random_state") and d.split(".")[0] in ("numpy", "sklearn"):
            if not e.args or not (sources(e.args[0]) & {"ctor:random_state"}):
                if not (e.args and e.args[0].op == "const" and isinstance(e.args[0].payload, int)):
                    bad.append((e, f"{d} is not seeded from random_state"))
    for e, what in bad[:3]:
        chk.bad("E6", f"{tag}: {what}", e.where(), what)
    if not bad:
        chk.ok("E6", f"{tag}: random numbers come from random_state only", "")


SOLVERS = ("auto", "irls-ls", "irls-cd", "lbfgs", "trust-constr", "closed-form", "irls-ls-monotonic")


def session(prog, cls, warm=None, solver=None):
    params = {} if warm is None else dict(warm_start=const(warm))
    if solver is not None:
        params["solver"] = const(solver)
    if solver == "auto":  # a definite choice; the others are analysed by name
        params.update(monotonic_constraints=const(None), A_ineq=const(None), b_ineq=const(None), lower_bounds=const(None),
                      upper_bounds=const(None), l1_ratio=const(0.5))
        if cls == CLASSES[0]:
            params.update(alpha=const(1.0), alpha_search=FALSE)
    return Session(prog, cls, params)


def learn(prog, cls):
    """attributes a fit can assign, by one abstract fit of a new estimator"""
    s = session(prog, cls, False)
    init = set(s.st.heap[s.oid])
    _, ev = s.call("fit")
    names = (set(s.st.heap[s.oid]) | attributes(s, ev)) - init
    for m in READERS:
        if s.cls.lookup(m) is None:
            continue
        t = session(prog, cls, False)
        for a in names:
            t.set(a, N("src", "fitted:" + a))
        _, ev = t.call(m)
        names |= attributes(t, ev) - set(s.ctor_params)
    return names


def check_ctor(chk, prog, cls):
    s = session(prog, cls)
    heap = s.st.heap[s.oid]
    w = f"{s.cls.module.path}:{s.cls.lookup('__init__').node.lineno}" if hasattr(s.cls.module, "path") else ""
    for k in s.ctor_params:
        v = heap.get(k, ABSENT)
        chk.test(v.vn == s.ctor_kw[k].vn, "E2", f"{cls}({k}) is stored as given", w,
                 "not stored" if v.op == "absent" else f"stored as {show(v, 4)[:120]}")


def check_fit(chk, prog, cls, warm, solver, attrs):
    s = session(prog, cls, warm, solver)
    for a in sorted(attrs):
        s.set(a, N("src", "stale:" + a))
    r, ev = s.call("fit")
    tag = f"{cls}(solver={solver}{', warm_start' if warm else ''}).fit"
    if s.st.dead:
        chk.undecided("E4", tag, "the analysis found no way through fit")
        return
    inputs_untouched(chk, tag, ev)
    old = [e for e in ev if e.kind == "mutate" and any(x.op == "src" and str(x.payload).startswith("stale:") for x in e.data)]
    for e in old[:3]:
        chk.bad("E1", f"{tag}: writes into a result of the earlier fit", e.where(), f"{e.name} may modify an array handed out before")
    if not old:
        chk.ok("E1", f"{tag}: results of earlier fits are left alone", "")
    rng(chk, tag, ev)
    bad = [e for e in ev if e.kind in ("setattr", "delattr") and own(e, s) and e.name in s.ctor_params]
    for e in bad[:3]:
        chk.bad("E3", f"{tag}: assigns the hyperparameter {e.name}", e.where(), "a refit or clone would use another value")
    if not bad:
        chk.ok("E3", f"{tag}: hyperparameters are not assigned", f"{len(s.ctor_params)} hyperparameters")
    allowed = {"coef_", "intercept_"} if warm else set()
    for a, v in sorted(s.st.heap[s.oid].items()):
        if a in s.ctor_params:
            continue
        old = {x[6:] for x in sources(v, loops=False) if x.startswith("stale:")} - allowed
        chk.test(not old, "E4", f"{tag}: {a} belongs to this fit", next((e.where() for e in reversed(ev) if e.kind == "setattr" and e.name == a and own(e, s)), ""),
                 f"depends on {', '.join(sorted(old))} of an earlier fit" if old else "")
    chk.test(r.op == "obj" and r.payload == s.obj.payload, "E5", f"{tag}: returns the estimator", "", f"returns {show(r, 3)[:80]}")


def check_reader(chk, prog, cls, m, attrs, needed):
    s = session(prog, cls)
    if s.cls.lookup(m) is None:
        return
    for a in sorted(attrs):
        s.set(a, N("src", "fitted:" + a))
    _, ev = s.call(m)
    tag = f"{cls}.{m}"
    inputs_untouched(chk, tag, ev)
    rng(chk, tag, ev)
    bad = [e for e in ev if e.kind in ("setattr", "delattr") and own(e, s) and (e.name in s.ctor_params or e.name in needed)]
    bad += [e for e in ev if e.kind == "mutate" and any(x.op == "src" and str(x.payload).startswith("fitted:") and str(x.payload)[7:] in needed for x in e.data)]
    for e in bad[:3]:
        chk.bad("E5", f"{tag}: changes the fitted model", e.where(), f"{e.kind} {e.name}")
    if not bad:
        chk.ok("E5", f"{tag}: the fitted model is unchanged", f"{len(needed)} attributes")


def needed_attributes(prog, cls, attrs):
    """attributes the predictions depend on"""
    out = {"coef_", "intercept_"}
    for m in RESULT:
        s = session(prog, cls)
        for a in sorted(attrs):
            s.set(a, N("src", "fitted:" + a))
        r, ev = s.call(m)
        out |= {x[7:] for x in sources(r) if x.startswith("fitted:")}
    return out


def check_effects(prog, chk, tier):
    chk.rules = ["E1 no in-place write (assignment to elements, augmented assignment, out=, mutating method, kernel output) may reach memory of an argument or hyperparameter",
                 "E2 the constructor stores every parameter as it was given",
                 "E3 fit never assigns a hyperparameter",
                 "E4 after fit no attribute depends on what an earlier fit (or a cached result) left on the estimator; with warm_start only coef_ and intercept_ carry over",
                 "E5 fit returns the estimator; the reading methods do not change hyperparameters or anything predictions depend on",
                 "E6 random numbers are drawn only from generators seeded by random_state"]
    items = []
    info = {}
    for cls in CLASSES:
        attrs = learn(prog, cls)
        info[cls] = (attrs, needed_attributes(prog, cls, attrs))
        chk.count("fitted attributes", len(attrs))
        items += [("ctor", cls, None), ("fit", cls, (True, "auto"))] + [("fit", cls, (False, x)) for x in SOLVERS]
        items += [("read", cls, m) for m in READERS]

    def work(it, sub):
        kind, cls, x = it
        attrs, needed = info[cls]
        if kind == "ctor":
            check_ctor(sub, prog, cls)
        elif kind == "fit":
            check_fit(sub, prog, cls, *x, attrs)
        else:
            check_reader(sub, prog, cls, x, attrs, needed)
    split(chk, items, work)
    chk.functions |= {f.qual for m in prog.modules.values() for f in m.functions.values()}
    chk.assumptions.append("loops over alphas, folds and iterations run at least once")
    for r, n in (("E1", 20), ("E2", 40), ("E3", 4), ("E4", 60), ("E5", 20), ("E6", 20)):
        chk.need(r, n)
