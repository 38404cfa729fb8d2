"""Whatever penalty, bound, constraint, offset or weight is asked for reaches the solution, or the call is refused."""
from __future__ import annotations

from itertools import combinations

from ..abstract import FINITE, POS, STRING, V, array, scalar, word
from ..nodes import ABSENT, FALSE, NONE, TRUE, N, const
from ..parallel import split
from .fitting import CLASSES, SOLVERS
from .inference import unresolved
from .inputs import BOOL, DATA, GLM, INT, S, Scenario, build, mat, reach, vec
from .postfit import where

SOLVER_OPTIONS = ("auto", "closed-form", "irls-ls", "irls-cd", "irls-ls-monotonic", "lbfgs", "trust-constr")
FAMILIES = (("normal", "identity"), ("poisson", "log"))
START = "START"
MID = ("mid",)
VARIANT = ("", ", scale_predictors", ", no intercept")


def features(name, cls, pos):
    """hyperparameters that ask for something, and the inputs the solution must depend on"""
    POS = pos
    alpha = "alpha" if cls == GLM else "alphas"
    if name == "L1":
        return {"P1": vec(POS, POS), "l1_ratio": scalar("mid")}, ("P1", alpha, "l1_ratio")
    if name == "all L1":
        return {"P1": vec(POS, POS), "l1_ratio": const(1)}, ("P1", alpha)
    if name in ("lower_bounds", "upper_bounds"):
        return {name: vec(FINITE, FINITE)}, (name,)
    if name == "A_ineq, b_ineq != 0":
        return {"A_ineq": mat("m", "p"), "b_ineq": array(("m",), FINITE, ("big",))}, ("A_ineq", "b_ineq")
    if name == "A_ineq":
        return {"A_ineq": mat("m", "p"), "b_ineq": array(("m",), FINITE)}, ("A_ineq", "b_ineq")
    if name == "P2":
        return {"P2": vec(POS, POS)}, ("P2", alpha)
    if name == "P2 matrix":
        return {"P2": mat("p", "p")}, ("P2", alpha)
    if name == "monotonic_constraints":
        return {name: N("dict", ("x",), (S("direction"),)), "formula": STRING}, ("direction",)
    raise KeyError(name)


def variants():
    """settings that have no say in what is solved"""
    yield {"fit_intercept": TRUE, "scale_predictors": FALSE, "selection": const("cyclic")}
    yield {"fit_intercept": TRUE, "scale_predictors": TRUE, "selection": const("random")}
    yield {"fit_intercept": FALSE, "scale_predictors": FALSE, "selection": const("cyclic")}


FREE = {"verbose": INT("0", "1", "big"), "hessian_approx": scalar("0", "mid"), "copy_X": BOOL, "drop_first": BOOL, "force_all_finite": BOOL, "expected_information": BOOL,
        "robust": BOOL, "gradient_tol": scalar(*POS), "max_iter": INT("1", "big")}


FRAME = V("other", "DataFrame", cls=("pandas.DataFrame",))


class Combo:
    def __init__(self, cls, solver, fam, feats, search=False, variant=0):
        self.cls, self.solver, self.fam, self.feats, self.search, self.variant = cls, solver, fam, feats, search, variant

    def valid(self):
        """a combination that the documentation of the solver allows"""
        f = {x.split()[-1] if x == "all L1" else x.split()[0].rstrip(",") for x in self.feats}
        bounds = f & {"lower_bounds", "upper_bounds"}
        cons = f & {"A_ineq", "monotonic_constraints"}
        if "monotonic_constraints" in f:
            return False  # (whether the variable is in the formula is not known)
        if len(cons) > 1 or cons and (bounds or "L1" in f):
            return False
        if self.solver == "auto":
            return True
        if self.solver == "closed-form":
            return self.fam == FAMILIES[0] and f == {"P2"}
        if self.solver in ("irls-ls", "lbfgs"):
            return f == {"P2"}
        if self.solver == "irls-cd":
            return not cons
        if bounds or "L1" in f:
            return False
        return self.solver == "trust-constr" or bool(cons) and "A_ineq, b_ineq != 0" not in self.feats

    @property
    def tag(self):
        return f"{self.cls}(solver={self.solver!r}, family={self.fam[0]!r}{', alpha_search' if self.search else ''}{VARIANT[self.variant]}): {' and '.join(self.feats)}"

    def scenario(self):
        p = {"family": const(self.fam[0]), "link": const(self.fam[1]), "solver": const(self.solver), "l1_ratio": const(0), "check_input": TRUE, **FREE, **list(variants())[self.variant]}
        need = ["sample_weight", "offset", "X", "y"]
        pos = MID if self.variant == 2 else POS
        if self.cls == GLM:
            p["alpha_search"] = TRUE if self.search else FALSE
            p["alpha"] = vec(pos, pos, "k") if self.search else scalar(*pos)
        else:
            p["alphas"] = vec(pos, pos, "k")
        for f in self.feats:
            a, b = features(f, self.cls, pos)
            p.update(a)
            need += b
            if f == "monotonic_constraints" and len(self.feats) > 1:
                p[f] = N("dict", ("x",), (const("increasing"),))
                need.remove("direction")
        if self.cls == CLASSES[1] and "l1_ratio" in need:
            need.remove("l1_ratio")  # chosen by the search
        if "A_ineq" in self.feats and self.solver == "irls-ls-monotonic":
            need.remove("b_ineq")  # this solver takes zero only
            p["b_ineq"] = array(("m",), ("0",), ("0",))
        d = {"X": FRAME} if "monotonic_constraints" in self.feats else {}
        return Scenario(self.tag, self.cls, p, d, stub={"is_pos_semidef": TRUE}, order={("lower_bounds", "upper_bounds"): {"<", "="}} if {"lower_bounds", "upper_bounds"} <= set(self.feats) else {}), sorted(set(need))


def through(run, w):
    """solvers are entered with an unknown start vector: what the solution depends on comes from their other arguments"""
    start = w.put(N("src", START), array(("p+1",), FINITE))

    def enter(f, it, bound, st, site):
        q = f.qual
        old = it.stub.pop(q)
        try:
            b = dict(bound)
            for k in ("coef", "coef0", "start"):
                if k in b:
                    b[k] = start
            return it.call_func(f, [], b, st, site)
        finally:
            it.stub[q] = old

    for name in SOLVERS:
        for m in run.p.modules.values():
            f = m.functions.get(name)
            if f is not None:
                run.it.stub[f.qual] = lambda it, bound, st, site, f=f: enter(f, it, bound, st, site)


_USUAL: dict = {}


def usual(prog, c):
    """raise statements that depend on the data only: they are open for a plain ridge fit, too"""
    frame = "monotonic_constraints" in c.feats
    key = (id(prog), c.cls, c.fam, c.search, c.variant, frame)
    if key not in _USUAL:
        s, _ = Combo(c.cls, "irls-cd", c.fam, ("P2",), c.search, c.variant).scenario()
        if frame:
            s.data["X"] = FRAME
            s.params["formula"] = STRING
        run, w, data, at = build(prog, s)
        if c.variant == 2:
            w.stds = ("1",)
        n0 = len(run.it.events)
        run.run(**data)
        _USUAL[key] = set() if run.st.dead else {(e.name, e.where()) for e in run.it.events[n0:] if e.kind == "raise" and any(g.op != "iter" for g, _ in e.guards)}
    return _USUAL[key]


def run_combo(prog, chk, c):
    s, need = c.scenario()
    run, w, data, at = build(prog, s)
    through(run, w)
    if c.variant == 2:
        w.stds = ("1",)
    at["direction"] = w.put(S("direction"), word("increasing", "decreasing"))
    n0 = len(run.it.events)
    run.run(**data)
    wh = where(prog, run, "fit")
    noise = usual(prog, c)
    raises = [e for e in run.it.events[n0:] if e.kind == "raise" and (e.name, e.where()) not in noise and not any(g.op == "except" and pos for g, pos in e.guards)]  # converting numbers does not fail
    focus = {at[k].vn for k in need if k not in DATA and at[k].op != "const"}
    passed = {(e.guards[-1][0].vn, not e.guards[-1][1]) for e in run.it.events[n0:] if e.kind == "raise" and (e.name, e.where()) in noise and e.guards}  # the data were not refused
    sure = [e for e in raises if all(g.op == "iter" or (g.vn, pos) in passed for g, pos in e.guards)]  # at the latest in the first round of a loop over folds or penalties
    if c.valid():
        openr = [e for e in raises if any(reach(g, focus, set()) for g, _ in e.guards)]
        if run.st.dead or sure:
            chk.bad("O2", c.tag, (sure or raises)[-1].where() if raises else wh, "refused although the solver supports it")
        elif openr:
            unresolved(chk, "O2", c.tag, f"refusal at {openr[0].where()} is not decided")
        else:
            chk.ok("O2", c.tag)
    if run.st.dead or sure:
        chk.ok("O1", c.tag, "refused")
        return
    if c.solver == "irls-ls-monotonic" and "A_ineq, b_ineq != 0" in c.feats:
        chk.bad("O1", c.tag, wh, "a right-hand side that this solver does not support is accepted")
        return
    coef = run.attr("coef_")
    if coef is ABSENT:
        unresolved(chk, "O1", c.tag, "no coef_")
        return
    miss = [k for k in need if not (reach(coef, {at[k].vn}, set()) if k == "direction" else carried(coef, at, k))]
    if not miss:
        chk.ok("O1", c.tag)
        return
    asked = {at[k].vn for k in miss}
    late = [e for e in raises if any(reach(g, asked, set()) for g, _ in e.guards)]
    if late:
        unresolved(chk, "O1", c.tag, f"refusal at {late[0].where()} is not decided")
        return
    chk.bad("O1", c.tag, wh, f"the coefficients do not depend on {', '.join(miss)}")


def carried(coef, at, k):
    """whether the coefficients are computed from the input, however settings turn out that have nothing to do with it"""
    free = {n.vn for j, n in at.items() if j in FREE}
    own = at[k].vn
    memo, setting = {}, {}

    def leaves(n):
        """the condition is one on such settings only"""
        if n.id not in setting:
            setting[n.id] = False  # (cycles)
            if n.vn in free:
                setting[n.id] = True
            elif n.op in ("src", "obj", "elem", "iter") or n.op.startswith("loop"):
                setting[n.id] = False
            elif not n.args:
                setting[n.id] = n.op in ("const", "ext")
            else:
                setting[n.id] = all(leaves(a) for a in n.args) and not (isinstance(n.meta, N) and not leaves(n.meta))
        return setting[n.id]

    def dep(n):
        if n.id not in memo:
            memo[n.id] = False
            if n.vn == own:
                memo[n.id] = True
            elif n.op == "bin" and n.payload == "*" and any(a.op == "const" and a.payload == 0 for a in n.args):
                pass  # zero, whatever it is
            elif n.op == "phi" and isinstance(n.meta, N) and leaves(n.meta):
                memo[n.id] = all(dep(a) for a in n.args)
            else:
                memo[n.id] = any(dep(a) for a in n.args)
        return memo[n.id]

    return dep(coef)


def combos(tier):
    one = ("P2", "P2 matrix", "L1", "all L1", "lower_bounds", "upper_bounds", "A_ineq", "A_ineq, b_ineq != 0", "monotonic_constraints")
    two = list(combinations(("P2", "L1", "lower_bounds", "upper_bounds", "A_ineq", "monotonic_constraints"), 2))
    for v in range(len(VARIANT)):
        for cls in CLASSES:
            for fam in FAMILIES:
                for s in SOLVER_OPTIONS:
                    for f in one:
                        yield Combo(cls, s, fam, (f,), variant=v)
                    if v and tier == "quick":
                        continue
                    for p in two:
                        yield Combo(cls, s, fam, p, variant=v)
                    if cls == GLM:
                        for f in ("P2", "L1", "lower_bounds", "A_ineq"):
                            yield Combo(cls, s, fam, (f,), True, variant=v)


def check_options(prog, chk, tier):
    chk.rules = ["O1 what is asked for influences the coefficients, or fit raises",
                 "O2 a combination that the solver supports is not refused"]
    split(chk, list(combos(tier)), lambda c, k: run_combo(prog, k, c))
    chk.need("O1", 100)
    chk.need("O2", 20)
