"""Monotone constraints: the penalty iteration of the dedicated solver and the rows it is given."""
from __future__ import annotations

from .. import tensor as T
from ..algebra import sp
from ..engine import Interp, State
from ..nodes import N, const, is_const, show
from ..program import AnalysisError
from ..symexec import Decide, Irregular, cases
from .inference import decide_equal, definite, unresolved
from ..parallel import split
from .irls import (STATE, LoopTen, Outer, SolverRun, SolverTen, StopTen, caxes, check_exit, coef_tv, form, fresh_rows, ordered, phi_env, prog_func,
                   quadratic, strip_ic, walk)
from .postfit import nA, pA

F = sp.Function
rA = ("m",)
SOLVER = "_monotonic_irls_solver"
TOL = 1e-6  # violations up to this size are within what the solver promises


class Atoms:
    """comparisons over the rows of the constraints, named: an indicator is zero or one"""

    def __init__(self):
        self.known = []

    def name(self, e):
        for i, x in enumerate(self.known):
            if x == e or sp.expand(x.args[0] - x.args[1] - e.args[0] + e.args[1]) == 0:
                return F(f"Q{i}")(T.ix(0))
        self.known.append(e)
        return F(f"Q{len(self.known) - 1}")(T.ix(0))

    def rename(self, v):
        return idem(T.TV(v.axes, {k: e.replace(lambda q: getattr(q.func, "__name__", "") == "GT", self.name) for k, e in v.data.items()}))


def reads(n, attr):
    while n.op in ("phi", "refine"):
        n = n.args[0]
    return n.op == "getattr" and n.payload == attr


def is_q(q):
    return isinstance(q, sp.core.function.AppliedUndef) and q.func.__name__[0] in "QM" and q.func.__name__[1:].isdigit()


def idem(v):
    """powers of indicators are themselves"""
    def e(x):
        return sp.expand(x).replace(lambda q: q.is_Pow and is_q(q.base) and q.exp.is_Integer and q.exp > 1, lambda q: q.base)
    return T.TV(v.axes, {k: e(x) for k, x in v.data.items()})


def same(a, b):
    return T.equal(idem(a), idem(b)) is None


class MonoTen(LoopTen):
    """arrays of the penalty iteration; the penalty before the iteration is any symmetric matrix (or the plain one)"""

    def __init__(self, decide, run, o, extra=None, P2=None, case=None, first=None):
        self.case, self.first = case, first
        LoopTen.__init__(self, decide, run, o, extra, P2)
        if "hessian" in o.phi and P2 is not None:
            def guard(ten, n):
                if ten.decide.assumed.get(("flag", "initialised")) is False:
                    raise ten.irr(n, "restricted matrix: entries are reused although no matrix was built for this penalty")
                if ten.decide.assumed.get(("flag", "subset")) is False:
                    raise ten.irr(n, "restricted matrix: entries are reused although new columns became active")
                if None in (ten.decide.assumed.get(("flag", "initialised")), ten.decide.assumed.get(("flag", "subset"))):
                    raise ten.irr(n, "reuse of the stored matrix without a recognised test")
            rows = o.rows_before(SolverTen(decide, run, extra))
            self.stale[o.phi["hessian"].vn] = (quadratic(run, rows, P2), guard)

    # ------------------------------------------------------------ vocabulary
    def violations(self, c):
        return T.matmul(T.atom("A", (rA, pA)), strip_ic(c, self.run.intercept))

    def ind(self, v):
        return T.elementwise(lambda x: self.gt(x, sp.Integer(0)), v)

    def mask_rows(self, n):
        """a boolean array over the rows of the constraints as zeros and ones"""
        if n.op in ("slice", "const", "tuple", "list"):
            return None
        m = self.indicator(n)
        if m is None:
            try:
                m = self.t(n)
            except Irregular:
                return None
        return self.run.atoms.rename(m) if m.axes == (rA,) else None

    def mask(self, n):
        m = super().mask(n)
        return self.run.atoms.rename(m) if m is not None and m.axes == (rA,) else m

    def indicator(self, n):
        if n.op == "un" and n.payload == "~" or n.op == "call" and n.payload[0] in ("numpy.logical_not", "numpy.invert"):
            m = self.mask_rows(n.args[0])
            return None if m is None else T.elementwise(lambda x: 1 - x, m)
        if n.op == "bin" and n.payload in ("|", "&") or n.op == "call" and n.payload[0] in ("numpy.logical_or", "numpy.logical_and"):
            a, b = (self.mask_rows(x) for x in n.args[:2])
            if a is not None and b is not None:
                both = n.payload == "&" or "and" in str(n.payload[0])
                return T.elementwise((lambda x, y: x * y) if both else (lambda x, y: 1 - (1 - x) * (1 - y)), a, b)
        m = super().indicator(n)
        return self.run.atoms.rename(m) if m is not None and m.axes == (rA,) else m

    def solver_hook(self, t, n):
        if n.vn == self.run.direction.vn:
            return T.atom("d", (caxes(self.run.intercept),))
        if n.op == "call" and n.payload[0] in ("builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum") and len(n.args) == 2:
            a, b = (t.t(x) for x in n.args)
            if not a.axes and not b.axes:
                lo = "min" in n.payload[0]
                return T.scalar(sp.Symbol(f"{'MIN' if lo else 'MAX'}[{a.scalar},{b.scalar}]",
                                          positive=(a.scalar.is_positive and b.scalar.is_positive) or None))
        if n.op in ("bin", "call", "un"):
            m = self.indicator(n) if n.op != "bin" or n.payload in ("|", "&") else None
            if m is not None:
                return m
        if n.op == "index" and n.args[1].op not in ("slice", "const"):
            i = n.args[1]
            if i.op == "tuple" and i.args and all(t.full(x) for x in i.args[1:]):
                i = i.args[0]
            m = self.mask_rows(i)
            if m is not None:  # rows left out count as zero
                if t.t(n.args[0]).axes == (rA, pA):
                    return T.elementwise(lambda a, b: a * b, t.t(n.args[0]), T.add_axis(m, 1))
        if n.op == "call" and n.payload[0].split(".")[-1] in ("csc_matrix", "csr_matrix", "csc_array", "csr_array", "coo_matrix") and n.args:
            return t.t(n.args[0])
        return super().solver_hook(t, n)

    # ------------------------------------------------------------ conditions
    def cond(self, n):
        if n.op == "cmp" and n.payload in ("is", "is not") and not is_const(n.args[1], None):
            p = self.o.dphi.get("P2")
            if p is not None and any(x.vn == p.vn for x in n.args):
                return (self.case == "plain") == (n.payload == "is")
        # stored values of a sparse penalty: taken to be neither empty nor diagonal (then other code adds the same numbers)
        if n.op == "cmp" and n.payload in ("==", "!=") and any(reads(x, "nnz") for x in n.args):
            return n.payload == "!="
        if n.op in ("mcall", "call") and n.payload[0] in ("all", "numpy.all") and n.args[0].op == "cmp" and \
                any(reads(x, "data") for x in n.args[0].args):
            return False
        r = self.extreme(n)
        if r is not None:
            return r
        return super().cond(n)

    def extreme(self, n):
        """tests on the rows of the constraints: any(v > k), all(v <= k), max(v) > k, any(mask)"""
        if n.op == "cmp" and n.payload in ("<", "<=", ">", ">="):
            lo, hi, strict = ordered(n, n.payload)
            for a, k, up in ((hi, lo, True), (lo, hi, False)):
                m = a
                if m.op in ("call", "mcall") and m.payload[0] in ("numpy.max", "numpy.amax", "max", "builtins.max") and len(m.args) == 1 and is_const(k):
                    v = self.rows(m.args[0])
                    if v is not None:
                        r = self.exceeds(v, k.payload)
                        return r if up else not r
                if m.op in ("call", "mcall") and m.payload[0] in ("numpy.sum", "sum", "numpy.count_nonzero") and len(m.args) == 1 and is_const(k, 0) and strict == up:
                    q = self.mask_rows(m.args[0])
                    if q is not None:
                        return self.anymask(q) == up
        if n.op == "cmp" and n.payload in ("==", "!=") and is_const(n.args[1], 0):
            m = n.args[0]
            if m.op in ("call", "mcall") and m.payload[0] in ("numpy.sum", "sum", "numpy.count_nonzero") and len(m.args) == 1:
                q = self.mask_rows(m.args[0])
                if q is not None:
                    return self.anymask(q) == (n.payload == "!=")
        if n.op in ("call", "mcall") and n.payload[0] in ("numpy.any", "any", "numpy.all", "all") and len(n.args) == 1:
            neg = n.payload[0].endswith("all")
            c = n.args[0]
            if c.op == "cmp" and c.payload in ("<", "<=", ">", ">="):
                lo, hi, strict = ordered(c, c.payload)
                if is_const(lo) and not neg:
                    v = self.rows(hi)
                    if v is not None:
                        return self.exceeds(v, lo.payload)
                if is_const(hi) and neg:
                    v = self.rows(lo)
                    if v is not None:
                        return not self.exceeds(v, hi.payload)
            m = self.mask_rows(c)
            if m is not None:
                return not self.anymask(T.elementwise(lambda x: 1 - x, m)) if neg else self.anymask(m)
        return None

    def rows(self, n):
        try:
            v = self.t(n)
        except Irregular:
            return None
        return v if v.axes == (rA,) else None

    def exceeds(self, v, k):
        if k == 0:
            return self.anymask(self.run.atoms.rename(self.ind(v)))
        return self.decide.ask(("exceeds", str(idem(v).data), float(k)))

    def anymask(self, m):
        m = idem(m)
        if all(x == 0 for x in m.data.values()):
            return False
        self.run.masks_by_str[str(m.data)] = m.data[(0,)]
        return self.decide.ask(("rows", str(m.data), "some row"))


class MonoRun(SolverRun):
    def __init__(self, prog, intercept, p2, offset):
        super().__init__(prog, intercept, p2, offset)
        self.A = self.src("A_ineq", T.atom("A", (rA, pA)))
        self.b = self.src("b_ineq", T.fill((rA,), sp.Integer(0)))
        self.direction = N("src", "direction")
        self.atoms = Atoms()
        self.masks_by_str, self.measures = {}, {}
        self.inner_calls = []
        q = self.qual("_least_squares_solver")
        if q is None:
            raise AnalysisError("_least_squares_solver vanished")

        def inner(it, b, st, site):
            objs = [x.payload[0] for x in b.values() if x.op == "obj"]
            s = next((h for h in objs if h != self.oid_data), None)
            if s is not None:
                self.inner_calls.append((dict(st.heap[s]), dict(st.heap[self.oid_data]), b, str(site)))
            return N("tuple", None, (self.direction, N("src", "cycles")))

        self.it.stub[q] = inner
        self.it.nonnull |= {"direction", "cycles"}
        self.data_obj = self.data()
        f = self.func(SOLVER)
        kw = {"coef": self.args["coef"], "data": self.data_obj, "A_ineq": self.A, "b_ineq": self.b}
        self.ret = self.it.call_func(f, [], {k: kw[k] for k in f.params if k in kw}, self.st, ("<entry>", 0))
        self.o = Outer(self, self.ret)
        self.o.coef_name = "coef" if "coef" in self.o.phi else self.o.coef_name


def run_cases(chk, rule, what, w, fn):
    """fn(decide) -> None or what is wrong, in every undecided case"""
    try:
        res = cases(lambda a: fn(Decide(a)), limit=400)
    except Irregular as e:
        if definite(e.why):
            chk.bad(rule, what, e.where, f"not of the documented form: {e.why}")
        else:
            unresolved(chk, rule, what, e)
        return
    except AnalysisError as e:
        unresolved(chk, rule, what, e)
        return
    for a, bad in res:
        if bad:
            cond = "; ".join(f"{str(k[-1])[:60]}={v}" for k, v in a.items())
            chk.bad(rule, what, w, bad + (f" when {cond}" if cond else ""))
            return
    chk.ok(rule, what)


# ------------------------------------------------------------------ the penalty as a sum over rows
def base_matrix(run):
    return T.diag_matrix(run.P2) if len(run.P2.axes) == 1 else run.P2


def row_weights(ten, P, run):
    """w with P = base + A' diag(w) A, as an expression in the indicators of a row"""
    got = ten.t(P) if isinstance(P, N) else P
    got = T.diag_matrix(got) if len(got.axes) == 1 else got
    extra = idem(T.elementwise(lambda a, b: a - b, got, base_matrix(run)))
    A, i, j = F("A"), T.ix(0), T.ix(1)
    out = sp.Integer(0)
    for e in extra.data.values():
        for term in sp.Add.make_args(sp.expand(e)):
            if term == 0:
                continue
            sums = [f for f in term.atoms(T.SUM) if f in sp.Mul.make_args(term)]
            if len(sums) != 1 or len(sums[0].args) != 2:
                return None, got
            d = sums[0].args[1]
            fs = list(sp.Mul.make_args(sums[0].args[0]))
            pair = [f for f in fs if f.func == A]
            if len(pair) == 1:  # a square
                return None, got
            if len(pair) != 2 or {str(f.args[1]) for f in pair} != {"ix0", "ix1"} or any(f.args[0] != d for f in pair):
                return None, got
            rest = [f for f in fs if f.func != A]
            if any(not is_q(f) for f in rest):
                return None, got
            out += term / sums[0] * sp.Mul(*[f.func(T.ix(0)) for f in rest])
    return sp.expand(out), got


def masks_in(*es):
    out = set()
    for e in es:
        out |= {q for q in e.atoms(sp.core.function.AppliedUndef) if is_q(q)}
    return sorted(out, key=str)


def assignments(qs, rules):
    """values of the indicators of a row that the decided conditions allow"""
    for k in range(2 ** len(qs)):
        a = {q: sp.Integer(k >> i & 1) for i, q in enumerate(qs)}
        if all(r.xreplace(a) == 0 for r in rules):
            yield a


class MonoStop(MonoTen, StopTen):
    """additionally tells the optimality measures apart"""

    def cond(self, n):
        if n.op == "cmp" and n.payload in ("<", "<=", ">", ">="):
            lo, hi, strict = ordered(n, n.payload)
            tol = self.run.args_all["gradient_tol"].vn
            for a, b, pol in ((lo, hi, True), (hi, lo, False)):
                x = self.chosen(a)
                if b.vn == tol and x.op == "index" and is_const(x.args[1], 0) and x.args[0].op == "kcall":
                    self.run.measures[x.args[0].vn] = x.args[0]
                    return self.decide.ask(("small", x.args[0].vn)) == pol
        return super().cond(n)

    def chosen(self, n):
        while n.op in ("phi", "refine"):
            n = n.args[0 if n.op == "refine" or self.cond(n.meta) else 1]
        return n


def mono_case(prog, chk, intercept, p2, offset):
    run = MonoRun(prog, intercept, p2, offset)
    o, w = run.o, run.where(SOLVER)
    tag0 = f"monotonic(intercept={intercept}, P2={p2}, offset={offset})"
    if "P2" not in o.dphi or not all(k in o.phi for k in STATE):
        unresolved(chk, "M1", tag0, "the penalty or the state is not updated in the loop")
        return
    if not run.inner_calls or len({s for *_, s in run.inner_calls}) != 1:
        unresolved(chk, "M1", tag0, "call of the inner solver not found")
        return
    c0, c = T.atom("c0", (caxes(intercept),)), coef_tv(intercept)
    # arrays over the rows that an iteration takes over from the one before
    extra, k = {}, 0
    for key, lp in o.rec["phi"].items():
        if key[0] == "heap" or lp.args[0].op == "absent":
            continue
        try:
            v = MonoTen(Decide({}), run, o, {}).t(lp.args[0])
        except (Irregular, AnalysisError):
            continue
        except Exception as e:
            if type(e).__name__ == "Split":
                continue
            raise
        if v.axes == (rA,):
            extra[lp.vn] = T.TV((rA,), {(0,): F(f"M{k}")(T.ix(0))})
            k += 1
        elif not v.axes:
            extra[lp.vn] = T.scalar(sp.Symbol(f"carried_{key[2]}", positive=True))
    SYM = T.atom("PH", (pA, pA), sym=True)
    for case, PH in (("plain", run.P2), ("general", SYM)):
        tag = f"{tag0}, penalty {case}"
        env = phi_env(run, o, PH)
        env.update(extra)
        if case == "plain":
            env.update({v: T.fill((rA,), sp.Integer(0)) for v, x in extra.items() if x.axes})
        env[o.dphi["P2"].vn] = PH
        ten = lambda d, env=env, PH=PH, case=case: MonoTen(d, run, o, dict(env), PH, case)
        after(chk, run, o, tag, w, ten)
        inner(chk, run, o, tag, w, ten, PH, case)
        stop = lambda d, env=env, PH=PH, case=case: MonoStop(d, run, o, dict(env), PH, case)
        converged(chk, run, o, tag, w, stop, case)
    first = lambda d: MonoTen(d, run, o, {}, None, None)
    before(chk, run, o, tag0, w, first, c0)
    env = phi_env(run, o, SYM)
    env.update(extra)
    env[o.dphi["P2"].vn] = SYM
    check_exit(chk, run, o, tag0, w, lambda d, first: MonoStop(d, run, o, dict(env), SYM, "general", first=first), rule="M5")
    violated(chk, run, o, tag0, w, lambda d: MonoStop(d, run, o, dict(env), SYM, "general"))


def before(chk, run, o, tag, w, ten, c0):
    P = o.dphi["P2"].args[0]
    for k in STATE:
        decide_equal(chk, "M1", f"{tag}: {k} before the first iteration", w, lambda d: ten(d).t(o.phi[k].args[0]),
                     lambda d: form(run, c0, P2=ten(d).t(P))[k])


def after(chk, run, o, tag, w, ten):
    """objective, score and the rest belong to the coefficients and to the penalty the next iteration starts with"""
    P = o.dphi["P2"].args[-1]
    for k in STATE:
        def fn(d, k=k):
            t = ten(d)
            got = fresh_rows(t, o.phi[k].args[-1])
            want = form(run, t.t(o.phi[o.coef_name].args[-1]), P2=t.t(P))[k]
            return T.equal(idem(got), idem(want))
        run_cases(chk, "M1", f"{tag}: {k} after an iteration", w, fn)

    def weights(d):
        t = ten(d)
        e, got = row_weights(t, P, run)
        if e is None:
            if any(x.has(F("PH")) or "PH" in str(x) for x in got.data.values()):
                return "the penalty of the iteration before is kept in the L2 penalty (penalties accumulate)"
            raise Irregular(w, "form of the penalty")
        return indicator_times_strength(e)
    run_cases(chk, "M2", f"{tag}: L2 penalty after an iteration", w, weights)

    def stored(d):
        t = ten(d)
        if "hessian_initialized" not in o.phi:
            return None
        flag = t.branch(o.phi["hessian_initialized"].args[-1])
        if not (flag.payload if is_const(flag) else t.cond(flag)):
            return None
        a = o.phi["active_set"].args[-1]
        H = t.t(N("index", None, (o.phi["hessian"].args[-1], N("call", ("numpy.ix_", 2, ()), (a, a)))))
        s = t.sel(a)
        q = quadratic(run, t.t(o.back_of("old_hessian_rows")), t.t(P))
        return T.equal(idem(H), idem(t.gather_sel(t.gather_sel(q, 0, s, a), 1, s, a)))
    run_cases(chk, "M3", f"{tag}: stored matrix after an iteration", w, stored)


def indicator_times_strength(e):
    """the weight of a row is nothing or one positive strength common to all rows"""
    vals = {sp.simplify(e.xreplace(a)) for a in assignments(masks_in(e), [])} - {sp.Integer(0)}
    if len(vals) > 1:
        return f"rows are penalised with different strengths: {vals}"
    if vals and not next(iter(vals)).is_positive:
        return f"the strength of the penalty is {next(iter(vals))}"
    return None


def rules_of(d, run):
    """row-wise facts from conditions that turned out false: no row is in the mask"""
    return [run.masks_by_str[k[1]] for k, v in d.assumed.items() if k[0] == "rows" and v is False and k[1] in run.masks_by_str]


def inner(chk, run, o, tag, w, ten, PH, case):
    """the inner problem uses the penalty in force, which covers every violated row"""
    state, data, b, _ = run.inner_calls[-1]  # the loop body is gone through until nothing changes
    P = data["P2"]
    c = coef_tv(run.intercept)

    def weights(d):
        t = ten(d)
        e, got = row_weights(t, P, run)
        if e is None:
            if any("PH" in str(x) for x in got.data.values()):
                if case == "general":
                    return "the penalty of the iteration before is used for the inner problem although other rows may be violated"
            raise Irregular(w, "form of the penalty")
        bad = indicator_times_strength(e)
        if bad:
            return bad
        q = violated_atom(run, t, c)
        for a in assignments(sorted(set(masks_in(e)) | {q}, key=str), rules_of(d, run)):
            if a[q] == 1 and e.xreplace(a) == 0:
                return "a violated constraint is not penalised in the inner problem"
        return None
    run_cases(chk, "M2", f"{tag}: L2 penalty of the inner problem", w, weights)

    def score(d):
        t = ten(d)
        return T.equal(idem(t.t(state["score"])), idem(form(run, c, P2=t.t(P))["score"]))
    run_cases(chk, "M1", f"{tag}: score of the inner problem", w, score)

    def objective(d):
        t = ten(d)
        return T.equal(idem(t.t(state["obj_val"])), idem(form(run, c, P2=t.t(P))["obj_val"]))
    run_cases(chk, "M1", f"{tag}: objective the line search starts from", w, objective)
    H = next((v for k, v in b.items() if "hessian" in k.lower()), None)
    if H is None:
        unresolved(chk, "M3", f"{tag}: matrix of the inner problem", "parameter not found")
        return

    def curvature(d):
        t = ten(d)
        s = t.sel(o.phi["active_set"].args[-1])
        q = quadratic(run, t.t(o.back_of("old_hessian_rows")), t.t(P))
        got = t.t(H)
        return T.equal(idem(got), idem(t.gather_sel(t.gather_sel(q, 0, s, H), 1, s, H)))
    run_cases(chk, "M3", f"{tag}: matrix of the inner problem", w, curvature)


def violated_atom(run, t, c):
    v = run.atoms.rename(t.ind(t.violations(c)))
    e = v.data[(0,)]
    return e


def converged(chk, run, o, tag, w, ten, case):
    """the solver stops only where the constraints hold and no constraint that has become slack is still penalised"""
    n, P = o.phi["converged"].args[-1], o.dphi["P2"].args[-1]

    def paths(d):
        t = ten(d)
        t.exhausted = True
        if not (bool(n.payload) if is_const(n) else t.cond(n)):
            return None
        c = t.t(o.phi[o.coef_name].args[-1])
        q = violated_atom(run, t, c)
        v = str(idem(t.violations(c)).data)
        e, got = row_weights(t, P, run)
        rules = rules_of(d, run)
        none = all(a[q] == 0 for a in assignments([q], [r for r in rules if not (set(masks_in(r)) - {q})]))
        small = [k for k, x in d.assumed.items() if k[0] == "exceeds" and k[1] == v and not x and k[2] <= TOL]
        if not small and not none:
            return f"the solver stops although a constraint may be violated by more than {TOL}"
        if e is None:
            raise Irregular(w, "form of the penalty")
        for a in assignments(sorted(set(masks_in(e)) | {q} | set(masks_in(*rules)), key=str), rules):
            if a[q] == 0 and e.xreplace(a) != 0:
                return "the solver stops while a constraint that has become slack is still penalised"
        ok = [k for k, x in d.assumed.items() if k[0] == "small" and x]
        if not ok and not any(k[0] == "stop" and x for k, x in d.assumed.items()):
            return "the solver stops without the gradient being small"
        if not ok:
            if any(k[0] == "rows" and x and k[1] in run.masks_by_str and q not in masks_in(run.masks_by_str[k[1]]) for k, x in d.assumed.items()):
                pass
            return None
        want = form(run, c, P2=t.t(P))["score"]
        why = None
        for k in ok:
            m = run.measures[k[1]]
            b = dict(zip(m.payload[1], m.args))
            why = T.equal(idem(t.t(b["grad"])), idem(T.elementwise(lambda x: -x, want))) or T.equal(idem(t.t(b["coef"])), idem(c))
            if why is None:
                return None
        return f"optimality is judged by the score of another penalty: {why}"
    run_cases(chk, "M4", f"{tag}: when the solver stops", w, paths)


def violated(chk, run, o, tag, w, ten):
    """constraints that are violated in the end are reported"""
    lo, hi = o.rec["events"]
    c = coef_tv(run.intercept)
    ev = [e for i, e in enumerate(run.it.events) if e.kind == "warn" and i >= hi]

    def fn(d):
        t = ten(d)
        v = t.violations(c)
        d.ask(("exceeds", str(idem(v).data), TOL))
        for e in ev:
            if all(self_true(t, g) for g in e.guards if g[0].vn != o.rec["cond"].vn and not before_loop(run, o, g)):
                return None
        if d.assumed[("exceeds", str(idem(v).data), TOL)]:
            return f"constraints violated by more than {TOL} are not reported"
        return None
    run_cases(chk, "M5", f"{tag}: violated constraints are reported", w, fn)


def before_loop(run, o, g):
    return any(x[0].vn == g[0].vn for x in o.rec.get("guards", ())) or run.b.vn in {x.vn for x in walk([g[0]])} and \
        not any(x.op == "loopphi" for x in walk([g[0]]))


def self_true(t, g):
    return t.cond(g[0]) == g[1]


# ------------------------------------------------------------------ rows of the constraints
def opaque(it, name):
    it.nonnull.add(name)
    return N("src", name)


def row_entries(n):
    """{position vn: value} of a row written into zeros, the length it has, or None"""
    out = {}
    while n.op == "inplace" and n.payload in ("setitem", "alias"):
        if n.payload == "alias":
            n = n.args[1]
            continue
        b, i, v = n.args
        if not is_const(v):
            return None
        out.setdefault(i.vn, float(v.payload))
        n = b
    if n.op != "call" or n.payload[0] != "numpy.zeros" or not n.args:
        return None
    return {k: v for k, v in out.items() if v}, n.args[0]


def check_rows(prog, chk):
    """consecutive members of a group are ordered, a single member has a sign"""
    w = None
    for direction, sign in (("increasing", 1.0), ("decreasing", -1.0)):
        tag = f"rows for {direction}"
        it, st = Interp(prog), State()
        it.loose_arrays = True
        it.len_hook = lambda n: None
        f, g, srt = (prog_func(prog, x) for x in ("_build_monotonic_constraints", "_group_columns_by_factor", "_sort_members"))
        if not f or not g or not srt:
            unresolved(chk, "M6", tag, "a function vanished")
            continue
        chk.functions.add(f.qual)
        w = prog_where(prog, f)
        pair = lambda a, b: N("tuple", None, (opaque(it, a), opaque(it, b)))
        three = N("list", None, tuple(pair(f"column{k}", f"index{k}") for k in range(3)))
        one = N("list", None, (pair("column3", "index3"),))
        asked = []

        def groups(it_, b, st_, site):
            asked.append(b)
            return N("dict", ("others1", "others2"), (three, one))

        def order(it_, b, st_, site):
            v = next(iter(b.values()))
            if v.vn == three.vn:  # the order is that of the sorted members
                return N("list", None, (three.args[2], three.args[0], three.args[1]))
            return v
        it.stub[g.qual], it.stub[srt.qual] = groups, order
        names = opaque(it, "names")
        sep = opaque(it, "separator")
        kw = {"feature_names": names, "monotonic": N("dict", ("x",), (const(direction),)), "separator": sep}
        try:
            ret = it.call_func(f, [], {k: v for k, v in kw.items() if k in f.params or k in getattr(f, "kwonly", ())}, st, ("<entry>", 0))
        except AnalysisError as e:
            unresolved(chk, "M6", tag, e)
            continue
        if asked:
            b = asked[-1]
            good = b.get("factor_name") is not None and is_const(b["factor_name"], "x") and b.get("feature_names") is not None and \
                b["feature_names"].vn == names.vn
            chk.test(good, "M6", f"{tag}: columns of the factor are looked up among all columns", w,
                     f"looks up {({k: show(v, 2) for k, v in b.items()})}")
            if "separator" in b:
                chk.test(b["separator"].vn == sep.vn, "M6", f"{tag}: separator of interactions", w, f"separator is {show(b['separator'], 2)}")
        if ret.op != "tuple" or len(ret.args) != 2:
            unresolved(chk, "M6", tag, show(ret, 3))
            continue
        A, rhs = ret.args
        rows = A.args[0] if A.op == "call" and A.payload[0] in ("numpy.vstack", "numpy.array", "numpy.stack", "numpy.asarray") and A.args else None
        if rows is None or rows.op not in ("list", "tuple"):
            unresolved(chk, "M6", f"{tag}: matrix", show(A, 3))
            continue
        col = {k: N("src", f"column{k}").vn for k in range(4)}
        want = [{col[2]: sign, col[0]: -sign}, {col[0]: sign, col[1]: -sign}, {col[3]: -sign}]
        got, long = [], []
        for r in rows.args:
            e = row_entries(r)
            if e is None:
                break
            got.append(e[0])
            long.append(e[1])
        if len(got) != len(rows.args):
            unresolved(chk, "M6", f"{tag}: matrix", show(rows.args[len(got)], 4))
            continue

        def scaled(r):
            m = max([abs(v) for v in r.values()] or [1.0])
            return tuple(sorted((k, v / m) for k, v in r.items()))
        inv = {v: k for k, v in col.items()}
        say = lambda rs: [{f"column{inv.get(k, '?')}": v for k, v in r.items()} for r in rs]
        chk.test(sorted(map(scaled, got)) == sorted(map(scaled, want)), "M6", f"{tag}: matrix", w, f"rows {say(got)} instead of {say(want)}")
        full = all(x.op == "call" and x.payload[0] == "builtins.len" and x.args[0].vn == names.vn for x in long)
        (chk.ok("M6", f"{tag}: one entry per column") if full else unresolved(chk, "M6", f"{tag}: one entry per column", show(long[0], 3)))
        zero = rhs.op == "call" and rhs.payload[0] in ("numpy.zeros", "numpy.zeros_like") or is_const(rhs, 0)
        if zero:
            chk.ok("M6", f"{tag}: right-hand side")
        elif rhs.op == "call" and rhs.payload[0] in ("numpy.ones", "numpy.full", "numpy.ones_like"):
            chk.bad("M6", f"{tag}: right-hand side", w, f"limits are {show(rhs, 3)} instead of zero")
        else:
            unresolved(chk, "M6", f"{tag}: right-hand side", show(rhs, 3))


def check_groups(prog, chk):
    """columns of a factor: exactly those that have it as a factor, together when all other factors and their levels agree"""
    f, g = (prog_func(prog, x) for x in ("_group_columns_by_factor", "_parse_column_name"))
    tag = "columns of a factor"
    if not f or not g or not {"col"} <= set(g.params):
        unresolved(chk, "M9", tag, "a function vanished")
        return
    chk.functions.add(f.qual)
    w = prog_where(prog, f)
    parsed = [[("f", 1)], [("g", 3), ("f", 1)], [("f", 2)], [("ff", 1)], [("f", 2), ("g", 3)], [("g", 4), ("f", 1)], [("g", 3)], [("f", 1), ("h", None)]]
    it, st = Interp(prog), State()
    it.loose_arrays = True
    names = [opaque(it, f"column{k}") for k in range(len(parsed))]
    level = lambda i: const(None) if i is None else opaque(it, f"level{i}")
    pair = lambda a, i: N("tuple", None, (const(a), level(i)))
    sep = opaque(it, "separator")
    seen, seps, events, odd = set(), [], [], []

    def parse(it_, b, st_, site):
        k = [x.vn for x in names].index(b["col"].vn)
        seen.add(k)
        seps.append(b.get("separator"))
        return N("list", None, tuple(pair(*x) for x in parsed[k]))

    def watch(st_, t, n, site, how):
        key = None
        if how == ".append" and n.op == "inplace":
            if t.op == "index":
                key = t.args[1]
            elif t.op in ("call", "mcall") and t.payload[0].split(".")[-1] == "setdefault" and len(t.args) >= 2:
                key = t.args[1]
        if how == ".setdefault" and n.args[-1].op == "list" and not n.args[-1].args:
            pass  # an empty group
        elif key is None and how == ".append" and n.op == "inplace" and t.op in ("list", "inplace"):
            pass  # a local list of factors
        elif key is None or key.op != "tuple" or n.args[-1].op != "tuple" or len(n.args[-1].args) != 2:
            odd.append(how)
        else:
            events.append((tuple(x.vn for x in key.args), tuple(x.vn for x in n.args[-1].args)))
        return mutate(st_, t, n, site, how)
    mutate, it.mutate = it.mutate, watch
    it.stub[g.qual] = parse
    kw = {"feature_names": N("list", None, tuple(names)), "factor_name": const("f"), "separator": sep}
    try:
        it.call_func(f, [], {k: v for k, v in kw.items() if k in f.params or k in getattr(f, "kwonly", ())}, st, ("<entry>", 0))
    except (AnalysisError, ValueError, KeyError) as e:
        unresolved(chk, "M9", tag, e)
        return
    if odd or not events or seen != set(range(len(parsed))):
        unresolved(chk, "M9", tag, f"collected by {sorted(set(odd)) or 'other means'}")
        return
    if all(x is not None for x in seps):
        chk.test(all(x.vn == sep.vn for x in seps), "M9", f"{tag}: separator", w, f"names are split at {show(seps[0], 2)}")
    want, got = {}, {}
    for k, fs in enumerate(parsed):
        own = [i for n, i in fs if n == "f"]
        if own:
            key = tuple(pair(*x).vn for x in fs if x[0] != "f")
            want.setdefault(key, []).append((const(k).vn, level(own[0]).vn))
    for key, m in events:
        got.setdefault(key, []).append(m)
    col = {const(k).vn: f"column{k}" for k in range(len(parsed))}
    say = lambda d: sorted([[col.get(m[0], "?") for m in ms] for ms in d.values()])
    chk.test(say(got) == say(want), "M9", f"{tag}: groups", w, f"columns {say(got)} are ordered together instead of {say(want)}")
    lev = lambda d: sorted(m for ms in d.values() for m in ms)
    chk.test(lev(got) == lev(want), "M9", f"{tag}: positions and levels", w, "a column is not recorded with its own position and level")


def leaves(n):
    if n.op in ("phi", "refine"):
        return [x for a in n.args[:2 if n.op == "phi" else 1] for x in leaves(a)]
    return [n]


def check_order(prog, chk):
    """members keep the order of their columns: the order of the categories, or of the bases of a spline"""
    f = prog_func(prog, "_sort_members")
    if f is None:
        unresolved(chk, "M7", "order of the members", "_sort_members vanished")
        return
    chk.functions.add(f.qual)
    w = prog_where(prog, f)
    it, st = Interp(prog), State()
    m = opaque(it, "members")
    try:
        ret = it.call_func(f, [m], {}, st, ("<entry>", 0))
    except AnalysisError as e:
        unresolved(chk, "M7", "order of the members", e)
        return
    idx = lambda x, k: x.op == "index" and is_const(x.args[1], k) and any(y.vn == m.vn for y in walk([x]))
    for x in leaves(ret):
        while x.op == "call" and x.payload[0] in ("builtins.list", "builtins.tuple") and len(x.args) == 1 or x.op == "mcall" and x.payload[0] == "copy":
            x = x.args[0]
        if x.vn == m.vn:
            chk.ok("M7", "order of the members: labels that are no numbers")
            continue
        if x.op != "call" or x.payload[0] != "builtins.sorted" or x.args[0].vn != m.vn:
            unresolved(chk, "M7", "order of the members", show(x, 4))
            continue
        keys = [k for k in x.args[1:] if k.op not in ("closure", "func")]
        key = keys[-1] if keys else None
        if key is not None and idx(key, 0):
            chk.ok("M7", "order of the members: by column")
        elif key is not None and key.op == "call" and key.payload[0] == "builtins.float" and idx(key.args[0], 1):
            chk.bad("M7", "order of the members: labels that are numbers", w, "levels of an ordered categorical whose labels are numbers are put "
                    "into numerical order instead of the order of the categories")
        elif key is None or any(idx(y, 1) for y in walk([key])):
            chk.bad("M7", "order of the members: labels that are no numbers", w, f"levels of a categorical are ordered by {show(key, 3) if key is not None else 'the index'} "
                    "instead of the order of the categories")
        else:
            unresolved(chk, "M7", "order of the members", show(key, 4))


def check_resolve(prog, chk):
    """the rows are built for the columns of the model"""
    try:
        ci = prog.cls("GeneralizedLinearRegressorBase")
    except AnalysisError:
        ci = None
    f = ci and ci.lookup("_resolve_monotonic_constraints")
    g, r = (prog_func(prog, x) for x in ("_build_monotonic_constraints", "_resolve_monotonic_constraints_from_model_spec"))
    if not f or not g or not r:
        unresolved(chk, "M8", "constraints of an estimator", "a function vanished")
        return
    chk.functions.add(f.qual)
    w = prog_where(prog, f)
    it, st = Interp(prog), State()
    me, seen = opaque(it, "self"), {}

    def spec(it_, b, st_, site):
        seen["spec"] = b
        return opaque(it_, "factors")

    def build(it_, b, st_, site):
        seen["build"] = b
        return N("tuple", None, (opaque(it_, "A"), opaque(it_, "b")))
    it.stub[r.qual], it.stub[g.qual] = spec, build
    try:
        ret = it.call_func(f, [me], {}, st, ("<entry>", 0))
    except AnalysisError as e:
        unresolved(chk, "M8", "constraints of an estimator", e)
        return
    if "spec" not in seen or "build" not in seen:
        unresolved(chk, "M8", "constraints of an estimator", "calls not found")
        return
    attr = lambda n: n.payload if n.op == "getattr" and n.args[0].vn == me.vn else None
    for what, b, k, ok in (("formula", "spec", "model_spec", lambda n: attr(n) == "X_model_spec_"),
                           ("requested directions", "spec", "monotonic_constraints", lambda n: attr(n) == "monotonic_constraints"),
                           ("columns", "build", "feature_names", lambda n: attr(n) == "feature_names_"),
                           ("factors", "build", "monotonic", lambda n: n.op == "src" and n.payload == "factors"),
                           ("separator", "build", "separator", lambda n: attr(n) == "interaction_separator")):
        v = seen[b].get(k)
        if v is None:
            unresolved(chk, "M8", f"constraints of an estimator: {what}", "parameter vanished")
        elif ok(v):
            chk.ok("M8", f"constraints of an estimator: {what}")
        elif attr(v) or is_const(v):
            chk.bad("M8", f"constraints of an estimator: {what}", w, f"{k} receives {show(v, 3)}")
        else:
            unresolved(chk, "M8", f"constraints of an estimator: {what}", show(v, 3))
    out = [x.payload for x in ret.args] if ret.op == "tuple" else None
    if out == ["A", "b"] or ret.op == "src":
        chk.ok("M8", "constraints of an estimator: result")
    else:
        unresolved(chk, "M8", "constraints of an estimator: result", show(ret, 3))


def prog_where(prog, f):
    return f"{prog.rel(f.module.path)}:{f.node.lineno}"


def check_monotonic(prog, chk, tier):
    chk.rules = ["M1 objective, score, working quantities of the state belong to the coefficients and the L2 penalty in force, at every use",
                 "M2 the penalty is P2 plus a common positive strength times A'A over penalised rows, among them every violated one (never accumulated)",
                 "M3 the matrix of the inner problem contains that penalty; a stored matrix of another penalty is not reused",
                 "M4 the solver stops only with violations within tolerance, no slack row penalised, and a small gradient of that very problem",
                 "M5 results, iteration limit, and warnings for non-convergence and violated constraints",
                 "M6 rows order consecutive members of a group (a single one gets a sign), right-hand side zero",
                 "M7 members are ordered as their columns are",
                 "M8 the rows are built from the fitted formula's columns",
                 "M9 a factor's columns are those that have it, grouped by all other factors and their levels"]
    full = tier == "thorough"
    items = [(ic, p2, off) for ic in (True, False) for p2 in ("vector", "matrix", "sparse") for off in ((False, True) if full else (ic,))]
    for f in (SOLVER, "_build_monotonic_penalty"):
        g = prog_func(prog, f)
        if g:
            chk.functions.add(g.qual)

    def work(it, sub):
        try:
            if it == "rows":
                check_rows(prog, sub)
            elif it == "order":
                check_order(prog, sub)
            elif it == "resolve":
                check_resolve(prog, sub)
            elif it == "groups":
                check_groups(prog, sub)
            else:
                mono_case(prog, sub, *it)
        except AnalysisError as e:
            unresolved(sub, "M1", f"monotonic{it}", e)

    split(chk, items + ["rows", "order", "resolve", "groups"], work)
    for r, n in (("M1", 40), ("M2", 8), ("M3", 8), ("M4", 4), ("M5", 14), ("M6", 4)):
        chk.need(r, n)
