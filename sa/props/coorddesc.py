"""The compiled kernels of the solvers: coordinate descent, the optimality measure, active rows."""
from __future__ import annotations

import copy

from ..algebra import sp
from ..cykern import Facts, Kern, Mem, Opq, cases
from ..parallel import split
from ..program import AnalysisError
from ..symexec import Irregular, Split

F = sp.Function
I = sp.Integer
N = sp.Symbol("LEN_active_set_0", integer=True, nonnegative=True)
CD, SUBGRAD, ROWS = "enet_coordinate_descent_gram", "_norm_min_subgrad", "identify_active_rows"


def axioms(name, idx, v):
    """what the callers guarantee about the inputs"""
    if name == "active_set":
        return [(">=", v)]
    if name == "P1":
        return [(">=", v)]
    return []


def injective(e, i):
    return str(getattr(e, "func", "")) == "active_set" and e.args == (i,)


def alternatives(cm, name, bind, facts=()):
    pool = {}
    out = []

    def one(assumed):
        fs = Facts(assumed)
        for op, e in facts:
            fs.lin.add(op, e)
        k = Kern(cm, fs, axioms, pool)
        k.inj = injective
        r = k.run(name, dict(bind))
        state = {m.name: (m.base, list(m.stores)) for m in k.mems.values()}
        return k, r, state
    for a, (k, r, state) in cases(one):
        out.append((a, k, r, state))
    return out


def under(path, fn):
    """fn(facts) in every alternative that the path leaves open; False as soon as one fails"""
    def one(assumed):
        fs = Facts(assumed, path.facts.lin)
        fs.ne |= path.facts.ne
        fs.abs = dict(path.facts.abs)
        return fn(fs)
    return [r for _, r in cases(one)]


def elem(name, i):
    return F(name)(i)


def maximum(fs, *xs):
    m = xs[0]
    for x in xs[1:]:
        m = x if fs.rel(">", x, m) else m
    return m


# ------------------------------------------------------------------ coordinate descent
class Sweep:
    """one coordinate update"""

    def __init__(self, chk, tag, k, rec, ic, lb, ub, random):
        self.chk, self.tag, self.k, self.rec = chk, tag, k, rec
        self.ic, self.lb, self.ub, self.random = ic, lb, ub, random
        self.where = k.where(rec.node)

    def pre(self, name):
        return self.rec.pre_mem.get(name, name)

    def coordinate(self, p):
        inner = {r.sym for r in self.k.loops if r is not self.rec and hasattr(r, "sym")}
        idx = []
        for m, i, node, kind, lin in p.accesses:
            if m.name == "active_set" and kind == "read" and not (i[0].free_symbols & inner) and i[0] not in idx:
                idx.append(i[0])
        return idx

    def target(self, fs, a):
        ii = elem("active_set", a)
        Q = F("Q")(a, a)
        w, q = elem(self.pre("w"), ii), elem(self.pre("q"), ii)
        r = Q * w - q
        first = self.ic and fs.rel("<", ii, 1)
        P = I(0) if first else elem("P1", ii - self.ic)
        if not first:
            fs.lin.add(">=", P)
        if fs.rel(">", r, P):
            s = (r - P) / Q
        elif fs.rel("<", r, -P):
            s = (r + P) / Q
        else:
            s = I(0)
        if not first:
            lo, hi = elem("lower_bounds", ii - self.ic), elem("upper_bounds", ii - self.ic)
            if self.lb and self.ub:  # bounds that cross admit no coefficient at all
                for c in (I(1), Q):
                    fs.lin.add(">=", c * (hi - lo))
            if self.lb and fs.rel("<=", s, lo):
                s = lo
                if self.ub and fs.rel("==", lo, hi):
                    fs.lin.add("==", Q * (hi - lo))
            elif self.ub and fs.rel(">=", s, hi):
                s = hi
        return w, s

    def check(self, eps):
        chk, tag = self.chk, self.tag
        bad = {}
        ok = 0
        note = lambda rule, what, detail: bad.setdefault((rule, what), detail)
        for p in self.rec.paths:
            idx = self.coordinate(p)
            if len(idx) != 1:
                raise Irregular(self.where, f"{len(idx)} coordinates in one step")
            a = idx[0]
            lin = p.facts.lin
            if not self.random:
                s = self.rec.sym
                lo, n = self.rec.lo, self.rec.count
                if sp.expand(a - s) == 0 and lo == 0 and sp.expand(n - N) == 0 or sp.expand(a + s - n + 1) == 0 and lo == 0 and sp.expand(n - N) == 0:
                    pass
                elif a.free_symbols - {s, N}:
                    raise Irregular(self.where, f"coordinate {a}")
                else:
                    note("K1", "cyclic order visits every active coordinate", f"coordinate {a} for {s} from {lo} to {n}")
            elif not (lin.entails(">=", a) and lin.entails(">", N - a)):
                note("K1", "random coordinates are active ones", f"coordinate {a} is not known to lie in the active set")
            elif lin.entails(">=", N - a - 2) or lin.entails(">=", a - 1):
                note("K1", "random coordinates are drawn", f"coordinate {a} is never the first or the last active one")
            elif a.is_number or a == self.rec.sym:
                note("K1", "random coordinates are drawn", f"coordinate is {a}")
            if p.exit != "normal":
                note("K1", "a sweep visits every coordinate", f"the sweep is left ({p.exit}) at coordinate {a}")
            ii = elem("active_set", a)
            w0 = self.pre("w")
            stores = {}
            for name, (base, st) in p.mems.items():
                if name not in ("w", "q") and (st and name in self.rec.pre_mem or base != name and name in self.rec.pre_mem):
                    note("K1", "only the coefficients and the gradient change", f"{name} is modified")
                stores[name] = (base, st)
            wb, ws = stores.get("w", (w0, []))
            qb, qs = stores.get("q", (self.pre("q"), []))
            if wb != w0 or any(x[0] != "pt" for x in ws):
                raise Irregular(self.where, "coefficients changed in a loop")
            flat = lin.entails(">=", eps - F("Q")(a, a))
            if flat:
                if ws or qs:
                    note("K1", "flat coordinates stay", "a coordinate without curvature is changed")
                ok += 1
                continue
            if not lin.entails(">", F("Q")(a, a) - eps):
                raise Irregular(self.where, "curvature of the coordinate not compared with the threshold")
            if any(sp.expand(x[1][0] - ii) != 0 for x in ws):
                note("K1", "only the chosen coordinate changes", f"stores at {[str(x[1][0]) for x in ws]}")
                continue
            new = ws[-1][2] if ws else elem(w0, ii)

            def f(fs):
                fs.lin.add(">", F("Q")(a, a))
                w, want = self.target(fs, a)
                if not fs.equal(new, want):
                    return "step", f"new value {fs.resolve(new)} instead of {want}"
                return self.gradient(fs, a, w, want, qb, qs)
            for r in under(p, f):
                if r is not None:
                    note("K2" if r[0] == "gradient" else "K1", {"step": "minimiser of the coordinate's model", "gradient": "gradient follows the step"}[r[0]], r[1])
            ok += 1
        for rule, what in (("K1", "cyclic order visits every active coordinate" if not self.random else "random coordinates are active ones"),
                           ("K1", "a sweep visits every coordinate"),
                           ("K1", "random coordinates are drawn"), ("K1", "only the coefficients and the gradient change"),
                           ("K1", "flat coordinates stay"), ("K1", "only the chosen coordinate changes"),
                           ("K1", "minimiser of the coordinate's model"), ("K2", "gradient follows the step")):
            if what == "random coordinates are drawn" and not self.random:
                continue
            chk.test((rule, what) not in bad, rule, f"{tag}: {what}", self.where, bad.get((rule, what), f"{ok} paths"))

    def gradient(self, fs, a, w, new, qb, qs):
        """q afterwards is q before plus (step) times the coordinate's column, on all active coordinates"""
        q0 = self.pre("q")
        step = new - w
        if not qs and qb == q0:
            if fs.equal(new, w):
                return None
            return "gradient", "the gradient is not updated although the coefficient changed"
        if qb != q0:
            raise Irregular(self.where, "gradient update not understood")
        if len(qs) != 1 or qs[0][0] != "all":
            raise Irregular(self.where, "gradient stores not understood")
        _, b, cnt, idx, val = qs[0]
        if sp.expand(cnt - N) != 0 or self.loop_low(b) != 0:
            return "gradient", f"only coordinates {self.loop_low(b)} to {cnt} of the active set are updated"
        if sp.expand(idx[0] - elem("active_set", b)) != 0:
            if not idx[0].atoms(sp.core.function.AppliedUndef):
                return "gradient", f"the update of coefficient active_set(b) is stored at {idx[0]}"
            raise Irregular(self.where, f"gradient stored at {idx[0]}")
        for col in (F("Q")(a, b), F("Q")(b, a)):
            if fs.equal(val, elem(q0, elem("active_set", b)) + step * col):
                return None
        return "gradient", f"gradient becomes {fs.resolve(val)} where the step is {step}"

    def loop_low(self, b):
        for r in self.k.loops:
            if getattr(r, "sym", None) == b:
                return r.lo
        return None


# ------------------------------------------------------------------ optimality measure
def measure_roles(chk, k, rec, ic, lb, ub, coef, grad):
    """which carried variables are the sum and the maximum of the minimal subgradients; {role: var} and complaints"""
    if rec.var is None or sp.expand(rec.count - N) != 0 or rec.lo != 0:
        if rec.var is None or not isinstance(rec.count, sp.Basic):
            raise Irregular(k.where(rec.node), "loop over something else than the active set")
        return {}, {"sum": f"coordinates {rec.lo} to {rec.count} of the active set", "max": "see the sum"}
    i = elem("active_set", rec.sym)
    wrong = {}
    roles = {}
    for var, v0 in sorted(rec.pre_scal.items()):
        for role in ("sum", "max"):
            msg = None
            for p in rec.paths:
                got = p.scal.get(var, v0)

                def f(fs):
                    first = ic and fs.rel("<", i, 1)
                    if first:
                        gs = [abs_(fs, elem(grad, i)), abs_(fs, elem(grad, I(0)))]
                        fs.lin.add("==", gs[0] - gs[1])  # the intercept is coefficient 0
                        want = [gs[0], v0 + gs[0] if role == "sum" else maximum(fs, v0, gs[0])]
                    else:
                        c, g, P = elem(coef, i), elem(grad, i), elem("P1", i - ic)
                        fs.lin.add(">=", P)
                        if fs.rel("==", c, 0):
                            t = g - P if fs.rel(">", g, P) else g + P if fs.rel("<", g, -P) else I(0)
                        else:
                            t = g + P if fs.rel(">", c, 0) else g - P
                        if lb and fs.rel("==", c, elem("lower_bounds", i - ic)) and fs.rel(">", t, 0):
                            t = I(0)
                        if ub and fs.rel("==", c, elem("upper_bounds", i - ic)) and fs.rel("<", t, 0):
                            t = I(0)
                        t = abs_(fs, t)
                        want = [v0 + t if role == "sum" else maximum(fs, v0, t)]
                    if isinstance(got, sp.Basic) and any(fs.equal(got, x) for x in want):
                        return None
                    return f"{fs.resolve(got) if isinstance(got, sp.Basic) else got} instead of {want[-1]}"
                for r in under(p, f):
                    if r is not None:
                        msg = msg or r
                if msg:
                    break
            if msg is None:
                roles.setdefault(role, var)
                break
            wrong.setdefault(role, {})[var] = msg
    return roles, wrong


def abs_(fs, x):
    return x if fs.rel(">=", x, 0) else -x


def check_measure(chk, cm, ic, lb, ub):
    tag = f"optimality measure(intercept={bool(ic)}, lower={bool(lb)}, upper={bool(ub)})"
    bind = {"intercept": I(ic), "has_lower_bounds": I(lb), "has_upper_bounds": I(ub)}
    alts = alternatives(cm, SUBGRAD, bind)
    if len(alts) != 1:
        chk.undecided("K3", tag, f"{len(alts)} alternatives")
        return
    _, k, ret, state = alts[0]
    if not isinstance(ret, tuple) or len(ret) != 2 or not k.loops:
        chk.undecided("K3", tag, f"returns {ret}")
        return
    recs = [r for r in k.loops if r.parent is None]
    if len(recs) != 1:
        chk.undecided("K3", tag, f"{len(recs)} loops")
        return
    rec = recs[0]
    w = k.where(rec.node)
    roles, wrong = measure_roles(chk, k, rec, ic, lb, ub, "coef", "grad")
    after = {str(v) + "'": name for name, v in rec.pre_scal.items()}
    for pos, role in enumerate(("sum", "max")):
        name = after.get(str(ret[pos]))
        what = f"{tag}: {'sum' if role == 'sum' else 'largest'} of the minimal subgradients"
        if name is None and ret[pos] is sp.oo and role == "max" and not ic:  # nothing is ever left out
            chk.ok("K3", what)
            continue
        if name is None:
            chk.undecided("K3", what, f"returns {ret[pos]}")
            continue
        chk.test(roles.get(role) == name, "K3", what, w, "an iteration gives " + str(wrong.get(role, {}).get(name, wrong.get(role) or f"{name} plays another role")))
        v0 = rec.before_scal.get(name)
        if v0 is None:
            chk.undecided("K3", what + ": start", "start value unknown")
            continue
        good = {sp.Integer(0)} | ({sp.oo} if role == "max" and not ic else set())
        if ic and first_sets(rec, name, v0):  # the intercept comes first in the active set and sets the value
            good.add(v0)
        chk.test(v0 in good, "K3", what + ": start", w, f"starts at {v0}")
    written = [n for n, (b, s) in state.items() if s or b != n]
    chk.test(not written, "K3", f"{tag}: inputs unchanged", w, f"{written} modified")


def first_sets(rec, name, v0):
    """with an intercept the first coordinate replaces the value"""
    x = rec.pre_scal[name]
    for p in rec.paths:
        if p.facts.lin.entails(">", 1 - elem("active_set", rec.sym)):
            v = p.scal.get(name, x)
            if not isinstance(v, sp.Basic) or x in v.free_symbols:
                return False
    return True


def check_cd(chk, cm, ic, lb, ub, random):
    tag = f"coordinate descent(intercept={bool(ic)}, lower={bool(lb)}, upper={bool(ub)}, {'random' if random else 'cyclic'})"
    eps = sp.Symbol("eps")
    alts = alternatives(cm, CD, {"intercept": I(ic), "has_lower_bounds": I(lb), "has_upper_bounds": I(ub), "random": I(random)}, [(">=", eps)])
    k = alts[0][1]
    sweeps = [r for r in k.loops if r.parent is not None and any("w" in p.mems and p.mems["w"] != (r.pre_mem.get("w", "w"), []) for p in r.paths)]
    # the innermost loop in which coefficients change
    sweeps = [r for r in sweeps if any(x[0] == "pt" for p in r.paths for x in p.mems["w"][1])] or sweeps
    sites = {id(r.node) for r in sweeps if r.parent.parent is None}
    if len(sites) != 1:
        chk.undecided("K1", tag, f"{len(sites)} sweeps over the coordinates")
        return
    rec = [r for r in sweeps if r.parent.parent is None][-1]
    try:
        Sweep(chk, tag, k, rec, ic, lb, ub, random).check(eps)
    except Irregular as e:
        chk.undecided("K1", f"{tag}: coordinate update", e)
    outer = rec.parent
    outer = [r for r in k.loops if r.node is outer.node][-1]
    w = k.where(outer.node)
    after_w, after_q = rec.pre_mem.get("w", "w") + "'", rec.pre_mem.get("q", "q") + "'"
    checks = [r for r in k.loops if r.parent is not None and r.parent.node is outer.node and r.node is not rec.node]
    names = set()
    wrong_all = {}
    for r in checks:
        try:
            roles, wrong = measure_roles(chk, k, r, ic, lb, ub, after_w, after_q)
        except Irregular as e:
            chk.undecided("K4", f"{tag}: optimality measure", e)
            return
        if "sum" in roles:
            names.add(str(r.pre_scal[roles["sum"]]) + "'")
        wrong_all = wrong
    breaks = [p for p in outer.paths if p.exit == "break"]
    tol = sp.Symbol("tol")
    if not breaks or not checks:
        chk.undecided("K4", f"{tag}: leaving", "no early exit from the sweeps")
        return
    chk.test(bool(names), "K4", f"{tag}: optimality measure of the current coefficients and gradient", k.where(checks[0].node),
             f"no carried variable is the sum of the minimal subgradients: {str(wrong_all)[:300]}")
    if not names:
        return
    norms = [sp.Symbol(n) for n in sorted(names)]
    bad = [p for p in breaks if not any(p.facts.lin.entails(">=", tol - n) for n in norms)]
    chk.test(not bad, "K4", f"{tag}: sweeps end early only below the tolerance", w,
             "leaves when " + "; ".join(f"{key[-1]} {key[0]} 0 is {v}" for key, v in (bad[0].assumed if bad else {}).items()))
    if outer.var is not None:
        last = outer.count - 1 - outer.sym
        skipped = [p for p in outer.paths if p.exit == "normal" and not any(n in {x for v in p.scal.values() if isinstance(v, sp.Basic) for x in v.free_symbols} for n in norms)]
        bad = [p for p in skipped if not (last in p.facts.ne or sp.expand(-last) in p.facts.ne or p.facts.lin.entails(">", last))]
        chk.test(not bad, "K4", f"{tag}: the last sweep measures optimality", w, "the returned measure can be of earlier coefficients")
    # report
    left = [key for key in {key for a, *_ in alts for key in a} if key[0] == "left by break"]
    if len(left) == 1:
        for a, k1, ret, state in alts:
            warns = [e for e in k1.events if e[0] == "warn"]
            chk.test(bool(warns) == (not a[left[0]]), "K5", f"{tag}: missing convergence is reported ({'left early' if a[left[0]] else 'exhausted'})", w,
                     f"{len(warns)} warnings")
            check_return(chk, tag, k1, ret, outer, norms, w)
    else:
        chk.undecided("K5", f"{tag}: missing convergence is reported", "exits of the loop not understood")


def check_return(chk, tag, k, ret, outer, norms, w):
    if not isinstance(ret, tuple) or len(ret) < 5:
        chk.undecided("K5", f"{tag}: result", f"returns {ret}")
        return
    chk.test(isinstance(ret[0], Mem) and ret[0].name == "w", "K5", f"{tag}: returned coefficients", w, f"returns {ret[0]}")
    carried = {str(v) + "'" for p in outer.paths for n, v in outer.pre_scal.items() if p.scal.get(n) in norms}
    chk.test(str(ret[1]) in carried, "K5", f"{tag}: returned measure", w, f"returns {ret[1]}")
    if outer.var is not None:
        it = sp.Symbol(str(outer.sym) + "'", integer=True)
        d = sp.expand(ret[4] - it) if isinstance(ret[4], sp.Basic) else None
        if d is not None and d.is_number:
            chk.test(d == 1, "K5", f"{tag}: returned number of sweeps", w, f"returns {ret[4]} (the loop index is {it})")
        else:
            chk.undecided("K5", f"{tag}: returned number of sweeps", f"{ret[4]}")


# ------------------------------------------------------------------ active rows
def check_rows(chk, cm):
    tag = "active rows"
    C = sp.Symbol("C")
    alts = alternatives(cm, ROWS, {"C": C}, [(">=", C)])
    if len(alts) != 1:
        chk.undecided("K6", tag, f"{len(alts)} alternatives")
        return
    _, k, ret, state = alts[0]
    f = cm.functions[ROWS]
    if not isinstance(ret, tuple) or len(ret) != 2 or not isinstance(ret[0], Mem):
        chk.undecided("K6", tag, f"returns {ret}")
        return
    diff = ret[0]
    n = None
    recs = [r for r in k.loops if r.parent is None and r.var is not None]
    def has_max(r):
        return any(str(m.func) == "MAXOVER" for p in r.paths for f_, _, _ in p.facts.lin.facts for t, _ in f_
                   for m in t.atoms(sp.core.function.AppliedUndef))
    filt = [r for r in recs if diff.name in r.pre_mem and "hessian_rows" in r.pre_mem]
    if not filt:  # one of the two is never written
        filt = [r for r in recs if has_max(r)]
    if len(filt) != 1:
        chk.undecided("K6", tag, f"{len(filt)} loops that drop rows")
        return
    rec = filt[0]
    w = k.where(rec.node)
    i = rec.sym
    h, o = elem("hessian_rows", i), elem("old_hessian_rows", i)
    base, st = rec.mem0.get(diff.name) or (diff.base, diff.stores)
    hbase, hst = rec.mem0.get("hessian_rows") or ("hessian_rows", [])
    init = None
    for s in reversed(st):
        if s[0] == "all" and s[3] == (s[1],):
            init = s[4].xreplace({s[1]: i})
            cover = s[2]
            break
    if init is None:
        chk.undecided("K6", f"{tag}: change of the rows", "not a single expression")
        return
    chk.test(sp.expand(init - (h - o)) == 0, "K6", f"{tag}: change since the row was last used", w, f"change is {init}")
    lens = {sp.Symbol(f"LEN_{x}_0", integer=True, nonnegative=True) for x in ("hessian_rows", "old_hessian_rows", "gradient_rows")}
    chk.test(cover in lens and rec.count in lens and rec.lo == 0, "K6", f"{tag}: every row", w, f"rows {rec.lo} to {rec.count}, changes for {cover}")
    chk.test(hbase == "hessian_rows" and not hst, "K6", f"{tag}: rows unchanged before the selection", w, "hessian_rows modified")
    e0 = F(rec.pre_mem[diff.name])(i) if diff.name in rec.pre_mem else init
    h0 = F(rec.pre_mem["hessian_rows"])(i) if "hessian_rows" in rec.pre_mem else h
    # the largest absolute change
    maxes = {m for p in rec.paths for f_, _, _ in [x for x in p.facts.lin.facts] for t, _ in f_ for m in t.atoms(sp.core.function.AppliedUndef) if str(m.func) == "MAXOVER"}
    known = {h, o, F(rec.pre_mem.get("hessian_rows", "hessian_rows"))(i), F(rec.pre_mem.get(diff.name, diff.name))(i)}
    if not maxes and len(rec.paths) > 1 and {t for p in rec.paths for f_, _, _ in p.facts.lin.facts for t_, _ in f_
                                             for t in t_.atoms(sp.core.function.AppliedUndef) if str(t.func) != "ABS"} <= known:
        chk.test(False, "K6", f"{tag}: largest change", w, "rows are left out without regard to the largest change")
        return
    if len(maxes) != 1:
        chk.undecided("K6", f"{tag}: largest change", f"{len(maxes)} maxima")
        return
    M = maxes.pop()
    args = M.args
    cand = {x.xreplace({args[1]: i}) for x in args[3:]}
    okmax = args[0] == 0 and args[2] in lens and (
        {sp.expand(x - (h - o)) for x in cand} & {I(0)} and {sp.expand(x + (h - o)) for x in cand} & {I(0)} and len(cand) == 2
        or len(cand) == 1 and str(list(cand)[0].func) == "ABS" and sp.expand(list(cand)[0].args[0] ** 2 - (h - o) ** 2) == 0)
    chk.test(bool(okmax), "K6", f"{tag}: largest change", w, f"largest of {sorted(map(str, cand))} over {args[2]} rows from {args[0]}")
    kept = dropped = True
    for p in rec.paths:
        sd = [x for x in p.mems[diff.name][1]] if diff.name in rec.pre_mem else []
        sh = [x for x in p.mems["hessian_rows"][1]] if "hessian_rows" in rec.pre_mem else []
        nd = sd[-1][2] if sd else e0
        nh = sh[-1][2] if sh else h0
        if any(x[0] != "pt" or x[1] != (i,) for x in sd + sh):
            chk.undecided("K6", f"{tag}: selection", "stores at other rows")
            return

        def g(fs):
            fs.lin.add(">=", M)
            a = abs_(fs, e0)
            keep = fs.equal(nd, e0) and fs.equal(nh, h0)
            drop = fs.equal(nd, I(0)) and fs.equal(nh, o)
            if fs.rel("<", a, C * M):
                return ("drop", drop)
            if fs.rel(">", a, C * M):
                return ("keep", keep)
            return ("either", keep or drop)
        for kind, ok in under(p, g):
            if not ok:
                if kind == "keep":
                    kept = False
                else:
                    dropped = False
    chk.test(kept, "K6", f"{tag}: large changes are used", w, "a row whose change is at least C times the largest is not left as it is")
    chk.test(dropped, "K6", f"{tag}: small changes are postponed", w, "a row that is left out does not keep its old weight, or its change")
    # the list of rows
    t = repr(ret[1])
    cmps = find(ret[1], "cmp:")
    if not cmps or not find(ret[1], "where") and not find(ret[1], "nonzero"):
        chk.undecided("K6", f"{tag}: list of rows", t[:100])
    else:
        c = cmps[0]
        ok = c.what in ("cmp:NotEq",) and any(isinstance(x, Mem) and x.name == diff.name for x in c.args) and any(x == 0 for x in c.args if isinstance(x, sp.Basic))
        chk.test(ok, "K6", f"{tag}: list of rows", w, f"rows selected by {c.what}")


def find(v, what, out=None):
    out = [] if out is None else out
    if isinstance(v, Opq):
        if what in v.what:
            out.append(v)
        for a in v.args:
            find(a, what, out)
    elif isinstance(v, tuple):
        for a in v:
            find(a, what, out)
    return out


def check_kernels(prog, chk, tier):
    chk.rules = ["K1 one coordinate step replaces an active coefficient by the minimiser of the penalised, bounded quadratic model along it",
                 "K2 the gradient of the model is updated on every active coordinate by step times the coordinate's column",
                 "K3 the optimality measure is the sum (and maximum) of the minimal subgradients over the active set, zero against active bounds",
                 "K4 sweeps stop early only if the measure at the current coefficients is below the tolerance",
                 "K5 exhausted sweeps are reported; the returned values are those of the last sweep",
                 "K6 rows left out of a Hessian update are those with small changes, and keep their old weight"]
    cm = prog.pyx("glum._cd_fast")
    items = [("cd", ic, lb, ub, r) for ic in (1, 0) for lb in (1, 0) for ub in (1, 0) for r in ((0, 1) if lb == ub else (0,))]
    items += [("measure", ic, lb, ub, 0) for ic in (1, 0) for lb in (1, 0) for ub in (1, 0)] + [("rows", 0, 0, 0, 0)]

    def work(it, sub):
        kind, ic, lb, ub, r = it
        try:
            if kind == "cd":
                check_cd(sub, cm, ic, lb, ub, r)
            elif kind == "measure":
                check_measure(sub, cm, ic, lb, ub)
            else:
                check_rows(sub, cm)
        except (Irregular, Split) as e:
            sub.undecided("K", f"{kind}{(ic, lb, ub, r)}", e)
    split(chk, items, work)
    chk.functions |= {f"_cd_fast.{n}" for n in cm.functions}
    for r, n in (("K1", 40), ("K2", 8), ("K3", 16), ("K4", 16), ("K5", 16), ("K6", 5)):
        chk.need(r, n)
