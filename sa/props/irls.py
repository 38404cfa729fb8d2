"""The iteratively reweighted least squares solvers: invariants of the state across iterations."""
from __future__ import annotations

import copy

from .. import tensor as T
from ..algebra import sp
from ..engine import Interp, State
from ..nodes import FALSE, NONE, TRUE, N, const, is_const, show
from ..parallel import split
from ..program import AnalysisError
from ..symexec import Decide, Irregular, Split, cases
from .fitting import carries
from .inference import decide_equal, definite, unresolved
from .postfit import Named, hook_default, nA, pA

F = sp.Function


def walk(roots):
    """nodes an expression is built from (not through the variables of loops)"""
    seen, todo = set(), list(roots)
    while todo:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        if n.op != "loopphi":
            todo += list(n.args)
        if n.op in ("phi", "refine") and isinstance(n.meta, N):
            todo.append(n.meta)


def caxes(intercept):
    return (("1",) if intercept else ()) + pA


def coef_tv(intercept):
    return T.atom("c", (caxes(intercept),))


def design(intercept):
    X = T.atom("X", (nA, pA))
    return T.concat([T.fill((nA, ("1",)), sp.Integer(1)), X], 1) if intercept else X


def decide_bool(chk, rule, construct, where, ok, detail):
    chk.test(ok, rule, construct, where, detail)


def strip_ic(v, intercept):
    return T.take(v, 0, [1], False) if intercept else v


def pad(v, intercept):
    """a penalty (vector or matrix) extended by zeros for the intercept"""
    if not intercept:
        return v
    for k in range(len(v.axes)):
        z = T.fill(v.axes[:k] + (("1",),) + v.axes[k + 1:], sp.Integer(0))
        v = T.concat([z, v], k)
    return v


class SolverRun:
    """One abstract call of a solver on symbolic data"""

    def __init__(self, prog, intercept, p2="vector", offset=False, bounds=False):
        self.p, self.intercept, self.p2 = prog, intercept, p2
        self.it, self.st = Interp(prog), State()
        self.it.loose_arrays = True
        self.env, self.calls = {}, []
        q = self.qual("get_one_over_variance")
        if q:
            self.it.stub[q] = lambda it, b, st, site: N("call", ("contract.one_over_variance", 3, ()), (
                b["mu"], b["dispersion"], b["sample_weight"]), site)
        self.P2 = {"vector": T.atom("P2", (pA,)), "diag": T.diag_matrix(T.atom("P2", (pA,))), "zero": T.fill((pA, pA), sp.Integer(0)),
                   "zerovector": T.fill((pA,), sp.Integer(0))}.get(p2, T.atom("P2", (pA, pA), sym=True))
        self.sparse_p2 = p2 in ("sparse", "diag", "zero")
        self.offset = T.atom("off", (nA,)) if offset else None
        vals = dict(X=T.atom("X", (nA, pA)), y=T.atom("y", (nA,)), sample_weight=T.atom("w", (nA,)), P1=T.atom("P1", (pA,)),
                    P2=self.P2, offset=self.offset, lower_bounds=T.atom("lb", (pA,)) if bounds else None,
                    upper_bounds=T.atom("ub", (pA,)) if bounds else None)
        self.bounds = bounds
        self.args = {k: NONE if v is None else self.src(k, v) for k, v in vals.items()}
        self.args_all = self.args
        self.args["fit_intercept"] = const(intercept)
        for k in ("family", "link", "inner"):
            self.args[k] = N("src", k)
            self.it.nonnull.add(k)
        self.args["coef"] = self.src("coef", T.atom("c0", (caxes(intercept),)))

    def src(self, name, tv):
        n = N("src", "arg:" + name)
        self.env[n.vn] = tv
        self.it.nonnull.add(n.payload)
        (self.it.arrays if tv.axes else self.it.scalars).add(n.vn)
        return n

    def qual(self, name):
        for m in self.p.modules.values():
            if name in m.functions:
                return m.functions[name].qual
        return None

    def func(self, name):
        for m in self.p.modules.values():
            if name in m.functions:
                return m.functions[name]
        raise AnalysisError(f"{name} vanished")

    def data(self, **over):
        ci = self.p.cls("IRLSData")
        o = self.it.new_obj(ci, "data")
        self.st.heap[o.payload[0]] = {}
        kw = {}
        for f, ann, d in ci.fields:
            if f in over:
                kw[f] = over[f]
            elif f in self.args:
                kw[f] = self.args[f]
            else:
                kw[f] = self.args[f] = N("src", "arg:" + f)
                self.it.scalars.add(kw[f].vn)
                if f not in ("step_size_tol", "fixed_inner_tol"):
                    self.it.nonnull.add("arg:" + f)
                if f in ("max_iter", "max_inner_iter", "gradient_tol", "step_size_tol", "hessian_approx"):
                    self.env[kw[f].vn] = T.scalar(sp.Symbol(f, positive=True))
        self.it.dataclass_init(ci, o, [], kw, self.st, ("<entry>", 0))
        self.oid_data = o.payload[0]
        return o

    def where(self, name):
        f = self.func(name)
        return f"{self.p.rel(f.module.path)}:{f.node.lineno}"


class Sel:
    """an index array: entries ("one", position) and ("many", tag, offset)"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def shift(self, k):
        return Sel([(p[0], p[1] + k) if p[0] == "one" else (p[0], p[1], p[2] + k) for p in self.parts])


class SolverTen(Named):
    """arrays inside a solver; family and link methods stand for their verified contracts"""

    def __init__(self, decide, run, extra=None):
        super().__init__(decide, {**run.env, **(extra or {})}, None, self.solver_hook)
        self.run = run
        self.masks = {}
        self.loops = {}  # loopphi vn -> record of the loop it belongs to
        for r in run.it.loop_log:
            for lp in r["phi"].values():
                self.loops[lp.vn] = r
        self.exhausted = True  # reading a loop variable after the loop has run out
        self.stale = {}  # loopphi vn of matrices known on old active columns only -> TV

    # ---------------------------------------------------------------- contracts
    def margs(self, n, cls):
        """argument nodes of a method call by parameter name"""
        m, npos, kws = n.payload[:3]
        f = self.run.p.cls(cls).lookup(m)
        if f is None:
            raise self.irr(n, f"{m} vanished")
        names = f.params[1:]
        b = dict(zip(names, n.args[1:npos]))
        b.update(zip(kws, n.args[npos:]))
        return b

    def want(self, n, v, name):
        if not carries(self, v, self.run.args[name]):
            raise self.irr(n, f"restricted contract: {show(v, 3)} passed as {name}")

    def family_call(self, n, k):
        b = self.margs(n, "ExponentialDispersionModel")
        if "link" in b:
            self.want(n, b["link"], "link")
        get = lambda x: self.t(b[x])
        if n.payload[0] == "eta_mu_deviance":
            eta = T.elementwise(lambda f, e, d: e + f * d, get("factor"), get("cur_eta"), get("X_dot_d"))
            mu = T.elementwise(lambda e: F("h")(e), eta)
            if k == 0:
                return eta
            if k == 1:
                return mu
            if k == 2:
                return T.scalar(T.reduce_all(T.elementwise(lambda y, m, w: w * F("udev")(y, m), get("y"), mu, get("sample_weight"))))
        if n.payload[0] == "rowwise_gradient_hessian":
            for x in ("eta", "mu"):
                if x not in b or is_const(b[x], None):
                    raise self.irr(n, f"restricted contract: {x} left out")
            a = [get(x) for x in ("y", "sample_weight", "eta", "mu", "dispersion")]
            if k == 0:
                return T.elementwise(lambda y, w, e, m, p: w * (y - m) * F("h1")(e) / (F("V")(m) * p), *a)
            if k == 1:
                return T.elementwise(lambda y, w, e, m, p: w * F("HW")(y, e, m) / p, *a)
        if n.payload[0] == "_mu_deviance_derivative":
            eta = T.matmul(design(self.run.intercept), get("coef"))
            if T.equal(get("X"), T.atom("X", (nA, pA))) is not None:
                raise self.irr(n, "restricted contract: another design matrix")
            if "offset" in b and not is_const(b["offset"], None):
                eta = T.elementwise(lambda x, y: x + y, eta, get("offset"))
            mu = T.elementwise(lambda e: F("h")(e), eta)
            if k == 0:
                return mu
            g = T.elementwise(lambda y, w, e, m: -2 * w * (y - m) * F("h1")(e) / F("V")(m), get("y"), get("sample_weight"), eta, mu)
            return T.matmul(T.transpose(design(self.run.intercept)), g)
        return None

    def solver_hook(self, t, n):
        if n.op == "index" and n.args[1].op == "const" and n.args[0].op == "mcall":
            c = n.args[0]
            if c.args[0].vn == self.run.args["family"].vn:
                r = self.family_call(c, n.args[1].payload)
                if r is not None:
                    return r
            if c.payload[0] == "__call__" and c.args[0].vn == self.run.args["inner"].vn and n.args[1].payload == 0:
                return T.atom("d", (caxes(self.run.intercept),))
        if n.op == "mcall" and n.args[0].vn == self.run.args["link"].vn:
            fn = {"inverse": "h", "inverse_derivative": "h1", "inverse_derivative2": "h2"}.get(n.payload[0])
            if fn:
                return T.elementwise(lambda e: F(fn)(e), self.t(n.args[1]))
        if n.op == "mcall" and n.args[0].vn == self.run.args["family"].vn and n.payload[0] == "deviance":
            b = self.margs(n, "ExponentialDispersionModel")
            w = b.get("sample_weight")
            w = T.scalar(1) if w is None or is_const(w, None) else self.t(w)
            return T.scalar(T.reduce_all(T.elementwise(lambda y, m, w: w * F("udev")(y, m), self.t(b["y"]), self.t(b["mu"]), w)))
        if n.op == "call" and n.payload[0] == "contract.one_over_variance":
            return T.elementwise(lambda m, p, w: w / (F("V")(m) * p), *[self.t(a) for a in n.args])
        if n.op == "call" and n.payload[0] in ("scipy.linalg.norm", "numpy.linalg.norm"):
            return self.norm(n)
        if n.op == "kout" and n.payload[0].endswith("identify_active_rows"):
            return self.active_rows(n.args[1], n.payload[1], n)
        if n.op == "index" and n.args[0].op == "kcall" and n.args[0].payload[0].endswith("identify_active_rows") and is_const(n.args[1], 0):
            return self.active_rows(n.args[0], "diff", n)
        if n.op == "index" and n.args[0].op == "kcall" and n.args[0].payload[0].endswith("_norm_min_subgrad") and n.args[1].op == "const":
            return T.scalar(sp.Symbol(("NORMSUB", "MAXSUB")[n.args[1].payload], nonnegative=True))
        if n.op == "index":
            i = n.args[1]
            if i.op == "call" and i.payload[0] == "numpy.ix_" and len(i.args) == 2:
                return self.block(n.args[0], i, n)
        if n.op == "loopphi":
            return self.loopvar(n)
        if n.op == "mcall" and n.payload[0] in ("sandwich", "transpose_matvec"):
            return self.tabmat(n)
        if n.op == "call" and n.payload[0] in ("numpy.logical_or", "numpy.logical_and") and len(n.args) == 2:
            a, b = (self.indicator(x) for x in n.args)
            if a is not None and b is not None:
                return T.elementwise((lambda x, y: 1 - (1 - x) * (1 - y)) if n.payload[0].endswith("or") else (lambda x, y: x * y), a, b)
        return hook_default(t, n)

    def indicator(self, n):
        if n.op == "bin" and n.payload in ("|", "&") or n.op == "call" and n.payload[0] in ("numpy.logical_or", "numpy.logical_and"):
            a, b = (self.indicator(x) for x in n.args)
            if a is not None and b is not None:
                return T.elementwise((lambda x, y: 1 - (1 - x) * (1 - y)) if n.payload in ("|",) or "or" in str(n.payload[0])
                                     else (lambda x, y: x * y), a, b)
        return super().indicator(n)

    def active_rows(self, k, what, n):
        names = k.payload[1]
        b = dict(zip(names, k.args))
        h, o = self.t(b["hessian_rows"]), self.t(b["old_hessian_rows"])
        incl = T.atom("INCL", (nA,))  # rows that changed enough
        if what == "diff":
            return T.elementwise(lambda i, h, o: i * (h - o), incl, h, o)
        if what == "hessian_rows":
            return T.elementwise(lambda i, h, o: o + i * (h - o), incl, h, o)
        if what in b:
            return self.t(b[what])
        raise self.irr(n, "kernel output")

    def norm(self, n):
        d, npos, kws = n.payload
        kw = dict(zip(kws, n.args[npos:]))
        o = kw.get("ord", n.args[1] if npos > 1 else None)
        v = self.t(n.args[0])
        if len(v.axes) != 1:
            raise self.irr(n, "norm of a matrix")
        if o is None or is_const(o, None) or is_const(o, 2):
            return T.scalar(sp.sqrt(T.reduce_all(T.elementwise(lambda x: x * x, v))))
        if is_const(o, 1):
            return T.scalar(T.reduce_all(T.elementwise(lambda x: sp.Abs(x), v)))
        raise self.irr(n, "norm")

    # ---------------------------------------------------------------- loops
    def loopvar(self, n):
        r = self.loops.get(n.vn)
        if n.vn in self.env:
            return self.env[n.vn]
        if r is None or len(n.args) != 2:
            return None
        if r["iter"] is not None and r["cond"] is None:
            init = n.args[0]
            if self.after(r):
                return self.last(r).t(n.args[1])
            if init.op == "absent":
                raise self.irr(n, f"{n.payload} read before the loop assigns it")
            axes = self.t(init).axes
            v = T.atom(f"L_{n.payload}", axes)
            self.env[n.vn] = v
            return v
        return None

    def after(self, r):
        """the loop ran out (as opposed to: a break left it)"""
        return self.exhausted and not self.decide.ask(("broken", r["iter"].vn))

    def last(self, r):
        """evaluation in the last iteration of an exhausted loop"""
        k = ("last", r["iter"].vn)
        sub = self.stale.get(k)
        if sub is None:
            sub = copy.copy(self)
            sub.cache, sub.env, sub.stale = {}, dict(self.env), dict(self.stale)
            sub.exhausted = False
            sub.hook = sub.solver_hook
            self.stale[k] = sub
        return sub

    # ---------------------------------------------------------------- index arrays
    def sel(self, n):
        for _ in range(6):
            if n.op == "mcall" and n.payload[0] in ("astype", "copy") or n.op == "call" and n.payload[0] in ("numpy.asarray", "numpy.array"):
                n = n.args[0]
            elif n.op == "phi":
                n = n.args[0 if self.cond(n.meta) else 1]
            elif n.op == "refine":
                n = n.args[0]
            else:
                break
        if n.op == "call" and n.payload[0] == "numpy.arange" and n.payload[1] == 1:
            return ("full", self.num(n.args[0]))
        if n.op == "call" and n.payload[0] in ("numpy.concatenate", "numpy.hstack", "numpy.append"):
            items = n.args[0].args if n.args[0].op in ("tuple", "list") and n.payload[0] != "numpy.append" else n.args[:2]
            parts = []
            for x in items:
                s = self.sel(x)
                if not isinstance(s, Sel):
                    return None
                parts += s.parts
            return Sel(parts)
        if n.op in ("list", "tuple") and all(is_const(x) and isinstance(x.payload, int) for x in n.args):
            return Sel([("one", x.payload) for x in n.args])
        if n.op == "bin" and n.payload in ("+", "-"):
            s = self.sel(n.args[0])
            if isinstance(s, Sel):
                k = sp.sympify(self.num(n.args[1]))
                if k.is_Integer:
                    return s.shift(int(k) if n.payload == "+" else -int(k))
            return None
        if n.op == "index" and n.args[1].op == "slice":
            s = self.sel(n.args[0])
            lo, hi = n.args[1].args[:2]
            if isinstance(s, Sel) and is_const(hi, None):
                k = 0 if is_const(lo, None) else int(self.num(lo))
                if k >= 0 and all(p[0] == "one" for p in s.parts[:k]) and k <= len(s.parts):
                    return Sel(s.parts[k:])
            return None
        m = n.args[0] if n.op == "index" and is_const(n.args[1], 0) else n
        if m.op in ("call", "mcall") and m.payload[0] in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero", "nonzero") and len(m.args) == 1:
            if m is n and m.payload[0] != "numpy.flatnonzero":
                return None
            ind = self.indicator(m.args[0])
            if ind is None or len(ind.axes) != 1:
                return None
            for tag, v in self.masks.items():
                if v.axes == ind.axes and T.equal(v, ind) is None:
                    break
            else:
                tag = f"A{len(self.masks)}"
                self.masks[tag] = ind
            parts, off = [], 0
            for s, kind in enumerate(ind.axes[0]):
                if kind == "1":
                    return None  # whether the intercept is selected depends on the data
                parts.append(("many", tag, off))
            return Sel(parts)
        return None

    def gather_sel(self, v, axis, s, n):
        ax = v.axes[axis]
        if isinstance(s, tuple):
            if sp.expand(s[1] - sum(T.size_sym(k) for k in ax)) == 0:
                return v
            raise self.irr(n, f"index range {s[1]} on axis {ax}")
        out, newax = [], ()
        lead = 0
        while lead < len(ax) and ax[lead] == "1":
            lead += 1
        for p in s.parts:
            if p[0] == "one":
                if not 0 <= p[1] < lead:
                    raise self.irr(n, f"position {p[1]} of a symbolic axis")
                out.append(T.take(v, axis, [p[1]], False))
            else:
                if p[2] != lead or lead >= len(ax):
                    raise self.irr(n, f"slice bound: selected columns shifted by {p[2]} on axis {ax}")
                w = T.take(v, axis, [lead], False)
                code = F(f"IDX_p_{p[1]}")(T.ix(axis))
                out.append(T.TV(w.axes[:axis] + (("a",),) + w.axes[axis + 1:],
                                {k: e.xreplace({T.ix(axis): code}) for k, e in w.data.items()}))
        return T.concat(out, axis)

    def gather(self, v, axis, p, n):
        if p.op not in ("slice", "const", "loopidx"):
            s = self.sel(p)
            if s is not None:
                return self.gather_sel(v, axis, s, n)
        return super().gather(v, axis, p, n)

    def block(self, b, i, n):
        """b[np.ix_(rows, cols)]"""
        r, c = self.sel(i.args[0]), self.sel(i.args[1])
        if r is None or c is None:
            raise self.irr(n, "unknown index arrays")
        for _ in range(40):
            if b.op == "phi":
                b = b.args[0 if self.cond(b.meta) else 1]
            elif b.op == "refine":
                b = b.args[0]
            elif b.op == "inplace" and b.payload == "alias":
                b = b.args[1]
            else:
                break
        if b.op == "inplace" and (b.payload == "setitem" or b.payload.startswith("aug")) and b.args[1].op == "call" and \
                b.args[1].payload[0] == "numpy.ix_":
            j = b.args[1]
            r2, c2 = self.sel(j.args[0]), self.sel(j.args[1])
            if _same(r, r2) and _same(c, c2):
                return self.t(b.args[2])
            raise self.irr(n, "stored and read columns differ")
        if b.op == "loopphi" and b.vn in self.stale:
            return self.gather_sel(self.gather_sel(self.stale_read(b, c, n), 0, r, n), 1, c, n)
        v = self.t(b)
        return self.gather_sel(self.gather_sel(v, 0, r, n), 1, c, n)

    def stale_read(self, b, c, n):
        tv, guard = self.stale[b.vn]
        guard(self, n)
        return tv

    def inplace(self, n):
        return super().inplace(n)

    def tabmat(self, n):
        m, npos, kws = n.payload[:3]
        a = n.args
        kw = dict(zip(kws, a[npos:]))
        arg = lambda k, *names: a[k] if npos > k else next((kw[x] for x in names if x in kw), None)
        X = self.t(a[0])
        d = self.t(arg(1, "d", "vec"))
        rows, cols = arg(2, "rows"), arg(3, "cols")
        if rows is not None and not is_const(rows, None):
            self.rows_fine(rows, arg(1, "d", "vec"), X, n)
        if cols is not None and not is_const(cols, None):
            s = self.sel(cols)
            if s is None:
                raise self.irr(n, "unknown column selection")
            X = self.gather_sel(X, 1, s, n)
        if m == "sandwich":
            return T.matmul(T.transpose(X), T.elementwise(lambda x, y: x * y, T.add_axis(d, 1), X))
        return T.matmul(T.transpose(X), d)

    def rows_fine(self, rows, d, X, n):
        """rows left out do not contribute"""
        for _ in range(8):
            if rows.op == "mcall" and rows.payload[0] in T.TRANSPARENT_M or rows.op == "refine":
                rows = rows.args[0]
            elif rows.op == "phi":
                rows = rows.args[0 if self.cond(rows.meta) else 1]
            else:
                break
        for _ in range(8):
            if d.op == "phi":
                d = d.args[0 if self.cond(d.meta) else 1]
            else:
                break
        s = self.sel(rows)
        if isinstance(s, tuple) and sp.expand(s[1] - T.size_sym("n")) == 0:
            return
        if rows.op == "index" and rows.args[0].op == "kcall" and rows.args[0].payload[0].endswith("identify_active_rows") and \
                is_const(rows.args[1], 1) and d.op == "index" and is_const(d.args[1], 0) and d.args[0].vn == rows.args[0].vn:
            return
        if rows.op == "index" and rows.args[0].op == "kcall" and rows.args[0].payload[0].endswith("identify_active_rows"):
            raise self.irr(n, "sandwich product restricted to the rows that changed")
        raise self.irr(n, "unknown row selection")

    def getattr(self, n):
        if n.payload in ("max", "eps") and n.args[0].op == "call" and n.args[0].payload[0] == "numpy.finfo":
            return T.scalar(sp.Symbol("EPS" if n.payload == "eps" else "HUGE", positive=True))
        if n.payload in ("nnz", "data") and self.is_p2(n.args[0]):
            k = self.run.p2
            if n.payload == "nnz":
                return T.scalar(T.size_sym("p") if k == "diag" else 0 if k == "zero" else sp.Symbol("NNZ", positive=True, integer=True))
            if k == "diag":
                return T.atom("P2", (pA,))
            raise self.irr(n, "restricted to a diagonal matrix: stored values of a matrix with entries off the diagonal")
        return super().getattr(n)

    def branch(self, n):
        while n.op in ("phi", "refine"):
            n = n.args[0 if n.op == "refine" or self.cond(n.meta) else 1]
        return n

    def is_p2(self, n):
        for _ in range(10):
            if n.op == "phi":
                n = self.branch(n)
            elif n.op in ("refine",) or n.op == "mcall" and n.payload[0] in T.TRANSPARENT_M or n.op == "call" and n.payload[0] in T.TRANSPARENT:
                n = n.args[0]
            else:
                break
        return n.vn == self.run.args["P2"].vn

    def p2_test(self, n):
        """tests on the entries of the L2 penalty"""
        if n.op in ("mcall", "call") and n.payload[0] in ("any", "all", "numpy.any", "numpy.all") and n.args and n.args[0].op == "cmp":
            c = n.args[0]
            def base(x):
                x = self.branch(x)
                return x.args[0] if x.op == "getattr" and x.payload in ("data", "row", "col") or x.op == "mcall" and \
                    x.payload[0] in ("diagonal",) else x
            a, b = base(c.args[0]), base(c.args[1])
            if self.is_p2(a) and is_const(c.args[1], 0) and c.payload == "!=" and n.payload[0].endswith("any"):
                return self.run.p2 not in ("zero", "zerovector")
            if self.is_p2(a) and is_const(c.args[1], 0) and c.payload == "==" and n.payload[0].endswith("all"):
                return self.run.p2 in ("zero", "zerovector")
            if c.payload == "==" and n.payload[0].endswith("all") and self.is_p2(a) and self.is_p2(b):
                return self.run.p2 == "diag"
        return None

    def cond(self, n):
        if n.op == "iter" or n.op == "uniq":
            return self.decide.ask(("broken", n.vn))
        if n.op == "call" and n.payload[0].split(".")[-1] in ("issparse", "isspmatrix", "isspmatrix_csc", "isspmatrix_csr", "isspmatrix_dia") \
                and len(n.args) == 1:
            if self.is_p2(n.args[0]):
                return self.run.sparse_p2 and (not n.payload[0].endswith("dia") or self.run.p2 == "diag" and
                                               self.decide.ask(("cond", n.vn, show(n, 3))))
            return self.decide.ask(("cond", n.vn, show(n, 3)))
        if n.op == "getattr" and n.payload == "nnz" and self.is_p2(n.args[0]):
            return self.run.p2 != "zero"
        r = self.p2_test(n)
        return super().cond(n) if r is None else r


def _same(a, b):
    if a is None or b is None:
        return False
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    return a.parts == b.parts


# ------------------------------------------------------------------ invariants of the outer loop
class Outer:
    """the main loop of a solver and the slots of its state"""

    def __init__(self, run, ret):
        self.run = run
        cvn = run.args["coef"].vn
        for r in reversed(run.it.loop_log):
            if r["cond"] is None:
                continue
            for (store, key, var), lp in r["phi"].items():
                if store == "heap" and lp.args and self.is_coef(lp.args[0], cvn):
                    self.rec, self.oid, self.coef_name = r, key, var
                    break
            else:
                continue
            break
        else:
            raise AnalysisError("the iteration loop of the solver was not found")
        self.start, self.back = self.rec["start"].heap[self.oid], self.rec["back"].heap[self.oid]
        self.phi = {k[2]: lp for k, lp in self.rec["phi"].items() if k[0] == "heap" and k[1] == self.oid}
        self.dphi = {k[2]: lp for k, lp in self.rec["phi"].items() if k[0] == "heap" and k[1] == run.oid_data}
        self.ret = ret

    def back_of(self, k):
        """value of an attribute of the state after an iteration"""
        return self.phi[k].args[-1] if k in self.phi else self.back[k]

    def rows_before(self, ten):
        return T.atom("OLDROWS", (nA,)) if "old_hessian_rows" in self.phi else ten.t(self.start["old_hessian_rows"])

    @staticmethod
    def is_coef(n, vn):
        return unwrap(n).vn == vn


def lin(run, c):
    eta = T.matmul(design(run.intercept), c)
    return T.elementwise(lambda x, o: x + o, eta, run.offset) if run.offset is not None else eta


def form(run, c, eta=None, P2=None):
    """the documented quantities at coefficients c"""
    ic = run.intercept
    y, w, P1 = T.atom("y", (nA,)), T.atom("w", (nA,)), T.atom("P1", (pA,))
    P2 = pad(run.P2 if P2 is None else P2, ic)
    eta = lin(run, c) if eta is None else eta
    mu = T.elementwise(lambda e: F("h")(e), eta)
    P2c = T.matmul(P2, c) if len(P2.axes) == 2 else T.elementwise(lambda p, x: p * x, P2, c)
    dev = T.reduce_all(T.elementwise(lambda y, m, w: w * F("udev")(y, m), y, mu, w))
    l1 = T.reduce_all(T.elementwise(lambda p, x: sp.Abs(p * x), P1, strip_ic(c, ic)))
    l2 = T.reduce_all(T.elementwise(lambda x, q: x * q, c, P2c))
    g = T.elementwise(lambda y, w, e, m: w * (y - m) * F("h1")(e) / F("V")(m), y, w, eta, mu)
    return {"eta": eta, "mu": mu, "obj_val": T.scalar(dev / 2 + l1 + l2 / 2), "gradient_rows": g,
            "hessian_rows": T.elementwise(lambda y, w, e, m: w * F("HW")(y, e, m), y, w, eta, mu),
            "score": T.elementwise(lambda a, b: a - b, T.matmul(T.transpose(design(ic)), g), P2c)}


def quadratic(run, rows, P2=None):
    J = design(run.intercept)
    H = T.matmul(T.transpose(J), T.elementwise(lambda x, y: x * y, T.add_axis(rows, 1), J))
    P2 = pad(run.P2 if P2 is None else P2, run.intercept)
    return T.elementwise(lambda a, b: a + b, H, T.diag_matrix(P2) if len(P2.axes) == 1 else P2)


def phi_env(run, o, P2=None):
    """values of the loop variables at the head of an iteration"""
    c = coef_tv(run.intercept)
    f = form(run, c, P2=P2)
    env = {o.phi[o.coef_name].vn: c}
    for k in ("eta", "mu", "obj_val", "score", "gradient_rows", "hessian_rows"):
        if k in o.phi:
            env[o.phi[k].vn] = f[k]
    if "old_hessian_rows" in o.phi:
        env[o.phi["old_hessian_rows"].vn] = T.atom("OLDROWS", (nA,))
    if "step" in o.phi:
        env[o.phi["step"].vn] = T.atom("laststep", (caxes(run.intercept),))
    for k, s in (("n_iter", "n_iter"), ("n_cycles", "n_cycles"), ("norm_min_subgrad", "NORMSUB"), ("max_min_subgrad", "MAXSUB"),
                 ("inner_tol", "INNERTOL")):
        if k in o.phi:
            env[o.phi[k].vn] = T.scalar(sp.Symbol(s, nonnegative=True))
    return env


STATE = ("eta", "mu", "obj_val", "gradient_rows", "hessian_rows", "score")


def check_state(chk, run, o, tag, where, P2=None, wrap=None):
    """the state describes the coefficients: before the first and after every iteration"""
    mk = wrap or (lambda d, env: SolverTen(d, run, env))
    cname = o.coef_name
    for k in STATE:
        if k not in o.phi:
            unresolved(chk, "E1", f"{tag}: {k}", f"{k} is not updated in the loop")
            continue
        init, back = o.phi[k].args[0], o.phi[k].args[-1]
        c0 = T.atom("c0", (caxes(run.intercept),))
        decide_equal(chk, "E1", f"{tag}: {k} before the first iteration", where, lambda d: mk(d, {}).t(init),
                     lambda d: form(run, c0, P2=P2(mk(d, {}), "init") if P2 else None)[k])

        def got(d):
            return mk(d, phi_env(run, o)).t(back)

        def want(d):
            ten = mk(d, phi_env(run, o))
            c = ten.t(o.phi[cname].args[-1])
            return form(run, c, P2=P2(ten, "back") if P2 else None)[k]

        if k == "hessian_rows":
            # rows that did not change enough may be kept as they were
            def got(d):
                return fresh_rows(mk(d, phi_env(run, o)), back)
        decide_equal(chk, "E2", f"{tag}: {k} after an iteration", where, got, want)


def fresh_rows(ten, back):
    return ten.t(back)


def subset_guard(run, o):
    """the stored matrix is valid on the columns that were active when it was built"""
    def guard(ten, n):
        init = ten.decide.assumed.get(("flag", "initialised"))
        sub = ten.decide.assumed.get(("flag", "subset"))
        if init is False or sub is False:
            raise ten.irr(n, "restricted matrix: entries are reused although " +
                          ("no matrix was built yet" if init is False else "new columns became active"))
        if init is None or sub is None:
            if ten.unknown_conds:
                raise ten.irr(n, "no recognised test that the stored matrix covers the active columns")
            raise ten.irr(n, "restricted matrix: entries are reused without a test that they cover the active columns")
    return guard


class LoopTen(SolverTen):
    """additionally knows what the stored Hessian is valid for"""

    def __init__(self, decide, run, o, extra=None, P2=None):
        super().__init__(decide, run, extra)
        self.o = o
        self.unknown_conds = False
        if "hessian" in o.phi:
            rows = o.rows_before(SolverTen(decide, run, extra))
            self.stale[o.phi["hessian"].vn] = (quadratic(run, rows, P2), subset_guard(run, o))

    def cond(self, n):
        o = self.o
        if "hessian_initialized" in o.phi and n.vn == o.phi["hessian_initialized"].vn:
            return self.decide.ask(("flag", "initialised"))
        s = self.subset_test(n)
        if s == "covers":
            return self.decide.ask(("flag", "subset"))
        r = super().cond(n)
        return r

    def subset_test(self, n):
        """"covers" if n says that the new active columns are among the old ones"""
        old, new = self.o.phi.get("active_set"), self.o.phi.get("active_set") and self.o.phi["active_set"].args[-1]
        if old is None:
            return None
        is_old = lambda x: x.vn == old.vn
        is_new = lambda x: x.vn == new.vn
        if n.op == "cmp" and n.payload == "==":
            for a, b in (n.args, n.args[::-1]):
                if self.size_of(a) is not None and self.size_of(b) is not None:
                    i, y = self.size_of(a), self.size_of(b)
                    if i.op == "call" and i.payload[0] == "numpy.intersect1d" and {is_old(x) or 2 * is_new(x) for x in i.args[:2]} == {True, 2} \
                            and is_new(y):
                        return "covers"
                    if i.op == "call" and i.payload[0] == "numpy.setdiff1d":
                        return None
                if self.size_of(a) is not None and is_const(b, 0):
                    i = self.size_of(a)
                    if i.op == "call" and i.payload[0] == "numpy.setdiff1d" and is_new(i.args[0]) and is_old(i.args[1]):
                        return "covers"
        if n.op in ("mcall", "call") and n.payload[0] in ("all", "numpy.all"):
            i = n.args[0]
            if i.op == "call" and i.payload[0] in ("numpy.isin", "numpy.in1d") and is_new(i.args[0]) and is_old(i.args[1]):
                return "covers"
        if n.op == "mcall" and n.payload[0] == "issubset":
            st = lambda x: x.args[0] if x.op == "call" and x.payload[0] == "builtins.set" and x.args else x
            if is_new(st(n.args[0])) and is_old(st(n.args[1])):
                return "covers"
        return None

    def size_of(self, a):
        if a.op == "getattr" and a.payload == "size":
            return a.args[0]
        if a.op == "call" and a.payload[0] == "builtins.len":
            return a.args[0]
        if a.op == "index" and is_const(a.args[1], 0) and a.args[0].op == "getattr" and a.args[0].payload == "shape":
            return a.args[0].args[0]
        return None


def inner_call(run, o):
    """arguments of the call of the inner solver: (state, data, matrix)"""
    for e in reversed(run.it.events):
        if e.kind == "mcall" and e.name == "__call__" and e.args[0].vn == run.args["inner"].vn:
            return e.args
    return None


def irls_run(prog, intercept, p2, offset, inner=None):
    run = SolverRun(prog, intercept, p2, offset)
    data = run.data()
    ret = run.it.call_func(run.func("_irls_solver"), [inner or run.args["inner"], run.args["coef"], data], {}, run.st, ("<entry>", 0))
    return run, ret


def irls_case(prog, chk, intercept, p2, offset):
    run, ret = irls_run(prog, intercept, p2, offset)
    o = Outer(run, ret)
    w = run.where("_irls_solver")
    tag = f"irls(intercept={intercept}, P2={p2}, offset={offset})"
    wrap = lambda d, env: LoopTen(d, run, o, env)
    check_state(chk, run, o, tag, w, wrap=wrap)
    check_curvature(chk, run, o, tag, w, wrap)
    check_active(chk, run, o, tag, w, wrap)
    check_steps(chk, run, o, tag, w, wrap)
    check_stop(chk, run, o, tag, w, wrap)


def check_curvature(chk, run, o, tag, w, wrap, P2=None):
    call = inner_call(run, o)
    if call is None:
        unresolved(chk, "E3", f"{tag}: curvature", "call of the inner solver not found")
        return
    H = call[-1]

    def full(ten):
        rows = ten.t(o.back_of("old_hessian_rows"))
        s = ten.sel(o.phi["active_set"].args[-1])
        q = quadratic(run, rows, P2)
        return ten.gather_sel(ten.gather_sel(q, 0, s, H), 1, s, H)

    decide_equal(chk, "E3", f"{tag}: matrix of the inner problem", w, lambda d: wrap(d, phi_env(run, o)).t(H),
                 lambda d: full(wrap(d, phi_env(run, o))))

    def stored(d):
        ten = wrap(d, phi_env(run, o))
        a = o.phi["active_set"].args[-1]
        return ten.t(N("index", None, (o.phi["hessian"].args[-1], N("call", ("numpy.ix_", 2, ()), (a, a)))))

    decide_equal(chk, "E3", f"{tag}: stored matrix after an iteration", w, stored, lambda d: full(wrap(d, phi_env(run, o))))

    def rows_now(d):
        """rows of the matrix: the current ones, except rows that hardly changed"""
        ten = wrap(d, phi_env(run, o))
        return ten.t(o.back_of("old_hessian_rows"))

    def rows_want(d):
        ten = wrap(d, phi_env(run, o))
        cur, old = form(run, coef_tv(run.intercept))["hessian_rows"], o.rows_before(ten)
        kept = d.assumed.get(("flag", "initialised")) and d.assumed.get(("flag", "subset"))
        i = T.atom("INCL", (nA,)) if kept else T.scalar(1)
        return T.elementwise(lambda i, h, o: o + i * (h - o), i, cur, old)

    decide_equal(chk, "E3", f"{tag}: rows the matrix is built from", w, rows_now, rows_want)


def check_active(chk, run, o, tag, w, wrap):
    """every column that is non-zero or violates optimality by more than the tolerance is active"""
    back = o.phi["active_set"].args[-1]

    def build(d):
        ten = wrap(d, phi_env(run, o))
        s = ten.sel(back)
        if isinstance(s, tuple):
            return T.fill((pA,), 1)
        if s is None:
            raise Irregular(w, "active set not understood")
        ones = [p[1] for p in s.parts if p[0] == "one"]
        many = [p for p in s.parts if p[0] == "many"]
        if run.intercept and 0 not in ones:
            raise Irregular(w, "restricted active set: the intercept is missing")
        if not many or many[0][2] != int(run.intercept):
            raise Irregular(w, "slice bound: columns of the active set are shifted")
        return ten.masks[many[0][1]]

    def want(d):
        ten = wrap(d, phi_env(run, o))
        f = form(run, coef_tv(run.intercept))
        s, c = strip_ic(f["score"], run.intercept), strip_ic(coef_tv(run.intercept), run.intercept)
        M = sp.Symbol("MAXSUB", nonnegative=True)
        zero = T.elementwise(lambda x: F("EQ")(*sorted((x, sp.Integer(0)), key=str)), c)
        low = T.elementwise(lambda p, x: F("GT")(p - M, sp.Abs(x)), T.atom("P1", (pA,)), s)
        return T.elementwise(lambda a, b: 1 - a * b, zero, low)

    decide_equal(chk, "E4", f"{tag}: active columns", w, build, want)


def atoms_true(guards):
    """comparisons that hold on a path: (comparison node, operator)"""
    out, todo = [], [(g[0], g[1]) for g in guards]
    neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}
    while todo:
        n, pol = todo.pop()
        if n.op == "not":
            todo.append((n.args[0], not pol))
        elif n.op == "and" and pol or n.op == "or" and not pol:
            todo += [(x, pol) for x in n.args]
        elif n.op == "mcall" and n.payload[0] == "__bool__" or n.op == "call" and n.payload[0] == "builtins.bool":
            todo.append((n.args[0], pol))
        elif n.op == "cmp" and n.payload in neg:
            out.append((n, n.payload if pol else neg[n.payload]))
    return out


def ordered(n, op):
    """(smaller, larger, strict)"""
    a, b = n.args
    return (a, b, op == "<") if op in ("<", "<=") else (b, a, op == ">")


class StepTen(LoopTen):
    def value(self, n):
        v = self.t(n)
        if v.axes:
            raise self.irr(n, "array in a comparison")
        return v.scalar


def search_loops(run, o):
    """loops inside an iteration that choose how far to go along the direction of the inner solver"""
    out = []
    for r in run.it.loop_log:
        if r is o.rec or not r["breaks"]:
            continue
        names = {k[2]: lp for k, lp in r["phi"].items()}
        # the objective it compares with is the one of the state of the outer loop
        if o.phi["obj_val"].vn in {x.vn for b in r["breaks"] for n, _ in atoms_true(b.guards) for x in walk([n])}:
            out.append((r, names))
    return out


def deferred(lp):
    """the value of a variable initialised with a marker and computed when first needed"""
    leaves, todo, seen = [], list(lp.args[1:]), set()
    while todo:
        n = todo.pop()
        if n.vn in seen:
            continue
        seen.add(n.vn)
        if n.op in ("phi", "refine"):
            todo += list(n.args)
        elif n.vn != lp.vn:
            leaves.append(n)
    return leaves[0] if len(leaves) == 1 and is_const(lp.args[0]) else None


def check_steps(chk, run, o, tag, w, wrap):
    """a step is accepted only if it decreases the objective sufficiently (or, at rounding level, the gradient)"""
    loops = search_loops(run, o)
    if not loops:
        unresolved(chk, "E5", f"{tag}: line search", "no loop with accepting exits found")
        return
    ic = run.intercept
    c, dd = coef_tv(ic), T.atom("d", (caxes(ic),))
    f = sp.Symbol("f", positive=True)
    old = form(run, c)
    P1 = T.atom("P1", (pA,))
    l1 = lambda v: T.reduce_all(T.elementwise(lambda p, x: sp.Abs(p * x), P1, strip_ic(v, ic)))
    norm1 = lambda v: T.reduce_all(T.elementwise(lambda x: sp.Abs(x), v))
    for r, names in loops:
        factor = None
        for lp in names.values():
            if len(lp.args) == 2 and is_const(lp.args[0]) and isinstance(lp.args[0].payload, (int, float)) and not isinstance(lp.args[0].payload, bool) \
                    and lp.args[1].op in ("bin", "inplace") and lp.vn in {x.vn for x in lp.args[1].args}:
                try:
                    q = SolverTen(Decide({}), run, {lp.vn: T.scalar(f)}).t(lp.args[1]).scalar / f
                except (Irregular, Split, AttributeError):
                    continue
                if q.is_number and lp.args[0].payload > 0 and q != 1 and (lp.args[0].payload == 1 or factor is None):
                    factor, ratio = lp, q
        if factor is None:
            unresolved(chk, "E5", f"{tag}: step length", "no step length that shrinks found")
            continue
        decide_bool(chk, "E5", f"{tag}: the first step length is one", w, factor.args[0].payload == 1,
                   f"the line search starts at {factor.args[0].payload}")
        decide_bool(chk, "E5", f"{tag}: step lengths shrink", w, bool(0 < ratio < 1), f"step lengths are multiplied by {ratio}")
        env = {**phi_env(run, o), factor.vn: T.scalar(f)}
        for lp in names.values():
            x = deferred(lp)
            if x is not None and lp.vn != factor.vn and "phi" in {y.op for y in lp.args[1:]}:
                try:
                    env[lp.vn] = SolverTen(Decide({}), run, env).t(x)
                except (Irregular, Split):
                    pass
        step = T.elementwise(lambda x: f * x, dd)
        cn = T.elementwise(lambda a, b: a + b, c, step)
        new = form(run, cn)
        gain = new["obj_val"].scalar - old["obj_val"].scalar
        slope = l1(T.elementwise(lambda a, b: a + b, c, dd)) - l1(c) - T.reduce_all(T.elementwise(lambda s, x: s * x, old["score"], dd))
        sig = sp.Symbol("SIG", positive=True)
        for b in r["breaks"]:
            # the break taken before the loop of the outer iteration is not this one
            decide_accept(chk, run, o, tag, w, wrap, b, env, f, gain, slope, old, new, norm1, sig)


def decide_accept(chk, run, o, tag, w, wrap, b, env, f, gain, slope, old, new, norm1, sig):
    ats = [ordered(n, op) for n, op in atoms_true(b.guards)]
    EPS = sp.Symbol("EPS", positive=True)

    def run1(assumed):
        d = Decide(assumed)
        ten = StepTen(d, run, o, dict(env))
        ten.exhausted = False
        seen, notes, dark = set(), [], []
        same = lambda a, b: T.equal(T.scalar(a), T.scalar(b)) is None
        for lo, hi, strict in ats:
            try:
                L, H = ten.value(lo), ten.value(hi)
            except Irregular as e:
                dark.append(str(e.why))
                continue
            diff = sp.expand(T.canon(H - L)) if False else H - L
            if gain_in(L, H, gain, T):
                consts = sorted({abs(float(x.payload)) for x in walk([lo, hi]) if is_const(x) and isinstance(x.payload, float) and 0 < abs(x.payload) < 1})
                if any(same(H - L, sp.nsimplify(k) * f * slope - gain) or same(H - L, sp.Float(k) * f * slope - gain) for k in consts):
                    seen.add("armijo")
                    continue
                if same(L, sp.Abs(gain)) or same(L, sp.Abs(-gain)):
                    k = H / (EPS * sp.Abs(old["obj_val"].scalar))
                    seen.add("tiny" if scale_of(H, EPS, old["obj_val"].scalar) else "far")
                    continue
                notes.append(f"compares {show(lo, 3)} with {show(hi, 3)}")
                continue
            if same(H, norm1(old["score"])) and same(L, norm1(new["score"])):
                seen.add("gradient")
            elif same(L, norm1(old["score"])) and same(H, norm1(new["score"])):
                notes.append("the gradient grew")
        return seen, notes, dark

    try:
        res = cases(run1)
    except Irregular as e:
        unresolved(chk, "E5", f"{tag}: accepted step", e)
        return
    for assumed, (seen, notes, dark) in res:
        if "armijo" in seen or {"tiny", "gradient"} <= seen:
            continue
        if dark and not notes:
            unresolved(chk, "E5", f"{tag}: accepted step", "; ".join(dark))
            return
        if not notes and not seen and not ats:
            unresolved(chk, "E5", f"{tag}: accepted step", "no comparison on the way to the exit")
            return
        chk.bad("E5", f"{tag}: accepted step", w, "a step is accepted without sufficient decrease: established only "
                + ", ".join(sorted(seen) or ["nothing"]) + ("; " + "; ".join(notes) if notes else ""))
        return
    chk.ok("E5", f"{tag}: accepted step")


def gain_in(L, H, gain, T):
    """the comparison is about the objective at the new coefficients"""
    mark = [x for x in gain.atoms(sp.core.function.AppliedUndef) if x.func.__name__ in ("udev",)]
    return any((L - H).has(x) for x in mark) if mark else False


def scale_of(H, EPS, obj):
    """H is a small multiple of machine precision times |objective|"""
    if H.has(EPS):
        k = H.subs(EPS, 1)
        for c in (1, 2, 4, 8, 10, 16, 32, 64, 100, 128, 256, 1000):
            if T.equal(T.scalar(k), T.scalar(c * sp.Abs(obj))) is None:
                return True
            if T.equal(T.scalar(k), T.scalar(sp.Abs(c * obj))) is None:
                return True
    return False


# ------------------------------------------------------------------ stopping
class StopTen(LoopTen):
    """truth of the stopping conditions in terms of what they compare"""

    def __init__(self, *a, first=False, **k):
        super().__init__(*a, **k)
        self.first = first

    def value(self, n):
        v = self.t(n)
        if v.axes:
            raise self.irr(n, "array in a comparison")
        return v.scalar

    def cond(self, n):
        o, run = self.o, self.run
        if "converged" in o.phi and n.vn == o.phi["converged"].vn:
            return self.decide.ask(("stop", "converged"))
        if n.op == "not":
            return not self.cond(n.args[0])
        if n.op == "and":
            return all([self.cond(x) for x in n.args[:1]]) and all(self.cond(x) for x in n.args[1:])
        if n.op == "or":
            return self.cond(n.args[0]) or any(self.cond(x) for x in n.args[1:])
        if n.op in ("mcall", "call") and n.payload[0] in ("builtins.bool", "item") and len(n.args) == 1:
            return self.cond(n.args[0])
        if n.op in ("bin", "call") and (n.payload in ("&", "|") or n.payload[0] in ("numpy.logical_or", "numpy.logical_and")):
            a, b = self.cond(n.args[0]), self.cond(n.args[1])
            return (a or b) if n.payload == "|" or "or" in str(n.payload[0]) else (a and b)
        if n.op == "cmp" and n.payload == "is" and is_const(n.args[1], None) and n.args[0].vn == run.args_all["step_size_tol"].vn:
            return self.decide.ask(("stop", "no step tolerance"))
        if n.op == "cmp" and n.payload in ("<", "<=", ">", ">="):
            lo, hi, strict = ordered(n, n.payload)
            S = lambda x: sp.Symbol(x, positive=True)
            NORM, IT = sp.Symbol("NORMSUB", nonnegative=True), sp.Symbol("n_iter", nonnegative=True)
            try:
                L, H = self.value(lo), self.value(hi)
            except Irregular:
                if self.counts(n):
                    raise
                return super().cond(n)
            D = H - L
            if D == S("gradient_tol") - NORM:
                return self.decide.ask(("stop", "gradient small"))
            if D == NORM - S("gradient_tol"):
                return not self.decide.ask(("stop", "gradient small"))
            for new, sign in ((self.stepnorm(), 1),):
                if new is None:
                    break
                if D.has(S("step_size_tol")):
                    if H == S("step_size_tol") and T.equal(T.scalar(L), T.scalar(new)) is None:
                        if self.first:
                            return False if strict else self.decide.ask(("stop", "no step taken yet"))
                        return self.decide.ask(("stop", "step small"))
                    if L == S("step_size_tol") and T.equal(T.scalar(H), T.scalar(new)) is None:
                        return not self.decide.ask(("stop", "step small"))
            if D == S("max_iter") - IT and strict:
                return self.decide.ask(("stop", "iterations left"))
            if D == IT - S("max_iter") and not strict:
                return not self.decide.ask(("stop", "iterations left"))
            for k in range(-3, 4):
                if k and D - k in (S("max_iter") - IT, IT - S("max_iter")) or D == S("max_iter") - IT or D == IT - S("max_iter"):
                    raise self.irr(n, "restricted iterations: the loop does not stop at max_iter iterations")
            if L in (NORM, S("gradient_tol")) and (D.has(S("gradient_tol")) or D.has(NORM)):
                return self.decide.ask(("stop", f"another test: {show(n, 4)}"))
        return super().cond(n)

    def counts(self, n):
        """the comparison involves what stopping depends on"""
        o, run = self.o, self.run
        keys = {run.args_all[k].vn for k in ("gradient_tol", "step_size_tol", "max_iter") if k in run.args_all}
        return any(x.vn in keys for x in walk([n]))

    def stepnorm(self):
        o = self.o
        n = o.phi["step"].args[0 if self.first else -1] if "step" in o.phi else None
        if n is None:
            return None
        v = self.t(n)
        return sp.sqrt(T.reduce_all(T.elementwise(lambda x: x * x, v)))


def known_stop(assumed):
    return [k for k in assumed if k[0] == "stop" and k[1].startswith(("another", "no step taken"))] or \
        [k for k in assumed if k[0] == "cond"]


def check_stop(chk, run, o, tag, w, wrap):
    if "converged" not in o.phi:
        unresolved(chk, "E6", f"{tag}: convergence", "no flag updated in the loop")
        return
    mk = lambda d, first: StopTen(d, run, o, phi_env(run, o), first=first)
    one = lambda b: T.scalar(sp.Integer(1 if b else 0))

    def truth(ten, n):
        return one(bool(n.payload) if is_const(n) else ten.cond(n))

    def want(first):
        def f(d):
            small = d.ask(("stop", "gradient small"))
            if small or first:
                return one(small)
            if d.ask(("stop", "no step tolerance")):
                return one(False)
            return one(d.ask(("stop", "step small")))
        return f

    for first, k in ((True, 0), (False, -1)):
        n = o.phi["converged"].args[k]
        what = "before the first iteration" if first else "after an iteration"
        decide_equal(chk, "E6", f"{tag}: converged {what}", w, lambda d: truth(mk(d, first), n), want(first))
        kernel_args(chk, run, o, tag, w, wrap, n, first)
    check_exit(chk, run, o, tag, w, mk)


def check_exit(chk, run, o, tag, w, mk, rule="E6"):
    """leaving the loop and what is returned"""
    one = lambda b: T.scalar(sp.Integer(1 if b else 0))

    def goes_on(d):
        ten = mk(d, False)
        on = bool(o.rec["cond"].payload) if is_const(o.rec["cond"]) else ten.cond(o.rec["cond"])
        for b in o.rec["breaks"]:
            if on and all(ten.cond(g[0]) == g[1] for g in b.guards if g[0].vn != o.rec["cond"].vn):
                on = False
        return one(on)

    decide_equal(chk, rule, f"{tag}: the loop goes on", w, goes_on,
                 lambda d: one(d.ask(("stop", "iterations left")) and not d.ask(("stop", "converged"))))
    if "n_iter" in o.phi:
        n = o.phi["n_iter"]
        decide_equal(chk, rule, f"{tag}: iterations counted from zero", w, lambda d: mk(d, True).t(n.args[0]), lambda d: T.scalar(sp.Integer(0)))
        decide_equal(chk, rule, f"{tag}: iterations counted", w, lambda d: mk(d, False).t(n.args[-1]),
                     lambda d: T.scalar(sp.Symbol("n_iter", nonnegative=True) + 1))
    if o.ret is not None and o.ret.op == "tuple" and len(o.ret.args) >= 2:
        decide_equal(chk, rule, f"{tag}: returned coefficients", w, lambda d: mk(d, False).t(o.ret.args[0]), lambda d: coef_tv(run.intercept))
        decide_equal(chk, rule, f"{tag}: returned number of iterations", w, lambda d: mk(d, False).t(o.ret.args[1]),
                     lambda d: T.scalar(sp.Symbol("n_iter", nonnegative=True)))
    check_warning(chk, run, o, tag, w, mk, rule)


def check_warning(chk, run, o, tag, w, mk, rule):
    """leaving the loop unconverged is reported, and only that"""
    lo, hi = o.rec["events"]
    ev = [e for i, e in enumerate(run.it.events)
          if e.kind == "warn" and not lo <= i < hi and o.phi["converged"].vn in {x.vn for g in e.guards if g[0].vn != o.rec["cond"].vn or g[1] for x in walk([g[0]])}]

    def got(d):
        ten = mk(d, False)
        res = False
        for e in ev:
            ok = True
            for n, pol, *_ in e.guards:
                if o.phi["converged"].vn in {x.vn for x in walk([n])} and (n.vn != o.rec["cond"].vn or pol) and ten.cond(n) != pol:
                    ok = False
            res = res or ok
        return T.scalar(sp.Integer(1 if res else 0))

    decide_equal(chk, rule, f"{tag}: missing convergence is reported", w, got,
                 lambda d: T.scalar(sp.Integer(0 if d.ask(("stop", "converged")) else 1)))


def kernel_args(chk, run, o, tag, w, wrap, n, first):
    """the optimality measure is computed at the current coefficients, over all columns"""
    what = "first" if first else "next"
    ks = {x.vn: x for x in walk([n]) if x.op == "kcall" and x.payload[0].endswith("_norm_min_subgrad")}
    if len(ks) != 1:
        unresolved(chk, "E6", f"{tag}: optimality measure ({what})", f"{len(ks)} computations")
        return
    k = list(ks.values())[0]
    b = dict(zip(k.payload[1], k.args))
    ic = run.intercept
    c = T.atom("c0", (caxes(ic),)) if first else None

    def cur(d):
        return c if first else wrap(d, phi_env(run, o)).t(o.phi[o.coef_name].args[-1])

    wants = {"coef": lambda d: cur(d), "grad": lambda d: T.elementwise(lambda x: -x, form(run, cur(d))["score"]),
             "P1": lambda d: T.atom("P1", (pA,)), "lower_bounds": lambda d: T.atom("lb", (pA,)), "upper_bounds": lambda d: T.atom("ub", (pA,))}
    for name, fn in wants.items():
        if name not in b:
            unresolved(chk, "E6", f"{tag}: optimality measure ({what}): {name}", "parameter vanished")
        elif "bounds" in name and not run.bounds:
            continue
        else:
            decide_equal(chk, "E6", f"{tag}: optimality measure ({what}): {name}", w, lambda d: wrap(d, {} if first else phi_env(run, o)).t(b[name]), fn)
    one = lambda x: T.scalar(sp.Integer(x))
    flags = {"intercept": int(ic), "has_lower_bounds": int(run.bounds), "has_upper_bounds": int(run.bounds)}
    for name, v in flags.items():
        if name in b and is_const(b[name]):
            decide_bool(chk, "E6", f"{tag}: optimality measure ({what}): {name}", w, int(b[name].payload) == v, f"{name} is {b[name].payload}")
        else:
            unresolved(chk, "E6", f"{tag}: optimality measure ({what}): {name}", "not a constant of the case")
    if "active_set" in b:
        def sel(d):
            s = wrap(d, {} if first else phi_env(run, o)).sel(b["active_set"])
            if isinstance(s, tuple):
                return T.scalar(sp.sympify(s[1]))
            if s is None:
                raise Irregular(w, "unknown columns")
            raise Irregular(w, "restricted optimality measure: only some columns count")
        decide_equal(chk, "E6", f"{tag}: optimality measure ({what}): columns", w, sel,
                     lambda d: T.scalar(sum(T.size_sym(x) for x in caxes(ic))))


# ------------------------------------------------------------------ direction of an iteration
def opaque(run, name, fields):
    """an object known only through its attributes"""
    n = N("src", name)
    run.it.nonnull.add(name)
    return n, {f: N("getattr", f, (n,)) for f in fields}


def unwrap(n):
    """the value behind copies and conversions"""
    for _ in range(30):
        if n.op == "mcall" and n.payload[0] in T.TRANSPARENT_M or n.op == "call" and n.payload[0] in T.TRANSPARENT and n.args:
            n = n.args[0]
        elif n.op == "refine":
            n = n.args[0]
        else:
            return n


def inner_names(run):
    """names the inner solver functions are selected by in the estimator: every function passed to the IRLS loop"""
    return [f for f in ("_least_squares_solver", "_cd_solver")]


KERNEL = {"active_set": ("state", "active_set"), "w": ("state", "coef"), "P1": ("data", "P1"), "max_iter": ("data", "max_inner_iter"),
          "tol": ("state", "inner_tol"), "intercept": ("data", "fit_intercept"), "rng": ("data", "random_state"),
          "has_lower_bounds": ("data", "has_lower_bounds"), "has_upper_bounds": ("data", "has_upper_bounds"),
          "lower_bounds": ("data", "_lower_bounds"), "upper_bounds": ("data", "_upper_bounds")}


def check_direction(prog, chk):
    """the inner solvers minimise the local quadratic model of the objective"""
    for name in ("_least_squares_solver", "_cd_solver"):
        run = SolverRun(prog, True)
        f = run.func(name)
        chk.functions.add(f.qual)
        w = run.where(name)
        H = N("src", "H")
        run.it.nonnull.add("H")
        st, sf = opaque(run, "state", ("active_set", "coef", "score", "inner_tol"))
        da, df = opaque(run, "data", {k for o, k in KERNEL.values() if o == "data"} | {"selection"})
        try:
            ret = run.it.call_func(f, [st, da, H], {}, run.st, ("<entry>", 0))
        except AnalysisError as e:
            unresolved(chk, "E7", name, e)
            continue
        d = ret.args[0] if ret.op == "tuple" else ret
        d = unwrap(d)
        if d.op == "call" and d.payload[0] == "numpy.subtract" and len(d.args) == 2:
            d = N("bin", "-", d.args)
        if name == "_least_squares_solver":
            if d.op == "call" and d.payload[0].endswith("linalg.solve"):
                a = [unwrap(x) for x in d.args[:2]]
                chk.test(a[0].vn == H.vn and a[1].vn == sf["score"].vn, "E7", "least squares: the direction solves H d = score", w,
                         f"solves {show(a[0], 3)} d = {show(a[1], 3)}")
            else:
                unresolved(chk, "E7", "least squares: the direction solves H d = score", show(d, 3))
            continue
        ks = {x.vn: x for x in walk([d]) if x.op == "kcall"}
        before = unwrap(d.args[1]) if d.op == "bin" and d.payload == "-" else None
        if before is not None and before.op == "getattr":
            # writes of the kernel through other attributes do not matter
            o = before.args[0]
            while o.op == "inplace" and o.payload == "alias" and o.args[1].op == "kout":
                hit = o.args[1].args[0]
                if hit.op == "getattr" and hit.payload == before.payload:
                    break
                o = o.args[0]
            before = N("getattr", before.payload, (o,))
            if o.op == "inplace":
                chk.bad("E7", "coordinate descent: works on a copy of the coefficients", w, "the kernel writes into the coefficients of the state")
        ok = before is not None and before.vn == sf["coef"].vn
        if len(ks) != 1 or not ok and d.op != "index":
            unresolved(chk, "E7", "coordinate descent: the direction", show(d, 4))
            continue
        k = list(ks.values())[0]
        chk.test(ok and unwrap(d.args[0]).op == "index" and is_const(unwrap(d.args[0]).args[1], 0), "E7",
                 "coordinate descent: the direction leads to the new coefficients", w, f"direction is {show(d, 4)}")
        b = dict(zip(k.payload[1], k.args))
        own = {"state": sf, "data": df}
        for p, (o, attr) in KERNEL.items():
            if p not in b:
                unresolved(chk, "E7", f"coordinate descent: {p}", "parameter vanished")
                continue
            v = unwrap(b[p])
            good = v.vn == own[o][attr].vn
            chk.test(good, "E7", f"coordinate descent: {p}", w, f"{p} receives {show(v, 4)} instead of {o}.{attr}") \
                if good or simple(v) else unresolved(chk, "E7", f"coordinate descent: {p}", show(v, 4))
        q = unwrap(b["q"]) if "q" in b else None
        if q is None or "Q" not in b:
            unresolved(chk, "E7", "coordinate descent: quadratic model", "parameters vanished")
            continue
        chk.test(unwrap(b["Q"]).vn == H.vn, "E7", "coordinate descent: curvature", w, f"Q receives {show(b['Q'], 4)}")
        minus = q.op == "un" and q.payload == "-" and unwrap(q.args[0]).vn == sf["score"].vn or \
            q.op == "bin" and q.payload == "*" and any(is_const(x) and x.payload in (-1, -1.0) for x in q.args) and \
            any(unwrap(x).vn == sf["score"].vn for x in q.args) or q.op == "call" and q.payload[0] == "numpy.negative" and \
            unwrap(q.args[0]).vn == sf["score"].vn
        chk.test(minus, "E7", "coordinate descent: gradient", w, f"q receives {show(q, 4)} instead of -score") \
            if minus or simple(q) or len(list(walk([q]))) < 6 else unresolved(chk, "E7", "coordinate descent: gradient", show(q, 4))


def simple(v):
    return v.op in ("const", "src", "getattr") or v.op == "un"


# ------------------------------------------------------------------ closed form
def check_closed(prog, chk, intercept, p2, offset):
    run = SolverRun(prog, intercept, p2, offset)
    f = run.func("_tikhonov_solver")
    chk.functions.add(f.qual)
    w = run.where("_tikhonov_solver")
    tag = f"closed form(intercept={intercept}, P2={p2}, offset={offset})"
    a = {k: run.args[k] for k in f.params if k in run.args}
    ret = run.it.call_func(f, [], a, run.st, ("<entry>", 0))
    coef = ret.args[0] if ret.op == "tuple" else ret
    sols = {x.vn: x for x in walk([coef]) if x.op == "call" and x.payload[0].split(".")[-1] in ("solve", "lstsq", "cho_solve", "inv", "pinv")}
    if not sols:
        unresolved(chk, "E8", tag, f"no linear system solved: {show(coef, 4)}")
        return
    J = design(intercept)
    y = T.atom("y", (nA,))
    if offset:
        y = T.elementwise(lambda a, b: a - b, y, run.offset)
    W = T.atom("w", (nA,))
    for s in sols.values():
        name = s.payload[0].split(".")[-1]
        if name not in ("solve", "lstsq") or len(s.args) < 2:
            unresolved(chk, "E8", f"{tag}: {name}", "not a system H x = r")
            continue
        decide_equal(chk, "E8", f"{tag}: matrix of the normal equations ({name})", w, lambda d: SolverTen(d, run).t(s.args[0]),
                     lambda d: quadratic(run, W))
        decide_equal(chk, "E8", f"{tag}: right-hand side of the normal equations ({name})", w, lambda d: SolverTen(d, run).t(s.args[1]),
                     lambda d: T.matmul(T.transpose(J), T.elementwise(lambda a, b: a * b, W, y)))


# ------------------------------------------------------------------ general optimisers
OPT = {"_lbfgs_solver": ("scipy.optimize.fmin_l_bfgs_b",), "_trust_constr_solver": ("scipy.optimize.minimize",)}


def check_optimizer(prog, chk, name, intercept, p2, offset):
    """the objective and the gradient handed to scipy"""
    run = SolverRun(prog, intercept, p2, offset)
    f = run.func(name)
    chk.functions.add(f.qual)
    w = run.where(name)
    tag = f"{name}(intercept={intercept}, P2={p2}, offset={offset})"
    a = {k: run.args[k] for k in f.params if k in run.args}
    for k in f.params:
        if k not in a:
            a[k] = N("src", "arg:" + k)
            run.it.nonnull.add("arg:" + k)
    if "A_ineq" in a:
        for k, v in (("A_ineq", T.atom("A", (("m",), pA))), ("b_ineq", T.atom("b", (("m",),)))):
            a[k] = run.src(k, v)
    ret = run.it.call_func(f, [], a, run.st, ("<entry>", 0))
    ev = [e for e in run.it.events if e.kind == "call" and e.name in OPT[name]]
    if len(ev) != 1:
        unresolved(chk, "E9", tag, f"{len(ev)} calls of the optimiser")
        return
    call = ev[0].node
    npos, kws = call.payload[1], call.payload[2]
    b = dict(zip(("fun" if "minimize" in call.payload[0] else "func", "x0"), call.args[:npos]))
    b.update(zip(kws, call.args[npos:]))
    fun, x0 = b.get("fun", b.get("func")), b.get("x0")
    chk.test(x0 is not None and unwrap(x0).vn == a["coef"].vn, "E9", f"{tag}: start values", w, f"starts at {x0 is not None and show(x0, 3)}")
    c = run.src("c", coef_tv(intercept))
    st = State()
    try:
        r = run.it.apply(fun, [c], {}, run.st, ("<entry>", 0))
    except (AnalysisError, AttributeError) as e:
        unresolved(chk, "E9", tag, e)
        return
    if r.op != "tuple" or len(r.args) != 2:
        unresolved(chk, "E9", tag, f"objective returns {show(r, 3)}")
        return
    fm = form(run, coef_tv(intercept))
    l1 = T.reduce_all(T.elementwise(lambda p, x: sp.Abs(p * x), T.atom("P1", (pA,)), strip_ic(coef_tv(intercept), intercept)))
    decide_equal(chk, "E9", f"{tag}: objective", w, lambda d: SolverTen(d, run).t(r.args[0]), lambda d: T.scalar(fm["obj_val"].scalar - l1))
    decide_equal(chk, "E9", f"{tag}: gradient", w, lambda d: SolverTen(d, run).t(r.args[1]),
                 lambda d: T.elementwise(lambda x: -x, fm["score"]))
    # what is returned comes from the optimiser
    out = ret.args[0] if ret.op == "tuple" else ret
    want = N("index", None, (call, const(0 if "fmin" in call.payload[0] else "x")))
    got = unwrap(out)
    good = got.vn == want.vn or got.op in ("index", "getattr") and got.args[0].vn == call.vn and (
        got.payload == "x" or got.op == "index" and is_const(got.args[1]) and got.args[1].payload in (0, "x"))
    if good or got.vn == a["coef"].vn:
        chk.test(good, "E9", f"{tag}: returned coefficients", w, f"returns {show(got, 3)}")
    else:
        unresolved(chk, "E9", f"{tag}: returned coefficients", show(got, 3))
    if "constraints" in b:
        check_constraint(chk, run, tag, w, b["constraints"], intercept, a)


def check_constraint(chk, run, tag, w, con, intercept, a):
    ten0 = SolverTen(Decide({}), run)
    ks = {x.vn: x for x in walk([con]) if x.op == "call" and x.payload[0].endswith("LinearConstraint")}
    if len(ks) != 1:
        unresolved(chk, "E9", f"{tag}: constraints", f"{len(ks)} constraints")
        return
    k = list(ks.values())[0]
    b = dict(zip(("A", "lb", "ub"), k.args[:k.payload[1]]))
    b.update(zip(k.payload[2], k.args[k.payload[1]:]))
    A = T.atom("A", (("m",), pA))
    if intercept:
        A = T.concat([T.fill((("m",), ("1",)), sp.Integer(0)), A], 1)
    decide_equal(chk, "E9", f"{tag}: constraint matrix", w, lambda d: SolverTen(d, run).t(b["A"]), lambda d: A)
    decide_equal(chk, "E9", f"{tag}: upper limits", w, lambda d: SolverTen(d, run).t(b["ub"]), lambda d: T.atom("b", (("m",),)))
    lb = b.get("lb")
    if lb is None:
        chk.ok("E9", f"{tag}: lower limits")
    else:
        s = show(lb, 4)
        if "inf" in s or is_const(lb):
            chk.test(s.replace(" ", "") in ("-inf", "-ext[numpy.inf]()", "-numpy.inf") or is_const(lb) and lb.payload == float("-inf"), "E9",
                     f"{tag}: lower limits", w, f"lower limits are {s}")
        else:
            unresolved(chk, "E9", f"{tag}: lower limits", s)


def check_irls(prog, chk, tier):
    chk.rules = ["E1 before the first iteration eta, mu, objective, working gradient, working weights and score are those of the start values",
                 "E2 after every iteration they are those of the new coefficients (whatever way the line search ended)",
                 "E3 the matrix of the inner problem is X' diag(rows) X + P2 on the active columns, its rows refreshed from the current weights",
                 "E4 only columns at zero whose score is below the L1 weight by more than the largest violation are left out; the intercept is kept",
                 "E5 steps start at one, shrink, and are accepted only under sufficient decrease",
                 "E6 convergence is declared exactly when the optimality measure over all columns (or the step) is below its tolerance",
                 "E7 the inner solvers receive the quadratic model of the objective and return the direction",
                 "E8 the closed form solves (J'WJ + P2) x = J'W(y - offset)",
                 "E9 objective and gradient handed to scipy are the documented ones; constraints leave the intercept free"]
    items = [("irls", ic, p2, off) for ic in (True, False) for p2 in ("vector", "matrix", "sparse", "diag", "zero") for off in (False, True)]
    items += [("closed", ic, p2, off) for ic in (True, False) for p2 in ("vector", "matrix", "sparse", "diag", "zero", "zerovector") for off in (False, True)]
    items += [(n, ic, p2, off) for n in OPT for ic in (True, False) for p2 in ("vector", "matrix", "sparse") for off in (False, True)]
    items += [("direction", None, None, None)]

    def work(it, sub):
        kind, ic, p2, off = it
        if kind == "irls":
            irls_case(prog, sub, ic, p2, off)
        elif kind == "closed":
            check_closed(prog, sub, ic, p2, off)
        elif kind == "direction":
            check_direction(prog, sub)
        else:
            check_optimizer(prog, sub, kind, ic, p2, off)
    split(chk, items, work)
    for n in ("_irls_solver", "line_search", "update_quadratic", "update_hessian", "build_hessian_delta", "check_convergence",
              "identify_active_set", "_update_predictions", "eta_mu_objective", "_make_coef_P2", "_get_obj_and_derivative"):
        f = prog_func(prog, n)
        if f:
            chk.functions.add(f.qual)
    for r, n in (("E1", 60), ("E2", 60), ("E3", 20), ("E4", 8), ("E5", 20), ("E6", 60)):
        chk.need(r, n)


def prog_func(prog, name):
    for m in prog.modules.values():
        if name in m.functions:
            return m.functions[name]
    return None
