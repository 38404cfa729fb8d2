"""Information matrices, score rows, covariance estimators and tests built on them."""
from __future__ import annotations

import os

from .. import tensor as T
from ..algebra import sp
from ..nodes import N, const, show
from ..parallel import split
from ..program import AnalysisError
from ..symexec import Decide, Irregular, cases
from .families import PHI, Ctx, concrete, family_cases, instances, support, where_of

nA, pA = ("n",), ("p",)


def decide_equal(chk, rule, construct, where, build, want):
    """build(decide) -> TV, want(decide) -> TV; equal in every undecided case"""
    def run(assumed):
        d = Decide(assumed)
        return build(d), want(d)

    try:
        res = cases(run)
    except Irregular as e:
        if definite(e.why):
            chk.bad(rule, construct, e.where, f"not of the documented form: {e.why}")
            return False
        unresolved(chk, rule, construct, e)
        return None
    for assumed, (got, exp) in res:
        diff = T.equal(got, exp)
        if diff is not None:
            cond = "; ".join(f"{k[-1]}={v}" for k, v in assumed.items())
            chk.bad(rule, construct, where, f"{diff}" + (f" when {cond}" if cond else ""))
            return False
    chk.ok(rule, construct)
    return True


DEFINITE = ("shape", "restricted", "wrong length", "too many axes", "do not agree", "out= accumulation",
            "raw labels", "constant None in a formula", "slice bound", "of a symbolic axis", "empty array")


def unresolved(chk, rule, construct, why):
    """the construct is outside what the rule understands: recorded, neither passed nor reported"""
    chk.undecided(rule, construct, why)


def definite(why):
    """the construct was understood and cannot have the documented value (as opposed to: not understood)"""
    return any(k in why for k in DEFINITE)


def design(intercept):
    X = T.atom("X", (nA, pA))
    if not intercept:
        return X
    return T.concat([T.fill((nA, ("1",)), sp.Integer(1)), X], 1)


def check_information(prog, chk, tier):
    chk.rules = ["I1 expected information = J' diag(h'(eta)^2 w / (phi V(mu))) J, J = [1, X]",
                 "I2 observed information = J' diag([h'^2 (1 + (y-mu) V'/V) - h'' (y-mu)] w/(phi V)) J",
                 "I3 score row i = (y_i-mu_i) h'(eta_i) w_i/(phi V(mu_i)) J_i"]
    links = [(l, lab, par) for l in concrete(prog, "Link") for lab, par in instances(prog, l)]
    pairs = [(f, l) for f in family_cases(prog) for l in links]
    split(chk, pairs, lambda it, sub: information(prog, sub, *it[0], *it[1]))
    n = len(pairs)
    for m in ("_fisher_information", "_observed_information", "_score_matrix", "variance", "unit_variance",
              "unit_variance_derivative"):
        f = prog.cls("ExponentialDispersionModel").lookup(m)
        if f:
            chk.functions.add(f.qual)
    chk.count("family_link_pairs", n)
    chk.need("I1", 60)
    chk.need("I2", 60)
    chk.need("I3", 60)


def information(prog, chk, fcls, flab, fpar, lcls, llab, lpar):
    for fi in (True, False):
        c = Ctx(prog)
        fam = c.inst(fcls.name, fpar, "fam")
        link = c.inst(lcls.name, lpar, "link")
        env = {}

        def src(name, tv):
            nd = N("src", name)
            c.it.nonnull.add(name)
            if tv.axes:
                c.it.arrays.add(nd.vn)
            env[nd.vn] = tv
            return nd

        X = src("X", T.atom("X", (nA, pA)))
        y, mu, w = (src(k, T.atom(k, (nA,))) for k in ("y", "mu", "w"))
        phi = src("phi", T.scalar(PHI))
        for vn, s in c.env.items():
            env[vn] = T.scalar(s)
        args = [link, X, y, mu, w, phi, const(fi)]
        eta = c.call(link, "link", [mu])
        h1 = c.call(link, "inverse_derivative", [eta])
        h2 = c.call(link, "inverse_derivative2", [eta])
        V = c.call(fam, "unit_variance", [mu])
        dV = c.call(fam, "unit_variance_derivative", [mu])
        nodes = {m: c.call(fam, m, args) for m in ("_fisher_information", "_observed_information", "_score_matrix")}
        J = design(fi)

        def parts(d):
            t = T.Ten(d, env)
            return t, [t.t(x) for x in (h1, h2, V, dV, y, mu, w)]

        def fisher(d):
            _, (a, b, v, dv, yy, m, ww) = parts(d)
            return T.elementwise(lambda a, v, ww: a ** 2 * ww / (PHI * v), a, v, ww)

        def observed(d):
            _, (a, b, v, dv, yy, m, ww) = parts(d)
            return T.elementwise(lambda a, b, v, dv, yy, m, ww: (a ** 2 * (1 + (yy - m) * dv / v) - b * (yy - m)) * ww / (PHI * v),
                                 a, b, v, dv, yy, m, ww)

        def score(d):
            _, (a, b, v, dv, yy, m, ww) = parts(d)
            return T.elementwise(lambda a, v, yy, m, ww: (yy - m) * a * ww / (PHI * v), a, v, yy, m, ww)

        def quad(W):
            def f(d):
                Wd = W(d)
                full = T.elementwise(lambda x, o: x, Wd, T.fill((nA,), 0))
                return T.matmul(T.transpose(J), T.elementwise(lambda p, q: p * q, T.add_axis(full, 1), J))
            return f

        def rows(d):
            return T.elementwise(lambda p, q: p * q, T.add_axis(T.elementwise(lambda x, o: x, score(d), T.fill((nA,), 0)), 1), J)

        tag = f"{fcls.name}({flab}) {lcls.name}({llab}) intercept={fi}"
        for rule, m, want in (("I1", "_fisher_information", quad(fisher)), ("I2", "_observed_information", quad(observed)),
                              ("I3", "_score_matrix", rows)):
            decide_equal(chk, rule, f"{tag}.{m}", where_of(prog, fcls, m),
                         lambda d, m=m: T.Ten(d, env).t(nodes[m]), want)
