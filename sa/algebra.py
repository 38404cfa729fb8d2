"""Exact normal form for the expressions the analyses extract.

Expressions are rational functions over symbols and transcendental atoms
(exp / log / symbolic powers are rewritten to algebraically independent atoms,
a Risch-style tower), so that ``is_zero`` decides identities by polynomial
cancellation.  Nothing is evaluated numerically.
"""
from __future__ import annotations

import sys

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
try:
    import sympy as sp
except ImportError as e:  # pragma: no cover
    from .program import AnalysisError

    raise AnalysisError(f"sympy not available: {e}")


class Normalizer:
    """Rewrites to rational functions in symbols + atom symbols."""

    def __init__(self, params=()):
        self.atoms = {}
        self.rev = {}
        self.params = tuple(params)  # symbols that occur in exponents

    def atom(self, kind, key):
        k = (kind, key)
        s = self.atoms.get(k)
        if s is None:
            s = sp.Symbol(f"{kind}{len(self.atoms)}_", real=True)
            self.atoms[k] = s
            self.rev[s] = k
        return s

    def rat(self, e):
        e = sp.sympify(e)
        if e.is_Float:
            return sp.nsimplify(e, rational=True)
        if e in (sp.zoo, sp.nan, sp.oo, -sp.oo) or e.has(sp.nan, sp.zoo):
            return sp.nan
        if e.is_Symbol or e.is_Rational:
            return e
        if e is sp.pi or e is sp.E:
            return sp.Symbol("PI_") if e is sp.pi else self.exp(sp.Integer(1))
        if e.is_Add:
            return sp.Add(*[self.rat(a) for a in e.args])
        if e.is_Mul:
            return sp.Mul(*[self.rat(a) for a in e.args])
        if e.is_Pow:
            b, x = e.args
            if x.is_Integer:
                return self.rat(b) ** x
            if b is sp.E:
                return self.exp(self.rat(x))
            return self.exp(self.rat(x) * self.log(self.rat(b)))
        if isinstance(e, sp.exp):
            return self.exp(self.rat(e.args[0]))
        if isinstance(e, sp.log):
            return self.log(self.rat(e.args[0]))
        if e.func is sp.Abs:
            return self.atom("abs", sp.cancel(sp.together(self.rat(e.args[0]))))
        if e.args:
            key = (e.func.__name__,) + tuple(sp.cancel(sp.together(self.rat(a))) for a in e.args)
            return self.atom("f", key)
        return sp.Symbol(str(e))

    def log(self, r):
        r = sp.cancel(sp.together(r))
        num, den = sp.fraction(r)
        return sp.expand(self._logpoly(num) - self._logpoly(den))

    def _logpoly(self, p):
        if p == 0:
            return sp.nan
        c, facs = sp.factor_list(p)
        out = sp.Integer(0)
        c = sp.nsimplify(c, rational=True)
        for n, sign in ((abs(c.p), 1), (c.q, -1)):
            for q, m in sp.factorint(n).items():
                if q != 1:
                    out += sign * m * self.atom("L", sp.Integer(q))
        for f, m in facs:
            out += m * self._logirr(f)
        return out

    def _logirr(self, f):
        if f.is_Symbol and f in self.rev and self.rev[f][0] == "E":
            return self.rev[f][1]
        if f.could_extract_minus_sign():
            f = sp.expand(-f)
        return self.atom("L", f)

    def exp(self, a):
        a = sp.expand(a)
        groups = {}
        for t in sp.Add.make_args(a):
            logs = [s for s in t.free_symbols if s in self.rev and self.rev[s][0] == "L"]
            if len(logs) == 1 and sp.degree(sp.numer(t), logs[0]) == 1 and not sp.denom(t).has(logs[0]):
                L = logs[0]
                co = sp.cancel(t / L)
                groups.setdefault(L, []).append(co)
            else:
                groups.setdefault(None, []).append(t)
        out = sp.Integer(1)
        for L, cos in groups.items():
            if L is None:
                tot = sp.expand(sp.Add(*cos))
                for t in sp.Add.make_args(self._apart(tot)):
                    if t == 0:
                        continue
                    c, r = t.as_coeff_Mul()
                    if r == 1:
                        out *= self.atom("E", sp.Integer(1)) ** c if c.is_Integer else self.atom("E", c)
                        continue
                    if c.is_Integer:
                        out *= self.atom("E", r) ** c
                    else:
                        out *= self.atom("E", r / c.q) ** c.p
                continue
            co = self._apart(sp.cancel(sp.Add(*cos)))
            f = self.rev[L][1]
            for t in sp.Add.make_args(sp.expand(co)):
                if t == 0:
                    continue
                c, r = t.as_coeff_Mul()
                if r == 1:
                    if c.is_Integer:
                        out *= f ** c
                    else:
                        out *= f ** (c.p // c.q) * self.atom("E", L / c.q) ** (c.p % c.q)
                else:
                    out *= self.atom("E", r * L / c.q) ** c.p
        return out

    def _apart(self, e):
        ps = [p for p in self.params if e.has(p)]
        if len(ps) == 1 and sp.denom(sp.together(e)).has(ps[0]):
            try:
                return sp.expand(sp.apart(sp.cancel(sp.together(e)), ps[0]))
            except Exception:
                return e
        return e


def is_zero(e, params=()):
    """True iff e is identically 0 (undefined sub-expressions count as not)."""
    n = Normalizer(params)
    e = sp.sympify(e)
    if e.has(sp.nan, sp.zoo, sp.oo):
        return False
    r = n.rat(e)
    if r is sp.nan or r.has(sp.nan, sp.zoo):
        return False
    num = sp.numer(sp.together(r))
    return sp.expand(num) == 0
