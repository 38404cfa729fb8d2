"""Helpers that set up entry points for the value-flow builder."""
from __future__ import annotations

from .engine import Frame, Interp, State
from .nodes import ABSENT, FALSE, NONE, TRUE, N, const
from .program import AnalysisError, Program


class Session:
    """One abstract history: construct an estimator, then call methods."""

    def __init__(self, program, cls="GeneralizedLinearRegressor", params=None, opaque=(), obj_tag="est"):
        self.p = program
        self.it = Interp(program, opaque)
        self.st = State()
        self.cls = program.cls(cls)
        self.obj = self.it.new_obj(self.cls, obj_tag)
        self.oid = self.obj.payload[0]
        self.st.heap[self.oid] = {}
        init = self.cls.lookup("__init__")
        if init is None:
            raise AnalysisError(f"{cls}.__init__ vanished")
        self.ctor_params = init.params[1:]
        kw = {}
        for k in self.ctor_params:
            kw[k] = (params or {}).get(k, None)
            if kw[k] is None:
                kw[k] = N("src", f"ctor:{k}")
            elif not isinstance(kw[k], N):
                kw[k] = const(kw[k].payload) if isinstance(kw[k], N) else kw[k]
        for k in params or {}:
            if k not in self.ctor_params:
                raise AnalysisError(f"constructor parameter {k} of {cls} vanished")
        self.ctor_kw = kw
        self.it.call_func(init, [self.obj], kw, self.st, ("<entry>", 0))

    def attr(self, name):
        return self.st.heap[self.oid].get(name, ABSENT)

    def set(self, name, val):
        self.st.setattr(self.oid, name, val)

    def call(self, method, tag=None, **params):
        """Call a public method; unspecified params become src nodes tag:param."""
        m = self.cls.lookup(method)
        if m is None:
            raise AnalysisError(f"{self.cls.name}.{method} vanished")
        tag = tag or method
        kw = {}
        for k in m.params[1:]:
            if k in params:
                v = params[k]
                kw[k] = v if isinstance(v, N) else const(v)
            else:
                kw[k] = N("src", f"{tag}:{k}")
        for k in params:
            if k not in m.params:
                raise AnalysisError(f"{self.cls.name}.{method} has no parameter {k}")
        n0 = len(self.it.events)
        # the instance method object may be decorated
        f = self.it.func_node(m)
        r = self.it.apply(f, [self.obj], kw, self.st, ("<entry>", 0))
        return r, self.it.events[n0:]


def obj_of(session_or_prog, st, cls, tag, it, params=None):
    """Instantiate a package class abstractly inside state st."""
    ci = it.p.cls(cls)
    init = ci.lookup("__init__")
    o = it.new_obj(ci, tag)
    st.heap[o.payload[0]] = {}
    if init is not None:
        kw = dict(params or {})
        for k in init.params[1:]:
            kw.setdefault(k, N("src", f"{cls}:{k}"))
        it.call_func(init, [o], kw, st, ("<entry>", 0))
    return o
