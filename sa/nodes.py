"""Value-flow graph nodes.

Every expression of the analysed program is mapped to a node of a (cyclic,
because of loops) value-flow graph.  Nodes carry a *value number* (``vn``):
two nodes with the same vn are guaranteed to denote the same pure expression
over the same inputs.  Node identity (``id``) additionally distinguishes
allocation instances, which is what the alias/mutation queries need.
"""
from __future__ import annotations

import itertools

_ids = itertools.count(1)
_vn_table: dict = {}


def _intern(key):
    v = _vn_table.get(key)
    if v is None:
        v = len(_vn_table) + 1
        _vn_table[key] = v
    return v


class N:
    __slots__ = ("id", "op", "payload", "args", "site", "vn", "meta")

    def __init__(self, op, payload=None, args=(), site=None, vn=None, meta=None):
        self.id = next(_ids)
        self.op = op
        self.payload = payload
        self.args = tuple(args)
        self.site = site
        self.meta = meta
        if vn is None:
            vn = _intern((op, _hashable(payload), tuple(a.vn for a in self.args)))
        self.vn = vn

    def __repr__(self):
        return f"<{self.op}:{self.payload!r}#{self.id}>"


def _hashable(p):
    try:
        hash(p)
    except TypeError:
        return repr(p)
    # 1 == True == 1.0 in Python; keep them apart
    if isinstance(p, (bool, int, float, complex)):
        return (type(p).__name__, repr(p))
    return p


def const(v, site=None):
    return N("const", v, (), site)


def unique(op, payload=None, args=(), site=None, meta=None):
    n = N(op, payload, args, site, vn=-1, meta=meta)
    n.vn = _intern(("uniq", n.id))
    return n


ABSENT = N("absent", None)
NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(n, v=...):
    if n.op != "const":
        return False
    return True if v is ... else (n.payload is v or (type(n.payload) is type(v) and n.payload == v))


def show(n, depth=6, seen=None):
    """Readable rendering of a node (for reports)."""
    if depth == 0:
        return "..."
    a = n.args
    d = depth - 1
    op = n.op
    if op == "const":
        return repr(n.payload)
    if op in ("param", "src"):
        return str(n.payload)
    if op == "obj":
        return f"<{n.payload[1]}>"
    if op == "call":
        name = n.payload[0].split(".")[-1]
        return f"{name}({', '.join(show(x, d) for x in a)})"
    if op == "mcall":
        return f"{show(a[0], d)}.{n.payload[0]}({', '.join(show(x, d) for x in a[1:])})"
    if op == "bin":
        return f"({show(a[0], d)} {n.payload} {show(a[1], d)})"
    if op == "cmp":
        return f"({show(a[0], d)} {n.payload} {show(a[1], d)})"
    if op == "un":
        return f"{n.payload}{show(a[0], d)}"
    if op == "not":
        return f"not {show(a[0], d)}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(show(x, d) for x in a) + ")"
    if op == "getattr":
        return f"{show(a[0], d)}.{n.payload}"
    if op == "index":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if op == "phi":
        return "phi(" + ", ".join(show(x, d) for x in a) + ")"
    if op == "loopphi":
        return f"loop({show(a[0], d) if a else ''})"
    if op == "slice":
        return ":".join("" if is_const(x, None) else show(x, d) for x in a[:2])
    if op in ("tuple", "list"):
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if op == "refine":
        return show(a[0], depth)
    return f"{op}[{n.payload}]({', '.join(show(x, d) for x in a)})"
