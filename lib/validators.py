"""The validation functions of the data model, and what each of them examines."""
import re
import flow
from common import *
from model import Model, H, D, PRIM, PURE

ISSUES = H + "Issues"
REPORTS = {ISSUES + "::add_error", ISSUES + "::add_warning"}


class Validators:
    def __init__(self, *components):
        self.m = Model(*components)
        self.prog = self.m.prog
        self.functions = {k: f for k, f in self.prog.functions.items()
                          if f["q"].startswith(D) and component(f) == "cxx" and "/test/" not in f["file"] and "body" in f
                          and any(flow.base_type(t) == ISSUES and "const" not in t for _, _, t in f["params"])}
        self.memo = {}
        self.analyses = {}
        self.paths_seen = 0

    def accessor(self, q, k):
        """Members of the classes of the data model."""
        f = self.prog.functions.get(k)
        if f is None:
            f = self.prog.callees.get(k) or {}
            cls = q.rsplit("::", 1)[0]
            return cls.startswith(D) and cls in self.prog.classes and not q.endswith("::" + cls.split("::")[-1])
        return f["q"].startswith(D) and bool(f.get("cls")) and not f.get("ctor") and "::~" not in q and "(lambda" not in f["cls"] and "/test/" not in f["file"]

    def analysis(self, f, inline=(), **kw):
        def opaque(q, k):
            if k == f["key"] or k in inline:
                return False
            return k in self.functions or q.startswith(ISSUES + "::") or h5_call(q) or q in PRIM or k in self.m.openers or k in self.m.creators or self.accessor(q, k)

        def pure(q, k):
            if k in self.functions or k in self.m.openers or k in self.m.creators or q in REPORTS:
                return False
            if q in PURE:
                return True
            return self.accessor(q, k) and not q.endswith("::read")
        return flow.Analysis(self.prog, opaque=opaque, pure=pure, qualify=True, **kw)

    def paths(self, f, unroll=0, **kw):
        key = f["key"], tuple(sorted(kw.get("inline", ()))), unroll
        if key not in self.memo:
            A = self.analysis(f, **kw)
            if unroll:
                A.unroll = (unroll, lambda bound: True)
            A.max_steps = 400000
            self.analyses[f["key"]] = A
            try:
                ps = A.run(f)
            except flow.TooComplex:
                ps = None
            self.memo[key] = None if ps is None else [p for p in ps if p.kind == "ret"]
            self.paths_seen += len(ps or ())
        return self.memo[key]


def norm(t):
    """An object term without the wrapping that does not change which object it is."""
    while isinstance(t, tuple) and t:
        if t[0] == "cast":
            t = t[-1]
        elif t[0] in ("addr", "deref") and isinstance(t[1], tuple):
            t = t[1]
        elif t[0] == "lv" and t[1][0] == "m" and not t[2]:
            t = t[1][1]
        elif t[0] == "new" and len(t[3]) == 1 and t[1].startswith(D) and isinstance(t[3][0], tuple):
            t = t[3][0]
        elif t[0] == "app" and t[1].split("::")[-1] in ("move", "forward", "as_const", "ref", "cref") and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t
    return t


def same(a, b):
    return norm(a) == norm(b)


def each_of(t, collection):
    """Whether a term is one arbitrary item of a collection."""
    t = norm(t)
    if t[0] == "fld" and t[2] == "second" or t[0] == "at" and t[2] == ("int", 1):
        return each_of(t[1], collection)
    if t[0] == "elem":
        return same(t[1], collection)
    if t[0] == "app" and t[1].split("<")[0].split("::")[-1] in ("operator[]", "at", "get") and len(t[2]) == 2 and same(t[2][0], collection):
        n = norm(t[2][1])
        return over_names(n[1], collection) if n[0] == "elem" else (n[0] == "fld" and n[2] == "first" or n[0] == "at" and n[2] == flow.ZERO) and each_of(n[1], collection)
    return False


def over_names(t, collection):
    t = norm(t)
    return t[0] == "app" and t[1].split("<")[0].split("::")[-1] in ("names", "group_names") and len(t[2]) == 1 and same(t[2][0], collection)


def iterates(context, collection):
    return same(context, collection) or over_names(context, collection)
