"""M06: a property name denotes one property of one kind within a property set."""
import itertools
import flow
from check import Check, where, sig, short
from common import *
from model import Model, H, D, chain, name_of
from flow import show

P = D + "Properties"


def run():
    c = Check("M06", "in every possible placement of a name over the collections of a property set, membership, queries of kind, the group lookup and addition do what that placement calls for; nothing adds to a collection behind the back of the shared test",
              ["a name is in at most one collection, which is what the rules establish inductively"])
    m = Model("hdf5", "cxx", "hl", "py")
    c.program(m.prog)
    W = World(m)
    for f in sorted(m.prog.functions.values(), key=lambda f: f["key"]):
        if f.get("cls") != P or f.get("ctor") or "body" not in f or f.get("implicit"):
            continue
        last = f["q"].split("::")[-1].split("<")[0]
        named = any("basic_string" in t for _, _, t in f["params"])
        if last == "add":
            addition(c, m, W, f)
        elif last in ("contains", "shape_per_object", "value_variability", "shape_variability", "collection_group") and named:
            query(c, m, W, f, last)
        elif last in ("size", "empty") and not f["params"]:
            size(c, m, W, f, last)
    behind(c, m, W)
    tests(c, m)
    return c.finish({"membership": 7, "kind": 18, "group": 7, "addition": 30, "shared test": 6, "size": 5})


class World:
    def __init__(self, m):
        self.m = m
        self.assumed = {}
        self.fields = {}
        for n, t, _ in m.prog.classes[P]["fields"]:
            b = flow.base_type(t)
            if b.startswith(D) and b.endswith("::Properties"):
                self.fields[n] = b[len(D):-len("::Properties")]
        self.kinds = set(self.fields.values())

    def field_in(self, t):
        got = {x[2] for x in terms(t) if x[0] == "fld" and x[1] == ("this",) and x[2] in self.fields}
        return got.pop() if len(got) == 1 else None

    def truth(self, a, name, at):
        """Truth of an atom when the name is in collection `at` (None: in none); None when it does not follow"""
        if a[0] == "not":
            r = self.truth(a[1], name, at)
            return None if r is None else not r
        if a[0] == "bool":
            return a[1]
        if a[0] in ("and", "or"):
            rs = [self.truth(x, name, at) for x in a[1:]]
            if a[0] == "and":
                return False if False in rs else None if None in rs else True
            return True if True in rs else None if None in rs else False
        if a[0] == "app" and a[1] in ("operator!", "has_value") and len(a[2]) == 1:
            v = a[2][0]
            empty = v == ("nullopt",) or v[0] in ("new", "init") and "optional" in str(v[1]) and not v[-1]
            full = v[0] in ("some", "enum") or v[0] == "glob"
            return None if not (empty or full) else empty == (a[1] == "operator!")
        fld = self.field_in(a)
        if fld is not None and (n := self.emptiness(a)) is not None:
            return not n if fld == at else self.assumed.get(a)
        if fld is None or ("par", name) not in list(subterms(a)):
            return None
        inside = fld == at
        if a[0] in ("eq", "ne") and {"find", "end"} <= {x[1].split("::")[-1] for x in terms(a) if x[0] == "app"}:
            return inside == (a[0] == "ne")
        if a[0] == "app" and a[1].split("::")[-1] in ("contains", "contains_group"):
            return inside
        if a[0] in ("eq", "ne", "lt") and any(x[0] == "app" and x[1].split("::")[-1] == "count" for x in terms(a)):
            zero = ("int", 0) in a[1:]
            if a[0] in ("eq", "ne") and zero:
                return inside == (a[0] == "ne")
            if a[0] == "lt" and zero:
                return inside
        return None

    def emptiness(self, a):
        """Whether the atom is true of an empty collection and false of other ones, or the other way around; None: it is about something else"""
        name = lambda t: t[1].split("::")[-1] if t[0] == "app" and len(t[2]) == 1 else ""
        if name(a) == "empty":
            return True
        if len(a) == 3 and ("int", 0) in a[1:] and any(x[0] == "app" and name(x) == "size" for x in a[1:]):
            if a[0] in ("eq", "ne"):
                return a[0] == "eq"
            if a[0] == "lt" and a[1] == ("int", 0):
                return False
        return None

    def outcomes(self, f, name, at, A, paths):
        """Paths that are taken in a world, with whether that is certain. Other collections than the one of the name can be empty or not."""
        for p in paths:
            atoms = set(p.facts)
            if p.kind == "ret" and p.value is not None:
                atoms |= {x for x in terms(A.as_value(p.st, p.value)) if x}
            free = sorted({x for a in atoms for x in [a, *(a[1:] if a[0] in ("and", "or", "not") else ())] if isinstance(x, tuple) and self.emptiness(x) is not None and self.field_in(x) not in (None, at)}, key=repr)[:6]
            for values in itertools.product((True, False), repeat=len(free)):
                self.assumed = dict(zip(free, values))
                if len({(self.field_in(a), self.emptiness(a) == v) for a, v in self.assumed.items()}) > len({self.field_in(a) for a in self.assumed}):
                    continue
                ts = [(self.truth(a, name, at), v) for a, v in p.facts.items()]
                if any(t is not None and t != v for t, v in ts):
                    continue
                yield p, all(t is not None for t, _ in ts)
        self.assumed = {}


def paths_of(m, f):
    A = m.analysis(f)
    return A, A.run(f)


def the_name(f):
    return next(n for n, _, t in f["params"] if "basic_string" in t)


def label(kind):
    return kind or "no kind"


def query(c, m, W, f, last):
    A, paths = paths_of(m, f)
    name = the_name(f)
    rule = {"contains": "membership", "collection_group": "group"}.get(last, "kind")
    const = "const " if f.get("const") else ""
    for fld in list(W.fields) + [None]:
        kind = W.fields.get(fld)
        for p, sure in W.outcomes(f, name, fld, A, paths):
            i = f"{const}{sig(f)} of a name of {label(kind)}"
            want = expected(last, kind)
            if p.kind != "ret":
                ok, d = want == "throw", "raises an error"
            elif last == "contains":
                v = A.as_value(p.st, p.value)
                r = W.truth(v, name, fld)
                ok, d = None if r is None else r == want, f"yields {r}"
            elif last == "collection_group":
                v = A.as_value(p.st, p.value)
                got = place_field(v, W)
                ok, d = None if got is None else want != "throw" and got == fld, f"yields {show(v)}"[:120]
                if want == "throw":
                    ok = False
            else:
                v = A.as_value(p.st, p.value)
                got = enumerator(v)
                ok, d = (False if want == "throw" else None if got is None else got == want), f"yields {got or show(v)[:80]}"
            if not ok and not sure:
                ok = None
            c.ob(rule, i, ok, where(f), d)


def place_field(v, W):
    while v[0] in ("addr", "deref", "cast"):
        v = v[-1]
    return v[2] if v[0] == "fld" and v[1] == ("this",) and v[2] in W.fields else None


def enumerator(v):
    while v[0] in ("cast", "some", "deref"):
        v = v[-1]
    if v[0] == "app" and v[1].split("::")[-1] in ("value", "operator*", "get", "deref"):
        return enumerator(v[2][0])
    if v[0] == "enum":
        return str(v[-1] if isinstance(v[-1], str) else v[1]).split("::")[-1]
    if v[0] == "glob":
        return v[1].split("::")[-1]
    return None


def expected(last, kind):
    if last == "contains":
        return kind is not None
    if kind is None:
        return "throw"
    if last == "collection_group":
        return kind
    parts = kind.split("::")
    if last == "shape_per_object":
        return parts[0].replace("_shape", "")
    if last == "value_variability":
        return "constant" if len(parts) == 1 else "variable"
    return "throw" if len(parts) == 1 else parts[1].replace("_shape", "")


def addition(c, m, W, f):
    A, paths = paths_of(m, f)
    name = the_name(f)
    kind = flow.base_type(f["ret"])[len(D):-len("::Property")]
    for fld in list(W.fields) + [None]:
        i = f"{sig(f)}{'' if not f.get('targs') else ' as ' + kind} of a name of {label(W.fields.get(fld))}"
        for p, sure in W.outcomes(f, name, fld, A, paths):
            made = [e for e in p.events if e.key in m.creators or e.q.split("::")[-1].startswith("create_")]
            if fld is not None:
                ok = p.kind != "ret" and not made
                c.ob("addition", i, ok or (False if sure else None), where(f), "something is created" if made else "no error is raised")
            elif p.kind == "ret":
                this = A.read(p.st, ("lv", ("m", ("this",)), ()))
                put = {x[2][1] for x in terms(this) if x[0] == "upd" and x[2][0] == "f" and x[2][1] in W.fields}
                want = {n for n, k in W.fields.items() if k == kind}
                ok = len(made) == 1 and put == want
                bad = (put and put != want) or len(made) > 1
                at = name_of(made[0].args[1]) if made and len(made[0].args) > 1 else None
                if ok and at != ("par", name):
                    ok, bad = False, at is not None
                keys = {x for t in terms(this) if t[0] == "mut" for x in t[2][1:2]}
                if ok and keys and not any(("par", name) in list(subterms(k)) for k in keys):
                    ok, bad = False, True
                c.ob("addition", i, ok or (False if bad else None), where(f), f"entered in {sorted(put)}, created under {show(at) if isinstance(at, tuple) else at}")
            else:
                c.ob("addition", i, False if sure else None, where(f), "a name that is not in use is refused")


def size(c, m, W, f, last):
    """Evaluated with all collections empty, and with one property in one of them"""
    A, paths = paths_of(m, f)
    for at in [None] + list(W.fields):
        for p in paths:
            facts = [(value(a, at, W), v) for a, v in p.facts.items()]
            if any(t is not None and bool(t) != v for t, v in facts):
                continue
            sure = all(t is not None for t, _ in facts)
            r = value(A.as_value(p.st, p.value), at, W) if p.kind == "ret" else None
            want = (0 if at is None else 1) if last == "size" else at is None
            ok = None if r is None else r == want
            c.ob("size", f"{sig(f)} with {'no property' if at is None else 'one property of ' + W.fields[at]}", ok if ok or sure else None, where(f), f"yields {r}")


def value(t, at, W):
    k = t[0]
    if k in ("int", "bool"):
        return t[1]
    if k == "cast":
        return value(t[-1], at, W)
    if k == "not":
        r = value(t[1], at, W)
        return None if r is None else not r
    if k == "app" and t[1].split("::")[-1] in ("size", "empty"):
        fld = W.field_in(t)
        if fld is None:
            return None
        n = 1 if fld == at else 0
        return n if t[1].split("::")[-1] == "size" else n == 0
    if k in ("and", "or"):
        rs = [value(x, at, W) for x in t[1:]]
        return None if None in rs else all(rs) if k == "and" else any(rs)
    if k in ("eq", "ne", "lt", "le") and len(t) == 3:
        a, b = value(t[1], at, W), value(t[2], at, W)
        if a is None or b is None:
            return None
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b}[k]
    d = flow.linear(t, 1, {})
    if t in d:
        return None
    total = 0
    for x, n in d.items():
        v = 1 if x is None else value(x, at, W)
        if v is None:
            return None
        total += n * v
    return total


def tests(c, m):
    """The membership test of one collection finds a name exactly when it was entered"""
    for f in sorted(m.prog.functions.values(), key=lambda f: f["key"]):
        if not f["q"].startswith(D + "Collection") or f["q"].split("::")[-1] != "contains" or "body" not in f:
            continue
        A, paths = paths_of(m, f)
        for p in paths:
            if p.kind != "ret":
                c.ob("membership", short(f["key"].split("(")[0]), None, where(f), "raises an error")
                continue
            used = {x[1].split("::")[-1] for t in list(p.facts) + [A.as_value(p.st, p.value)] for x in terms(t) if x[0] == "app"}
            ok = True if used & {"contains", "count", "contains_group"} or {"find", "end"} <= used else False if used & {"lower_bound", "upper_bound"} and not used & {"key_comp"} else None
            c.ob("membership", short(f["key"].split("(")[0]), ok, where(f), f"decided by {sorted(used)}")


def behind(c, m, W):
    """No one but the shared collection adds to the collections per kind"""
    def adder(q):
        for k in W.kinds:
            if q == D + k + "::create_property" or q.split("<")[0] == D + k + "::Properties::add":
                return True
        return False
    callers = {}
    for k, cs in call_graph(m.prog).items():
        for q, ck, line in cs:
            callers.setdefault(ck, set()).add((k, line))
    direct = {}
    for k, f in m.prog.functions.items():
        if not adder(f["q"]):
            continue
        for ck, line in callers.get(k, ()):
            g = m.prog.functions[ck]
            if "/test/" in g["file"] or adder(g["q"]):
                continue
            direct.setdefault(ck, (line, f))

    def allowed(k, seen=()):
        g = m.prog.functions[k]
        if g.get("cls") == P or g["q"].startswith(P + "::"):
            return True
        if k in seen:
            return True
        cs = [x for x, _ in callers.get(k, ()) if "/test/" not in m.prog.functions[x]["file"]]
        return bool(cs) and all(allowed(x, seen + (k,)) for x in cs) and component(g) == "cxx"
    for k, (line, f) in sorted(direct.items()):
        g = m.prog.functions[k]
        c.ob("shared test", f"{sig(g)}{'' if not g.get('targs') else ' ' + short(str(g['targs'][0]))} -> {short(f['q'])}", allowed(k), where(g, line), "a property is added to the collection of one kind without considering the other kinds")
