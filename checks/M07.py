"""M07: comparisons of value types obey the laws of equality and order; values report what they were made from."""
import itertools
import flow, lueir
from check import Check, where, sig, short
from common import *
from model import Model, H, D

REL = {"==": lambda c: c == 0, "!=": lambda c: c != 0, "<": lambda c: c < 0, ">": lambda c: c > 0, "<=": lambda c: c <= 0, ">=": lambda c: c >= 0, "<=>": None}
OBJECTS = {H + "Identifier", H + "PrimaryDataObject"}  # Handles: equal when what they refer to is equal
OBJECT, REST = ("what it refers to",), ("handle",)
CAP = 96  # values per operand


def run():
    c = Check("M07", "the comparison operators of the value types, evaluated from their source over every combination of field values in a small domain, are an equality that depends on every field (of handles: on the object they refer to), its negation, and a strict order; "
              "the accessors of values report what the constructors were given",
              ["equality and order of strings, optionals and numbers are lawful", "values that differ in one field differ in the small domain too (the operators only compare fields)"])
    m = Model("hdf5", "cxx", "templates")
    c.program(m.prog)
    ops = {}
    packs = {k.replace("<<", "<").replace(">>", ">"): k for k in m.prog.classes if "<<" in k}
    for f in m.prog.functions.values():
        last = f["q"].split("::")[-1]
        if not last.startswith("operator") or "body" not in f or last[8:] not in REL or f.get("implicit"):
            continue
        n = len(f["params"]) + (1 if f.get("cls") else 0)
        cls = f.get("cls") or (flow.base_type(f["params"][0][2]) if f["params"] else None)
        cls = packs.get(cls, cls)
        if n != 2 or cls not in m.prog.classes or not (cls.startswith(D) or cls == H + "ObjectInfo" or cls in OBJECTS):
            continue
        last_cls = flow.base_type(f["params"][-1][2])
        if packs.get(last_cls, last_cls) != cls:
            continue
        ops.setdefault(cls, {})[last[8:]] = f
    for cls, fs in sorted(ops.items()):
        laws(c, m, cls, fs)
    values(c, m)
    return c.finish({"equivalence": 7, "every part counts": 10, "negation": 2, "strict order": 3, "round trip": 15, "derived": 5})


# ------------------------------------------------------------------ evaluation over small values


def leaves(m, cls, depth=0):
    """Paths of the fields that make up a value"""
    out = []
    for n, t, *_ in (m.prog.classes.get(cls) or {}).get("fields", ()):
        b = flow.base_type(t)
        if b in m.prog.classes and b.startswith(D) and depth < 4 and leaves(m, b, depth + 1):
            out += [(n,) + x for x in leaves(m, b, depth + 1)]
        else:
            out.append((n,))
    for b in (m.prog.classes.get(cls) or {}).get("bases", ()):
        out += leaves(m, b, depth + 1)
    return out


class Unknown(Exception):
    pass


class Pair:
    """An interpretation of terms over two values given as {path: number}"""

    def __init__(self, roots, values):
        self.roots, self.values = roots, values

    def path(self, t):
        p = []
        while t[0] == "fld":
            p.append(t[2])
            t = t[1]
        return t, tuple(reversed(p))

    def value(self, t):
        k = t[0]
        if k in ("int", "bool"):
            return t[1]
        if k == "fld" or t in self.roots:
            root, p = self.path(t)
            if root not in self.roots:
                raise Unknown(show(t))
            v = self.values[self.roots[root]]
            if p in v:
                return v[p]
            sub = tuple(v[x] for x in sorted(v) if x[:len(p)] == p)
            if not sub:
                for n in range(1, len(p)):  # part of a field that is a value of another library
                    if p[:n] in v:
                        return v[p[:n]]
                deeper = [x for x in v if x == p[:len(x)]]
                if deeper:
                    return v[deeper[0]]
                raise Unknown(show(t))
            return sub
        if k in ("cast", "addr", "deref", "some") and isinstance(t[-1], tuple):
            return self.value(t[-1])
        if k == "not":
            return not self.value(t[1])
        if k in ("and", "or"):
            vs = [self.value(x) for x in t[1:]]
            return all(vs) if k == "and" else any(vs)
        if k in ("eq", "ne", "lt", "le"):
            a, b = self.value(t[1]), self.value(t[2])
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b}[k]
        if k == "tuple":
            return tuple(self.value(x) for x in t[1])
        if k == "neg":
            return -self.value(t[1])
        if k == "op":
            a = [self.value(x) for x in t[2]]
            if t[1] == "+":
                return sum(a)
            if t[1] == "-":
                return a[0] - a[1] if len(a) == 2 else -a[0]
            if t[1] == "*":
                r = 1
                for x in a:
                    r *= x
                return r
            if t[1] == "/" and a[1]:
                return a[0] // a[1]
            if t[1] == "%" and a[1]:
                return a[0] % a[1]
        if k == "app":
            n = t[1].split("::")[-1]
            if n in ("operator<=>", "compare") and len(t[2]) == 2:
                a, b = self.value(t[2][0]), self.value(t[2][1])
                return (a > b) - (a < b)
            if n.startswith("operator") and n[8:] in ("==", "!=", "<", ">", "<=", ">=") and len(t[2]) == 2:
                a, b = self.value(t[2][0]), self.value(t[2][1])
                return REL[n[8:]]((a > b) - (a < b))
            if n in ("tie", "make_tuple", "forward_as_tuple"):
                return tuple(self.value(x) for x in t[2])
            if n in ("min", "max") and len(t[2]) == 2:
                return {"min": min, "max": max}[n](self.value(t[2][0]), self.value(t[2][1]))
            if n == "has_value" and len(t[2]) == 1:
                return bool(self.value(t[2][0]))
            if n == "operator!" and len(t[2]) == 1:
                return not self.value(t[2][0])
            if n in ("value", "operator*", "as_const", "move", "forward", "get") and len(t[2]) == 1:
                return self.value(t[2][0])
        if k == "new" and "__unspec" in str(t[1]):
            return 0
        if k == "enum" and "ordering" in str(t[1]):
            return {"less": -1, "equal": 0, "equivalent": 0, "greater": 1}.get(str(t[1]).split("::")[-1]) or 0
        raise Unknown(show(t)[:80])


class Handles(Pair):
    """Two handles: what they refer to, and the rest of them."""

    def __init__(self, m, cls, roots, values):
        super().__init__(roots, values)
        self.ids = {n for n, t, *_ in m.prog.classes[cls]["fields"] if flow.base_type(t) == H + "Identifier"} if cls != H + "Identifier" else set()

    def value(self, t):
        if t[0] == "app" and t[1].split("::")[-1] == "info" and len(t[2]) == 1 or t in self.roots:
            return self.values[self.roots[self.path(t[2][0] if t[0] == "app" else t)[0]]][OBJECT]
        if t[0] == "fld":
            root, p = self.path(t)
            if root in self.roots:
                return self.values[self.roots[root]][OBJECT if p[0] in self.ids and len(p) == 1 else REST]
        return super().value(t)


def evaluate(A, paths, world):
    """Result of an operator in a world, Unknown when it does not follow"""
    got = set()
    for p in paths:
        if any(bool(world.value(a)) != v for a, v in p.facts.items()):
            continue
        if p.kind != "ret" or p.value is None:
            raise Unknown("raises an error")
        v = world.value(A.as_value(p.st, p.value))
        got.add(v)
    if len(got) != 1:
        raise Unknown(f"{len(got)} outcomes")
    return got.pop()


def table(m, f, vals):
    A = m.analysis(f)
    if f.get("cls") in OBJECTS:
        handles = lambda q: q.rsplit("::", 1)[0] in (H + "ObjectInfo", *OBJECTS) and q.rsplit("::", 1)[1] in ("info", "operator==", "operator!=")
        A = flow.Analysis(m.prog, opaque=lambda q, k: k != f["key"] and handles(q), pure=lambda q, k: handles(q), qualify=True)
    paths = A.run(f)
    if f.get("cls"):
        roots = {("this",): 0, ("par", f["params"][0][0]): 1}
    else:
        roots = {("par", f["params"][0][0]): 0, ("par", f["params"][1][0]): 1}
    n = len(vals)
    world = lambda v: Handles(m, f["cls"], roots, v) if f.get("cls") in OBJECTS else Pair(roots, v)
    return [[bool(evaluate(A, paths, world((vals[i], vals[j])))) for j in range(n)] for i in range(n)]


def domain(ls, width):
    out = []
    for combo in itertools.product(range(width), repeat=len(ls)):
        out.append(dict(zip(ls, combo)))
    return out


def laws(c, m, cls, fs):
    ls = leaves(m, cls) if cls not in OBJECTS else [OBJECT, REST]
    if not ls:
        return
    width = 3
    while width > 2 and width ** len(ls) > CAP:
        width -= 1
    vals = domain(ls, width)
    while len(vals) > CAP:  # many fields: values that differ in at most two of them
        vals = [v for v in domain(ls, 2) if sum(v.values()) <= 2]
        break
    tables = {}
    name = short(cls)
    for op, f in sorted(fs.items()):
        if op == "<=>":
            continue
        try:
            tables[op] = table(m, f, vals)
        except Unknown as e:
            c.ob("equivalence" if op in ("==", "!=") else "strict order", f"operator{op} of {name} can be evaluated", None, where(f), str(e))
        c.count("operators evaluated")
    n = len(vals)
    c.count("value pairs", n * n * len(tables))
    if "==" in tables:
        t, w = tables["=="], where(fs["=="])
        bad = next((vals[i] for i in range(n) if not t[i][i]), None)
        c.ob("equivalence", f"== of {name} is reflexive", bad is None, w, f"{text(bad)} is not equal to itself" if bad else "")
        bad = next(((vals[i], vals[j]) for i in range(n) for j in range(n) if t[i][j] != t[j][i]), None)
        c.ob("equivalence", f"== of {name} is symmetric", bad is None, w, f"{text(bad[0])} and {text(bad[1])}" if bad else "")
        bad = transitive(t, n)
        c.ob("equivalence", f"== of {name} is transitive", bad is None, w, ", ".join(text(vals[x]) for x in bad) if bad else "")
        if cls in OBJECTS:
            bad = next(((vals[i], vals[j]) for i in range(n) for j in range(n) if t[i][j] != (vals[i][OBJECT] == vals[j][OBJECT])), None)
            c.ob("every part counts", f"== of {name} tells whether both refer to the same object", bad is None, w, f"{text(bad[0])} and {text(bad[1])}" if bad else "")
        for leaf in ls if cls not in OBJECTS else ():
            bad = next(((vals[i], vals[j]) for i in range(n) for j in range(n)
                        if t[i][j] and [x for x in ls if vals[i][x] != vals[j][x]] == [leaf]), None)
            c.ob("every part counts", f"== of {name} depends on {'.'.join(leaf)}", bad is None, w, "values that differ in this part only compare equal" if bad else "")
        if "!=" in tables:
            u = tables["!="]
            bad = next(((vals[i], vals[j]) for i in range(n) for j in range(n) if u[i][j] == t[i][j]), None)
            c.ob("negation", f"!= of {name} is the negation of ==", bad is None, where(fs["!="]), f"{text(bad[0])} and {text(bad[1])}" if bad else "")
    for op in ("<", ">"):
        if op not in tables:
            continue
        t, w = tables[op], where(fs[op])
        bad = next((vals[i] for i in range(n) if t[i][i]), None)
        c.ob("strict order", f"{op} of {name} is irreflexive", bad is None, w, text(bad) if bad else "")
        bad = next(((vals[i], vals[j]) for i in range(n) for j in range(n) if t[i][j] and t[j][i]), None)
        c.ob("strict order", f"{op} of {name} is asymmetric", bad is None, w, f"{text(bad[0])} and {text(bad[1])} precede each other" if bad else "")
        bad = transitive(t, n)
        c.ob("strict order", f"{op} of {name} is transitive", bad is None, w, ", ".join(text(vals[x]) for x in bad) if bad else "")
        inc = [[not t[i][j] and not t[j][i] for j in range(n)] for i in range(n)]
        bad = transitive(inc, n)
        c.ob("strict order", f"being unordered by {op} of {name} is transitive", bad is None, w, ", ".join(text(vals[x]) for x in bad) if bad else "")
    for a, b in (("<", ">"), ("<=", ">=")):
        if a in tables and b in tables:
            bad = any(tables[a][i][j] != tables[b][j][i] for i in range(n) for j in range(n))
            c.ob("strict order", f"{b} of {name} is the converse of {a}", not bad, where(fs[b]))
    for a, b in (("<", "<="), (">", ">=")):
        if a in tables and b in tables:
            bad = any(tables[a][i][j] and not tables[b][i][j] for i in range(n) for j in range(n))
            c.ob("strict order", f"{a} of {name} implies {b}", not bad, where(fs[b]))


def transitive(t, n):
    rows = [sum(1 << j for j in range(n) if t[i][j]) for i in range(n)]
    for i in range(n):
        for j in range(n):
            if t[i][j] and rows[j] & ~rows[i]:
                k = (rows[j] & ~rows[i]).bit_length() - 1
                return i, j, k
    return None


def text(v):
    return "{" + ", ".join(f"{'.'.join(k)}={x}" for k, x in sorted(v.items())) + "}"


# ------------------------------------------------------------------ what values report


def resolve(A, st, t, this):
    """A term about `this` with the value it was constructed with put in its place"""
    if t == ("this",):
        return this
    if t[0] == "fld":
        return A.select(st, resolve(A, st, t[1], this), ("f", t[2]))
    if t[0] in ("op",):
        return (t[0], t[1], tuple(resolve(A, st, x, this) for x in t[2]))
    if t[0] in ("cast", "neg", "some", "deref", "addr"):
        return t[:-1] + (resolve(A, st, t[-1], this),)
    return t


def plain(t):
    while t[0] in ("cast", "some", "addr") and isinstance(t[-1], tuple) or t[0] == "new" and len(t) > 3 and len(t[3]) == 1 and "optional" in str(t[1]):
        t = t[3][0] if t[0] == "new" else t[-1]
    return t


def values(c, m):
    by_class = {}
    for f in m.prog.functions.values():
        if f.get("cls") and "body" in f or f.get("ctor"):
            by_class.setdefault(f["cls"], []).append(f)
    for cls, fs in sorted(by_class.items()):
        if not (cls.startswith(D + "time::") and not cls.startswith(D + "time::Unit") or cls in (D + "Clock", D + "IndexRange")):
            continue
        accessors = {f["q"].split("::")[-1]: f for f in fs if not f["params"] and not f.get("ctor") and f.get("const") and "body" in f}
        ctors = [f for f in fs if f.get("ctor") and not f.get("copymove") and not f.get("implicit") and ("body" in f or f.get("inits"))]
        for f in sorted(ctors, key=lambda f: f["key"]):
            if f["params"] and len(f["params"]) == 1 and flow.base_type(f["params"][0][2]) == cls:
                continue
            A = m.analysis(f)
            for p in A.run(f):
                if p.kind != "ret":
                    continue
                this = A.read(p.st, ("lv", ("m", ("this",)), ()))
                for par, _, _ in f["params"]:
                    if par not in accessors:
                        continue
                    g = accessors[par]
                    B = m.analysis(g)
                    for q in B.run(g):
                        if q.kind != "ret" or q.value is None:
                            continue
                        v = plain(resolve(A, p.st, B.as_value(q.st, q.value), this))
                        ok = v == ("par", par) or (v[0] == "init" and list(v[2]) == [("par", par)])
                        c.ob("round trip", f"{sig(g)} of {sig(f)}", ok if v[0] in ("par", "init", "int", "str", "nullopt", "fld", "op", "enum") or not contains(v, ("par", par)) else None, where(g), f"reports {show(v)[:120]}")
                for n, g in accessors.items():  # optional parts that were not given are absent
                    if n in {x[0] for x in f["params"]} or "optional" not in str(g.get("ret", "")) or not f["params"]:
                        continue
                    B = m.analysis(g)
                    for q in B.run(g):
                        v = resolve(A, p.st, B.as_value(q.st, q.value), this)
                        empty = v == ("nullopt",) or v[0] in ("new", "init") and not v[-1]
                        full = v[0] in ("some", "enum", "str", "par", "int")
                        c.ob("round trip", f"{sig(g)} of {sig(f)} is empty", True if empty else False if full else None, where(g), f"reports {show(v)[:120]}")
    derived(c, m)


def grid(roots, ls_per_root):
    spaces = [[dict(zip(ls, combo)) for combo in itertools.product((1, 2, 5), repeat=len(ls))] for ls in ls_per_root]
    for combo in itertools.product(*spaces):
        yield Pair(roots, combo)


def derived(c, m):
    """Quantities that are computed from the parts"""
    def one(f, roots, ls, want, what):
        A = m.analysis(f)
        paths = A.run(f)
        ok, d = True, ""
        try:
            for w in grid(roots, ls):
                got, exp = evaluate(A, paths, w), want(w)
                if got != exp:
                    ok, d = False, f"yields {got} instead of {exp} for {', '.join(text(v) for v in w.values)}"
                    break
        except Unknown as e:
            ok, d = None, str(e)
        c.ob("derived", f"{sig(f)} is {what}", ok, where(f), d)

    def path(cls, *accessors):
        """Fields that hold what a chain of accessors reports"""
        out = ()
        for a in accessors:
            g = next((f for f in m.prog.functions.values() if f.get("cls") == cls and f["q"].split("::")[-1] == a and not f["params"] and "body" in f), None)
            if g is None:
                raise AnalysisError(f"anchor not found: {cls}::{a}")
            A = m.analysis(g)
            ps = [p for p in A.run(g) if p.kind == "ret"]
            t = A.as_value(ps[0].st, ps[0].value)
            if len(ps) == 1 and t[0] == "fld":
                step = Pair({("this",): 0}, ({},)).path(t)
                if step[0] == ("this",):
                    out += step[1]
                    for name in step[1]:
                        fields = {x[0]: flow.base_type(x[1]) for x in (m.prog.classes.get(cls) or {}).get("fields", ())}
                        cls = fields.get(name, cls)
                    continue
            return None
        return out

    T = ("this",)
    for f in sorted(m.prog.functions.values(), key=lambda f: f["key"]):
        cls = f.get("cls") or ""
        if "body" not in f or f.get("ctor"):
            continue
        last = f["q"].split("::")[-1].split("<")[0]
        if cls.startswith(D + "time::Clock<") and last == "nr_units" and len(f["params"]) == 1:
            par = f["params"][0][0]
            a, b = path(cls, "tick_period", "nr_units"), path(flow.base_type(f["params"][0][2]), "duration", "nr_ticks")
            what = "the number of ticks times the units per tick"
            want = lambda w: w.values[0][a] * w.values[1][b]
            roots, ls = {T: 0, ("par", par): 1}, ([a], [b])
        elif cls.startswith(D + "time::TimePoint<") and last == "nr_ticks":
            a = b = path(cls, "duration", "nr_ticks")
            what = "the number of ticks of the duration"
            want = lambda w: w.values[0][a]
            roots, ls = {T: 0}, ([a],)
        elif cls == D + "IndexRange" and last == "size":
            a, b = path(cls, "begin"), path(cls, "end")
            what = "the distance between begin and end"
            want = lambda w: w.values[0][b] - w.values[0][a]
            roots, ls = {T: 0}, ([a, b],)
        else:
            continue
        if a and b:
            one(f, roots, ls, want, what)
        else:
            c.ob("derived", f"{sig(f)} is {what}", None, where(f), "the parts are not plain fields")
