"""M04: the in-memory type of arrays and values follows what was asked for on creation and opening, also in the per-object and per-location parts obtained from them; type, rank and shape that
were passed on creation are the ones that are stored."""
import flow
from check import Check, where, sig, short
from common import *
from model import Model, H, D, PRIM, PURE, chain, name_of
from flow import show
from types_ import HDF5

READ, WRITE, CREATE = H + "Attributes::read", H + "Attributes::write", H + "create_dataset"
MEM, FILE = "_memory_datatype", "_file_datatype"
THIS = ("fld", ("this",), MEM)


def plain(t):
    while True:
        if t[0] == "cast":
            t = t[-1]
        elif t[0] == "new" and t[1] == H + "Datatype" and len(t[3]) == 1:
            t = t[3][0]
        else:
            return t


class Types:
    def __init__(self, m):
        self.m, self.memo = m, {}

    def holders(self, cls):
        return set(chain(self.m.prog, cls)) & {D + "Array", D + "ValueGroup"}

    def parts(self, cls, path=()):
        """Where an object of a class holds arrays or values: field paths"""
        cls = flow.base_type(cls)
        out = [path] if self.holders(cls) else []
        if len(path) < 3:
            for b in chain(self.m.prog, cls):
                for n, t, _ in (self.m.prog.classes.get(b) or {"fields": ()})["fields"]:
                    if flow.base_type(t).startswith(D) and flow.base_type(t) != cls and "Collection" not in t:
                        out += self.parts(t, path + (n,))
        return out

    def analysis(self, f):
        A = flow.Analysis(self.m.prog, opaque=lambda q, k: h5_call(q) or q in PRIM, pure=lambda q, k: q in PURE)
        A.max_steps = 40000
        return A

    def run(self, f):
        A = self.analysis(f)
        try:
            return A, [p for p in A.run(f) if p.kind == "ret"]
        except flow.TooComplex:
            return None, []

    def object(self, A, f, p):
        return A.read(p.st, ("lv", ("m", ("this",)), ())) if f.get("ctor") else A.as_value(p.st, p.value)

    def of(self, A, p, v, path):
        """The in-memory type of a part of an object"""
        for n in path:
            v = A.select(p.st, v, ("f", n))
        return self.resolve(A.select(p.st, v, ("f", MEM)))

    def resolve(self, t, depth=0):
        t = plain(t)
        if depth < 8 and t[0] == "fld" and t[2] == MEM and t[1][0] == "new":
            s = self.summary(t[1][2])
            if s is not None:
                g = self.m.prog.functions[t[1][2]]
                for (n, _, _), a in zip(g["params"], t[1][3]):
                    s = replace(s, ("par", n), a)
                return self.resolve(simplify(s), depth + 1)
        if depth < 8 and t[0] == "fld" and t[2] == MEM and t[1][0] == "app" and t[1][1].split("::")[-1] == "move":
            return self.resolve(("fld", t[1][2][0], MEM), depth + 1)
        return t

    def summary(self, key):
        """In-memory type of a constructed array or value, as a term over the constructor's parameters"""
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        f = self.m.prog.functions.get(key)
        if f is None or "body" not in f and not f.get("copymove"):
            return None
        if f.get("copymove"):
            self.memo[key] = ("fld", ("par", f["params"][0][0]), MEM)
            return self.memo[key]
        A, ps = self.run(f)
        got = set()
        for p in ps:
            t = self.resolve(self.of(A, p, self.object(A, f, p), ()))
            if t == THIS:
                t = self.taken(f) or t
            got.add(t)
        if len(got) == 1:
            self.memo[key] = got.pop()
        return self.memo[key]

    def taken(self, f):
        """The in-memory type of the array that a constructor takes over as its base"""
        for kind, _, init in f.get("inits", ()):
            if kind in ("b", "d"):
                names = []
                scan(init, lambda n: names.append(n[1]) if n[0] == "var" else None)
                mine = [n for n, _, t in f["params"] if n in names and self.holders(flow.base_type(t))]
                if len(mine) == 1:
                    return ("fld", ("par", mine[0]), MEM)
        return None


def replace(t, a, b):
    if t == a:
        return b
    return tuple(replace(x, a, b) if isinstance(x, tuple) else x for x in t)


def simplify(t):
    return t


def native(t):
    """The constant HDF5 type a term denotes: (kind, width), with whether it is the one in memory"""
    t = plain(t)
    name = t[1] if t[0] in ("glob", "var", "app") else show(t)
    name = str(name).replace("_g", "")
    return name if name.startswith("H5T_") else None


def run():
    c = Check("M04", "the type given on opening or creating is the in-memory type of the result and of what it hands out; without one the type follows from the stored one; stored type, rank and shape are the ones passed",
              ["with two type parameters the first is the one in the file, as everywhere in this interface"])
    m = Model()
    c.program(m.prog)
    T = Types(m)
    constants = {}
    for f in sorted(m.prog.functions.values(), key=lambda f: f["key"]):
        if "body" not in f or component(f) not in ("cxx", "hl") or "/test/" in f["file"]:
            continue
        ctor = f.get("ctor")
        cls = flow.base_type((f.get("cls") if ctor else f.get("ret")) or "")
        transfers(c, m, T, f)
        if ctor and f.get("copymove") or not cls.startswith(D):
            continue
        parts = T.parts(cls)
        last = f["q"].split("::")[-1]
        if not parts:
            continue
        if ctor:
            opener(c, m, T, f, cls, parts, constants)
        elif not f.get("cls"):
            creator(c, m, T, f, cls, parts, constants)
        elif T.holders(f["cls"]):
            handed_out(c, m, T, f, cls, parts)
        elif last == "add" and any(is_type(t) for _, _, t in f["params"]):
            adding(c, m, T, f, cls, parts)
    for (cls, path), found in sorted(constants.items()):
        c.ob("fixed type", f"{short(cls)} {'.'.join(path)}", len({kind(x) for x in found}) == 1, "", f"is {sorted(set(found))} by different functions")
    ranks(c, m, T)
    members_set_first(c, m.prog, ("cxx", "hdf5"))
    return c.finish({"opened": 40, "created": 30, "handed out": 3, "transfer": 6, "fixed type": 4, "shape": 12, "rank": 4, "added": 3, "members": 1})


def is_type(t):
    return "Datatype" in t


def datatypes(f):
    return [("par", n) for n, _, t in f["params"] if is_type(t)]


def follows(t, path=None):
    """The in-memory type that belongs to the stored one"""
    return t[0] == "app" and t[1] == H + "memory_datatype" and len(t[2]) >= 1 and (any(x[0] == "app" and x[1] in ("H5Dget_type", H + "decode_datatype", H + "Dataset::datatype") for x in terms(t[2][0]))
                                                                                or any(x == ("fld", ("this",), FILE) for x in terms(t[2][0])))


def stored(t):
    """The type in the file itself"""
    return t[0] == "app" and t[1] in (H + "file_datatype", H + "decode_datatype") or t[0] == "fld" and t[2] == FILE \
        or t[0] in ("new", "app") and (t[0] == "new" or t[1] != H + "memory_datatype") and any(x[0] == "app" and x[1] == "H5Dget_type" for x in terms(t)) \
        and not any(x[0] == "app" and x[1] == H + "memory_datatype" for x in terms(t))


def opener(c, m, T, f, cls, parts, constants):
    A, ps = T.run(f)
    if A is None:
        c.count("large functions covered by the functions they call")
        return
    given = datatypes(f)
    for p in ps:
        v = T.object(A, f, p)
        for path in parts:
            t = T.of(A, p, v, path)
            inst = f"{sig(f)} {'.'.join(path)}".strip()
            if t == THIS or t[0] == "fld" and t[2] == MEM and t[1][0] == "fld" and t[1][1] == ("this",):
                t = T.taken(f) or t
            if given and not (path and path != ("_value",)):
                ok = t == given[-1] if t[0] == "par" or native(t) or t[0] == "app" and t[1] == H + "memory_datatype" else None
                c.ob("opened", inst, ok, where(f), f"the given type is not used, but {show(t)}")
            elif native(t):
                constants.setdefault((cls, path), []).append(native(t))
            elif t[0] == "fld" and t[2] == MEM and t[1][0] == "par":
                c.ob("opened", inst, True, where(f))
            else:
                c.ob("opened", inst, True if follows(t) else False if stored(t) or not t[0] in ("app", "fld", "new") else None, where(f), f"the type in memory is {show(t)}")


def stored_types(m, p):
    """Types that a path stores: those of arrays and those of groups of arrays"""
    out = []
    for e in p.events:
        if e.q == CREATE:
            t = plain(e.args[2])
            if not (t[0] == "app" and t[1] == H + "decode_datatype"):
                out.append((t, e))
        elif e.q == WRITE and plain(e.args[2])[0] == "app" and plain(e.args[2])[1] == H + "encode_datatype":
            out.append((plain(plain(e.args[2])[2][0]), e))
    return out


def creator(c, m, T, f, cls, parts, constants):
    given = datatypes(f)
    if not given and (f["params"] and T.holders(flow.base_type(f["params"][0][2]))):
        return
    A, ps = T.run(f)
    if A is None:
        c.count("large functions covered by the functions they call")
        return
    for p in ps:
        v = T.object(A, f, p)
        stored = stored_types(m, p)
        if not stored and not given:
            continue
        for path in parts:
            t = T.of(A, p, v, path)
            inst = f"{sig(f)} {'.'.join(path)}".strip()
            if given:
                ok = t == given[-1] if t[0] == "par" or native(t) or t[0] == "app" else None
                c.ob("created", f"in memory by {inst}", ok, where(f), f"is {show(t)}")
            elif native(t):
                constants.setdefault((cls, path), []).append(native(t))
            else:
                c.ob("created", f"in memory by {inst}", True if follows(t) else None, where(f), f"is {show(t)}")
        for t, e in stored:
            inst = f"stored by {sig(f)}"
            if len(given) == 2:
                ok = t == given[0] if t[0] in ("par", "app") or native(t) else None
            elif given:
                ok = t == ("app", H + "file_datatype", (given[0],)) or t[0] == "app" and t[1] == H + "file_datatype" and plain(t[2][0]) == given[0]
                if not ok and not (t[0] in ("par", "app") or native(t)):
                    ok = None
            else:
                a = native(t) or (native(t[2][0]) if t[0] == "app" and t[1] == H + "file_datatype" else None)
                own = [T.of(A, p, v, path) for path in parts]
                ok = None if a is None else any(follows(o) or kind(native(o)) == kind(a) for o in own) if kind(a) else None
            c.ob("created", inst, ok, where(f, e.line), f"stores {show(t)}")
        for e in p.events:
            if e.q == CREATE:
                shape(c, m, f, e)


def kind(name):
    """kind and width of an HDF5 type constant"""
    return (HDF5.get(f"{name}_g") or (None,))[:2]


def shape(c, m, f, e):
    sp = plain(e.args[3])
    if sp[0] != "app" or sp[1].split("::")[-1] != "create_dataspace":
        return
    given = [("par", n) for n, _, t in f["params"] if "Shape" in t]
    rank = [("par", n) for n, _, t in f["params"] if n == "rank" or t in ("unsigned long", "const unsigned long")]
    for t in sp[2][:2]:
        t = plain(t)
        base = None
        if t[0] == "mut" and t[1] == "insert":
            base = plain(t[2][0])
        if base is None:
            c.ob("shape", sig(f), None, where(f, e.line), f"creates {show(t)}")
        elif given:
            c.ob("shape", sig(f), base == given[0] if base[0] in ("par", "new", "init") else None, where(f, e.line), f"creates arrays of shape {show(base)}")
        elif rank:
            items = seq(base)
            ok = None
            if items[0] == "items" and len(items) == 2:
                d = {k: v for k, v in flow.linear(items[1], 1, {}).items() if v}
                factor = 2 if "box" in f["q"].lower() else 1
                ok = d == {k: v for k, v in flow.linear(flow.mk_bin("*", ("int", factor), rank[0]), 1, {}).items() if v}
            elif items[0] == "rep":
                ok = False
            c.ob("shape", sig(f), ok, where(f, e.line), f"creates arrays of shape {show(base)}")
        else:
            c.ob("shape", sig(f), True if seq(base) == ("items",) or all(x[0] != "par" for x in terms(base)) else None, where(f, e.line), f"creates arrays of shape {show(base)}")


def handed_out(c, m, T, f, cls, parts):
    """Arrays and values obtained from a value: by index, or by expanding it"""
    A, ps = T.run(f)
    if A is None:
        c.ob("handed out", sig(f), None, where(f), "too large")
        return
    for p in ps:
        v = T.object(A, f, p)
        for path in parts:
            t = T.of(A, p, v, path)
            ok = t == THIS or t[0] == "fld" and t[2] == MEM and t[1][0] == "fld" and t[1][1] == ("this",)
            if not ok and not (native(t) or t[0] == "app" and t[1] in (H + "memory_datatype", H + "file_datatype") or t[0] == "fld" and t[2] == FILE):
                ok = None
            c.ob("handed out", f"{sig(f)} {'.'.join(path)}".strip(), ok, where(f), f"is in memory of type {show(t)}, not that of the value")
        for t, e in stored_types(m, p):
            c.ob("handed out", f"stored by {sig(f)}", t == ("fld", ("this",), FILE) or (None if t[0] not in ("app", "fld") else False), where(f, e.line), f"stores {show(t)}")


def adding(c, m, T, f, cls, parts):
    """A property that is added gets the type that was passed."""
    A, ps = T.run(f)
    if A is None:
        c.count("large functions covered by the functions they call")
        return
    given = datatypes(f)
    for p in ps:
        for t, e in stored_types(m, p):
            ok = t[0] == "app" and t[1] == H + "file_datatype" and plain(t[2][0]) == given[0]
            c.ob("added", sig(f), ok if t[0] in ("app", "par") or native(t) else None, where(f, e.line), f"stores {show(t)}")
        for e in p.events:
            if e.q == CREATE:
                shape(c, m, f, e)
        v = T.object(A, f, p)
        made = [x for x in terms(v) if x[0] == "new" and set(chain(m.prog, x[1])) & {D + "PropertyGroup"}]
        for x in made[:1]:
            for path in parts:
                t = T.of(A, p, x, path)
                c.ob("added", f"in memory by {sig(f)}", t == given[-1] if t[0] == "par" or native(t) or t[0] == "app" else None, where(f), f"is {show(t)}")


def transfers(c, m, T, f):
    """Arrays transfer in their own in-memory type, or in the one passed explicitly."""
    if not f.get("cls") or D + "Array" not in chain(m.prog, f["cls"]) or f.get("ctor"):
        return
    if f["q"].split("::")[-1] not in ("read", "write", "fill"):
        return
    A, ps = T.run(f)
    given = datatypes(f)
    for p in ps:
        for e in p.events:
            if e.q in (H + "Dataset::read", H + "Dataset::write", H + "Dataset::fill") and len(e.args) > 2:
                t = plain(e.args[1])
                if given:
                    ok = t == given[0]
                elif "<" in f["key"].split("(")[0] and native(t):
                    continue
                else:
                    ok = t == THIS
                c.ob("transfer", sig(f), ok if ok or t[0] in ("par", "fld", "app") or native(t) or stored(t) else None, where(f, e.line), f"transfers in type {show(t)}")


def ranks(c, m, T):
    """The rank a value reports is the one passed when it was created."""
    tags = set()
    for f in m.prog.functions.values():
        if f.get("cls") == D + "ValueGroup" and "body" in f:
            A, ps = T.run(f)
            for p in ps:
                if f.get("ctor") and not f.get("copymove"):
                    t = plain(A.read(p.st, ("lv", ("m", ("this",)), (("f", "_rank"),))))
                    ok = t[0] == "app" and t[1] == READ
                    c.ob("rank", sig(f), ok if ok or t[0] == "int" else None, where(f), f"is {show(t)}")
                    if ok:
                        tags.add(name_of(t[2][1]))
                elif f["q"].split("::")[-1] == "rank":
                    t = plain(A.as_value(p.st, p.value))
                    c.ob("rank", sig(f), t == ("fld", ("this",), "_rank") if t[0] in ("fld", "int") else None, where(f), f"is {show(t)}")
                elif f["q"].split("::")[-1] in ("memory_datatype", "file_datatype"):
                    t = plain(A.as_value(p.st, p.value))
                    c.ob("rank", sig(f), t == ("fld", ("this",), "_" + f["q"].split("::")[-1]) if t[0] == "fld" else None, where(f), f"is {show(t)}")
    for f in m.prog.functions.values():
        if not f.get("cls") and f["q"].startswith(D) and f["q"].split("::")[-1].startswith("create") and "body" in f and component(f) == "cxx":
            r = [n for n, _, t in f["params"] if n == "rank" and "unsigned" not in t]
            if not r:
                continue
            A, ps = T.run(f)
            if A is None:
                continue
            for p in ps:
                for e in p.events:
                    if e.q == WRITE and name_of(e.args[1]) in tags:
                        t = plain(e.args[2])
                        c.ob("rank", f"stored by {sig(f)}", t == ("par", r[0]) if t[0] in ("par", "int", "op") else None, where(f, e.line), f"stores {show(t)}")
