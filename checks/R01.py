"""R01: a raster view reopens with the grid, time and layers it was created with."""
import re
import flow, lueir
from check import Check, where, sig
from common import *
from P05 import kinds

LIB = re.compile(r"^lue::data_model::")
WIDTH = {"unsigned long": "u64", "unsigned long long": "u64", "long": "i64", "long long": "i64", "double": "f64", "float": "f32",
         "unsigned int": "u32", "int": "i32", "unsigned char": "u8", "signed char": "i8", "unsigned short": "u16", "short": "i16"}
GLOBS = {"H5T_NATIVE_DOUBLE_g": "f64", "H5T_NATIVE_FLOAT_g": "f32", "H5T_IEEE_F64LE_g": "f64", "H5T_NATIVE_ULLONG_g": "u64", "H5T_NATIVE_ULONG_g": "u64",
         "H5T_STD_U64LE_g": "u64", "H5T_NATIVE_LLONG_g": "i64", "H5T_NATIVE_LONG_g": "i64"}


def last(q):
    m = re.search(r"operator(\[\]|\(\)|==|!=|<=|>=|->|\+\+|--|\+=|-=|\*|\+|-|=|<|>)", q)
    return m[0] if m else q.split("<")[0].split("::")[-1]


def targ(q):
    return q[q.index("<") + 1:-1].split(",")[0].strip() if "<" in q and "operator" not in q else None


def klass(name):
    """Which sort of properties a class of properties is for."""
    n = name.replace("lue::data_model::", "").replace("&", "").strip()
    return "::".join(n.split("::")[:-1])


def element(t):
    """Type of the elements that a type name stands for."""
    t = flow.base_type(t)
    if t == "lue::hdf5::Shape":
        return "u64"
    m = re.match(r"std::(?:array|vector)<([^,>]+)", t)
    return WIDTH.get((m[1] if m else t).strip())


class Run:
    """One analysed function, and what its terms stand for."""

    def __init__(self, prog, f, roles, inline):
        self.prog, self.f, self.roles = prog, f, roles
        A = self.A = flow.Analysis(prog, opaque=lambda q, k: k not in inline and not q.startswith("std::"), pure=lambda q, k: k not in inline and pure(prog, q, k), qualify=True)
        self.paths = A.run(f)
        self.types, self.classes = {}, {}
        for p in self.paths:
            for e in p.events:
                m = last(e.q)
                if m == "type_id":
                    g = re.search(r"Traits<([^,>]+)", e.key)
                    if g:
                        self.types[e.res] = WIDTH.get(g[1].strip())
                elif m == "native_datatype":
                    self.types[e.res] = WIDTH.get(targ(e.key.split("(")[0]) or "")
                if m == "add" and "::Properties::" in e.q:
                    g = prog.functions.get(e.key) or prog.callees.get(e.key) or {}
                    self.classes[e.res] = klass(targ(e.key.split("(")[0]) or flow.base_type(g.get("ret", "")))

    def role(self, t):
        while t[0] in ("cast", "some") and isinstance(t[-1], tuple):
            t = t[-1]
        if t in self.roles:
            return self.roles[t]
        return t if t[0] in ("str", "each", "elem", "int", "par") else None

    def dataset(self, t):
        while t[0] in ("deref", "addr", "some", "cast") or t[0] == "lv" or t[0] == "m" or t[0] == "app" and last(t[1]) in ("operator*", "operator->", "get"):
            t = t[2][0] if t[0] == "app" else t[1]
        return ("ds",) if self.roles.get(t) == ("role", 0) else None

    def place(self, t):
        """What part of a dataset a term stands for."""
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] in ("cast", "addr", "lv", "m") and len(t) > 1:
            return self.place(t[2] if t[0] == "cast" else t[1])
        if t[0] != "app":
            return self.dataset(t)
        n, a = last(t[1]), t[2]
        o = self.place(a[0]) if a else None
        if n == "phenomena" and o == ("ds",):
            return ("phens",)
        if n in ("operator[]", "add") and o == ("phens",) or n == "add_phenomenon" and o == ("ds",):
            return ("phen", self.role(a[1]))
        if o is None:
            return self.dataset(t)
        k = o[0]
        if k == "phen":
            return {"property_sets": ("sets", o), "object_id": ("id", o)}.get(n)
        if k == "sets" and n in ("operator[]", "add"):
            return ("set", o[1], self.role(a[1]))
        if k == "set":
            if n == "properties":
                return ("props", o)
            if n in ("space_domain", "time_domain", "object_tracker"):
                return (n, o)
        if k == "object_tracker":
            return ("tracker", o[1], n)
        if k in ("space_domain", "time_domain"):
            if n == "value":
                return ("domain", k, (targ(t[1]) or "").split("::")[-1], o[1])
            if n == "configuration":
                return ("configuration", k, o[1])
        if k == "props":
            if n == "collection":
                return ("coll", o[1], klass(targ(t[1]) or ""))
            if n == "add":
                return ("prop", o[1], self.classes.get(t) or klass(targ(t[1]) or ""), self.role(a[1]))
        if k == "coll":
            if n == "operator[]":
                return ("prop", o[1], o[2], self.role(a[1]))
            if n == "names":
                return ("names",) + o[1:]
        if k == "prop":
            if n == "value":
                return ("value", o)
            if n in ("space_discretization_property", "time_discretization_property"):
                return (n.split("_")[0], o)
        if k == "value" and n == "operator[]":
            return ("array", o[1], self.role(a[1]))
        return None

    def name(self, n):
        """A name, with the loop variable spelled by what it runs over."""
        if n and n[0] in ("each", "elem"):
            pl = self.place(n[1])
            return ("each",) + tuple(pl[1:]) if pl and pl[0] == "names" else n
        return n

    def norm(self, p):
        if not isinstance(p, tuple) or not p:
            return p
        if p[0] in ("each", "elem") and len(p) == 2:
            return self.name(p)
        return tuple(self.norm(x) for x in p)

    def at(self, t):
        return self.norm(self.place(t))

    def datatype(self, t):
        while t[0] == "new" and len(t[3]) == 1 and "Datatype" in t[1]:
            t = t[3][0]
        if t in self.types:
            return self.types[t]
        if t[0] == "glob":
            return GLOBS.get(t[1].split("::")[-1])
        return None


def pure(prog, q, k):
    g = prog.functions.get(k) or prog.callees.get(k)
    if q.startswith(("lue::hdf5::Shape", "std::")) or last(q) in ("type_id", "native_datatype"):
        return False
    if g and g.get("cls") and not g.get("ctor") and (not g.get("params") and g["ret"].rstrip().endswith("&") or last(q) == "operator[]"):
        return True
    return bool(g and g.get("const") and last(q) != "read")


def shape(A, t):
    """The extents in a shape that are written out."""
    while t[0] == "cast" and isinstance(t[-1], tuple):
        t = t[-1]
    if t[0] == "init":
        return tuple(t[2])
    if t[0] == "new" and t[3] and t[3][0][0] == "init":
        return tuple(t[3][0][2])
    return None


class Made:
    """What a function that creates or extends a raster leaves in the dataset, according to one of its paths."""

    def __init__(self, run, p):
        self.run, self.p = run, p
        self.props, self.counts, self.writes, self.settings, self.rank, self.type, self.order = {}, {}, {}, {}, None, None, []
        for i, e in enumerate(p.events):
            if not LIB.match(e.q) or not e.args:
                continue
            n = last(e.q)
            o = run.at(e.args[0])
            if n == "add" and o and o[0] == "sets":
                self.set = run.at(e.res)
                self.settings[self.set] = {}
                for a in e.args[2:]:
                    if a[0] == "new" and "Configuration<" in str(a[1]):
                        for x in a[3]:
                            if x[0] == "enum":
                                self.settings[self.set][x[1].split("::")[-2]] = x[1].split("::")[-1]
                    elif a[0] == "int":
                        self.rank = a[1]
                    elif a[0] == "new" and "Datatype" in str(a[1]):
                        self.type = run.datatype(a)
                self.setargs = e.args[2:]
            elif n == "add" and o and o[0] == "props":
                pl = run.at(e.res)
                self.props[pl] = {"shape": shape(run.A, e.args[3]) if len(e.args) > 3 else None, "arg": e.args[3] if len(e.args) > 3 else None, "type": run.datatype(e.args[2]), "datatype": e.args[2],
                                  "time": None, "space": None, "line": e.line, "at": i}
            elif n == "expand":
                pl = o[1:] and o[0] == "value" and o or o
                self.counts.setdefault(pl, []).append((i, e.args[1], e))
            elif n == "write":
                self.writes.setdefault(o, []).append((i, e.args[1] if len(e.args) > 2 else flow.ZERO, self.value(e), e))
            elif n in ("set_space_discretization", "set_time_discretization") and o in self.props:
                self.props[o][n.split("_")[1]] = (e.args[1], run.at(e.args[2]), i)

    def value(self, e):
        """What is written: the value behind the pointer, or the container that the pointer is into."""
        i = len(e.args) - 1
        if i in (e.outs or {}):
            return e.outs[i]
        b = e.args[i]
        if b[0] == "addr" and b[1][0] == "lv":
            b = b[1]
        if b[0] == "app" and last(b[1]) in ("data", "begin"):
            return b[2][0]
        return b

    def truth(self, run, t, each=None, objects=1):
        """Whether a condition of another function holds for what has been made: True, False or None."""
        if t[0] == "not":
            v = self.truth(run, t[1], each, objects)
            return None if v is None else not v
        if t[0] in ("eq", "ne") or t[0] == "app" and last(t[1]) in ("operator==", "operator!="):
            l, r = t[1:] if t[0] != "app" else t[2]
            l, r = self.get(run, l, each, objects), self.get(run, r, each, objects)
            if l is None or r is None:
                return None
            return (l == r) != (t[0] == "ne" or t[0] == "app" and last(t[1]) == "operator!=")
        v = self.get(run, t, each, objects)
        return v if isinstance(v, bool) else None

    def settle(self, place, each):
        return tuple(self.settle(x, each) for x in place) if isinstance(place, tuple) and (not place or place[0] != "each") else each if isinstance(place, tuple) else place

    def get(self, run, t, each, objects):
        if t[0] == "enum":
            return ("enum", t[1].split("::")[-1])
        if t[0] in ("int", "bool"):
            return t[1]
        if t[0] == "new" and "Datatype" in t[1]:
            d = run.datatype(t)
            return ("type", d) if d else None
        if shape(run.A, t) is not None:
            return ("shape", shape(run.A, t))
        if t[0] != "app" or not t[2]:
            return None
        n = last(t[1])
        o = run.at(t[2][0])
        if o is None:
            return None
        if each is not None:
            o = self.settle(o, each)
        k = o[0]
        if n == "contains":
            name = run.norm(run.role(t[2][1]))
            if k == "phens":
                return True if name == ("role", 1) else None
            if k == "sets":
                return True if name == ("role", 2) else None
            if k == "props":
                return any(p[3] == name for p in self.props)
            if k == "coll":
                return any(p[3] == name and p[2] == o[2] for p in self.props)
        if k == "id" and n == "nr_objects":
            return objects
        if k == "set" and n in ("has_space_domain", "has_time_domain"):
            return ("SpaceDomainItemType" if "space" in n else "TimeDomainItemType") in self.settings.get(o, {})
        if k == "configuration" and n == "value":
            s = self.settings.get(o[2], {}).get((targ(t[1]) or "").split("::")[-1])
            return ("enum", s) if s else None
        if k in ("space_domain", "time_domain") and n == "presence_is_discretized":
            return False
        if k == "domain":
            if n in ("nr_boxes", "nr_arrays"):
                cs = self.counts.get(o, [])
                return cs[0][1][1] if len(cs) == 1 and cs[0][1][0] == "int" else 0 if not cs else None
            if n == "array_shape" and o[2] == "StationarySpaceBox" and self.rank:
                return ("shape", (("int", 2 * self.rank),))
            if n in ("file_datatype", "memory_datatype") and o[1] == "space_domain" and self.type:
                return ("type", self.type)
        if k == "props" and n in ("shape_per_object", "value_variability", "shape_variability"):
            name = run.norm(run.role(t[2][1]))
            for p in self.props:
                if p[3] == name:
                    v = kinds("lue::data_model::" + p[2] + "::Properties").get({"shape_per_object": "ShapePerObject", "value_variability": "ValueVariability", "shape_variability": "ShapeVariability"}[n])
                    return ("enum", v) if v else None
        if k == "prop":
            if n == "id":
                return ("id", o)
            if o in self.props:
                x = self.props[o]
                if n in ("time_is_discretized", "space_is_discretized"):
                    return x[n.split("_")[0]] is not None
                if n in ("time_discretization_type", "space_discretization_type"):
                    d = x[n.split("_")[0]]
                    return ("enum", d[0][1].split("::")[-1]) if d and d[0][0] == "enum" else ("enum", None)
        if k in ("space", "time") and n == "id":
            d = (self.props.get(o[1]) or {}).get(k)
            return ("id", d[1]) if d else ("id", None)
        if k == "value" and o[1] in self.props:
            x = self.props[o[1]]
            if n == "nr_arrays":
                cs = self.counts.get(o, [])
                return cs[0][1][1] if len(cs) == 1 and cs[0][1][0] == "int" else 0 if not cs else None
            if n == "array_shape" and x["shape"] is not None:
                return ("shape", x["shape"])
            if n in ("file_datatype", "memory_datatype") and x["type"]:
                return ("type", x["type"])
        return None


def text(p):
    if not isinstance(p, tuple):
        return str(p)
    if p[:1] == ("role",):
        return {0: "dataset", 1: "phenomenon", 2: "property-set"}.get(p[1], str(p[1]))
    if p and p[0] in ("str", "int", "par"):
        return str(p[1])
    if p and p[0] == "prop":
        return f"property {text(p[3])} ({p[2]})"
    if p and p[0] == "value":
        return text(p[1])
    if p and p[0] == "domain":
        return f"{p[1].replace('_', ' ')} ({p[2]})"
    if p and p[0] == "id":
        return "object identifiers"
    if p and p[0] == "tracker":
        return f"object tracker: {p[2]}"
    if p and p[0] == "each":
        return "each"
    return str(p[0]) if p else ""


def said(t):
    """A condition, in few words."""
    def f(t):
        if t[0] == "app":
            return last(t[1]) + (f"<{targ(t[1]).split('::')[-1]}>" if targ(t[1]) and last(t[1]) == "value" else "")
        if t[0] in ("eq", "ne"):
            return f"{f(t[1])} {'==' if t[0] == 'eq' else '!='} {f(t[2])}"
        if t[0] == "enum":
            return t[1].split("::")[-1]
        return str(t[1]) if t[0] in ("int", "str", "bool") else t[0]
    s = f(t)
    names = sorted({x[1] for x in subterms(t) if x and x[0] == "str" and x[1]})
    if t[0] == "app" and last(t[1]) in ("operator==", "operator!="):
        s = f"{f(t[2][0])} == {f(t[2][1])}"
    if "domain" in str(t) and not names:
        names = [x for x in ("space_domain", "time_domain") if x in str(t)]
    return s + (f" of {', '.join(names)}" if names else "")


def run():
    c = Check("R01", __doc__, ["The classes of the data model behave as M01-M08 say", "Files are opened as H04 says"])
    prog = lueir.load("hdf5", "cxx", "hl")
    c.program(prog)
    fs = [f for f in prog.functions.values() if component(f) == "hl" and "body" in f and "/test/" not in f["file"]]
    hl = {f["key"] for f in fs}
    methods = {}
    for f in fs:
        if f.get("cls") and not f.get("ctor"):
            methods.setdefault(f["cls"], []).append(f)
    views = {}
    for f in fs:
        if f.get("ctor") and not f.get("implicit") and not f.get("copymove") and len(f["params"]) == 3 and any(last(g["q"]) == "layer" for g in methods.get(f["cls"], ())):
            views[f["cls"]] = f
    makers, tests, opens, probes = {}, {}, {}, {}
    for f in fs:
        n = last(f["q"])
        if n.startswith("create") and f["ret"] in views:
            makers[f["ret"]] = f
        elif n.startswith("open") and f["ret"] in views:
            opens[f["ret"]] = f
        elif f["ret"] == "bool" and len(f["params"]) == 3 and not f.get("cls"):
            tests[f["q"].rsplit("::", 1)[0]] = f
        elif n.startswith("probe"):
            probes[f["q"]] = f

    for cls, ms in sorted(methods.items()):
        for f in ms:
            if last(f["q"]) == "contains" and "RasterView" in cls and f["params"]:
                names = next((g for g in ms if last(g["q"]) == "layer_names"), None)
                fld = accessor_field(prog, names, hl) if names else None
                if fld:
                    membership(c, prog, cls, f, fld, hl)
    hl -= {f["key"] for ms in methods.values() for f in ms if last(f["q"]) == "contains"}
    for cls, ctor in sorted(views.items()):
        view(c, prog, cls, ctor, makers.get(cls), tests.get(cls.split("<")[0].rsplit("::", 1)[0]), methods, hl)
    for ns, f in sorted(tests.items()):
        for cls, maker in sorted(makers.items()):
            if cls.split("<")[0].rsplit("::", 1)[0] != ns and ns != "lue::data_model":
                other(c, prog, f, cls, views[cls], maker, hl)
    for cls, f in sorted(opens.items()):
        r = Run(prog, f, {}, hl - {v["key"] for v in views.values()})
        for p in r.paths:
            ok = p.kind == "ret" and p.value[0] == "new" and p.value[1] == cls and tuple(p.value[3]) == tuple(("par", x[0]) for x in f["params"])
            c.ob("open", f"{sig(f)} opens the view that is asked for", ok if p.kind == "ret" else None, where(f), f"returns {show(p.value)[:120] if p.value else p.kind}")
    for q, f in sorted(probes.items()):
        probe(c, prog, f, hl - {v["key"] for v in views.values()})
    c.count("raster views", len(views))
    c.count("functions", len(hl))
    members_set_first(c, prog, ("hl",))
    return c.finish({"place": 12, "size": 8, "type": 8, "new": 12, "recognised": 30, "opened": 6, "other": 2, "layer": 14, "object": 4, "open": 1, "probe": 2})


def other(c, prog, test, cls, ctor, maker, hl):
    """A test for one sort of raster view answers false for the other."""
    rm = Run(prog, maker, {}, hl - {ctor["key"]})
    made = []
    for p in rm.paths:
        if p.kind == "ret" and p.value[0] == "new" and p.value[1] == cls:
            rm.roles = {a: ("role", i) for i, a in enumerate(p.value[3])}
            made.append(Made(rm, p))
    rt = Run(prog, test, {("par", p[0]): ("role", i) for i, p in enumerate(test["params"])}, hl)
    for p in rt.paths:
        if p.kind != "ret" or p.value == flow.FALSE:
            continue
        facts = list(p.facts.items())
        if p.value != flow.TRUE:
            facts += [(t, True) for t in flow.conjuncts(rt.A.as_value(p.st, p.value))]
        for m in made[:1]:
            got = [(m.truth(rt, t), v) for t, v in facts]
            ok = True if any(g is not None and g is not v for g, v in got) else None if any(g is None for g, v in got) else False
            c.ob("other", f"{sig(test)} is false of what {sig(maker)} makes", ok, where(test), "it is true of it as well")


def short_class(cls):
    return cls.replace("lue::data_model::", "").replace("lue::", "")


def view(c, prog, cls, ctor, maker, test, methods, hl):
    name = short_class(cls)
    w = where(ctor)
    roles = {("par", p[0]): ("role", i) for i, p in enumerate(ctor["params"])}
    rc = Run(prog, ctor, roles, hl)
    paths = [p for p in rc.paths if p.kind != "throw"]
    this = {}
    for i, p in enumerate(paths):
        this[i] = rc.A.read(p.st, ("lv", ("m", ("this",)), ()))
    # fields of the class and what the constructor fills them with
    fields = {}
    for k in [cls] + chain_of(prog, cls):
        for n, ty, *_ in prog.classes.get(k, {}).get("fields", []):
            fields[n] = ty
    accessors = {}
    for k in [cls] + chain_of(prog, cls):
        for f in methods.get(k, ()):
            if f.get("const") and not f["params"] and not f["q"].split("::")[-1].startswith("operator"):
                ra = Run(prog, f, {}, hl)
                vs = {ra.A.as_value(p.st, p.value) for p in ra.paths if p.kind == "ret"}
                if len(vs) == 1:
                    v = vs.pop()
                    used = {x[2] for x in subterms(v) if x and x[0] == "fld" and x[1] == ("this",)}
                    if len(used) == 1:
                        accessors[last(f["q"])] = (v, used.pop(), f)
    mroles, reads, layers = {}, {}, None
    for n, ty in fields.items():
        vals = [rc.A.select(p.st, this[i], ("f", n)) for i, p in enumerate(paths)]
        if len(set(vals)) == 1 and vals[0] in roles:
            mroles[("fld", ("this",), n)] = roles[vals[0]]
            continue
        out = [v for v in vals if v[0] == "out" and v[2][0] == "app" and last(v[2][1]) == "read"]
        if out and len(out) == len(vals):
            places = {(rc.at(v[2][2][0]), v[2][2][1]) for v in out}
            if len(places) == 1:
                reads[n] = places.pop() + (ty,)
    mroles[("this",)] = ("role", 0)
    for n in fields:
        if "DatasetPtr" in fields[n] or n == "_dataset" or fields[n].endswith(("Dataset *", "Dataset>")):
            mroles[("fld", ("this",), n)] = ("role", 0)
    byacc = {a: (f, g) for a, (v, f, g) in accessors.items()}
    mrole = dict(mroles)

    for a, (v, n, f) in sorted(accessors.items()):
        if n in reads or ("fld", ("this",), n) in mroles or not any(x and x[0] == "fld" and x[2] == n for x in subterms(v)):
            continue
        vals = [rc.A.select(p.st, this[i], ("f", n)) for i, p in enumerate(paths)]
        grows = any(registered_any(v) for v in vals)
        if not grows:
            c.ob("place", f"{name}::{a} returns what has been read", ever_read(rc, paths, this, n), w, f"{n} keeps its initial value")

    # sizes of what the constructor reads into
    size = {}
    for p in paths:
        for e in p.events:
            if last(e.q) == "read" and rc.at(e.args[0]):
                size[rc.at(e.args[0])] = (buffer_size(rc.A, e.args[-1]), e)
    for n, (pl, idx, ty) in reads.items():
        m = re.match(r"std::array<[^,]+, (\d+)>", ty)
        if m:
            size[pl] = (("int", int(m[1])), size.get(pl, (0, None))[1])
        elif ty in WIDTH:
            size[pl] = (("int", 1), size.get(pl, (0, None))[1])

    if maker is None or test is None:
        c.ob("place", f"{name} is made and recognised by functions", None, w, "no function that creates or recognises it is found")
        return
    wm, wt = where(maker), where(test)

    # what is made
    inline = hl - {ctor["key"]}
    rm = Run(prog, maker, {}, inline)
    made = []
    for p in rm.paths:
        if p.kind == "throw":
            continue
        v = p.value
        if not (v and v[0] == "new" and v[1] == cls):
            c.ob("place", f"{sig(maker)} returns the view it made", None, wm, "another value is returned")
            continue
        rm.roles = {a: ("role", i) for i, a in enumerate(v[3])}
        made.append((p, Made(rm, p)))
        c.ob("open", f"{sig(maker)} returns a view on what it made", tuple(rm.roles.get(("par", x[0])) for x in maker["params"][:3]) == tuple(("role", i) for i in range(3)) and getattr(made[-1][1], "set", None) == ("set", ("phen", ("role", 1)), ("role", 2)), wm,
             "the view is opened on other names than those given and stored")

    rest = [x for x in maker["params"] if ("par", x[0]) not in rm.roles]
    idplace = ("id", ("phen", ("role", 1)))
    for p, m in made:
        r2 = rm
        for pn, _, ty in rest:
            acc = byacc.get(pn)
            if acc is None:
                # no accessor: part of what the property-set is created with
                ok = any(contains(a, ("par", pn)) for a in getattr(m, "setargs", ()))
                c.ob("place", f"{sig(maker)}: {pn} is stored with the property-set", ok, wm, "it is not passed on")
                continue
            field = acc[0]
            if field not in reads:
                c.ob("place", f"{sig(maker)}: {pn} is written where {name}::{pn} reads it", False if not any(field in str(x) for x in ()) and ever_read(rc, paths, this, field) is False else None, where(ctor), f"{field} is not read from the dataset on every path")
                continue
            pl, idx, fty = reads[field]
            ws = m.writes.get(pl, [])
            good = [x for x in ws if x[2] == ("par", pn) or contains(x[2], ("par", pn))]
            ok = len(ws) >= 1 and ws[-1][2] in (("par", pn),) and ws[-1][1] == idx
            if not ok and good and ws[-1] is good[-1] and ws[-1][1] == idx:
                ok = None
            c.ob("place", f"{sig(maker)}: {pn} is written where {name}::{pn} reads it", ok, wm,
                 f"{text(pl)}: " + (f"written {show(ws[-1][2])[:80]} at {show(ws[-1][1])}, read at {show(idx)}" if ws else "nothing is written there"))
            # number and type of the elements
            n = size.get(pl, (None, None))[0]
            if pl[0] == "value" and pl[1] in m.props:
                x = m.props[pl[1]]
                have = x["shape"][0] if x["shape"] and len(x["shape"]) == 1 else None
                c.ob("size", f"{name}: {text(pl)} has the size that is read", None if have is None or n is None else have == n, wm, f"created with {show(have) if have else '?'} elements, {show(n) if n else '?'} read")
                given = written_size(p, ty, pn)
                c.ob("size", f"{sig(maker)}: {pn} has the size that is written", None if have is None else given is not None and given == have, wm,
                     f"the size of {pn} is {show(given) if given else 'not tested'}, {show(have) if have else '?'} elements are written")
                c.ob("type", f"{name}: {text(pl)} has elements of the type that is written and read", None if x["type"] is None else x["type"] == element(ty) == element(fty), wm, f"created as {x['type']}, written as {element(ty)}, read as {element(fty)}")
            elif pl[0] == "domain" and pl[2] == "StationarySpaceBox":
                g = re.match(r"std::array<[^,]+, (\d+)>", flow.base_type(ty))
                have = ("int", 2 * m.rank) if m.rank else None
                c.ob("size", f"{name}: {text(pl)} has the size that is read", None if have is None or n is None else have == n and bool(g) and have == ("int", int(g[1])), wm, f"created with {show(have) if have else '?'} elements, {show(n) if n else '?'} read")
                c.ob("type", f"{name}: {text(pl)} has elements of the type that is written and read", None if m.type is None else m.type == element(ty) == element(fty), wm, f"created as {m.type}, written as {element(ty)}, read as {element(fty)}")
            elif pl[0] == "domain" and pl[2] == "TimeBox":
                g = re.match(r"std::array<[^,]+, (\d+)>", flow.base_type(ty))
                c.ob("size", f"{name}: {text(pl)} has the size that is read", bool(g) and ("int", int(g[1])) == n == ("int", 2), wm, f"{show(n) if n else '?'} elements are read")
                c.ob("type", f"{name}: {text(pl)} has elements of the type that is written and read", element(ty) == element(fty) == "u64", wm, f"written as {element(ty)}, read as {element(fty)}")
        # everything new is made one element long, before anything is written to it
        for pl in list(m.writes):
            if pl is None:
                c.ob("new", f"{sig(maker)}: every write is to a known part", None, wm, "a write to something else")
                continue
            cs = m.counts.get(pl, [])
            ok = len(cs) == 1 and cs[0][1] == ("int", 1) and cs[0][0] < min(x[0] for x in m.writes[pl]) and all(x[1] == flow.ZERO for x in m.writes[pl])
            c.ob("new", f"{sig(maker)}: {text(pl)} is made one long before it is written", ok, wm, f"{len(cs)} times expanded" + (f", by {show(cs[0][1])}" if cs else "") + f", written at {show(m.writes[pl][0][1])}")
        for pl, cs in m.counts.items():
            c.ob("new", f"{sig(maker)}: {text(pl) if pl else '?'} that is made longer is written", None if pl is None else pl in m.writes, wm, "the element that was added is not written")
        # the object
        nr = [v for t, v in p.facts.items() if t[0] == "eq" and any(x[0] == "app" and last(x[1]) in ("nr_objects", "nr_arrays") and rm.at(x[2][0]) == idplace for x in t[1:]) and flow.ZERO in t[1:]]
        fresh = nr[0] if nr else None
        nrs = any(x and x[0] == "app" and last(x[1]) in ("nr_objects", "nr_arrays") and rm.at(x[2][0]) == idplace for t in p.facts for x in subterms(t))
        grown = bool(m.counts.get(idplace) or m.writes.get(idplace))
        c.ob("object", f"{sig(maker)}: an identifier is added when, and only when, there is none yet", (None if nrs else False) if fresh is None else fresh == grown, wm, "added while there is one already" if grown else "no identifier is added")
        stored = m.writes[idplace][-1][2] if m.writes.get(idplace) else None
        for pl, ws in m.writes.items():
            if pl and pl[0] == "tracker" and pl[2] == "active_object_id":
                v = ws[-1][2]
                if grown:
                    ok = v == stored
                else:
                    ok = v[0] == "out" and v[2][0] == "app" and last(v[2][1]) == "read" and rm.at(v[2][2][0]) == idplace and v[2][2][1] == flow.ZERO
                c.ob("object", f"{sig(maker)}: the object that is tracked is the one that is there", ok, wm, f"tracked is {show(v)[:100]}, there is {show(stored) if stored else 'what is stored already'}")
            elif pl and pl[0] == "tracker":
                c.ob("object", f"{sig(maker)}: {text(pl)} refers to the first", ws[-1][2] == flow.ZERO, wm, f"{show(ws[-1][2])} is written")
        # the phenomenon
        has = [v for t, v in p.facts.items() if t[0] == "app" and last(t[1]) == "contains" and rm.at(t[2][0]) == ("phens",)]
        adds = [e for e in p.events if last(e.q) in ("add_phenomenon", "add") and (rm.at(e.args[0]) in (("ds",), ("phens",)))]
        c.ob("object", f"{sig(maker)}: a phenomenon is added when, and only when, it is not there yet", (None if any(x and x[0] == "app" and x[2] and rm.at(x[2][0]) == ("phens",) and last(x[1]) not in ("operator[]", "add") for t in p.facts for x in subterms(t)) else False) if not has else has[0] != bool(adds), wm, "added while it is there already" if adds else "it is not added")
        ips = getattr(m, "set", None)
        c.ob("object", f"{sig(maker)}: what is stored belongs to the property-set that is made", None if ips is None else all(owner(pl) in (ips, ips[1], None) for pl in list(m.writes) + list(m.counts) + list(m.props) if pl), wm, "something is stored elsewhere")

    # what recognises a raster
    rt = Run(prog, test, {("par", p[0]): ("role", i) for i, p in enumerate(test["params"])}, hl)
    yes = [p for p in rt.paths if p.kind == "ret" and p.value != flow.FALSE]
    if not yes:
        c.ob("recognised", f"{sig(test)} recognises rasters", False, wt, "no path answers true")
    trackers = [x for x in made if any(t[0] == "eq" and v is True and "nr_objects" in str(t) for t, v in x[0].facts.items())] or made[:1]
    for p in yes:
        facts = list(p.facts.items())
        if p.value != flow.TRUE:
            facts += [(t, True) for t in flow.conjuncts(rt.A.as_value(p.st, p.value))]
        for t, v in facts:
            for _, m in trackers[:1]:
                got = m.truth(rt, t, objects=1)
                c.ob("recognised", f"{sig(test)}: {said(t)} is {v} of what {last(maker['q'])} makes", None if got is None else got == v, wt, f"is {got}: what is made is not recognised")
        # everything that opening reads is tested
        for n, (pl, idx, ty) in sorted(reads.items()):
            need, why = tested(rt, facts, pl, size.get(pl, (None,))[0], element(ty))
            c.ob("opened", f"{sig(test)}: what {name} reads from {text(pl)} is tested", need, wt, why)
        for pl in sorted({rc.at(x) for pp in paths for e in pp.events for a in e.args for x in subterms(a) if x and x[0] == "app" and rc.at(x)} - {None}, key=str):
            if pl[0] == "prop" and pl[3][0] == "str" and not any(q[0] == ("value", pl) for q in reads.values()):
                need, why = tested(rt, facts, pl, None, None)
                c.ob("opened", f"{sig(test)}: {text(pl)} that {name} uses is tested", need, wt, why)

    layer(c, prog, cls, name, ctor, rc, paths, this, methods, mrole, hl, byacc, reads, made)


def chain_of(prog, cls):
    out = []
    for b in prog.classes.get(cls, {}).get("bases", []):
        out += [b] + chain_of(prog, b)
    return out


def registered_any(v):
    return any(x and x[0] in ("each", "elem", "ind") for x in subterms(v))


def ever_read(rc, paths, this, field):
    """False when a field keeps its initial value on some path: nothing has been read into it."""
    for i, p in enumerate(paths):
        v = rc.A.select(p.st, this[i], ("f", field))
        if not any(x and x[0] == "out" for x in subterms(v)):
            return False
    return None


def owner(pl):
    for x in subterms(pl):
        if x and x[0] == "set" and len(x) == 3:
            return x
    for x in subterms(pl):
        if x and x[0] == "phen":
            return x
    return None


def buffer_size(A, b):
    while b[0] in ("cast",) and isinstance(b[-1], tuple):
        b = b[-1]
    if b[0] == "app" and last(b[1]) in ("data", "begin"):
        b = b[2][0]
        s = A.size(b)
        m = b[0] == "new" and re.match(r"std::array<[^,]+, (\d+)>", b[1])
        return ("int", int(m[1])) if m else s if s[0] == "int" else None
    return None


def written_size(p, ty, name):
    """How many elements a parameter has."""
    t = flow.base_type(ty)
    if t in WIDTH:
        return ("int", 1)
    m = re.match(r"std::array<[^,]+, (\d+)>", t)
    if m:
        return ("int", int(m[1]))
    for t, v in p.facts.items():
        if t[0] == "eq" and v is True:
            for a, b in (t[1:], t[:0:-1]):
                if a == ("app", "size", (("par", name),)) and b[0] == "int":
                    return b
    return None


def tested(rt, facts, pl, size, elem):
    """Whether the facts say that a part is there, and is as large as what it is read into."""
    true = [t for t, v in facts if v is True]
    false = [t for t, v in facts if v is False]

    def equals(name, place, want):
        for t in true:
            l, r = (t[1], t[2]) if t[0] == "eq" else t[2] if t[0] == "app" and last(t[1]) == "operator==" and len(t[2]) == 2 else (None, None)
            if l is None:
                continue
            for a, b in ((l, r), (r, l)):
                if a[0] == "app" and last(a[1]) in name and a[2] and rt.at(a[2][0]) == place and want(a, b):
                    return True
        return False
    if pl[0] == "id":
        return equals(("nr_objects", "nr_arrays"), pl, lambda a, b: b == ("int", 1)), "the number of objects is not tested"
    if pl[0] == "domain":
        kind = "SpaceDomainItemType" if pl[1] == "space_domain" else "TimeDomainItemType"
        conf = ("configuration", pl[1], pl[3])
        if not any(t[0] == "app" and last(t[1]) == "has_" + pl[1] and rt.at(t[2][0]) == pl[3] for t in true):
            return False, "whether there is such a domain is not tested"
        if not equals(("value",), conf, lambda a, b: (targ(a[1]) or "").endswith(kind) and b[0] == "enum" and b[1].endswith("::box")):
            return False, "whether the items of the domain are boxes is not tested"
        if pl[2] == "StationarySpaceBox" and not equals(("value",), conf, lambda a, b: (targ(a[1]) or "").endswith("Mobility") and b[0] == "enum" and b[1].endswith("::stationary")):
            return False, "whether the boxes are stationary is not tested"
        if not equals(("nr_boxes", "nr_arrays"), pl, lambda a, b: b == ("int", 1)):
            return False, "the number of boxes is not tested"
        if pl[2] == "StationarySpaceBox":
            if size is not None and not equals(("array_shape",), pl, lambda a, b: shape(rt.A, b) == (size,)):
                return False, "the number of coordinates is not tested"
            if not equals(("file_datatype", "memory_datatype"), pl, lambda a, b: rt.datatype(b) == elem):
                return False, "the type of the coordinates is not tested"
        return True, ""
    prop = pl[1] if pl[0] == "value" else pl
    if prop[0] != "prop":
        return None, f"{pl[0]} is not known"
    props, name = ("props", prop[1]), prop[3]
    here = any(t[0] == "app" and last(t[1]) == "contains" and rt.at(t[2][0]) in (props, ("coll", prop[1], prop[2])) and rt.norm(rt.role(t[2][1])) == name for t in true)
    exact = any(t[0] == "app" and last(t[1]) == "contains" and rt.at(t[2][0]) == ("coll", prop[1], prop[2]) and rt.norm(rt.role(t[2][1])) == name for t in true)
    if not here:
        return False, "whether there is such a property is not tested"
    if not exact:
        for k, v in kinds("lue::data_model::" + prop[2] + "::Properties").items():
            f = {"ShapePerObject": "shape_per_object", "ValueVariability": "value_variability", "ShapeVariability": "shape_variability"}[k]
            if not equals((f,), props, lambda a, b: rt.norm(rt.role(a[2][1])) == name and b[0] == "enum" and b[1].endswith("::" + v)):
                return False, f"{f} of the property is not tested to be {v}"
    if pl[0] == "value":
        for kind in ("time", "space"):
            if not any(t[0] == "app" and last(t[1]) == kind + "_is_discretized" and t[2] and rt.at(t[2][0]) == prop for t in false):
                return False, f"whether the property is itself discretized in {kind} is not tested"
        if not equals(("nr_arrays",), pl, lambda a, b: b == ("int", 1)):
            return False, "the number of arrays is not tested"
        if size is not None and not equals(("array_shape",), pl, lambda a, b: shape(rt.A, b) == (size,)):
            return False, "the shape of the arrays is not tested"
        if not equals(("file_datatype", "memory_datatype"), pl, lambda a, b: rt.datatype(b) == elem):
            return False, "the type of the elements is not tested"
    return True, ""


def registered(run, p, t, field):
    """The names that a function adds to the layers of a view."""
    v = run.A.select(p.st, t, ("f", field))
    out = []
    while v[0] == "upd":
        out.append(v[3])
        v = v[1]
    if v[0] == "init":
        out += list(v[2])
    elif v[0] == "mut" or v[0] == "app" or v[0] == "out":
        out += [x for x in subterms(v) if x and x[0] in ("par", "each", "elem")]
    return [run.norm(x) for x in out]


def layer(c, prog, cls, name, ctor, rc, paths, this, methods, mroles, hl, byacc, reads, made):
    w = where(ctor)
    if "layer_names" not in byacc:
        c.ob("layer", f"{name} has layers", None, w, "no accessor returns the names of the layers")
        return
    field = byacc["layer_names"][0]
    mk = {last(f["q"]): f for f in methods.get(cls, ()) if last(f["q"]) == "layer"}
    adder = next((f for f in sorted(methods.get(cls, ()), key=lambda f: -len(f["params"])) if last(f["q"]) == "add_layer" and not f.get("targs")), None)
    if adder is None or "layer" not in mk:
        c.ob("layer", f"{name} has layers", None, w, "no function adds or returns a layer")
        return
    wa = where(adder)
    ra = Run(prog, adder, mroles, hl)
    lname = ("par", adder["params"][0][0])
    types = [x[0] for x in adder["params"] if "Datatype" in x[2]]
    nodata = [x[0] for x in adder["params"] if x[2].startswith("const void *")]
    returned = made_layer = None
    for p in ra.paths:
        m = Made(ra, p)
        use = in_use(ra, p, lname, field)
        if p.kind == "throw":
            c.ob("layer", f"{name}::add_layer does nothing when it raises an error", not (m.props or m.counts or m.writes), wa, "something has been stored by then")
            c.ob("layer", f"{name}::add_layer raises an error only when the name is in use", None if use is None else use, wa, "the name is not in use")
            continue
        c.ob("layer", f"{name}::add_layer accepts only names that are not in use", None if use is None and bool(p.facts) else use is False, wa, "the name is in use, or this is not tested")
        mine = [pl for pl in m.props if pl[3] == lname]
        if len(mine) != 1:
            c.ob("layer", f"{name}::add_layer adds one property", False, wa, f"{len(mine)} properties of that name are added")
            continue
        pl = mine[0]
        made_layer = (m, pl)
        x = m.props[pl]
        grid = reads_of(reads, byacc, "grid_shape")
        steps = reads_of(reads, byacc, "nr_time_steps")
        want_rank = 3 if steps else 2
        c.ob("layer", f"{name}::add_layer adds the property to the property-set of the view", pl[1] == ("set", ("phen", ("role", 1)), ("role", 2)), wa, f"added to {text(pl[1])}")
        c.ob("layer", f"{name}::add_layer adds a property with elements of the type that is given", x["datatype"] == ("par", types[0]) if types else None, wa, f"{show(x['datatype'])[:80]}")
        c.ob("layer", f"{name}::add_layer adds a property of {want_rank} dimensions", x["arg"] == ("int", want_rank) if x["arg"] and x["arg"][0] == "int" else None, wa, f"{show(x['arg']) if x['arg'] else '?'} dimensions")
        cs = m.counts.get(("value", pl), [])
        gshape = ("fld", ("this",), byacc["grid_shape"][0]) if "grid_shape" in byacc else None
        ident = ("fld", ("this",), byacc["object_id"][0]) if "object_id" in byacc else None
        if len(cs) != 1:
            c.ob("layer", f"{name}::add_layer makes one array", False, wa, f"{len(cs)} times expanded")
        else:
            e = cs[0][2]
            c.ob("layer", f"{name}::add_layer makes the array of the object of the view", e.args[1] == ident, wa, f"of {show(e.args[1])[:80]}")
            st = ("at", ("fld", ("this",), byacc["nr_time_steps"][0]), ("int", 0)) if steps else None
            c.ob("layer", f"{name}::add_layer makes an array with the shape of the view", layer_shape(ra, e.args[2], gshape, st), wa, f"of {show(e.args[2])[:160]}")
            if steps:
                c.ob("layer", f"{name}::add_layer makes one array in time", e.args[3] == ("int", 1) if len(e.args) > 3 else None, wa, f"{show(e.args[3]) if len(e.args) > 3 else '?'} arrays")
            if nodata:
                c.ob("layer", f"{name}::add_layer passes the no-data value on", any(a == ("par", nodata[0]) for a in e.args[3:]), wa, "it is not passed on")
        for kind in ("space", "time") if steps else ("space",):
            d = x[kind]
            target = grid if kind == "space" else steps
            c.ob("layer", f"{name}::add_layer discretizes {kind} as the view does", d is not None and d[0][0] == "enum" and d[0][1].endswith("::regular_grid") and target is not None and ("value", d[1]) == target[0], wa,
                 "not discretized" if d is None else f"{show(d[0])} by {text(d[1])}")
        if not steps:
            c.ob("layer", f"{name}::add_layer leaves time as it is", x["time"] is None, wa, "time is discretized")
        t = ra.A.read(p.st, ("lv", ("m", ("this",)), ()))
        c.ob("layer", f"{name}::add_layer registers the name", lname in registered_new(ra, p, t, field), wa, "the names of the layers are left as they are")
        v = ra.A.as_value(p.st, p.value)
        back = ra.at(v)
        ok = back and back[0] == "array" and back[1] == pl and v[2][1] == ident
        if not ok and v[0] == "app" and last(v[1]) == "expand":
            ok = ra.at(v[2][0]) == ("value", pl) and v[2][1] == ident
        returned = pl
        c.ob("layer", f"{name}::add_layer returns the array it made", bool(ok) if v[0] == "app" else None, wa, f"returns {show(v)[:120]}")
    # the constructor finds them again
    if made_layer:
        m, pl = made_layer
        for i, p in enumerate(paths):
            names = registered(rc, p, this[i], field)
            conds = [(t, v) for t, v in p.facts.items() if any(x and x[0] in ("each", "elem") for x in subterms(t))]
            each = pl[3]
            vals = [(t, v, m.truth(rc, t, each)) for t, v in conds]
            coll = {x[1:] for n in names for x in [n] if n and n[0] == "each"}
            if names:
                src = all(n[0] == "each" and n[1:] == (pl[1], pl[2]) for n in names)
                c.ob("layer", f"{name} takes layers from the properties that add_layer adds to", src, w, f"registered is {text(names[0])} of {coll or '?'}")
                ok = all(g is v for _, v, g in vals) if all(g is not None for *_, g in vals) else False if any(g is not None and g is not v for _, v, g in vals) else None
                c.ob("layer", f"{name} takes for a layer what add_layer makes", ok, w, "; ".join(f"{said(t)} is {g}" for t, v, g in vals if g is not v)[:200])
                for kind in ("space", "time"):
                    if m.props[pl][kind] is None:
                        continue
                    sound = any(tests(rc, t, kind + "_is_discretized") and v is True for t, v in conds) and any("_discretization_type" in str(t) and kind in str(t) and v is True for t, v in conds) \
                        and any(same_property(rc, t, kind, m.props[pl][kind][1]) and v is True for t, v in conds)
                    c.ob("layer", f"{name} takes for a layer only what has the {kind} discretization of the view", sound, w, "how the property is discretized, or by which property, is not tested")
            elif conds or any(k == "some" for k, *_ in p.marks):
                ok = any(g is not None and g is not v for _, v, g in vals)
                c.ob("layer", f"{name} leaves out only what add_layer does not make", ok if all(g is not None or not about(rc, t) for t, _, g in vals) or ok else None, w, "left out: " + ("; ".join(f"{said(t)} is {v}" for t, v, g in vals) or "always")[:200])
    # and returns them
    f = mk["layer"]
    rl = Run(prog, f, mroles, hl)
    lname = ("par", f["params"][0][0])
    for p in rl.paths:
        use = in_use(rl, p, lname, field)
        if p.kind == "throw":
            c.ob("layer", f"{name}::layer raises an error only when there is no such layer", None if use is None else use is False, where(f), "there is such a layer")
            continue
        c.ob("layer", f"{name}::layer returns only layers that are there", None if use is None and bool(p.facts) else use is True, where(f), "there is no such layer, or this is not tested")
        v = rl.A.as_value(p.st, p.value)
        back = rl.at(v)
        ident = ("fld", ("this",), byacc["object_id"][0]) if "object_id" in byacc else None
        ok = bool(back and back[0] == "array" and made_layer and back[1] == made_layer[1][:3] + (lname,) and v[2][1] == ident)
        c.ob("layer", f"{name}::layer returns the array of that name", ok if v[0] == "app" else None, where(f), f"returns {show(v)[:160]}")


def about(run, t):
    """Whether a condition is about something that is stored."""
    return any(x and x[0] == "app" and ((run.at(x) or ("",))[0] in ("prop", "value", "array", "space", "time") or last(x[1]) == "contains" and run.at(x[2][0])) for x in subterms(t))


def accessor_field(prog, f, hl):
    r = Run(prog, f, {}, hl)
    vs = {r.A.as_value(p.st, p.value) for p in r.paths if p.kind == "ret"}
    v = vs.pop() if len(vs) == 1 else ("?",)
    return v[2] if v[0] == "fld" and v[1] == ("this",) else None


def tests(run, t, what):
    return any(x and x[0] == "app" and last(x[1]) == what for x in subterms(t))


def same_property(run, t, kind, target):
    """Whether a condition says that something is discretized by a property."""
    l, r = t[1:3] if t[0] == "eq" else t[2] if t[0] == "app" and last(t[1]) == "operator==" and len(t[2]) == 2 else (None, None)
    if l is None:
        return False
    ps = []
    for x in (l, r):
        while x[0] == "app" and last(x[1]) in ("id", "pathname") and x[2]:
            x = x[2][0]
        ps.append(run.at(x))
    return any(a and b and a[0] == kind and b == target for a, b in (ps, ps[::-1]))


def reads_of(reads, byacc, accessor):
    return reads.get(byacc[accessor][0]) if accessor in byacc else None


def layer_shape(run, t, grid, steps):
    """Whether a shape is that of the grid, with the number of time steps in front."""
    while t[0] == "cast" and isinstance(t[-1], tuple):
        t = t[-1]
    if steps is None:
        return True if t == grid else extents(t, [("at", grid, ("int", i)) for i in range(2)])
    if t[0] == "out" and t[2][0] == "app" and last(t[2][1]) in ("copy", "copy_n"):
        a = t[2][2]
        src = a[0] if a[0][0] == "app" and last(a[0][1]) in ("begin", "cbegin") and a[0][2][0] == grid else None
        whole = last(t[2][1]) == "copy" and a[1][0] == "app" and last(a[1][1]) in ("end", "cend") and a[1][2][0] == grid
        dst = a[2]
        if dst[0] == "op" and dst[1] == "+" or dst[0] == "app" and last(dst[1]) in ("operator+", "next"):
            parts = dst[2]
            beg, off = (parts[0], parts[1]) if parts[0][0] == "app" else (parts[1], parts[0])
        else:
            beg, off = dst, flow.ZERO
        if not (beg[0] == "app" and last(beg[1]) == "begin"):
            return None
        base = beg[2][0]
        first = next((x[3] for x in subterms(base) if x and x[0] == "upd" and x[2][1] == ("int", 0)), None)
        while base[0] == "upd":
            base = base[1]
        n, g = flow.linear(run.A.size(base), 1, {}), flow.linear(flow.mk_bin("+", ("app", "size", (grid,)), ("int", 1)), 1, {})
        return src is not None and whole and off == ("int", 1) and first == steps and (n == g or run.A.size(base) == ("int", 3))
    return extents(t, [steps] + [("at", grid, ("int", i)) for i in range(2)])


def extents(t, want):
    got = shape(None, t)
    if got is None and t[0] == "upd":
        vals = {}
        while t[0] == "upd" and t[2][0] == "i" and t[2][1][0] == "int":
            vals.setdefault(t[2][1][1], t[3])
            t = t[1]
        grid = want[-1][1]
        whole = flow.linear(flow.mk_bin("+", ("app", "size", (grid,)), ("int", len(want) - 2)), 1, {})
        if sorted(vals) == list(range(len(want))) and t[0] == "new" and t[3] and (t[3][0] == ("int", len(want)) or flow.linear(t[3][0], 1, {}) == whole):
            got = tuple(vals[i] for i in range(len(want)))
    return None if got is None else list(got) == want


def in_use(run, p, name, field):
    """Whether the facts say that a name is among the layers: True, False or None."""
    names = ("fld", ("this",), field)
    for t, v in p.facts.items():
        s = None
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "app" and last(t[1]) in ("operator==", "operator!=") or t[0] in ("eq", "ne"):
            a, b = t[2][:2] if t[0] == "app" and len(t[2]) >= 2 else t[1:3] if t[0] != "app" else (flow.ZERO, flow.ZERO)
            ends = [x for x in (a, b) if x[0] == "app" and last(x[1]) in ("end", "cend") and x[2][0] == names]
            finds = [x for x in (a, b) if x[0] == "app" and contains(x, names) and contains(x, name) and "find" in str(x)]
            if ends and finds:
                s = v != (t[0] != "ne" and (t[0] != "app" or last(t[1]) != "operator!="))
            zero = [x for x in (a, b) if x == flow.ZERO]
            counts = [x for x in (a, b) if x[0] == "app" and contains(x, names) and contains(x, name) and "count" in str(x)]
            if zero and counts:
                s = v != (t[0] != "ne")
        elif t[0] == "app" and contains(t, names) and contains(t, name) and ("contains" in str(t[1]) or "any_of" in str(t[1])):
            s = v
        elif t[0] == "app" and last(t[1]) == "contains" and "RasterView" in t[1] and t[2][-1] == name:
            s = v
        elif t[0] == "lt" and contains(t, names) and contains(t, name) and "count" in str(t) and t[1] == flow.ZERO:
            s = v
        if s is None and (t[0] == "eq" or t[0] == "app" and last(t[1]) == "operator==") and contains(t, name) and any(x and x[0] in ("each", "elem") and contains(x, names) for x in subterms(t)):
            s = v
        if s is not None:
            return s
    if any(k == "none" and x == names for k, x, *_ in p.marks):
        return False
    return None


def membership(c, prog, cls, f, fields, hl):
    """The function that tells whether there is a layer tells it of the names of the layers."""
    r = Run(prog, f, {}, hl)
    name = ("par", f["params"][0][0])

    class One:
        pass
    for p in r.paths:
        if p.kind != "ret":
            continue
        v = r.A.as_value(p.st, p.value)
        q = One()
        q.facts, q.marks = dict(p.facts), p.marks
        want = v == flow.TRUE
        if v not in (flow.TRUE, flow.FALSE):
            q.facts, want = {**q.facts, **{t: True for t in flow.conjuncts(v)}}, True
        got = in_use(r, q, name, fields)
        c.ob("layer", f"{short_class(cls)}::contains tells whether a layer is there", None if got is None else got is want, where(f), "it tells the opposite")


def registered_new(run, p, t, field):
    v = run.A.select(p.st, t, ("f", field))
    return [x for x in subterms(v) if x and x[0] == "par"] if v != ("fld", ("this",), field) else []


def probe(c, prog, f, inline):
    r = Run(prog, f, {}, {k for k in inline if prog.functions[k].get("cls") is None and "open" in prog.functions[k]["q"]})
    w = where(f)
    par = [("par", x[0]) for x in f["params"]]
    for p in r.paths:
        if p.kind != "ret":
            c.ob("probe", f"{sig(f)} answers", None, w, f"a path of kind {p.kind}")
            continue
        v = r.A.as_value(p.st, p.value)
        items = v[1] if v[0] == "tuple" else v[3] if v[0] == "new" else None
        if not items or len(items) != 3:
            c.ob("probe", f"{sig(f)} answers with what it found", None, w, "the answer is not three values")
            continue
        names = [last(x[1]) if x[0] == "app" else "?" for x in items]
        views = {x for i in items for x in subterms(i) if x and x[0] == "new" and "RasterView" in str(x[1])}
        opened = [x for x in views if len(x[3]) == 3 and tuple(x[3][1:]) == tuple(par[1:3]) and contains(x[3][0], par[0])]
        c.ob("probe", f"{sig(f)} looks at the raster that is asked for", len(views) == 1 and len(opened) == 1, w, "another view is opened")
        ly = [x for x in subterms(items[2]) if x and x[0] == "app" and last(x[1]) == "layer"]
        c.ob("probe", f"{sig(f)} answers with the identifier, the shape and the type of the layer", names == ["object_id", "grid_shape", "file_datatype"] and bool(ly) and ly[0][2][1] == par[3], w, f"answers with {names}")
