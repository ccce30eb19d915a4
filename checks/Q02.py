"""Q02: settings survive being written to and read from JSON."""
import ast, os
import pysym
from check import Check
from common import AnalysisError
from lueir import SRC, REPO

ROOT = "quality_assurance/scalability/command/scalability"


class Trip:
    """Compares an object with the one that is read from what it writes."""

    def __init__(self, first, conds):
        self.first, self.conds = first, conds

    def same(self, a, b, name=None):
        a, b = self.reduce(a), self.reduce(b)
        if a == b:
            return True
        if self.conds.get(("truth", a)) is False and pysym.falsy(b) or pysym.falsy(a) and pysym.falsy(b):
            return True
        for c, t in self.conds.items():
            if t and c[0] == "eq" and self.reduce(c[1]) == a and c[2] == b:
                return True
        if a[0] == b[0] == "call" and a[1] == b[1] and len(a[2]) == len(b[2]):
            return all(self.same(x, y) for x, y in zip(a[2], b[2]))
        if a[0] == b[0] == "obj" and a[1] == b[1] and len(a[2]) == len(b[2]):
            return all(self.same(x, y) for x, y in zip(a[2], b[2]))
        if a[0] == b[0] == "attrs":
            x, y = dict(a[1]), dict(b[1])
            return set(x) == set(y) and all(self.same(x[k], y[k]) or k in self.first and self.reduce(self.first[k]) == self.reduce(y[k]) for k in x)
        if a[0] == b[0] and a[0] in ("key", "attr") and a[2] == b[2]:
            return self.same(a[1], b[1])
        return False

    def reduce(self, v):
        """An object that is read from what an object of its class writes is that object (which is an obligation of that class)."""
        if not isinstance(v, tuple):
            return v
        if v and v[0] == "obj" and v[2] and v[2][0][0] == "json":
            x = v[2][0][1]
            if x[0] == "obj" and x[1] == v[1] and len(x[2]) == len(v[2]) and all(self.same(p, q) for p, q in zip(x[2][1:], v[2][1:])):
                return self.reduce(x)
        if v and v[0] == "call" and v[1] in ("tuple", "list") and len(v[2]) == 1:
            x = self.reduce(v[2][0])
            while x[0] == "call" and x[1] in ("tuple", "list") and len(x[2]) == 1:
                x = x[2][0]
            return ("call", "tuple", (x,))
        if v and v[0] == "call" and v[1] in ("int", "float", "str", "bool", "os.path.expandvars") and len(v[2]) == 1:
            x = self.reduce(v[2][0])
            return x if x[0] == "call" and x[1] == v[1] else ("call", v[1], (x,))
        return tuple(self.reduce(x) if isinstance(x, tuple) else x for x in v)


def show(v):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if v[0] == "const":
        return repr(v[1])
    if v[0] in ("in", "name"):
        return v[1]
    if v[0] == "key":
        return f"{show(v[1])}[{v[2]!r}]"
    if v[0] == "json":
        return show(v[1]) + ".to_json()"
    if v[0] == "attr":
        return f"{show(v[1])}.{v[2]}"
    if v[0] in ("obj", "call"):
        return f"{v[1].split('.')[-1] if v[0] == 'obj' else v[1]}({', '.join(show(x) for x in v[2])})"[:120]
    if v[0] == "dict":
        return "{" + ", ".join(f"{k}: {show(x)}" for k, x in v[1]) + "}"
    return str(v)[:80]


def mentions(v, root):
    return v == root or isinstance(v, tuple) and any(mentions(x, root) for x in v if isinstance(x, tuple))


def part(v, root):
    """The value is a part of the JSON."""
    while v[0] == "key":
        v = v[1]
    return v == root


class Merged:
    """One obligation for all the ways an object can be made: it holds when it holds for each of them."""

    def __init__(self, check):
        self.check, self.found = check, {}

    def ob(self, kind, instance, ok, where, why):
        rank = {False: 2, None: 1, True: 0}
        old = self.found.get((kind, instance))
        if old is None or rank[ok] > rank[old[0]]:
            self.found[kind, instance] = (ok, where, why)

    def flush(self):
        for (kind, instance), (ok, where, why) in self.found.items():
            self.check.ob(kind, instance, ok, where, why)


def run():
    c = Check("Q02", "an object that is read from the JSON that an object of its class wrote has the same settings, for every class that writes JSON and every combination of optional settings; an unknown kind is refused",
              ["json.dumps and json.loads keep names, numbers, texts, lists and dictionaries", "an absent setting and an empty one are the same", "normalizing a normalized limit of a range of workers does not change it"])
    root = os.path.join(SRC, ROOT)
    project = pysym.Project(root, "scalability")
    c.count("modules", len(project.modules))
    model = pysym.Model(project)
    check, c = c, Merged(c)
    where = lambda cls, n=None: f"source/{ROOT}/{os.path.relpath(cls.module.file, root)}:{(n or cls.node).lineno} ({cls.node.name}{'.' + n.name if n is not None else ''})"
    classes = [x for x in model.classes.values() if x.find("to_json") and x.find("__init__")]
    roundtrips = 0
    for cls in classes:
        name = cls.id.split(".", 1)[-1] if cls.id.startswith("experiment.") else cls.id
        init = cls.find("__init__")[1]
        params = [a.arg for a in init.args.args][1:]
        ins = tuple(("in", p) for p in params)
        base = any(cls in x.bases() for x in model.classes.values())
        writes_at = where(*cls.find("to_json"))
        try:
            made = model.make(cls.id, ins)
        except pysym.Unknown as e:
            c.ob("read back", f"{name}", None, where(cls, init), f"reading is not understood: {e}")
            continue
        # an abstract base is made by the classes that derive from it
        if not any(bad is None for _, bad in made) or base and any(bad and "not set" in str(bad) for _, bad in made):
            if base and not any(bad is None for _, bad in made):
                continue
            if not base:
                c.ob("read back", f"{name}", False, where(cls, init), f"no object can be made: {made[0][1]}")
                continue
        if base and abstract(model, cls, made):
            continue
        attrs = sorted({a for st, bad in made if bad is None for a in st.attrs})
        data = ins[0]
        for st, bad in made:
            if bad is not None:
                continue
            # an unknown kind is refused
            eqs = {}
            for cond, t in st.conds.items():
                if cond[0] == "eq" and cond[2][0] == "const" and cond[2][1] is not None and part(cond[1], data):
                    eqs.setdefault(cond[1], []).append(t)
            for v, ts in eqs.items():
                c.ob("kinds", f"{name}: an unknown {show(v)} is refused", any(ts) or not selects(made, v), where(cls, init), f"an object is made although {show(v)} is none of the known kinds")
            try:
                written = model.write(cls.id, st)
            except pysym.Unknown as e:
                c.ob("read back", f"{name}", None, writes_at, f"writing is not understood: {e}")
                continue
            for w, d, failed in written:
                if failed:
                    if "assert" not in str(d):
                        c.ob("read back", f"{name} can be written", False, writes_at, f"to_json fails: {d}" + given(w.conds))
                    continue
                again = pysym.State()
                again.conds = dict(w.conds)
                ev = pysym.Evaluator(project, cls, model)
                owner, fn = cls.find("__init__")
                try:
                    backs = ev.method(owner, fn, (d,) + ins[1:], again)
                except pysym.Unknown as e:
                    c.ob("read back", f"{name}", None, where(cls, init), f"reading is not understood: {e}")
                    continue
                trip = Trip(st.attrs, w.conds)
                for b, v, failed2 in backs:
                    roundtrips += 1
                    if failed2:
                        if str(v) == "assertion" or str(v) == "raise":
                            continue
                        c.ob("read back", f"{name} can be read", False, writes_at, f"what to_json writes cannot be read: {v}" + given(w.conds))
                        continue
                    for a in attrs:
                        if a not in st.attrs:
                            continue
                        x, y = st.attrs[a], b.attrs.get(a)
                        ok = y is not None and trip.same(x, y, a)
                        if not ok and y is not None and (opaque(x) or opaque(y)):
                            ok = None
                        c.ob("read back", f"{name}.{a}", ok, writes_at, f"{a} is {show(trip.reduce(x))} but what is written is read as {show(trip.reduce(y)) if y else 'nothing'}" + given(w.conds))
                if not backs:
                    c.ob("read back", f"{name}", None, writes_at, "reading does not complete")
    stored(c, project, model, root)
    c.flush()
    check.count("classes", len(classes))
    check.count("round_trips", roundtrips)
    return check.finish({"read back": 16, "kinds": 1, "stored": 2})


def given(conds):
    parts = []
    for k, t in conds.items():
        if k[0] == "in":
            parts.append(f"{k[1]!r} is {'' if t else 'not '}given")
        elif k[0] == "truth":
            parts.append(f"{show(k[1])} is {'' if t else 'not '}set")
        elif k[0] == "eq" and t:
            parts.append(f"{show(k[1])} is {show(k[2])}")
    return " when " + " and ".join(parts[:3]) if parts else ""


def opaque(v):
    return isinstance(v, tuple) and (v and v[0] == "call" and v[1] not in ("tuple", "list", "format", "int", "float", "str", "bool", "Add", "Sub", "Mult", "Div", "FloorDiv", "Mod", "USub", "item") and not v[1].startswith(("self.", "os.path", "loop"))
                                     or any(opaque(x) for x in v if isinstance(x, tuple)))


def selects(made, v):
    """Some kinds are distinguished: objects differ in what they hold when the kind is known."""
    return any(t for st, bad in made if bad is None for cnd, t in st.conds.items() if cnd[0] == "eq" and cnd[1] == v) and \
        len({tuple(sorted((k, x[:2] if x[0] == "obj" else x[0]) for k, x in st.attrs.items())) for st, bad in made if bad is None}) > 1


def abstract(model, cls, made):
    """The class calls a method that only the classes that derive from it have."""
    own = {n.name for x in cls.mro() for n in x.node.body if isinstance(n, ast.FunctionDef)}
    for x in cls.mro():
        for n in ast.walk(x.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
                stored = any(isinstance(m, ast.Attribute) and isinstance(m.ctx, ast.Store) and m.attr == n.attr for y in cls.mro() for m in ast.walk(y.node))
                if n.attr not in own and not stored:
                    return True
    return False


def stored(c, project, model, root):
    """Texts of settings that are kept in a dataset are read as what they were written as."""
    conf = {}
    for cls in model.classes.values():
        if cls.node.name == "Configuration" and cls.find("__init__"):
            init = cls.find("__init__")[1]
            try:
                for st, bad in model.make(cls.id, tuple(("in", a.arg) for a in init.args.args[1:])):
                    for a, v in st.attrs.items():
                        if v[0] == "obj":
                            conf.setdefault(a, set()).add(v[1])
            except pysym.Unknown:
                pass
    writes, reads = {}, {}
    for m in project.modules.values():
        for fn in [n for n in m.tree.body if isinstance(n, ast.FunctionDef)]:
            at = f"source/{ROOT}/{os.path.relpath(m.file, root)}:{fn.lineno} ({fn.name})"
            texts, props = {}, {}
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    t = n.targets[0]
                    if isinstance(t, ast.Name):
                        src = dumped(n.value, texts)
                        if src:
                            texts[t.id] = src
                        p = added(n.value)
                        if p:
                            props[t.id] = p
                    elif isinstance(t, ast.Subscript):
                        used = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                        p = [props[x] for x in used if x in props] or ([added_in(t)] if added_in(t) else [])
                        src = dumped(n.value, texts)
                        if p and src:
                            writes.setdefault(p[0], set()).add((src, at))
                if isinstance(n, ast.Call):
                    for a in n.args:
                        k = loaded(a)
                        if k:
                            r = pysym.lookup(project, m, n.func)
                            what = pysym.Class(project, r[1], r[2]).id if r[0] == "class" else ast.unparse(n.func)
                            reads.setdefault(k, set()).add((what, at))
    for k in sorted(set(writes) | set(reads)):
        mentioned = any(isinstance(n, ast.Constant) and n.value == k or isinstance(n, ast.Attribute) and n.attr == k and k not in reads for m in project.modules.values() for n in ast.walk(m.tree))
        if k not in writes:
            c.ob("stored", k, None if mentioned else False, sorted(reads[k])[0][1], f"{k} is read but never written")
            continue
        if k not in reads:
            used = any(isinstance(n, ast.Attribute) and n.attr == k or isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == k for m in project.modules.values() for n in ast.walk(m.tree))
            c.ob("stored", k, None if used else False, sorted(writes[k])[0][1], f"{k} is written but never read")
            continue
        for src, at in sorted(writes[k]):
            for what, at2 in sorted(reads[k]):
                kinds = conf.get(src)
                if what in model.classes:
                    ok = None if not kinds else kinds == {what}
                else:
                    # the class is an argument: its name tells which of the settings is read
                    ok = None if not kinds else any(x.split(".")[-1] == what for x in kinds)
                c.ob("stored", k, ok, at2, f"{k} is written from {src} ({', '.join(sorted(kinds or ()))}) and read as {what}")


def dumped(e, texts):
    """Whose JSON the text is made of."""
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "to_json" and isinstance(n.func.value, ast.Name):
            return n.func.value.id
        if isinstance(n, ast.Name) and n.id in texts:
            return texts[n.id]
    return None


def added(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "add_property" and e.args and isinstance(e.args[0], ast.Constant):
        return e.args[0].value
    return None


def added_in(e):
    return next((added(n) for n in ast.walk(e) if added(n)), None)


def loaded(e):
    """The property whose text is parsed."""
    if not (isinstance(e, ast.Call) and ast.unparse(e.func) in ("json.loads", "loads") and e.args):
        return None
    for n in ast.walk(e.args[0]):
        if isinstance(n, ast.Attribute) and n.attr == "value" and isinstance(n.value, ast.Attribute):
            return n.value.attr
        if isinstance(n, ast.Attribute) and n.attr == "value" and isinstance(n.value, ast.Subscript) and isinstance(n.value.slice, ast.Constant):
            return n.value.slice.value
    return None
