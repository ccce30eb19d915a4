"""M02: settings kept as text: one-to-one tables, the same table and the same name for storing and loading, unknown text refused; a clock and a configuration round-trip field by field."""
import json, os
import flow, lueir
from check import Check, where, sig, short
from common import *
from model import Model, H, D

SPEC = json.load(open(os.path.join(lueir.VERIF, "spec", "settings.json")))
READ, WRITE, EXISTS = H + "Attributes::read", H + "Attributes::write", H + "Attributes::exists"
INFO = {READ, H + "Attributes::attribute", H + "Attribute::read"}


def strip(t):
    while isinstance(t, tuple) and t and (t[0] in ("cast", "some", "deref") or t[0] == "app" and t[1].split("::")[-1] in ("deref", "some", "move", "forward", "value", "c_str", "data", "optional") and len(t[2]) == 1
                                           or t[0] == "new" and len(t[3]) == 1 and t[3][0][0] in ("cast", "app", "par", "fld", "new", "str", "enum")):
        t = t[-1] if t[0] == "cast" else t[3][0] if t[0] == "new" else t[1] if t[0] in ("some", "deref") else t[2][0]
    return t


def enumerator(t):
    t = strip(t)
    return t[1] if t[0] == "enum" else None


class Tables:
    """Recognises a look-up in a constant table of (setting, text) pairs."""

    def __init__(self, prog):
        self.prog, self.memo = prog, {}
        self.of = {v[1]: (e, v[0]) for e, i in prog.enums.items() for v in i["values"]}

    def pairs(self, t):
        if t in self.memo:
            return self.memo[t]
        out = []
        for x in terms(t):
            items = x[3] if x[0] == "new" else x[2] if x[0] == "init" else x[1] if x[0] == "tuple" else ()
            if len(items) == 2 and isinstance(items[0], tuple) and isinstance(items[1], tuple):
                a, b = strip(items[0]), strip(items[1])
                if a[0] == "str" and b[0] == "enum":
                    a, b = b, a
                if a[0] == "enum" and b[0] == "str" and (a[1], b[1]) not in out:
                    out.append((a[1], b[1]))
        self.memo[t] = out
        return out

    def lookup(self, t):
        """(setting type, pairs, key) when a term is a look-up in a table"""
        t = strip(t)
        if t[0] == "fld" and t[2] in ("second", "first") and t[1][0] == "app":
            t = strip(t[1])
        if t[0] == "app" and t[1].split("::")[-1] in ("at", "operator[]", "find") and len(t[2]) == 2:
            pairs = self.pairs(t[2][0])
            if pairs:
                return self.setting(pairs[0][0]), pairs, strip(t[2][1])
        if t[0] == "at" and len(t) == 3:
            pairs = self.pairs(t[1])
            if pairs:
                return self.setting(pairs[0][0]), pairs, strip(t[2])
        return None

    def setting(self, enumerator):
        return short(self.of[enumerator][0]) if enumerator in self.of else None


def equal_to(p, kinds=("enum", "str")):
    """Constants that something was found equal to on a path: [(other side, constant)]"""
    out = []
    for t, v in p.facts.items():
        if v is not True:
            continue
        sides = t[1:] if t[0] == "eq" else t[2] if t[0] == "app" and t[1].split("::")[-1] == "operator==" else ()
        if len(sides) == 2:
            for a, b in (sides, sides[::-1]):
                if strip(b)[0] in kinds:
                    out.append((strip(a), strip(b)))
    return out


def run():
    c = Check("M02", "each setting has its own text; storing and loading use the same text and attribute name; text that denotes no setting raises an error; configurations and clocks "
              "are rebuilt from the very attributes into which their parts were stored",
              ["spec/settings.json lists the texts and attribute names used in existing files (reviewed by hand)"])
    m = Model()
    c.program(m.prog)
    T = Tables(m.prog)
    tables(c, m, T)
    uses(c, m, T)
    configurations(c, m, T)
    clock(c, m, T)
    return c.finish({"table": 35, "text": 8, "refused": 8, "attribute": 12, "configuration": 4, "clock": 8})


def impure(m, f):
    A = m.analysis(f, impure={READ})
    return A, A.run(f)


def tables(c, m, T):
    seen = set()
    for f in m.prog.functions.values():
        last = f["q"].split("::")[-1].split("<")[0]
        if last not in ("aspect_to_string", "string_to_aspect") or "body" not in f:
            continue
        A, ps = impure(m, f)
        name = f.get("targs", "").strip("<>")
        s = short(name)
        spec = SPEC.get(s)
        enum = m.prog.enums.get(name)
        par = ("par", f["params"][0][0])
        if spec is None or enum is None:
            c.ob("table", s, None, where(f), "not a known setting")
            continue
        seen.add(s)
        got, complete = [], True
        for p in ps:
            if p.kind != "ret":
                continue
            v = strip(A.as_value(p.st, p.value))
            l = T.lookup(v)
            eqs = [b for a, b in equal_to(p) if a == par]
            if l:
                ok = l[0] == s and (l[2] == par or any(x == l[2] for x in (par, strip(par))))
                c.ob("text", f"{last} of {s}", ok, where(f), f"looks up {flow.show(l[2])} in the table of {l[0]}")
                got += [x for x in l[1] if x not in got]
            elif len(eqs) == 1 and {v[0], eqs[0][0]} == {"enum", "str"}:
                pair = (v[1], eqs[0][1]) if v[0] == "enum" else (eqs[0][1], v[1])
                c.ob("text", f"{last} of {s}", True, where(f))
                got += [pair] if pair not in got else []
            elif v[0] in ("enum", "str"):
                c.ob("text", f"{last} of {s}", False, where(f), f"yields {flow.show(v)} whatever is asked for")
            else:
                complete = False
                c.ob("text", f"{last} of {s}", None, where(f), f"yields {flow.show(v)}")
        if last == "string_to_aspect":
            c.ob("refused", s, refused(m, f, T, ps, par, A), where(f), "text that denotes no setting is not refused")
        texts = [b for _, b in got]
        for n, q, _ in enum["values"]:
            mine = [b for a, b in got if a == q]
            if not mine:
                c.ob("table", f"{last}: {s}::{n}", False if complete and got else None, where(f), "has no text")
                continue
            want = spec["texts"].get(n)
            c.ob("table", f"{last}: {s}::{n}", len(mine) == 1 and texts.count(mine[0]) == 1 and (want is None or mine[0] == want), where(f), f"has text {mine}, in existing files '{want}'")
    for s in SPEC:
        c.ob("table", f"{s} is known", True if s in seen or s in ("ShapePerObject", "ValueVariability", "ShapeVariability") else None, "", "no conversion functions found")
    # tables without conversion functions in the library itself
    for f in m.prog.functions.values():
        if f.get("cls") and f["cls"].startswith(D + "AspectMap<") and f["q"].endswith("::value"):
            A, ps = impure(m, f)
            for p in ps:
                pairs = T.pairs(A.as_value(p.st, p.value)) if p.kind == "ret" else ()
                name = f["cls"][len(D + "AspectMap<"):-1]
                s = short(name)
                texts = [b for _, b in pairs]
                for n, q, _ in (m.prog.enums.get(name) or {"values": ()})["values"]:
                    mine = [b for a, b in pairs if a == q]
                    want = SPEC.get(s, {"texts": {}})["texts"].get(n)
                    c.ob("table", f"map of {s}::{n}", None if not pairs else len(mine) == 1 and texts.count(mine[0]) == 1 and (want is None or mine[0] == want), where(f),
                         f"has text {mine}, in existing files '{want}'")
        if f.get("cls") and f["cls"].startswith(D + "Tag<") and f["q"].endswith("::value"):
            A, ps = impure(m, f)
            s = short(f["cls"][len(D + "Tag<"):-1])
            for p in ps:
                v = strip(A.as_value(p.st, p.value)) if p.kind == "ret" else ("?",)
                if s in SPEC:
                    c.ob("attribute", f"name of {s}", v[1] == SPEC[s]["name"] if v[0] == "str" else None, where(f), f"is {flow.show(v)}, in existing files '{SPEC[s]['name']}'")


def refused(m, f, T, ps, par, A):
    """Text outside the table leads to an error: look-ups that throw, or a default path that throws."""
    res = True
    for p in ps:
        if p.kind != "ret":
            continue
        v = strip(A.as_value(p.st, p.value))
        if T.lookup(v):
            looks = [x[1].split("::")[-1] for a in p.facts for x in terms(a) if contains(a, par) and x[0] == "app" and contains(x, par)]
            checked = any(q in ("find", "count", "contains") for q in looks)
            if not checked and indexed(m, f) or not checked and any(q in ("lower_bound", "upper_bound", "size", "empty", "length") for q in looks):
                res = False
        elif any(a == par for a, b in equal_to(p, ("str",))):
            pass
        elif v[0] == "enum":
            return False
        else:
            res = None if res else res
    return res


def indexed(m, f, depth=0):
    """Uses an operator[], which does not refuse unknown keys."""
    for q, key, _ in calls_in(f):
        if q.split("::")[-1] == "operator[]":
            return True
        g = m.prog.functions.get(key)
        if g is not None and "body" in g and depth < 4 and indexed(m, g, depth + 1):
            return True
    return False


def uses(c, m, T):
    """Whatever stores or loads a setting uses the attribute of that setting."""
    touch = reaching(m.prog, lambda q: "AspectMap<" in q or "aspect_to_string" in q or "string_to_aspect" in q)
    for f in m.prog.functions.values():
        if f["key"] not in touch or "body" not in f or component(f) not in ("cxx", "hl") or "/test/" in f["file"]:
            continue
        A = m.analysis(f, impure={READ})
        A.max_steps = 60000
        try:
            ps = A.run(f)
        except flow.TooComplex:
            c.count("large functions covered by the functions they call")
            continue
        for p in ps:
            for e in p.events:
                if e.q == WRITE and len(e.args) >= 3:
                    l = T.lookup(e.args[2])
                    if l and l[0] in SPEC:
                        n = strip(e.args[1])
                        c.ob("attribute", f"{sig(f)} stores {l[0]}", n[1] == SPEC[l[0]]["name"] if n[0] == "str" else None, where(f, e.line), f"under {flow.show(n)}")
            vals = [A.read(p.st, ("lv", ("m", ("this",)), ()))] if f.get("ctor") and p.kind == "ret" else []
            if p.kind == "ret" and p.value is not None:
                vals.append(A.as_value(p.st, p.value))
            for v in vals:
                for x in terms(v):
                    if x[0] not in ("app", "at"):
                        continue
                    l = T.lookup(x)
                    if not l or l[0] not in SPEC:
                        continue
                    k = l[2]
                    if k[0] == "app" and k[1] in INFO and len(k[2]) >= 2:
                        n = strip(k[2][1])
                        c.ob("attribute", f"{sig(f)} loads {l[0]}", n[1] == SPEC[l[0]]["name"] if n[0] == "str" else None, where(f), f"from {flow.show(n)}")


def configurations(c, m, T):
    for f in m.prog.functions.values():
        cls = f.get("cls") or ""
        if not cls.startswith(D + "Configuration<") or "body" not in f or f.get("copymove"):
            continue
        want = sorted(short(x.strip()) for x in cls[len(D + "Configuration<"):-1].strip("<>").split(","))
        attributes = [n for n, _, t in f["params"] if "Attributes" in t]
        if not attributes or f.get("targs"):
            continue
        A, ps = impure(m, f)
        for p in ps:
            if p.kind != "ret":
                continue
            if f.get("ctor"):
                v = A.read(p.st, ("lv", ("m", ("this",)), ()))
                got = {short(x[1])[len("Aspect<"):-1] for x in terms(v) if x[0] == "new" and x[1].startswith(D + "Aspect<") and len(x[3]) == 1 and contains(x[3][0], ("par", attributes[0]))}
                got = sorted(got | {l[0] or "?" for x in terms(v) if x[0] in ("app", "at") for l in [T.lookup(x)] if l and l[2][0] == "app"})
                c.ob("configuration", f"loading {short(cls)}", got == want if got else None, where(f), f"loads {got}")
            else:
                got, bad = [], None
                for e in p.events:
                    l = T.lookup(e.args[2]) if e.q == WRITE and len(e.args) >= 3 else None
                    if l:
                        got.append(l[0] or "?")
                        if not contains(l[2], ("this",)):
                            bad = f"the {l[0]} stored is {flow.show(l[2])}"
                c.ob("configuration", f"storing {short(cls)}", (sorted(got) == want and not bad) if got else None if any(e.q == WRITE for e in p.events) else False, where(f), bad or f"stores {got}")


def leaves(A, m, st, v, cls, path=()):
    """{field path: term} of an object, down to parts that are no classes of the data model"""
    info = m.prog.classes.get(flow.base_type(cls))
    if not info or not info.get("fields") or not flow.base_type(cls).startswith(D):
        return {path: v}
    out = {}
    for n, t, _ in info["fields"]:
        out.update(leaves(A, m, st, A.select(st, v, ("f", n)), t, path + (n,)))
    return out


def field_path(t):
    """Field path of a term over a parameter: ('clock', ('_epoch', '_kind'))"""
    t, out = strip(t), ()
    while t[0] == "fld":
        t, out = strip(t[1]), (t[2],) + out
    if t[0] != "par" and not any(x[0] == "par" for x in terms(t)):
        return "constant", out
    return (t[1], out) if t[0] == "par" else None


def presence(m, cls, prefix):
    """Which optional parts of an object can be there together, by its constructors: a set of sets of field paths"""
    out = set()
    for f in m.prog.functions.values():
        if f.get("cls") == cls and f.get("ctor") and not f.get("copymove"):
            A, ps = m.run(f)
            for p in ps:
                have = set()
                for n, t, _ in m.prog.classes[cls]["fields"]:
                    v = A.read(p.st, ("lv", ("m", ("this",)), (("f", n),)))
                    if "optional" in t and not flow.show(v).startswith("nullopt") and v[0] not in ("undef", "fld"):
                        have.add(prefix + (n,))
                out.add(frozenset(have))
    return out


def clock(c, m, T):
    CLOCK = D + "Clock"
    stores, loads = [], []
    for f in m.prog.functions.values():
        if component(f) != "cxx" or "body" not in f or "/test/" in f["file"]:
            continue
        if any("Clock" in t for _, _, t in f["params"]) and f["key"] in m.creators and any(t == CLOCK for _, t, _ in (m.prog.classes.get(f.get("ret")) or {"fields": ()})["fields"]):
            stores.append(f)
        if f["key"] in m.openers and any(t == CLOCK for _, t, _ in (m.prog.classes.get(f["cls"]) or {"fields": ()})["fields"]):
            loads.append(f)
    loaded = []
    for f in loads:
        A, ps = impure(m, f)
        field = next(n for n, t, _ in m.prog.classes[f["cls"]]["fields"] if t == CLOCK)
        for p in ps:
            if p.kind != "ret":
                continue
            v = A.read(p.st, ("lv", ("m", ("this",)), (("f", field),)))
            parts = {}
            for path, t in leaves(A, m, p.st, v, CLOCK).items():
                l = T.lookup(t)
                k = l[2] if l else strip(t)
                if k[0] == "app" and k[1] in INFO and len(k[2]) >= 2 and strip(k[2][1])[0] == "str":
                    parts[path] = (strip(k[2][1])[1], l[0] if l else None)
                elif flow.show(t).startswith("nullopt"):
                    parts[path] = None
                elif t[0] in ("enum", "int", "str"):
                    parts[path] = ("constant " + flow.show(t), None)
                else:
                    parts[path] = ("?" + flow.show(t), None)
            known = {}
            for t, val in p.facts.items():
                if t[0] == "app" and t[1] == EXISTS and strip(t[2][1])[0] == "str":
                    known[strip(t[2][1])[1]] = val
            loaded.append((f, parts, known))
    for f in stores:
        A, ps = impure(m, f)
        for p in ps:
            if p.kind != "ret":
                continue
            stored, clk = {}, None
            for e in p.events:
                if e.q == WRITE and len(e.args) >= 3 and strip(e.args[1])[0] == "str":
                    l = T.lookup(e.args[2])
                    v = l[2] if l else e.args[2]
                    fp = field_path(v) or (None if any(contains(v, ("par", n)) for n, _, t in f["params"] if "Clock" in t) else ("other", ()))
                    stored[strip(e.args[1])[1]] = (fp, l[0] if l else None)
            absent = {field_path(t[2][0]) for t, v in p.facts.items() if t[0] == "app" and t[1].split("::")[-1] == "has_value" and v is False}
            present = {field_path(t[2][0]) for t, v in p.facts.items() if t[0] == "app" and t[1].split("::")[-1] == "has_value" and v is True}
            ours = {n: (fp[1], s) for n, (fp, s) in stored.items() if fp and "Clock" in {a: b for a, _, b in f["params"]}.get(fp[0], "")}
            for g, parts, known in loaded:
                if any((n in stored) != v for n, v in known.items()):
                    continue
                for path, src in parts.items():
                    show_ = ".".join(path)
                    mine = {n: s for n, (q, s) in ours.items() if q == path}
                    inst = f"{show_} of a clock stored by {sig(f)} with {' '.join(sorted(n for n in stored if 'epoch' in n))}, loaded by {sig(g)}"
                    if src is None:
                        ok = not mine
                        detail = f"is stored as {sorted(mine)}, but not loaded"
                    elif src[0].startswith("?"):
                        ok, detail = None, f"is {src[0][1:]}"
                    else:
                        ok = src[0] in mine and mine[src[0]] == src[1] or (None if any(fp is None for fp, _ in stored.values()) else False)
                        detail = f"is loaded from {src[0]}, but stored as {sorted(mine)}"
                    c.ob("clock", inst, ok, where(g), detail)
                for n, (q, s) in ours.items():
                    if not any(src and src[0] == n for src in parts.values()):
                        c.ob("clock", f"{n} stored by {sig(f)}, loaded by {sig(g)}", False, where(g), f"{'.'.join(q)} is stored as {n}, which is not loaded")
            for path in {path for _, parts, _ in loaded for path in parts}:
                if any(q == path for q, _ in ours.values()):
                    continue
                unknown = any(fp is None for fp, _ in stored.values())
                cls = owner(m, CLOCK, path)
                combos = presence(m, cls, path[:-1]) if cls else {frozenset([path])}
                gone = {a[1] for a in absent if a}
                there = {a[1] for a in present if a}
                lost = any(path in s and not s & gone and not (there - s) for s in combos) if any(path in s for s in combos) or optional(m, CLOCK, path) else True
                c.ob("clock", f"{'.'.join(path)} stored by {sig(f)}", (None if unknown else False) if lost else True, where(f), "is not stored although it can be there")


def owner(m, cls, path):
    for n in path[:-1]:
        cls = next(t for a, t, _ in m.prog.classes[cls]["fields"] if a == n)
    return cls


def optional(m, cls, path):
    return "optional" in next(t for a, t, _ in m.prog.classes[owner(m, cls, path)]["fields"] if a == path[-1])
