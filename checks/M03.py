"""M03: growing a value: extents change along the first dimension only, the stored count and the count in memory become the previous count plus what was added, every added part has the
name, type and shape that were passed, and is found under that name later."""
import re

import flow
from check import Check, where, sig, short
from common import *
from model import Model, H, D, name_of, show_place
from flow import show

READ, WRITE, RESIZE, CREATE = H + "Attributes::read", H + "Attributes::write", H + "Dataset::resize", H + "create_dataset"
COUNTS = {"nr_objects": "objects", "nr_locations_in_time": "locations"}


def plain(t):
    """Without conversions, copies of containers and iterator wrappers."""
    while True:
        if t[0] == "cast":
            t = t[-1]
        elif t[0] == "new" and len(t[3]) == 1 and ("iterator" in t[1] or t[3][0][0] in ("app", "par", "fld", "at", "new") and not t[1].startswith(D) and not t[1].startswith(H + "Data")):
            t = t[3][0]
        else:
            return t


def difference(a, b):
    """a - b as a linear form without zero terms"""
    d = flow.linear(plain(a), 1, {})
    flow.linear(plain(b), -1, d)
    return {k: v for k, v in d.items() if v}


def is_only(d, t):
    """Whether a linear form is the one term t"""
    w = {k: v for k, v in flow.linear(plain(t), 1, {}).items() if v}
    if d == w:
        return True
    known = all(all(x[0] != "phi" for x in flow.subterms(k) if isinstance(x, tuple) and x) for k in d if isinstance(k, tuple))
    return False if known else None


def run():
    c = Check("M03", "after each expansion the extent or the count, in memory and stored, is the old one plus what was asked for; new parts have the identifiers, types and shapes that were passed "
              "and are looked up under the same names; counts start at zero and are loaded from where they are stored",
              ["HDF5 keeps existing elements when an array grows", "other handles of the same value that are open at the time keep the count they loaded"])
    m = Model()
    c.program(m.prog)
    values = {}
    for k, f in m.prog.functions.items():
        if f.get("cls") and f["q"].split("::")[-1] == "expand" and "body" in f and component(f) == "cxx" and "/test/" not in f["file"]:
            values.setdefault(f["cls"], []).append(f)
    for cls, fs in sorted(values.items()):
        counters = {f["q"].split("::")[-1]: f for f in m.prog.functions.values() if f.get("cls") == cls and f["q"].split("::")[-1] in COUNTS and "body" in f}
        if counters:
            group(c, m, cls, fs, counters)
        else:
            for f in fs:
                array(c, m, f)
    numbers(c, m)
    extents(c, m)
    slabs(c, m, values)
    digits(c, m)
    return c.finish({"extent": 1, "number": 6, "count": 8, "part": 20, "loaded": 8, "initial": 3, "lookup": 4, "shape": 5, "item": 6})


WIDE = {"unsigned long", "unsigned long long"}
INTEGER = re.compile(r"^(?:const )?(?:(?:un)?signed |short|int|long|char|bool)[\w ]*$|^int$|^long$|^short$|^char$")


def digits(c, m):
    """Identifiers that become names do so with all their bits: nothing they pass on the way is narrower, or signed."""
    for f in m.prog.functions.values():
        if component(f) != "cxx" or "body" not in f or "/test/" in f["file"]:
            continue
        wide = {n for n, _, t in f["params"] if flow.base_type(t) in WIDE or t.split("::")[-1].strip(" &") in ("ID", "Index", "Count")}

        def visit(n):
            if n[0] != "call" or len(n) < 6 or n[5] != "std::to_string" or not n[3]:
                return
            x, casts = n[3][0], []
            while x and x[0] in ("cast", "init") and isinstance(x[-1], list):
                if x[0] == "cast":
                    casts.append(x[1])
                x = x[-1] if x[0] == "cast" else x[-1][0] if x[-1] and isinstance(x[-1][0], list) else x[-1]
            if x and x[0] == "var" and x[1] in wide:
                bad = [t for t in casts if isinstance(t, str) and t not in WIDE and INTEGER.match(t)]
                c.ob("digits", f"{x[1]} in {sig(f)}", not bad, where(f, n[4] if isinstance(n[4], int) else None), f"is named by {' of '.join(bad)} of it")
        scan(f["body"], visit)


def members(m, cls):
    return [f for f in m.prog.functions.values() if f.get("cls") == cls and "body" in f]


def analyse(m, f):
    """Paths of an expansion in which calls of other values' expand, and of creating functions, are events."""
    A = m.analysis(f, impure={READ}, more=lambda q, k: q.split("::")[-1] == "expand" and (m.prog.functions.get(k) or {}).get("cls") != f.get("cls"))
    return A, [p for p in A.run(f) if p.kind == "ret"]


# ------------------------------------------------------------ arrays that hold all objects

def array(c, m, f):
    for g in members(m, f["cls"]):
        if g["q"].split("::")[-1] == "nr_arrays":
            A, ps = m.run(g)
            for p in ps:
                v = plain(A.as_value(p.st, p.value))
                whole = v[0] == "at" and plain(v[1])[0] == "app" and plain(v[1])[1].split("::")[-1] == "shape"
                c.ob("extent", sig(g), plain(v[2]) == flow.ZERO if whole else None, where(g), f"is {show(v)}")
    A, ps = analyse(m, f)
    n = ("par", f["params"][0][0])
    for p in ps:
        rs = [e for e in p.events if e.q == RESIZE]
        if not rs:
            zero = decided(p.facts, flow.mk_eq(n, flow.ZERO)) is True
            c.ob("extent", sig(f), zero, where(f), "returns without growing the array")
            continue
        ok, why = True, ""
        if len(rs) > 1 or rs[0].loops:
            ok, why = None, "grows the array more than once"
        else:
            ok, why = grown(rs[0].args[1], rs[0].args[0], n)
        c.ob("extent", sig(f), ok, where(f, rs[0].line), why)


def grown(t, obj, n):
    """Whether an extent is the current one with n more along the first dimension"""
    changes, t = {}, plain(t)
    while t[0] == "upd" and t[2][0] == "i":
        changes.setdefault(t[2][1], t[3])
        t = plain(t[1])
    if not (t[0] == "app" and t[1].split("::")[-1] == "shape"):
        ends = [x for x in terms(t) if x[0] == "upd" and "back" in show(x[2]) or x[0] == "mut" and x[1] in ("push_back", "back", "emplace_back")]
        return (False if ends else None), f"resizes to {show(t)}"
    if any(show(k).startswith("last") for k in changes):
        return False, "changes the last extent"
    zero = [k for k in changes if plain(k) == flow.ZERO]
    if set(changes) - set(zero):
        other = [k for k in changes if k not in zero]
        return (False if all(plain(k)[0] == "int" for k in other) else None), f"changes the extent along dimension {', '.join(show(k) for k in other)}"
    if not zero:
        return False, "does not change the first extent"
    old = ("at", t, zero[0])
    ok = is_only(difference(changes[zero[0]], old), n)
    return ok, f"the first extent becomes {show(changes[zero[0]])}"


def numbers(c, m):
    """What a value reports as its number of things is the first extent of its own array, or of the array of these things it contains."""
    for f in sorted(m.prog.functions.values(), key=lambda f: f["key"]):
        name = f["q"].split("::")[-1]
        if not (f.get("cls") and "body" in f and component(f) == "cxx" and "/test/" not in f["file"] and name.startswith("nr_") and not f["params"]
                and any(b.split("::")[-1] == "Array" for b in ancestors(m, f["cls"]))):
            continue
        of = {("this",)}
        for g in members(m, f["cls"]):
            if g["q"].split("::")[-1] in (name[3:], name[3:-1]) and not g["params"]:
                A, ps = m.run(g)
                of = {plain(A.as_value(p.st, p.value)) for p in ps if p.kind == "ret"}
        A, ps = m.run(f)
        for p in ps:
            if p.kind != "ret":
                continue
            v = plain(A.as_value(p.st, p.value))
            d = {k: x for k, x in flow.linear(v, 1, {}).items() if x}
            whole = [k for k in d if isinstance(k, tuple) and k and k[0] == "at" and plain(k[1])[0] == "app" and plain(k[1])[1].split("::")[-1] == "shape"]
            ok = len(d) == len(whole) == 1 and d[whole[0]] == 1 and plain(whole[0][2]) == flow.ZERO and {plain(plain(whole[0][1])[2][0])} == of
            c.ob("number", sig(f), True if ok else False if whole or v[0] == "int" or v[0] == "fld" else None, where(f), f"is {show(v)}")


def ancestors(m, cls):
    out, todo = set(), [cls]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += m.prog.classes.get(x, {}).get("bases", [])
    return out


# ------------------------------------------------------------ groups of arrays

def counter_field(c, m, cls, counters):
    """(name, field, tag) of the count of a value"""
    for name, acc in counters.items():
        A, ps = m.run(acc)
        got = {A.as_value(p.st, p.value) for p in ps}
        v = got.pop() if len(got) == 1 else ("?",)
        if v[0] == "fld" and v[1] == ("this",):
            return name, v[2]
        if v[0] == "app" and v[1] == READ:
            return name, None
        c.ob("loaded", f"{short(cls)} reports {name}", None, where(acc), f"reports {show(v)}")
    return None, None


def group(c, m, cls, fs, counters):
    name, field = counter_field(c, m, cls, counters)
    if name is None or field is None:
        c.ob("count", cls, None, "", "no count found")
        return
    label = cls.replace(D, "")
    tags = set()
    for f in members(m, cls):
        if not f.get("ctor") or f.get("copymove"):
            continue
        A, ps = m.run(f)
        for p in ps:
            v = plain(A.read(p.st, ("lv", ("m", ("this",)), (("f", field),))))
            ok = v[0] == "app" and v[1] == READ and len(v[2]) >= 2
            tag = name_of(v[2][1]) if ok else None
            c.ob("loaded", f"{name} by {sig(f)}", ok if ok or v[0] in ("int", "undef") else None, where(f), f"is {show(v)}")
            if ok:
                tags.add(tag)
                c.ob("loaded", f"{name} by {sig(f)} is stored in the value", m.place(v[2][0]) in (("this",), m.base_place(f)) or (None if m.place(v[2][0]) is None else False), where(f),
                     f"is read from {show_place(m.place(v[2][0]))}")
    c.ob("loaded", f"{name} of {label}", len(tags) == 1 if tags else None, "", f"loaded from {sorted(map(str, tags))}")
    tag = tags.pop() if len(tags) == 1 else None
    for f in m.creators.values():
        if f.get("ret") == cls and len(f["params"]) >= 4:
            initial(c, m, f, cls, name, tag)
    parts = set()
    for f in fs:
        expansion(c, m, f, cls, name, field, tag, parts)
    lookups(c, m, cls, parts)


def initial(c, m, f, cls, name, tag):
    A, ps = m.run(f)
    for p in ps:
        ws = [e for e in p.events if e.q == WRITE and name_of(e.args[1]) == tag]
        nested = [e for e in p.events if e.key in m.creators and m.creators[e.key].get("ret") == cls]
        if nested and not ws:
            continue
        vals = [plain(e.args[2]) for e in ws]
        ok = vals[-1] == flow.ZERO if vals else False
        if vals and vals[-1][0] != "int":
            ok = None
        c.ob("initial", f"{name} in {sig(f)}", ok, where(f), f"stores {[show(v) for v in vals]}")


def pointer(t):
    return "*" in t and "void" not in t


def expansion(c, m, f, cls, name, field, tag, parts):
    A, ps = analyse(m, f)
    bulk = any(pointer(t) for _, _, t in f["params"]) and COUNTS[name] == "objects"
    integers = [n for n, _, t in f["params"] if not pointer(t) and "&" not in t and "void" not in t]
    s = sig(f)
    if bulk and len(integers) != 1:
        c.ob("count", s, None, where(f), "which parameter is the number of objects")
        return
    n = ("par", integers[0]) if bulk else ("int", 1)
    old = ("fld", ("this",), field)
    if bulk and any(e.q == WRITE and name_of(e.args[1]) == tag and e.loops for p in ps for e in p.events):
        # one by one
        for p in ps:
            for e in p.events:
                if creates(m, e):
                    part(c, m, f, p, e, bulk, n, parts)
                if e.q == WRITE and name_of(e.args[1]) == tag:
                    ok = is_only(difference(e.args[2], old), ("int", 1)) and same_iteration(p, e, bulk, n) is not None
                    c.ob("count", f"stored by {s}", ok or None, where(f, e.line), f"stores {show(e.args[2])} in each iteration")
        return
    for p in ps:
        last = A.read(p.st, ("lv", ("m", ("this",)), (("f", field),)))
        zero = bulk and decided(p.facts, flow.mk_eq(n, flow.ZERO)) is True
        want = flow.ZERO if zero else n
        ok = is_only(difference(last, old), want)
        if zero and ok is False:
            ok = is_only(difference(last, old), n)
        c.ob("count", f"in memory by {s}", ok, where(f), f"{name} becomes {show(last)}")
        ws = [(i, e) for i, e in enumerate(p.events) if e.q == WRITE and name_of(e.args[1]) == tag]
        if not ws:
            c.ob("count", f"stored by {s}", zero, where(f), f"returns without storing {name}")
        else:
            i, e = ws[-1]
            ok = is_only(difference(e.args[2], last), flow.ZERO)
            if m.place(e.args[0]) not in (("this",), None):
                ok = False
            c.ob("count", f"stored by {s}", ok, where(f, e.line), f"stores {show(e.args[2])} where {name} is {show(last)}")
            late = [x for x in p.events[i + 1:] if creates(m, x)]
            c.ob("count", f"stored last by {s}", not late, where(f, e.line), f"stores {name} before the part is there")
        made = [e for e in p.events if creates(m, e)]
        if not made:
            if not bulk:
                c.ob("part", s, False, where(f), "returns without making room")
            continue
        for e in made:
            part(c, m, f, p, e, bulk, n, parts)
        nested(c, m, f, p, made, bulk, n)
    if bulk and not any(creates(m, e) for p in ps for e in p.events):
        c.ob("part", s, False, where(f), "never makes room")


def creates(m, e):
    return e.q == CREATE or e.q == H + "create_group" or e.key in m.creators


def kinds_of(m, e):
    if e.q == CREATE:
        return "array"
    if e.q == H + "create_group":
        return "group"
    g = m.creators[e.key]
    got = {k for (k, place) in m.layout(g, True) if place == (("par", g["params"][0][0]), ("par", g["params"][1][0]))}
    return got.pop() if len(got) == 1 else None


def same_iteration(p, e, bulk, n):
    """The index of the iteration in which an event takes place, for a loop over 0..n"""
    if not bulk:
        return None if e.loops else ()
    if len(e.loops) == 1 and e.loops[0][0] == "ind" and plain(e.loops[0][1]) == flow.ZERO and is_only(difference(e.loops[0][2], n), flow.ZERO):
        return e.loops[0]
    return None


def integer_pointers(f):
    return [("par", n) for n, _, t in f["params"] if pointer(t) and not any(x in t for x in ("Shape *", "vector", "Shape const"))]


def part(c, m, f, p, e, bulk, n, parts):
    s = sig(f)
    ind = same_iteration(p, e, bulk, n)
    if ind is None:
        ok = None
        if bulk and len(e.loops) == 1 and e.loops[0][0] == "ind" and (plain(e.loops[0][1])[0] == "int" or difference(e.loops[0][2], n)):
            d = difference(e.loops[0][2], n)
            ok = False if plain(e.loops[0][1]) != flow.ZERO or all(isinstance(k, int) or k in ((), 1, None) or k == ("int", 1) for k in d) else None
        c.ob("part", f"iterations of {s}", ok, where(f, e.line), f"makes room for {[show(x) for x in e.loops]} instead of one for each")
        return
    place = m.place(e.args[0])
    c.ob("part", f"parent in {s}", place == ("this",) if place else None, where(f, e.line), f"is {show_place(place)}")
    # name
    key = name_of(e.args[1])
    if key[0] == "app" and key[1].split("::")[-1] == "to_string" and len(key[2]) == 1:
        k = plain(key[2][0])
        if bulk:
            ids = [x for x in (("par", q) for q, _, t in f["params"] if pointer(t)) if k == ("at", x, ind)]
            ok = bool(ids) if k[0] == "at" else False if k == ind or k[0] == "int" else None
        else:
            ok = k == ("par", f["params"][0][0])
            if not ok and k[0] not in ("par", "int", "fld"):
                ok = None
        c.ob("part", f"name in {s}", ok, where(f, e.line), f"is {show(k)}")
        parts.add(kinds_of(m, e))
    else:
        c.ob("part", f"name in {s}", False if isinstance(key, str) else None, where(f, e.line), f"is {key if isinstance(key, str) else show(key)}")
    # shape
    for t in shapes_of(m, e):
        ok, why = shape(m, f, t, bulk, ind)
        c.ob("part", f"shape in {s}", ok, where(f, e.line), why)
    # types
    if e.key in m.creators and len(e.args) >= 4:
        fields = [plain(e.args[2]), plain(e.args[3])]
        want = [("fld", ("this",), "_file_datatype"), ("fld", ("this",), "_memory_datatype")]
        types = [x for x in fields if x[0] == "fld"]
        c.ob("part", f"types in {s}", fields == want if len(types) == 2 else None, where(f, e.line), f"are {', '.join(show(x) for x in fields)}")
    if e.q == CREATE:
        t = plain(e.args[2])
        c.ob("part", f"types in {s}", t == ("fld", ("this",), "_file_datatype") if t[0] == "fld" else None, where(f, e.line), f"the type in the file is {show(t)}")


def shapes_of(m, e):
    if e.q == CREATE:
        sp = plain(e.args[3])
        return [x for x in sp[2][:2]] if sp[0] == "app" and sp[1].split("::")[-1] == "create_dataspace" else []
    g = m.creators.get(e.key)
    return [a for (n, _, t), a in zip(g["params"], e.args) if "Shape" in t] if g else []


def shape(m, f, t, bulk, ind):
    t = plain(t)
    ptrs = [("par", q) for q, _, ty in f["params"] if pointer(ty)]
    if not bulk:
        ok = t[0] == "par" and any(q == t[1] and "Shape" in ty for q, _, ty in f["params"])
        return ok or (None if t[0] != "init" else False), f"is {show(t)}"
    if t[0] == "at":
        return (t[1] in ptrs and t[2] == ind) or (None if t[1] not in ptrs else False), f"is {show(t)}"
    if t[0] == "new":
        a = [x for x in t[3] if not (x[0] == "new" and "allocator" in x[1])]
        if len(a) == 2:
            rank = ("fld", ("this",), "_rank")
            n = difference(a[1], a[0])
            first = flow.linear(plain(a[0]), 1, {})
            base = [x for x in ptrs if first.get(x) == 1]
            rest = {k: v for k, v in first.items() if v and k not in base}
            ok = is_only(n, rank) and len(base) == 1 and rest == {k: v for k, v in flow.linear(flow.mk_bin("*", rank, ind), 1, {}).items() if v}
            return ok or (None if any(x[0] in ("phi",) for x in terms(t)) else False), f"is {show(a[0])} up to {show(a[1])}"
    if t[0] == "init":
        return False, f"always has {len(t[2])} dimensions"
    return None, f"is {show(t)}"


def nested(c, m, f, p, made, bulk, n):
    """The value that was made is grown by the number of its own objects or locations."""
    for e in made:
        if e.key not in m.creators:
            continue
        cls = m.creators[e.key].get("ret")
        if not any(g["q"].split("::")[-1] == "expand" for g in members(m, cls)):
            continue
        calls = [x for x in p.events if x.q.split("::")[-1] == "expand" and x.key in m.prog.functions and m.prog.functions[x.key].get("cls") == cls]
        if len(calls) != 1:
            c.ob("part", f"{sig(f)} grows what it made", False if not calls else None, where(f, e.line), f"{len(calls)} times")
            continue
        x = calls[0]
        c.ob("part", f"{sig(f)} grows what it made", m.place(x.args[0]) == m.place(e.res) and m.place(e.res) is not None or None, where(f, x.line), "grows something else")
        g = m.prog.functions[x.key]
        ind = same_iteration(p, e, bulk, n)
        used = {x2 for x2 in terms(e.args[1])}
        for (gn, _, gt), a in zip(g["params"], x.args[1:]):
            a = plain(a)
            base = a
            if bulk and a[0] == "at":
                c.ob("part", f"{gn} passed on by {sig(f)}", a[2] == ind, where(f, x.line), f"is {show(a)}")
                base = a[1]
            if base[0] != "par":
                c.ob("part", f"{gn} passed on by {sig(f)}", False if base[0] == "int" else None, where(f, x.line), f"is {show(a)}")
                continue
            mine = next(t for q, _, t in f["params"] if q == base[1])
            names = {q for q, _, t in f["params"] if flow.base_type(t) == flow.base_type(mine)}
            # among parameters of one type, the number of parts is the one that does not name the part
            ok = base not in used if pointer(gt) is False and "Shape" not in gt else True
            if ok and gn in names and gn != base[1]:
                ok = False
            c.ob("part", f"{gn} passed on by {sig(f)}", ok, where(f, x.line), f"is {show(a)}")


def lookups(c, m, cls, parts):
    for f in members(m, cls):
        last = f["q"].split("::")[-1]
        if last == "operator[]" and f.get("const") in (True, False) and len(f["params"]) == 1:
            A, ps = m.run(f)
            for p in ps:
                v = A.as_value(p.st, p.value)
                place = m.place(v)
                want = ("this", ("app", "std::to_string", (("par", f["params"][0][0]),)))
                ok = place is not None and len(place) == 2 and place[0] == "this" and place[1][0] == "app" and place[1][1].split("::")[-1] == "to_string" and plain(place[1][2][0]) == ("par", f["params"][0][0])
                c.ob("lookup", sig(f), ok if place else None, where(f), f"opens {show_place(place)}")
                if v[0] == "new" and parts - {None}:
                    kind = "array" if H + "Dataset" in chain_(m, v[1]) else "group"
                    c.ob("lookup", f"kind by {sig(f)}", parts - {None} == {kind}, where(f), f"opens {kind}, made is {sorted(parts - {None})}")
        if last in ("contains", "exists") and len(f["params"]) == 1:
            A, ps = m.run(f)
            for p in ps:
                v = plain(A.as_value(p.st, p.value))
                if v[0] == "app" and v[1] in (H + "dataset_exists", H + "group_exists") and len(v[2]) >= 2:
                    key = name_of(v[2][1])
                    ok = m.place(v[2][0]) == ("this",) and key[0] == "app" and key[1].split("::")[-1] == "to_string" and plain(key[2][0]) == ("par", f["params"][0][0])
                    kind = "array" if v[1].endswith("dataset_exists") else "group"
                    ok = ok and parts - {None} in (set(), {kind})
                    c.ob("lookup", sig(f), ok, where(f), f"asks for {kind} {show(v)}")
                else:
                    c.ob("lookup", sig(f), False if v[0] == "bool" else None, where(f), f"yields {show(v)}")


def chain_(m, cls):
    from model import chain
    return chain(m.prog, flow.base_type(cls))


# ------------------------------------------------------------ shape of arrays that hold all objects

def extents(c, m):
    for f in m.creators.values():
        cls = f.get("ret")
        if not cls or H + "Dataset" not in chain_(m, cls) or not any(g["q"].split("::")[-1] == "expand" for g in members(m, cls)):
            continue
        A, ps = m.run(f)
        for p in ps:
            es = [e for e in p.events if e.q == CREATE]
            for e in es:
                sp = plain(e.args[3])
                if sp[0] != "app" or sp[1].split("::")[-1] != "create_dataspace" or len(sp[2]) < 2:
                    c.ob("shape", sig(f), None, where(f, e.line), f"creates {show(sp)}")
                    continue
                for label, t, first in (("initial", sp[2][0], flow.ZERO), ("largest", sp[2][1], None)):
                    ok, why = prefixed(t, f, first)
                    c.ob("shape", f"{label} in {sig(f)}", ok, where(f, e.line), why)
            fwd = [e for e in p.events if e.key in m.creators and m.creators[e.key].get("ret") == cls]
            if not es and fwd:
                arg = [a for (n, _, t), a in zip(m.creators[fwd[0].key]["params"], fwd[0].args) if "Shape" in t]
                mine = [("par", n) for n, _, t in f["params"] if "Shape" in t]
                if mine and arg:
                    c.ob("shape", f"passed on in {sig(f)}", plain(arg[0]) == mine[0], where(f), f"passes {show(arg[0])}")
    for f in m.prog.functions.values():
        if f["q"].split("::")[-1] == "array_shape" and "body" in f and f.get("cls", "").startswith(D) and component(f) == "cxx":
            A, ps = m.run(f)
            for p in ps:
                v = A.as_value(p.st, p.value)
                a = [x for x in v[3] if not (x[0] == "new" and "allocator" in x[1])] if v[0] == "new" else []
                whole = ("app", "shape", (("this",),))
                ok = None
                if len(a) == 2:
                    b, e = plain(a[0]), plain(a[1])
                    base = e[2][0] if e[0] == "app" and e[1] in ("end", "cend") else None
                    if base is not None and base[0] == "app" and base[1].split("::")[-1] == "shape":
                        d = difference(b, ("app", "begin", (base,)))
                        ok = is_only(d, ("int", 1))
                    elif b[0] == "app" and b[1] in ("begin", "cbegin"):
                        ok = False
                c.ob("shape", sig(f), ok, where(f), f"is {show(v)}")


def prefixed(t, f, first):
    """Whether a shape is the array shape that was passed with one more dimension in front"""
    t = plain(t)
    par = next((("par", n) for n, _, ty in f["params"] if "Shape" in ty), None)
    if t[0] == "mut" and t[1] == "insert":
        obj, rest = plain(t[2][0]), [plain(x) for x in t[2][1:]]
        if obj != par or len(rest) != 2:
            return None, f"is {show(t)}"
        at, v = rest
        if not (at[0] == "app" and at[1] in ("begin", "cbegin")):
            return (False if at[0] == "app" and at[1] in ("end", "cend") or at[0] == "op" else None), f"the new dimension is put at {show(at)}"
        unlimited = "UNLIMITED" in show(v) or v[0] == "int" and (v[1] == -1 or v[1] >= 2**64 - 1)
        ok = v == flow.ZERO if first is not None else unlimited
        return ok, f"the first extent is {show(v)}"
    if t == par:
        return False, "has no dimension for the objects"
    if t[0] == "mut" and t[1] in ("push_back", "emplace_back") and plain(t[2][0]) == par:
        return False, "the new dimension is the last one"
    return None, f"is {show(t)}"


# ------------------------------------------------------------ items of arrays that hold all objects

def slabs(c, m, values):
    for cls in values:
        if H + "Dataset" not in chain_(m, cls):
            continue
        for f in members(m, cls):
            last = f["q"].split("::")[-1]
            if last == "hyperslab":
                A, ps = m.run(f)
                for p in ps:
                    ok, why = slab(A.as_value(p.st, p.value), f)
                    c.ob("item", sig(f), ok, where(f), why)
            if last in ("read", "write") and f["params"] and "Index" in f["key"].split("(")[1] or last in ("read", "write") and len(f["params"]) == 2 and f["params"][0][2].startswith("unsigned"):
                A = m.analysis(f)
                for p in A.run(f):
                    if p.kind != "ret":
                        continue
                    es = [e for e in p.events if e.q in (H + "Dataset::read", H + "Dataset::write")]
                    if len(es) != 1:
                        c.ob("item", sig(f), None if es else False, where(f), f"{len(es)} transfers")
                        continue
                    h = [a for a in es[0].args if plain(a)[0] == "new" and plain(a)[1] == H + "Hyperslab"]
                    ok, why = slab(h[0], f) if h else (None, "no selection found")
                    if es[0].q.split("::")[-1] != last:
                        ok, why = False, "transfers in the other direction"
                    c.ob("item", sig(f), ok, where(f, es[0].line), why)


def slab(v, f):
    """Whether a hyperslab selects the items that were asked for, completely"""
    v = plain(v)
    if v[0] != "new" or len(v[3]) < 2:
        return None, f"is {show(v)}"
    par = ("par", f["params"][0][0])
    if "Range" in f["params"][0][2]:
        start = ("fld", par, "_begin")
        n = flow.mk_bin("-", ("fld", par, "_end"), start)
    else:
        start, n = par, ("int", 1)
    off, cnt = plain(v[3][0]), plain(v[3][-1])
    for t, want, what in ((off, start, "offset"), (cnt, n, "count")):
        if t[0] != "upd" or plain(t[2][1]) != flow.ZERO:
            return (False if t[0] == "upd" and plain(t[2][1])[0] == "int" else None), f"{what} is {show(t)}"
        r = is_only(difference(t[3], want), flow.ZERO)
        if r is not True:
            return r, f"the first {what} is {show(t[3])}"
        rest = plain(t[1])
        if what == "offset":
            a = [x for x in rest[3] if not (x[0] == "new" and "allocator" in x[1])] if rest[0] == "new" else []
            if len(a) == 2 and a[1] != flow.ZERO:
                return (False if a[1][0] == "int" else None), f"the other offsets are {show(a[1])}"
            if len(a) not in (1, 2):
                return None, f"offset is {show(t)}"
        elif not any(x[0] == "app" and x[1].split("::")[-1] == "shape" for x in terms(rest)):
            return None, f"count is {show(t)}"
    if len(v[3]) == 3 and not (plain(v[3][1])[0] == "new"):
        return None, "has a stride"
    return True, ""
