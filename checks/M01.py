"""M01: what creating functions store is what opening functions look for: same place, same kind; names and kinds as in existing files."""
import json, os, sys
import flow, lueir
from check import Check, where, sig, short
from common import *
from model import Model, show_place, name_of, H, D

SPEC = os.path.join(lueir.VERIF, "spec", "layout.json")
EXISTS = {H + x for x in ("Group::contains_group", "Group::contains_soft_link", "Group::contains_dataset", "group_exists", "dataset_exists", "Attributes::exists", "link_exists")}


def role(f, place):
    """Parameter names -> roles."""
    if place is None:
        return None
    m = {}
    for i, (n, _, t) in enumerate(f["params"]):
        m[("par", n)] = "@" if i == 0 else "<name>" if "basic_string" in t else f"<{i}>"
    return tuple(m.get(x, x) if isinstance(x, str) or x in m else flow.show(x) for x in place)


def relative(m, f, create):
    """(place of the object, {(kind, path below it): always})"""
    base = m.base_place(f)
    if base is None:
        return None, None
    out = {}
    for (kind, place), always in m.layout(f, create).items():
        if place is None:
            out[kind, None] = always
        elif place[:len(base)] == base:
            out[kind, "/".join(x if isinstance(x, str) else "<" + flow.show(x) + ">" for x in place[len(base):]) or "."] = always
        else:
            out["outside", show_place(role(f, place))] = always
    return role(f, base), out


def classes(m):
    """class -> ([creators], [openers])"""
    out = {}
    for f in m.creators.values():
        if f.get("ret") in m.objects:
            out.setdefault(f["ret"], ([], []))[0].append(f)
    for f in m.openers.values():
        out.setdefault(f["cls"], ([], []))[1].append(f)
    return out


def table(m):
    t = {}
    for cls, (creators, openers) in classes(m).items():
        stored = [relative(m, f, True) for f in creators]
        needed = [relative(m, f, False) for f in openers]
        s = {}
        for _, items in stored:
            for i in items or ():
                s[" ".join(map(str, i))] = all(x and x.get(i) for _, x in stored)
        n = {}
        for _, items in needed:
            for i in items or ():
                n[" ".join(map(str, i))] = all(x and x.get(i) for _, x in needed)
        t[short(cls)] = {"place": sorted({"/".join(b) for b, _ in stored + needed if b}), "stored": s, "needed": n}
    return t


def generate():
    json.dump(table(Model()), open(SPEC, "w"), indent=1, sort_keys=True)


def run():
    c = Check("M01", "every group, array and attribute that a function opens is stored by the functions that create the object concerned, at the same place, under the same name and as the same "
              "kind of thing; optional parts are opened exactly when the part of that name is there; no two parts share a name; names and kinds are those of existing files",
              ["spec/layout.json lists the names and kinds used in existing files (reviewed by hand)"])
    m = Model()
    c.program(m.prog)
    spec = json.load(open(SPEC))
    for cls, (creators, openers) in sorted(classes(m).items()):
        pair(c, m, cls, creators, openers)
    frozen(c, m, spec)
    for f in m.openers.values():
        guards(c, m, f)
    for f, e, place in getattr(m, "doubles", ()):
        c.ob("distinct", f"{sig(f)}: {show_place(role(f, place))}", False, where(f, e.line), "is created twice")
    for f in m.creators.values():
        c.ob("distinct", sig(f), True, where(f))
    adders(c, m)
    elements(c, m)
    told(c, m)
    primitives(c, m.prog)
    return c.finish({"opened": 60, "place": 20, "layout": 120, "guard": 3, "distinct": 40, "add": 20, "element": 3, "primitive": 9, "told": 15})


def pair(c, m, cls, creators, openers):
    stored = [(f,) + relative(m, f, True) for f in creators]
    bases = {b for _, b, _ in stored if b}
    for f in openers:
        b, items = relative(m, f, False)
        if items is None:
            c.ob("opened", f"{sig(f)}", None, where(f), "where the object is cannot be determined")
            continue
        named = len(b) > 1 or not any(len(x) > 1 for x in bases)
        if bases and len(b) > 1:
            c.ob("place", sig(f), b in bases, where(f), f"opens {'/'.join(b)}, created are {['/'.join(x) for x in bases]}")
        if not stored:
            continue
        for (kind, rel), always in items.items():
            if rel is None:
                c.ob("opened", f"{sig(f)}: {kind}", None, where(f), "the name cannot be determined")
                continue
            if kind == "outside" or "*" in rel:
                continue
            made = [(g, s.get((kind, rel)) or linked(s, rel) or s.get((kind, rel))) for g, _, s in stored if s is not None]
            unknown = any(k2 == kind and r2 is None for _, _, s in stored if s is not None for k2, r2 in s)
            other = sorted({k2 for _, _, s in stored if s is not None for (k2, r2) in s if r2 == rel})
            if always:
                ok = all(x for _, x in made)
                lacking = next((sig(g) for g, x in made if not x), "")
                detail = f"{kind} {rel} is always opened, but not stored by {lacking} {'(stored as ' + other[0] + ')' if other else ''}"
            else:
                ok = any(x is not None for _, x in made) or rel.split("/")[-1].endswith("_discretization_property")
                detail = f"{kind} {rel} is opened, but nothing that creates {short(cls)} stores it {'(stored as ' + other[0] + ')' if other else ''}"
            if not ok and unknown:
                ok = None
            c.ob("opened", f"{sig(f)}: {kind} {rel}", ok, where(f), detail)


def linked(s, rel):
    """The place is reached through a link that is stored there."""
    return any(k == "link" and r and (rel == r or rel.startswith(r + "/")) and always for (k, r), always in s.items())


def frozen(c, m, spec):
    now = table(m)
    for cls, old in spec.items():
        new = now.get(cls)
        if new is None:
            c.ob("layout", cls, None, "", "the class is gone")
            continue
        c.ob("layout", f"{cls}: place", set(new["place"]) == set(old["place"]) if new["place"] else None, cls, f"is at {new['place']}, in existing files at {old['place']}")
        vague = any(i.endswith(" None") for i in new["stored"])
        for i, always in old["stored"].items():
            ok = i in new["stored"] and (new["stored"][i] or not always)
            c.ob("layout", f"{cls}: stores {i}", None if not ok and vague else ok, cls, "is not stored any more" if i not in new["stored"] else "is not always stored")
        for i, always in new["needed"].items():
            if always and i not in old["stored"] and i not in old["needed"] and old["stored"]:
                c.ob("layout", f"{cls}: needs {i}", False, cls, "is not present in existing files")


def guards(c, m, f):
    """Optional parts are opened exactly when the part with that name is present."""
    A, ps = m.run(f)
    base = m.base_place(f)

    def rebase(pl):
        return (base or ("this",)) + pl[1:] if pl and pl[0] == "this" else pl
    opened, there = [], []
    for p in ps:
        o = set()
        for e in p.events:
            if e.q in ("H5Gopen2", "H5Dopen2"):
                pl = m.place(e.args[0])
                if pl:
                    o.add(rebase(pl) + (name_of(e.args[1]),))
            g = m.openers.get(e.key)
            if g:
                pl = m.substitute(m.base_place(g), g, e.args)
                if pl:
                    o.add(rebase(pl))
        opened.append(o)
        facts = {}
        for t, v in p.facts.items():
            if t[0] == "app" and t[1] in EXISTS and t[1] != H + "Attributes::exists":
                pl = m.place(t[2][0])
                if pl:
                    facts[rebase(pl) + (name_of(t[2][1]),)] = v
        there.append(facts)
    always = set.intersection(*opened) if opened else set()
    tested = {pl for facts in there for pl in facts}
    for o, facts in zip(opened, there):
        for pl in tested - set(facts) - o:
            if "*" not in pl and any(pl in x for x in opened):
                c.ob("guard", f"{sig(f)}: {show_place(role(f, pl))}", False, where(f), "is not looked for on some path")
        for pl, v in facts.items():
            if "*" in pl or not any(pl in x for x in opened):
                continue
            c.ob("guard", f"{sig(f)}: {show_place(role(f, pl))}", (pl in o) == v, where(f), "is present but not opened" if v else "is opened although it is not there")
        for pl in o - always:
            if "*" in pl or any(q[:len(x)] == x and x in facts for q in [pl] for x in facts):
                continue
            if facts:
                c.ob("guard", f"{sig(f)}: {show_place(role(f, pl))}", False, where(f),
                     f"is opened depending on whether {[show_place(role(f, x)) for x in facts]} is present")


def lengths(k, v, par):
    """The lengths (up to 8) of a text for which a comparison yields what it is known to yield; None: unknown."""
    size = ("app", "size", (par,))
    if k[0] in ("eq", "lt") and len(k) == 3 and size in k[1:] and all(x == size or x[0] == "int" for x in k[1:]):
        out = set()
        for n in range(9):
            a, b = (n if x == size else x[1] for x in k[1:])
            if (a == b if k[0] == "eq" else a < b) == v:
                out.add(n)
        return out
    if k[0] == "eq" and par in k[1:]:
        other = k[2] if k[1] == par else k[1]
        if other[0] == "str":
            return ({len(other[1])} if v else set(range(9)) - ({0} if not other[1] else set())) & set(range(9))
        if other[0] == "par":
            return set(range(9))
    return None


def told(c, m):
    """A text that is passed on creation is stored or handed on whenever it is not empty."""
    owner = {x for pair in classes(m).values() for g in pair[0] for x in [g["key"]]}
    for f in m.prog.functions.values():
        if component(f) != "cxx" or "body" not in f or "/test/" in f["file"] or "/validate" in f["file"]:
            continue
        last = f["q"].split("::")[-1]
        if f["key"] not in owner and not last.startswith(("add", "create_")):
            continue
        texts = [n for n, _, t in f["params"] if n and "basic_string<char" in t or n and flow.base_type(t).endswith("std::string")]
        if not texts:
            continue
        try:
            A, ps = m.run(f)
        except AnalysisError:
            continue
        for n in texts:
            par = ("par", n)
            kept = [[e for e in p.events if any(contains(a, par) for a in e.args)] for p in ps]
            where_to = {(e.key, i) for es in kept for e in es for i, a in enumerate(e.args) if a == par}
            if not where_to:
                if not any(kept) and not any(contains(A.as_value(p.st, p.value), par) for p in ps if p.value):
                    c.ob("told", f"{n} of {sig(f)}", False if any(not e.q.startswith("std::") for p in ps for e in p.events) else None, where(f), "is not used")
                continue
            ok, why = True, ""
            stored = any(e.q == H + "Attributes::write" and e.args[-1] == par for es in kept for e in es)
            for p, es in zip(ps, kept):
                if stored and any(e.q == H + "Attributes::write" and e.args[-1] == par for e in es) or not stored and es:
                    continue
                said = [(k, v) for k, v in p.facts.items() if contains(k, par) and not (k[0] == "app" and k[1].split("::")[-1] in ("group_exists", "dataset_exists", "contains"))]
                judged = [lengths(k, v, par) for k, v in said]
                if any(x == {0} for x in judged):
                    continue
                unclear = any(x is None for x in judged)
                if not unclear and not set.intersection(set(range(9)), *judged) - {0}:
                    continue
                ok = False if not unclear else ok and None
                why = f"is not stored{' although it is not empty' if said else ''}"
                if ok is False:
                    break
            c.ob("told", f"{n} of {sig(f)}", ok, where(f), why)


def adders(c, m):
    """A created item is filed in memory under the name under which it is stored."""
    for f in m.prog.functions.values():
        last = f["q"].split("::")[-1]
        if component(f) != "cxx" or "body" not in f or "/test/" in f["file"] or not last.startswith("add") or not f.get("cls"):
            continue
        try:
            A, ps = m.run(f)
        except AnalysisError:
            continue
        for p in ps:
            for e in p.events:
                if e.key not in m.creators:
                    continue
                g = m.creators[e.key]
                pl = m.substitute(m.base_place(g), g, e.args)
                if pl is None:
                    c.ob("add", sig(f), None, where(f, e.line), "where the item is created cannot be determined")
                    continue
                name = next((("par", n) for n, _, t in f["params"] if "basic_string" in t), None)
                ok = pl[0] == "this" and pl[-1] == name
                where_, key = inserted(A, p)
                if key is not None:
                    ok = ok and key == name
                else:
                    ok = None if ok else ok
                c.ob("add", sig(f), ok, where(f, e.line), f"creates {show_place(pl)}, files it under {show(key) if key else '?'}")


def inserted(A, p):
    """(collection, key) of the insertion into a map on a path."""
    for t in [A.as_value(p.st, p.value)] if p.value else []:
        for x in terms(t):
            if x[0] == "app" and x[1].split("::")[-1] in ("insert", "emplace", "try_emplace", "insert_or_assign") and len(x[2]) > 1:
                k = x[2][1]
                if k[0] in ("tuple", "new", "init"):
                    k = k[1][0] if k[0] == "tuple" else (k[3] if k[0] == "new" else k[2])[0]
                return x[2][0], name_of(k)
    return None, None


def elements(c, m):
    """Numbered parts: the conversion from number to name is the same when creating and when opening."""
    for cls in sorted(m.objects):
        made, read = {}, {}
        for f in m.prog.functions.values():
            if f.get("cls") != cls or f.get("ctor") or "body" not in f or f.get("implicit"):
                continue
            try:
                A, ps = m.run(f)
            except AnalysisError:
                continue
            for p in ps:
                for e in p.events:
                    n = d = None
                    if e.q in (H + "create_dataset", H + "create_group"):
                        n, d = name_of(e.args[1]), made
                    elif e.key in m.creators or e.key in m.openers:
                        g = m.creators.get(e.key) or m.openers[e.key]
                        pl = m.substitute(m.base_place(g), g, e.args)
                        if pl and pl[0] == "this" and len(pl) > 1:
                            n, d = pl[-1], made if e.key in m.creators else read
                    if d is not None and isinstance(n, tuple):
                        d.setdefault(outer(n), (f, e.line))
        if not made and not read or not (set(made) | set(read)) - {"par"}:
            continue
        if not read or not made:
            continue
        for k, (f, line) in read.items():
            c.ob("element", f"{short(cls)}: {f['q'].split('::')[-1]}", k in made if None not in made else None, where(f, line), f"opens elements named by {k}, created are those named by {sorted(map(str, made))}")


def outer(n):
    """How a name is derived from a number: conversion and constant offset."""
    if n[0] == "app":
        k = flow.linear(n[2][0], 1, {}).get(None, 0) if n[2] else 0
        return n[1].split("::")[-1] + (f" of the number plus {k}" if k else "")
    return n[0] if n[0] == "par" else None


def primitives(c, prog):
    """The storage layer uses the location and name it is given."""
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: q in PURE_HDF5 or q.startswith("H5Lexists") or q in ("H5Oget_info_by_name1",))
    want = {"create_group": ("H5Gcreate2",), "Group::Group": ("H5Gopen2",), "create_dataset": ("H5Dcreate2",), "Dataset::Dataset": ("H5Dopen2",),
            "Group::create_soft_link": ("H5Lcreate_soft",), "create_soft_link": ("H5Lcreate_soft",), "create_hard_link": ("H5Lcreate_hard",),
            "group_exists": ("H5Lexists", "H5Oget_info_by_name", "H5Oget_info_by_name1", "H5Oget_info_by_name2", "H5Oget_info_by_name3"),
            "dataset_exists": ("H5Lexists", "H5Oget_info_by_name", "H5Oget_info_by_name1", "H5Oget_info_by_name2"),
            "link_exists": ("H5Lexists",), "Group::contains_group": ("H5Lexists",), "Group::contains_soft_link": ("H5Lexists", "H5Lget_info1", "H5Lget_info")}
    for f in prog.functions.values():
        s = f["q"].replace(H, "")
        if s not in want or not f["q"].startswith(H) or "body" not in f or f.get("copymove") or not any("basic_string" in t for _, _, t in f["params"]):
            continue
        name = next(("par", n) for n, _, t in f["params"] if "basic_string" in t)
        if s == "create_soft_link" or s == "Group::create_soft_link":
            name = [("par", n) for n, _, t in f["params"] if "basic_string" in t][-1]
        root = ("par", f["params"][0][0]) if f["params"][0][2].find("basic_string") < 0 and not (f.get("cls") and not f.get("ctor")) else ("this",)
        for p in A.run(f):
            if p.kind != "ret":
                continue
            calls = [e for e in p.events if e.q in want[s]]
            tests = [x for t, v in p.facts.items() for x in terms(t) if x[0] == "app" and x[1] in want[s]] + [x for x in terms(p.value or ("x", 0)) if x[0] == "app" and x[1] in want[s]]
            hits = [(e.args, e.line) for e in calls] + [(x[2], f["line"]) for x in tests]
            if not hits:
                c.ob("primitive", sig(f), False if "create" in s or f.get("ctor") else None, where(f), f"no {want[s][0]} call")
            for a, line in hits:
                i = {"H5Lcreate_soft": 2, "H5Lcreate_hard": 3}.get(next((e.q for e in calls), ""), 1)
                if i == 2 or i == 3:
                    ok = contains(a[i], name) and contains(a[i - 1], root)
                else:
                    ok = name_of(a[1]) == name and contains(a[0], root)
                c.ob("primitive", sig(f), ok, where(f, line), f"uses {[show(x) for x in a[:3]]}")
