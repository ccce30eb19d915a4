"""M09: the no-data value given on creation is stored with the array, and is what is reported; without one, none is."""
import flow, lueir
import types_ as ty
from check import Check, where, sig
from common import *

LIST = "lue::hdf5::Dataset::CreationPropertyList"
CREATE = "lue::hdf5::create_dataset"
STATUS = {"H5D_FILL_VALUE_ERROR": -1, "H5D_FILL_VALUE_UNDEFINED": 0, "H5D_FILL_VALUE_DEFAULT": 1, "H5D_FILL_VALUE_USER_DEFINED": 2}
ABSENT = (("null",), ("nullptr",), flow.ZERO)


def null(t):
    return t in ABSENT or t[0] in ("null", "nullptr")


def element(fn):
    t = (fn.get("targs") or "").strip("<>")
    return ("u", 8) if t == "bool" else ty.cxx(t)


def types_in(t):
    return {ty.HDF5[x[1]][:2] for x in terms(t) if len(x) > 1 and x[0] == "glob" and x[1] in ty.HDF5}


def name(fn):
    return sig(fn).replace("lue::data_model::", "").replace("lue::hdf5::", "") + (fn["targs"] if fn.get("targs") else "")


def run():
    c = Check("M09", "a creation list starts without a fill value; values and types of the caller reach H5Pset_fill_value and H5Pget_fill_value unchanged, and the list a value is set in is the "
              "one an array is created with; on each path of each function that takes a no-data value, the array is created with a list in which that value is set, with the type of the values "
              "in memory, exactly when there is one; and the outcome of asking for it follows the status of HDF5",
              ["HDF5 documentation: a null pointer unsets the fill value; the fill value of an array can't be changed after its creation; cells never written read as the fill value"])
    prog = lueir.load("hdf5", "cxx", "hl", "hl templates")
    c.program(prog)
    fns = {k: f for k, f in prog.functions.items() if "body" in f and component(f) in ("hdf5", "cxx", "hl") and "/test/" not in f["file"] and not f.get("implicit")}
    results = {}

    def ob(rule, inst, ok, at, why=""):
        old = results.get((rule, inst, at))
        rank = {False: 0, None: 1, True: 2}
        if old is None or rank[ok] < rank[old[0]]:
            results[rule, inst, at] = (ok, why)

    low = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: False)

    def paths_of(A, f, rule):
        c.count("functions analysed")
        try:
            return [p for p in A.run(f) if p.kind == "ret"]
        except lueir.AnalysisError as e:
            ob(rule, name(f), None, where(f), str(e))
            return []

    # ---- lists
    for k, f in sorted(fns.items()):
        if f.get("ctor") and f["q"] == LIST + "::CreationPropertyList" and not f["params"]:
            for p in paths_of(low, f, "no value to begin with"):
                made = [e.res for e in p.events if e.q == "H5Pcreate"]
                sets = [e for e in p.events if e.q == "H5Pset_fill_value" and made and contains(e.args[0], made[-1])]
                ob("no value to begin with", name(f), True if sets and null(sets[-1].args[2]) else False, where(f),
                   "unwritten cells read as zero, and every array reports a no-data value" if not sets else f"fill value {show(sets[-1].args[2])}")
    for k, f in sorted(fns.items()):
        last = f["q"].split("::")[-1]
        at = where(f)
        callee = {n: any(q == n for q, _, _ in calls_in(f)) for n in ("H5Pset_fill_value", "H5Pget_fill_value", "H5Pfill_value_defined")}
        template = element(f) and f.get("targs")
        mine = f.get("cls") in (LIST, "lue::data_model::Array") or f["q"].startswith((LIST + "::", "lue::data_model::Array::"))
        if not mine or f.get("ctor"):
            continue
        if callee["H5Pset_fill_value"] or last in ("set_fill_value", "set_no_data_value"):
            for p in paths_of(low, f, "value set"):
                es = [e for e in p.events if e.q == "H5Pset_fill_value"]
                if not es:
                    ob("value set", name(f), False, at, "returns without having set a value")
                    continue
                e = es[-1]
                transfer(ob, "value set", name(f), f, low, p, e, template, at, ("par", f["params"][-1][0]))
                own = contains(e.args[0], ("this",)) and not any(x[0] == "app" and x[1] == "H5Dget_create_plist" for x in terms(e.args[0]))
                ob("list set in", f["q"].replace("lue::data_model::", "").replace("lue::hdf5::", ""), own, at, "the value is set in a copy of the creation list of an existing array, which HDF5 doesn't use: the array is left without this value")
        if callee["H5Pget_fill_value"] or last in ("get_fill_value", "no_data_value"):
            for p in paths_of(low, f, "value given"):
                es = [e for e in p.events if e.q == "H5Pget_fill_value"]
                if not es:
                    ob("value given", name(f), False, at, "returns without having asked for the value")
                    continue
                e = es[-1]
                transfer(ob, "value given", name(f), f, low, p, e, template, at, None)
                source(ob, "list asked", name(f), f, e, at)
                if template:
                    v = low.as_value(p.st, p.value)
                    ok = v[0] == "out" and v[2] == e.res or v[0] == "not" and v[1][0] == "eq" and v[1][1][0] == "out" and null(v[1][2])
                    ob("value given", f"result of {name(f)}", True if ok else None if any(x[0] == "out" and x[2] == e.res for x in terms(v)) else False, at, f"{show(v)} instead of what HDF5 gave")
        if callee["H5Pfill_value_defined"] or last in ("fill_value_defined", "has_no_data_value"):
            told = {}
            ps = paths_of(low, f, "presence")
            for p in ps:
                es = [e for e in p.events if e.q == "H5Pfill_value_defined"]
                if not es:
                    ob("presence", name(f), False, at, "returns without having asked HDF5")
                    continue
                e = es[-1]
                source(ob, "list asked", name(f), f, e, at)
                v = low.as_value(p.st, p.value)
                for s, n in STATUS.items():
                    if s not in ("H5D_FILL_VALUE_UNDEFINED", "H5D_FILL_VALUE_USER_DEFINED"):
                        continue
                    world = lambda t, e=e, n=n: n if t[0] == "out" and t[2] == e.res else STATUS.get(t[1].split("::")[-1]) if t[0] == "enum" else t[1] if t[0] in ("int", "bool") else None
                    if any(evaluate(t, world) not in (None, b) for t, b in p.facts.items()):
                        continue
                    told.setdefault(s, []).append(evaluate(v, world))
            for s, vs in told.items():
                want = s.endswith("USER_DEFINED")
                ok = None if None in vs else all(bool(x) == want for x in vs)
                ob("presence", f"{s} by {name(f)}", ok, at, f"{'no ' if want else ''}no-data value is reported when HDF5 says {s}")

    # ---- creating arrays
    reach = reaching(prog, {CREATE})
    takes = {}
    for k, f in fns.items():
        if component(f) not in ("cxx", "hl") or k not in reach:
            continue
        values = [n for n, _, t in f["params"] if t.replace(" ", "") in ("constvoid*", "constvoid*const")]
        if values:
            takes[k] = values[-1]
    typed = {k: f for k, f in fns.items() if component(f) == "hl" and f["q"].split("::")[-1] == "add_layer" and element(f) and f.get("targs")}
    fill = lambda q: q == LIST + "::set_fill_value"
    A = flow.Analysis(prog, opaque=lambda q, k2: k2 not in takes, pure=lambda q, k2: k2 not in takes and not fill(q) and q != CREATE and not q.startswith("std::"))
    A.class_outputs = (LIST,)
    for k, par in sorted(takes.items()):
        f = fns[k]
        at = where(f)
        mem = memory_type(f)
        for p in paths_of(A, f, "stored"):
            c.count("paths analysed")
            creates = [e for e in p.events if e.q == CREATE]
            inst = name(f)
            if not creates:
                ob("stored", inst, None, at, "no array is created on this path")
                continue
            P = ("par", par)
            sets = [e for e in p.events if fill(e.q)]
            absent = [b for t, b in p.facts.items() if t[0] == "eq" and P in t[1:] and any(null(x) for x in t[1:])]
            for e in creates:
                before = [s for s in sets if p.events.index(s) < p.events.index(e)]
                same = [s for s in before if any(x[0] == "mut" and x[1] == "set_fill_value" and x[2] == s.args for y in e.args for x in terms(y))]
                if absent and absent[0]:
                    ok = not same or all(null(s.args[-1]) or s.args[-1] == P for s in same)
                    ob("stored", f"nothing for {inst}", ok, at, "a value is set although there is none")
                    continue
                if not before:
                    ob("stored", inst, False, at, "the array is created without the no-data value of the caller")
                elif not same:
                    ob("stored", inst, False, at, "the value is set in another list than the one the array is created with")
                else:
                    s = same[-1]
                    ob("stored", inst, s.args[-1] == P, at, f"{show(s.args[-1])} is set instead of the value of the caller")
                    got = s.args[1]
                    ok = typed_by(got, f, mem)
                    ob("type", inst, ok, at, f"the value is of type {show(got)[:160]}, not of the type of values in memory")
        if not any(r in ("stored",) and i == name(f) for r, i, _ in results):
            ob("stored", name(f), None, at, "no path that has a value")

    # ---- layers of rasters
    B = flow.Analysis(prog, opaque=lambda q, k2: h5_call(q) or q.split("::")[-1] == "add_layer" and k2 not in typed, pure=lambda q, k2: False)
    for k, f in sorted(typed.items()):
        at = where(f)
        values = [n for n, _, t in f["params"] if ty.cxx(t) and ty.cxx(t)[0] != "s"]
        for p in paths_of(B, f, "layer"):
            es = [e for e in p.events if e.q.split("::")[-1] == "add_layer"]
            if not es:
                ob("layer", name(f), False, at, "no layer is added")
                continue
            e = es[-1]
            got = types_in(e.args[2])
            ob("layer", f"type of {name(f)}", None if len(got) != 1 else got == {element(f)}, at, f"values of type {' / '.join(map(ty.words, got))} instead of {ty.words(element(f))}")
            given = e.args[3] if len(e.args) > 3 else ("null",)
            if not values:
                ob("layer", f"no value of {name(f)}", null(given), at, f"{show(given)} is passed although there is no value")
                continue
            v = B.read(p.st, given[1]) if given[0] == "addr" and given[1][0] == "lv" else given
            v = B.as_value(p.st, v)
            while v[0] == "cast":
                v = v[-1]
            ob("layer", f"value of {name(f)}", True if v == ("par", values[0]) else None if contains(v, ("par", values[0])) else False, at, f"{show(v)} is passed instead of the value of the caller")

    # ---- HDF5 has to write the value
    for k, f in sorted(fns.items()):
        for q, _, _ in calls_in(f):
            if q == "H5Pset_fill_time" or q == LIST + "::set_fill_time":
                never = any(x == ("enum", "H5D_FILL_TIME_NEVER") or x[0] == "enum" and str(x[1]).endswith("H5D_FILL_TIME_NEVER") for x in nodes(f.get("body")))
                ob("written", name(f), not never, where(f), "cells that were never written have arbitrary values")
    for (rule, inst, at), (ok, why) in results.items():
        c.ob(rule, inst, ok, at, why)
    return c.finish({"no value to begin with": 1, "value set": 10, "value given": 10, "presence": 2, "stored": 4, "type": 4, "layer": 20})


def nodes(n):
    if isinstance(n, (list, tuple)):
        if n and isinstance(n[0], str):
            yield tuple(n) if all(not isinstance(x, list) for x in n) else n
        for x in n:
            yield from nodes(x)
    elif isinstance(n, dict):
        for x in n.values():
            yield from nodes(x)


def transfer(ob, rule, inst, f, A, p, e, template, at, value):
    """The type and the buffer of a call of HDF5."""
    params = [("par", n) for n, _, _ in f["params"]]
    if template:
        got = types_in(e.args[1])
        ob(rule, f"type of {inst}", None if len(got) != 1 else got == {element(f)}, at, f"{' / '.join(map(ty.words, got))} instead of {ty.words(element(f))}")
        if value is not None:
            a = e.args[2]
            v = A.as_value(p.st, A.read(p.st, a[1])) if a[0] == "addr" and a[1][0] == "lv" else a
            while v[0] == "cast":
                v = v[-1]
            ob(rule, f"value of {inst}", True if v == value else None if contains(v, value) else False, at, f"{show(v)} instead of the value of the caller")
        return
    data = [n for n, _, t in f["params"] if "Datatype" in t]
    if data:
        ob(rule, f"type of {inst}", contains(e.args[1], ("par", data[0])), at, f"{show(e.args[1])} is not the type of the caller")
    buffers = [n for n, _, t in f["params"] if t.replace("const ", "").strip() == "void *"]
    if buffers:
        ob(rule, f"value of {inst}", e.args[2] == ("par", buffers[0]), at, f"{show(e.args[2])} is not the buffer of the caller")


def source(ob, rule, inst, f, e, at):
    a = e.args[0]
    if not contains(a, ("this",)):
        ob(rule, inst, False if a[0] == "app" and a[1] == "H5Pcreate" else None, at, f"{show(a)} is not the creation list of the array")
        return
    ob(rule, inst, True, at)


def memory_type(f):
    data = [n for n, _, t in f["params"] if "hdf5::Datatype" in t]
    return data[-1] if data else None


def typed_by(t, f, mem):
    """Is the type of a no-data value the type of values in memory?"""
    while t[0] == "cast":
        t = t[-1]
    if t[0] == "app" and t[1].split("::")[-1] == "memory_datatype":
        return True
    if t[0] == "app" and t[1].split("::")[-1] == "file_datatype" and not (mem and contains(t, ("par", mem))):
        return False
    if mem:
        if t == ("par", mem):
            return True
        return False if t[0] == "par" or t[0] == "app" and t[1].split("::")[-1] == "file_datatype" else None
    if t[0] == "fld" and "memory" in t[2]:
        return True
    return None


def evaluate(t, world):
    v = world(t)
    if v is not None:
        return v
    k = t[0]
    if k in ("eq", "ne", "lt", "le"):
        a, b = evaluate(t[1], world), evaluate(t[2], world)
        if a is None or b is None:
            return None
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b}[k]
    if k == "not":
        a = evaluate(t[1], world)
        return None if a is None else not a
    if k in ("and", "or"):
        vs = [evaluate(x, world) for x in (t[1] if isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:])]
        if k == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if k == "cast":
        return evaluate(t[-1], world)
    return None
