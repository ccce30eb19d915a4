"""G05: functions that wrap GDAL perform the operation they name, with what their caller gives, and return what GDAL answers."""
import flow, lueir, gdal as gd
import poly as P
from check import Check, where
from G01 import name, passes_on
from G02 import pick
from common import *

# The operations of GDAL that a function of that name has performed when it returns
NEEDS = {
    "open_dataset": ("GDALOpen", "GDALOpenEx"), "try_open_dataset": ("GDALOpen", "GDALOpenEx"),
    "create_dataset": ("GDALDriver::Create",), "create_copy": ("GDALDriver::CreateCopy",), "delete_dataset": ("GDALDriver::Delete",),
    "register_gdal_drivers": ("GDALAllRegister",),
    "driver": ("GDALDriverManager::GetDriverByName", "GDALGetDriverByName"),
    "nr_raster_bands": ("GDALDataset::GetRasterCount",), "nr_bands": ("GDALDataset::GetRasterCount",),
    "raster_band": ("GDALDataset::GetRasterBand",), "band": ("GDALDataset::GetRasterBand",),
    "data_type": ("GDALRasterBand::GetRasterDataType",),
    "geo_transform": ("GDALDataset::GetGeoTransform",), "set_geo_transform": ("GDALDataset::SetGeoTransform",),
    "no_data_value": ("GDALRasterBand::GetNoDataValue", "GDALRasterBand::GetNoDataValueAsInt64", "GDALRasterBand::GetNoDataValueAsUInt64"),
    "set_no_data_value": ("GDALRasterBand::SetNoDataValue", "GDALRasterBand::SetNoDataValueAsInt64", "GDALRasterBand::SetNoDataValueAsUInt64"),
    "read": ("GDALRasterBand::RasterIO",), "write": ("GDALRasterBand::RasterIO",),
    "read_block": ("GDALRasterBand::ReadBlock", "GDALRasterBand::RasterIO"), "write_block": ("GDALRasterBand::WriteBlock", "GDALRasterBand::RasterIO"),
}
# What the positions of their arguments are for
SLOTS = {
    "GDALOpen": {0: "dataset name", 1: "mode"}, "GDALDriver::Create": {1: "dataset name", 4: "number", 5: "type", 6: "options"},
    "GDALDriver::CreateCopy": {1: "dataset name", 2: "dataset", 4: "options"}, "GDALDriver::Delete": {1: "dataset name"},
    "GDALDriverManager::GetDriverByName": {1: "driver name"}, "GDALDataset::GetRasterBand": {1: "number"},
    "GDALDataset::SetGeoTransform": {1: "transform"}, "GDALRasterBand::RasterIO": {1: "direction", 6: "buffer", 9: "type"},
    "GDALRasterBand::ReadBlock": {3: "buffer"}, "GDALRasterBand::WriteBlock": {3: "buffer"},
    "GDALRasterBand::SetNoDataValue": {1: "value"}, "GDALRasterBand::SetNoDataValueAsInt64": {1: "value"}, "GDALRasterBand::SetNoDataValueAsUInt64": {1: "value"},
}
OWNERS = {"GDALDataset": "GDALDataset", "GDALDriver": "GDALDriver", "GDALRasterBand": "GDALRasterBand"}


def roles(f):
    """The parameters of a function by what they are for."""
    out = {}
    strings = [n for n, _, t in f["params"] if "std::basic_string" in t and "std::map" not in t]
    last = f["q"].split("::")[-1]
    if len(strings) == 2:
        out["driver name"], out["dataset name"] = strings
    elif strings:
        out["driver name" if last == "driver" else "dataset name"] = strings[0]
    for n, _, t in f["params"]:
        bare = t.replace("const", "").replace("&", "").strip()
        if "std::map" in t:
            out["options"] = n
        elif bare == "GDALAccess":
            out["mode"] = n
        elif bare == "GDALDataType":
            out["type"] = n
        elif bare in ("void *",):
            out["buffer"] = n
        elif "std::array<double, 6" in t or "GeoTransform" in t:
            out["transform"] = n
        elif bare in OWNERS:
            out[bare] = n
        elif bare == "int" and last != "set_no_data_value":
            out["number"] = n
        elif last == "set_no_data_value":
            out["value"] = n
    return out


def plain(t):
    """Without what passes a value on unchanged."""
    while True:
        if t[0] == "cast":
            t = t[-1]
        elif t[0] == "app" and t[1].split("::")[-1] in ("c_str", "data", "move", "forward", "addressof", "string") and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "addr":
            t = t[1]
        else:
            return t


def run():
    c = Check("G05", "on every path on which a function that wraps an operation of GDAL returns, that operation has been performed on the object given, with each parameter of the caller in the "
              "position that GDAL takes it in (or the documented default); and the term returned is GDAL's answer, or the outcome of the test of it",
              ["GDAL documentation: positions of the arguments of its functions"])
    prog = lueir.load("gdal", "gdal templates")
    c.program(prog)
    outside = {k for k, f in prog.functions.items() if component(f) != "gdal"}
    results = {}

    def ob(rule, inst, ok, at, why=""):
        old = results.get((rule, inst, at))
        rank = {False: 0, None: 1, True: 2}
        if old is None or rank[ok] < rank[old[0]]:
            results[rule, inst, at] = (ok, why)

    for k, f in sorted(prog.functions.items()):
        q, last = f["q"], f["q"].split("::")[-1]
        if "body" not in f or component(f) != "gdal" or "/test/" in f["file"] or "(anonymous)" in q or "::lambda@" in q or "::detail::" in q or f.get("ctor"):
            continue
        if not q.startswith((gd.G + "Raster::",)) and q.count("::") != 2 or q.startswith(gd.G + "Blocks"):
            continue
        shapes = last in ("shape", "block_shape", "nr_elements")
        if last not in NEEDS and not shapes:
            continue
        A = flow.Analysis(prog, opaque=lambda q2, k2: gd.gdal_call(q2) or k2 in outside, pure=lambda q2, k2: k2 in outside)
        at = where(f)
        try:
            paths = A.run(f)
        except lueir.AnalysisError as e:
            ob("performed", name(f), None, at, str(e))
            continue
        c.count("functions analysed")
        r = roles(f)
        if r.get("options"):
            option_texts(ob, prog, f, outside, r, last)
        for p in paths:
            if p.kind == "throw" and last == "geo_transform":
                refused(ob, f, p, at)
            if p.kind != "ret":
                continue
            c.count("paths analysed")
            value = A.as_value(p.st, p.value) if p.value is not None else None
            if shapes:
                shape(ob, prog, f, last, value, at)
                continue
            mine = [e for e in p.events if e.q in NEEDS[last]]
            if last.startswith(("read", "write")):
                want = "GF_Read" if last.startswith("read") else "GF_Write"
                mine = [e for e in mine if not e.q.endswith("RasterIO") or direction(e.args[1]) in (want, None)]
            if not mine:
                unknown = [e for e in p.events if not gd.gdal_call(e.q)]
                empty = any(t[0] in ("eq", "lt", "le") and flow.ZERO in t[1:] and any(x[0] == "at" for x in terms(t)) for t in p.facts)
                ob("performed", name(f), None if unknown or empty else False, at, f"returns without having called {' or '.join(NEEDS[last])}")
                continue
            ob("performed", name(f), True, at)
            for e in mine:
                arguments(ob, prog, f, r, e, p, at, last)
            # parameters reach GDAL
            used = [x for e in p.events if gd.gdal_call(e.q) for a in e.args for x in terms(a)]
            for n, _, t in f["params"]:
                inst = f"{n} of {name(f)}"
                if "std::array<int, 2" in t:
                    parts = [("at", ("par", n), ("int", i)) for i in (0, 1)]
                    ob("used", inst, True if ("par", n) in used and all(x in used for x in parts) else None if ("par", n) in used else False, at, "is not passed to GDAL")
                elif "std::map" in t:
                    # nothing of an empty collection is passed: some path has to
                    ob("used", inst, any(("par", n) in terms(a) or contains(a, ("par", n)) for p2 in paths for e in p2.events if gd.gdal_call(e.q) for a in e.args) or any(contains(m[1], ("par", n)) for p2 in paths for m in p2.marks), at, "is not passed to GDAL")
                else:
                    ob("used", inst, ("par", n) in used, at, "is not passed to GDAL")
            answer(ob, f, last, mine[-1], value, p, at)
    named_drivers(ob, prog, outside)
    for (rule, inst, at), (ok, why) in results.items():
        c.ob(rule, inst, ok, at, why)
    return c.finish({"performed": 15, "argument": 20, "object": 10, "answer": 12, "used": 25, "extent": 4, "refused": 1})


def direction(t):
    return t[1].split("::")[-1] if t[0] == "enum" else None


def arguments(ob, prog, f, r, e, p, at, last):
    short = e.q.split("::")[-1]
    for i, role in SLOTS.get(e.q, {}).items():
        if i >= len(e.args):
            continue
        a = plain(e.args[i])
        inst = f"{role} passed to {short} by {name(f)}"
        if role == "direction":
            want = "GF_Read" if last.startswith("read") else "GF_Write"
            d = direction(a)
            ob("argument", inst, None if d is None else d == want, at, f"{show(a)} instead of {want}")
        elif role == "options":
            if r.get("options"):
                ob("argument", inst, False if a[0] in ("nullptr", "null") or a == flow.ZERO else True, at, "the options of the caller are not passed")
                if a[0] == "mut" and a[1] in ("push_back", "emplace_back"):
                    end = a[2][-1]
                    ob("argument", f"end of the {inst}", True if end[0] in ("nullptr", "null") or end == flow.ZERO else False, at, "GDAL reads up to a null pointer")
                    if contains(a[2][0], end):
                        ob("argument", f"end of the {inst}", False, at, "GDAL reads up to the first null pointer, before which not all options are")
                elif a[0] in ("mut", "init") and (a[0] == "init" and not a[2] or a[0] == "mut" and a[1] in ("reserve", "clear", "shrink_to_fit")):
                    ob("argument", f"end of the {inst}", False, at, "GDAL reads up to a null pointer, and there is none")
        elif role == "dataset":
            want = ("par", r["GDALDataset"]) if "GDALDataset" in r else None
            ob("argument", inst, True if a == want or a[0] == "lv" else False if a[0] in ("nullptr", "null") else None, at, f"{show(a)} is not the dataset to copy")
        elif r.get(role):
            want = ("par", r[role])
            ok = True if a == want else None if contains(a, want) and role not in ("buffer",) else False
            ob("argument", inst, ok, at, f"{show(a)} instead of {r[role]}")
        elif role == "type" and short == "RasterIO":
            own = a[0] == "app" and a[1] == "GDALRasterBand::GetRasterDataType" and a[2][0] == e.args[0]
            ob("argument", inst, True if own else False if a[0] == "enum" else None, at, f"{show(a)} is not the type of the band itself")
        elif role == "number" and short == "GetRasterBand":
            ob("argument", inst, True if a == ("int", 1) else False if a[0] == "int" or a[0] == "app" and gd.gdal_call(a[1]) else None, at, f"{show(a)} instead of the first band")
        elif role == "mode":
            ob("argument", inst, True if a[0] == "enum" and a[1].endswith("GA_ReadOnly") else False if a[0] == "enum" else None, at, f"{show(a)} although nothing is to be changed")
    # the object operated on
    owner = next((o for o in ("GDALDataset", "GDALDriver", "GDALRasterBand") if e.q.startswith(o + "::")), None)
    if owner:
        o = plain(e.args[0])
        inst = f"object of {short} in {name(f)}"
        if owner in r:
            ok = True if o == ("par", r[owner]) else None if any(x[0] in ("fld", "glob") for x in terms(o)) else False
            if owner == "GDALDriver" and short == "CreateCopy":
                ok = True
        else:
            base = o[1] if o[0] == "deref" else o
            base = plain(base)
            ok = True if base[0] == "fld" or base in [x.res for x in p.events] else None
        ob("object", inst, ok, at, f"{show(o)} is not the {owner} given")


COPIES = ("strcpy", "strncpy", "memcpy", "copy", "copy_n", "CSLSetNameValue", "CSLAddNameValue", "CPLStrdup", "strdup")


def pieces(t):
    """The parts that a text consists of."""
    t = plain(t)
    if t[0] == "app" and t[1].split("::")[-1].split("<")[0] == "format" and t[2]:
        form = [x for x in terms(t[2][0]) if x[0] == "str"]
        if len(form) == 1:
            out, rest = [], list(t[2][1:])
            for i, x in enumerate(form[0][1].split("{}")):
                if i:
                    if not rest:
                        return None
                    out += pieces(rest.pop(0)) or [("?",)]
                if x:
                    out.append(("str", x))
            return out
        return None
    if t[0] == "op" and t[1] == "+":
        return [y for x in t[2] for y in pieces(x) or [("?",)]]
    if t[0] == "app" and t[1].split("::")[-1].split("<")[0] == "operator+":
        return [y for x in t[2] for y in pieces(x) or [("?",)]]
    return [t]


def option_texts(ob, prog, f, outside, r, last):
    """Each option of the caller is a text name=value of its own."""
    end = lambda q: q.split("::")[-1].split("<")[0]
    A = flow.Analysis(prog, opaque=lambda q, k: gd.gdal_call(q) or k in outside or end(q) in COPIES, pure=lambda q, k: k in outside and end(q) not in COPIES)
    par = ("par", r["options"])
    inst = f"options of {name(f)}"
    for p in A.run(f):
        if p.kind != "ret" or not any(m[0] == "some" and contains(m[1], par) for m in p.marks):
            continue
        item = [x for e in p.events for a in e.args for x in terms(a) if x == ("elem", par)]
        gdal = [a for e in p.events if gd.gdal_call(e.q) for a in e.args]
        made = [x for a in gdal for x in terms(a) if x[0] == "app" and x[1] == "new"]
        copied = [e for e in p.events if end(e.q) in COPIES and any(a in made for a in e.args)]
        if made and not copied:
            ob("option", inst, False if not any(x == ("elem", par) for v in p.st.store.values() for x in terms(v)) else None, where(f), "nothing of the options is in what is passed to GDAL")
        for e in copied:
            got = pieces(e.args[1 if end(e.q) not in ("copy", "copy_n") else 0])
            want = [("at", ("elem", par), ("int", 0)), ("str", "="), ("at", ("elem", par), ("int", 1))]
            ok = None if got is None or any(x == ("?",) or x[0] not in ("str", "at", "par", "elem") for x in got) else got == want
            ob("option", inst, ok, where(f, e.line), f"an option is passed as {'' if got is None else ' '.join(show(x) for x in got)} instead of name=value")


def named_drivers(ob, prog, outside):
    """The name of the driver for a file follows from its extension, whatever its case."""
    for f in prog.functions.values():
        if f["q"] != gd.G + "driver_name" or "body" not in f or component(f) != "gdal":
            continue
        par = ("par", f["params"][0][0])
        seen, todo, calls = set(), [f["key"]], set()
        while todo:
            g = prog.functions.get(todo.pop())
            if g is None or g["key"] in seen or "body" not in g or component(g) != "gdal":
                continue
            seen.add(g["key"])
            for q, k, _ in calls_in(g):
                calls.add(q.split("::")[-1].split("<")[0])
                todo.append(k)
        ob("driver", f"extensions in any case by {name(f)}", True if calls & {"tolower", "to_lower", "to_lower_copy", "iequals", "EQUAL", "strcasecmp", "toupper"} else False, where(f), "extensions in upper case are not known")
        A = flow.Analysis(prog, opaque=lambda q, k: gd.gdal_call(q) or k in outside, pure=lambda q, k: k in outside)
        keys = []
        for p in A.run(f):
            if p.kind != "ret":
                continue
            v = plain(A.as_value(p.st, p.value))
            for t, known in p.facts.items():
                finds = [x for x in terms(t) if x[0] == "app" and x[1].split("::")[-1] in ("find", "contains", "count")]
                if not finds or t[0] != "eq" and not finds[0] is t:
                    continue
                key = finds[0][2][-1]
                direct = any(x[0] == "app" and x[1].split("::")[-1] == "extension" for x in terms(key))
                other = {x[1].split("::")[-1] for x in terms(key) if x[0] == "app"} & {"stem", "filename", "parent_path", "root_path", "root_name", "relative_path"}
                ob("driver", f"extension looked up by {name(f)}", True if direct else False if other else None if contains(key, par) or any(x[0] in ("mut", "out", "phi", "upd") for x in terms(key)) else False, where(f), f"{show(key)[:80]} is looked up instead of the extension")
                bare = key
                while bare[0] in ("cast", "new") or bare[0] == "app" and bare[1].split("::")[-1] in ("string", "extension", "c_str", "generic_string"):
                    inner = bare[-1] if isinstance(bare[-1], tuple) and bare[-1] else None
                    if inner is None:
                        break
                    bare = inner if isinstance(inner[0], str) else inner[0] if len(inner) == 1 else ("?",)
                nothing = any(b and (x[0] == "app" and x[1].split("::")[-1] == "empty" or x[0] == "eq" and flow.ZERO in x[1:]) or x[0] == "lt" and not b and x[1] == flow.ZERO for x, b in p.facts.items())
                if not nothing and not any(m[0] == "none" for m in p.marks):
                    keys.append(bare == par)
                if len(set(keys)) == 2:
                    ob("driver", f"extensions in any case by {name(f)}", False, where(f), "a path looks up the extension as it is")
                found = (not known) if t[0] == "eq" else known
                of = any(x == finds[0] for x in terms(v))
                item = v[2] if v[0] == "at" else ("int", 0) if v[0] == "fld" and v[2] == "first" else None
                if found:
                    ob("driver", f"known extensions by {name(f)}", False if v[0] == "str" or item == ("int", 0) else True if of else None, where(f), f"{show(v)[:60]} is returned for an extension that is known")
                else:
                    ob("driver", f"unknown extensions by {name(f)}", False if of else True if v[0] == "str" else None, where(f), f"{show(v)[:60]} is returned for an extension that is not known")
                pairs = [x[1] for x in terms(t) if x[0] == "tuple" and len(x) > 1 and isinstance(x[1], tuple) and len(x[1]) == 2 and all(isinstance(y, tuple) and y and y[0] == "str" for y in x[1])]
                for a, b in pairs:
                    want = DRIVERS.get(a[1])
                    ok = False if not a[1].startswith(".") or a[1] != a[1].lower() else None if want is None else b[1] == want
                    ob("driver", f"{a[1]} in {name(f)}", ok, where(f), f"is handled by driver {b[1]}")


# Names of the drivers for extensions, as GDAL has them
DRIVERS = {".tif": "GTiff", ".hdf4": "HDF4", ".h4": "HDF4", ".hdf5": "HDF5", ".h5": "HDF5", ".nc": "netCDF", ".map": "PCRaster", ".csf": "PCRaster", ".img": "HFA",
           ".tiff": "GTiff", ".png": "PNG", ".asc": "AAIGrid", ".vrt": "VRT", ".gpkg": "GPKG", ".jpg": "JPEG"}


def truth(value, ok, facts):
    """Whether a value of the path says the same as the term ok."""
    if value == ok:
        return True
    if value == ("not", ok) or ok == ("not", value):
        return False
    if value in (flow.TRUE, flow.FALSE):
        known = facts.get(ok)
        if known is None and ok[0] == "not":
            known = facts.get(ok[1])
            known = None if known is None else not known
        return None if known is None else known == (value == flow.TRUE)
    return None


def answer(ob, f, last, e, value, p, at):
    inst = name(f)
    short = e.q.split("::")[-1]
    if value is None:
        return
    if last in ("open_dataset", "try_open_dataset", "create_dataset", "create_copy", "driver", "raster_band", "nr_raster_bands", "nr_bands", "data_type"):
        v = plain(value)
        null = any(t[0] == "eq" and e.res in t[1:] and any(x[0] in ("nullptr", "null") for x in t[1:]) and b for t, b in p.facts.items())
        ok = True if v == e.res or null and v[0] in ("nullptr", "null") else None if contains(v, e.res) else False
        ob("answer", inst, ok, at, f"{show(v)} instead of what {short} gave")
    elif last == "band":
        ob("answer", inst, True if contains(value, e.res) else False, at, f"{show(value)} instead of what {short} gave")
    elif last == "set_no_data_value":
        ok = True if passes_on(value, e.res) else None
        if ok is None:
            eq = flow.mk_bin("==", e.res, ("enum", "CE_None")) if hasattr(flow, "mk_bin") else None
            seen = [b for t, b in p.facts.items() if t[0] == "eq" and e.res in t[1:]]
            if value in (flow.TRUE, flow.FALSE):
                ok = False if not seen else seen[0] == (value == flow.TRUE)
            elif value[0] == "not" and passes_on(value[1], e.res) or value[0] == "eq":
                ok = False
        ob("answer", inst, ok, at, f"{show(value)} does not tell whether {short} succeeded")
    elif last == "no_data_value":
        items = value[2] if value[0] == "init" else value[1] if value[0] == "tuple" and isinstance(value[1], tuple) else value[1:] if value[0] == "tuple" else value[2] if value[0] == "app" else ()
        if len(items) == 1 and isinstance(items[0], tuple) and items[0] and isinstance(items[0][0], tuple):
            items = items[0]
        if len(items) != 2:
            ob("answer", inst, None, at, f"{show(value)}")
            return
        v, s = items
        ob("answer", f"value of {inst}", True if plain(v) == e.res else None if contains(v, e.res) else False, at, f"{show(v)} instead of what {short} gave")
        outs = [x for t in list(p.facts) + [s] for x in terms(t) if x[0] == "out" and x[2] == e.res]
        good = ("not", ("eq", outs[0], flow.ZERO)) if outs else None
        ok = None
        if good:
            forms = [good, ("not", flow.mk_bin("==", outs[0], flow.ZERO)), flow.mk_bin("!=", outs[0], flow.ZERO)]
            verdicts = [truth(s, g, p.facts) for g in forms]
            ok = True if True in verdicts else False if False in verdicts else None
        elif s in (flow.TRUE, flow.FALSE):
            ok = False
        ob("answer", f"presence told by {inst}", ok, at, f"{show(s)} does not tell whether there is a no-data value")
    elif last == "geo_transform":
        outs = [x for x in terms(value) if x[0] == "out" and x[2] == e.res]
        ok = True if outs and value == outs[0] else None if outs and not any(x[0] == "upd" for x in terms(value)) else False
        ob("answer", inst, ok, at, f"{show(value)} instead of what {short} gave")
        if outs:
            for what, atom in conditions(outs[0]):
                known = holds(atom, p.facts)
                ob("refused", f"rasters {what} by {inst}", True if known is True else False, at, "accepts a georeference that the rest of the library can't represent")


def conditions(t):
    g = lambda i: ("at", t, ("int", i))
    return [("with rotated rows", ("eq", g(2), 0)), ("with rotated columns", ("eq", g(4), 0)), ("that are not north up", ("lt", g(5), 0)), ("with cells that are not square", ("square", g(1), g(5)))]


def zero(t):
    return t[0] in ("int", "flt", "float") and t[1] in (0, 0.0, "0", "0.0")


def holds(c, facts):
    for t, b in facts.items():
        if c[0] == "square":
            if t[0] == "eq" and any(contains(x, c[2]) and not contains(x, c[1]) for x in t[1:]) and any(x == c[1] or contains(x, c[1]) and not contains(x, c[2]) for x in t[1:]):
                other = [x for x in t[1:] if contains(x, c[2])][0]
                if other[0] == "app" and other[1].split("::")[-1] in ("abs", "fabs") or other[0] in ("neg", "op"):
                    return b
        elif t[0] == c[0] == "eq" and c[1] in t[1:] and any(zero(x) for x in t[1:]):
            return b
        elif c[0] == "lt" and t[0] == "lt" and t[1] == c[1] and zero(t[2]):
            return b
        elif c[0] == "lt" and t[0] == "le" and zero(t[1]) and t[2] == c[1]:
            return not b
    return None


def refused(ob, f, p, at):
    """A georeference that GDAL gives is refused only when it is not supported."""
    es = [e for e in p.events if e.q == "GDALDataset::GetGeoTransform"]
    if not es or not gd.failure_excluded(p.facts, es[-1].res, "status"):
        return
    outs = [x for t in p.facts for x in terms(t) if x[0] == "out" and x[2] == es[-1].res]
    if not outs:
        ob("refused", f"supported rasters by {name(f)}", None, at, "the georeference is refused for another reason")
        return
    ok = any(holds(atom, p.facts) is False for _, atom in conditions(outs[0]))
    ob("refused", f"supported rasters by {name(f)}", ok, at, "a raster that is north up and has square cells is refused")


def shape(ob, prog, f, last, value, at):
    if last == "nr_elements":
        if len(f["params"]) != 1:
            return
        par = ("par", f["params"][0][0])
        parts = [("at", par, ("int", i)) for i in (0, 1)]
        want = P.poly(("op", "*", tuple(parts)))
        got = P.poly(value)
        known = all(x in parts or x == par or x[0] in ("int", "op") for x in terms(value))
        ob("extent", name(f), True if got == want else False if known else None, at, f"{show(value)} is not the number of elements")
        return
    r = roles(f)
    for i, ax in ((0, "Y"), (1, "X")):
        v = plain(pick(value, i))
        inst = f"{'rows' if i == 0 else 'columns'} of {name(f)}"
        if last == "shape":
            ok = True if v[0] == "app" and v[1] in (f"GDALRasterBand::Get{ax}Size", f"GDALDataset::GetRaster{ax}Size") else False if v[0] in ("int", "app", "op") else None
        else:
            ok = True if v[0] == "out" and v[2][1] == "GDALRasterBand::GetBlockSize" and v[1] == 1 - i else False if v[0] in ("int", "op", "app", "out") else None
        ob("extent", inst, ok, at, f"{show(v)} is not what GDAL gives")
