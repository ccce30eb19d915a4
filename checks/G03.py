"""G03: element types of GDAL and of the library correspond one to one."""
import re
import flow, lueir, gdal as gd
import types_ as ty
from check import Check, where
from G01 import name
from common import *

WIDE = {("i", 64): "AsInt64", ("u", 64): "AsUInt64"}


def gdt(t):
    """The element type an enumerator of GDAL stands for."""
    if t[0] != "enum":
        return None
    return ty.GDAL.get(t[1].split("::")[-1])


def value(prog, t, depth=0):
    """An enumerator or the init of a global, as a node of the program."""
    while t and t[0] == "cast":
        t = t[2]
    if t and t[0] == "enum":
        return ("enum", t[1])
    if t and t[0] in ("glob", "gvar", "mem", "var") and depth < 5:
        g = prog.globals.get(t[1]) or {}
        return value(prog, g.get("init"), depth + 1) if g.get("init") else None
    if t and t[0] == "init" and len(t[2]) == 1:
        return value(prog, t[2][0], depth + 1)
    return None


def targ(fn):
    m = re.match(r"<([^<>,]+)>$", fn.get("targs") or "")
    return ty.cxx(m.group(1)) if m else None


def run():
    c = Check("G03", "the constants that map a C++ element type to a GDAL type, the no-data functions used per element type, the names of the types and the branches on a type of GDAL are "
              "evaluated, and compared by kind and width; the buffers handed to GDAL have elements of the type passed along",
              ["LP64 widths of the C++ types", "the enumerators of GDALDataType are named after kind and width"])
    prog = lueir.load("gdal", "gdal templates")
    c.program(prog)
    fns = {k: f for k, f in prog.functions.items() if "body" in f and component(f) == "gdal" and "/test/" not in f["file"]}
    outside = {k for k, f in prog.functions.items() if component(f) != "gdal"}
    heavy = {k for k, f in fns.items() if sum("Raster::Band" in t for _, _, t in f["params"]) > 1}

    # constants
    seen = {}
    for k, g in sorted(prog.globals.items()):
        m = re.match(r"lue::gdal::(\w+)<([^<>]+)>(::data_type)?$", k)
        if not m or "GDALDataType" not in g.get("type", "") or not ty.cxx(m.group(2)):
            continue
        v = value(prog, ["glob", k])
        got = gdt(v) if v else None
        want = ty.cxx(m.group(2))
        c.ob("constant", k.replace("lue::gdal::", ""), None if v is None else got == want, f"{lueir.rel(g['file'])}:{g['line']}", f"{show(v) if v else '?'} instead of {ty.words(want)}")
        seen.setdefault(want, set()).add(k)

    # names
    for f in [f for f in fns.values() if f["ret"].startswith("std::basic_string<char") and len(f["params"]) == 1 and "GDALDataType" in f["params"][0][2]]:
        A = flow.Analysis(prog, opaque=lambda q, k: gd.gdal_call(q), pure=lambda q, k: False)
        names = {}
        par = ("par", f["params"][0][0])
        for p in A.run(f):
            es = [x for t, b in p.facts.items() if b and t[0] == "eq" and par in t[1:] for x in t[1:] if x[0] == "enum"]
            if p.kind != "ret" or len(es) != 1:
                continue
            e, v = es[0][1].split("::")[-1], A.as_value(p.st, p.value)
            names[e] = v
        names.pop("GDT_TypeCount", None)        # not a type
        if len(names) < 5:
            c.ob("name", name(f), None, where(f), "the names are not found")
            continue
        for e in sorted(set(ty.GDAL) - set(names)):
            c.ob("name", e, False, where(f), "the type has no name")
        for e, v in sorted(names.items()):
            if v[0] != "str":
                c.ob("name", e, None, where(f), f"{show(v)} is not a literal")
                continue
            others = [o for o in names if o != e and names[o] == v]
            other = v[1] in names and v[1] != e or ty.GDAL.get(v[1], ty.GDAL.get("GDT_" + v[1], ty.GDAL.get(e))) != ty.GDAL.get(e)
            c.ob("name", e, not others and not other and v[1] != "", where(f), f"the name is '{v[1]}'" + (f", as is the one of {', '.join(others)}" if others else ""))

    # no-data values
    for k, f in sorted(fns.items()):
        last = f["q"].split("::")[-1]
        t = targ(f)
        if not t or f["q"].startswith(gd.G + "detail"):
            continue
        A = flow.Analysis(prog, opaque=lambda q, k2: gd.gdal_call(q) or k2 in outside, pure=lambda q, k2: False)
        calls = [e for _, e, _ in calls_in(f) if re.search("no_data", e)] if "(anonymous)" not in f["q"] else []
        if not calls and "GDALRasterBand" not in str(f["params"]):
            continue
        try:
            paths = A.run(f)
        except lueir.AnalysisError as x:
            c.ob("no data", name(f), None, where(f), str(x))
            continue
        for p in paths:
            for e in p.events:
                m = re.match(r"GDALRasterBand::(Get|Set)NoDataValue(\w*)$", e.q)
                if not m:
                    continue
                want = WIDE.get(t, "")
                c.ob("no data", f"function used by {name(f)}", m.group(2) == want, where(f), f"{e.q.split('::')[-1]} is used for {ty.words(t)} values")
                if m.group(1) == "Set" and len(e.args) > 1:
                    c.ob("no data", f"value set by {name(f)}", True if e.args[1] == ("par", f["params"][-1][0]) else None, where(f), show(e.args[1]))
                if m.group(1) == "Get" and p.kind == "ret":
                    v = A.as_value(p.st, p.value)
                    if v[0] == "tuple" and len(v[1]) == 2:
                        x, ok = v[1]
                        out = ("out", 0, e.res)
                        good = True if ok in (("not", ("eq", out, flow.ZERO)), ("ne", out, flow.ZERO), ("bool", out)) else False if ok in (("eq", out, flow.ZERO), flow.TRUE, flow.FALSE) or not contains(ok, out) else None
                        c.ob("no data", f"validity returned by {name(f)}", good, where(f), f"{show(ok)} does not say whether there is a no-data value")
                        c.ob("no data", f"value returned by {name(f)}", True if x == e.res else None, where(f), show(x))

    # branches on a type
    for k, f in sorted(fns.items()):
        if k in heavy or not any(ck in heavy for _, ck, _ in calls_in(f)):
            continue
        A = flow.Analysis(prog, opaque=lambda q, k2: gd.gdal_call(q) or k2 != k and (k2 in fns and ("(anonymous)" not in fns[k2]["q"] or k2 in heavy) and "::lambda@" not in fns[k2]["q"] or k2 in outside),
                          pure=lambda q, k2: gd.gdal_call(q) or k2 in fns and k2 not in heavy or k2 in outside, qualify=True)
        A.unroll = (1, lambda bound: True)
        types, lost = set(), 0
        for p in A.run(f):
            for e in p.events:
                if e.key not in heavy:
                    continue
                t = targ(fns[e.key])
                tests = [(x, b) for x, b in p.facts.items() if x[0] == "eq" and any(gdt(y) or y[0] == "enum" and "GDT_" in y[1] for y in x[1:])]
                yes = [(next(gdt(y) for y in x[1:] if y[0] == "enum"), next(y for y in x[1:] if y[0] != "enum")) for x, b in tests if b and any(y[0] != "enum" for y in x[1:])]
                inst = f"comparison of {ty.words(t)} elements by {name(f)}" if t else name(f)
                if not yes:
                    lost += 1
                    c.ob("branch", inst, None, where(f), "the type of the band is not tested")
                    continue
                (got, of) = yes[0]
                types.add(got)
                c.ob("branch", inst, got == t, where(f), f"bands with {ty.words(got) if got else 'other'} elements are compared as {ty.words(t)}")
                own = of[0] == "app" and of[2] and any(a == of[2][0] for a in e.args[:2])
                c.ob("branch", f"band whose type is tested by {name(f)}", own, where(f), f"the type tested is {show(of)}, the bands compared are {' and '.join(show(a) for a in e.args[:2])}")
        for t in ty.NUMERIC:
            c.ob("branch", f"{ty.words(t)} elements are compared by {name(f)}", True if t in types else None if lost or not types else False, where(f), "rasters with this type are refused or skipped")

    # buffers
    for k, f in sorted(fns.items()):
        if not any(re.search("::(read|write|RasterIO)$", q) for q, *_ in calls_in(f)):
            continue
        A = flow.Analysis(prog, opaque=lambda q, k2: gd.gdal_call(q) or k2 in outside or k2 != k and k in heavy and k2 in fns and "(anonymous)" not in fns[k2]["q"] and "::lambda@" not in fns[k2]["q"],
                          pure=lambda q, k2: re.match("GDALRasterBand::GetRasterDataType$", q) or k in heavy and k2 in fns and not re.search("read|write", q))
        try:
            paths = A.run(f)
        except lueir.AnalysisError as x:
            c.ob("buffer", name(f), None, where(f), str(x))
            continue
        for p in paths:
            for e in p.events:
                if not re.search("::(read|write|RasterIO)$", e.q):
                    continue
                info = prog.functions.get(e.key) or prog.callees.get(e.key) or {}
                ps = [x[2] if isinstance(x, (list, tuple)) else x for x in info.get("params", [])]
                types = [i for i, x in enumerate(ps) if "GDALDataType" in x]
                bufs = [i for i, x in enumerate(ps) if x.startswith("void *")]
                shift = len(e.args) - len(ps)
                if len(types) != 1 or len(bufs) != 1:
                    continue
                t, b = e.args[types[0] + shift], e.args[bufs[0] + shift]
                inst = f"{e.q.split('::')[-1]} in {name(f)}"
                elem = element(b)
                if t[0] == "enum":
                    c.ob("buffer", inst, None if elem is None else gdt(t) == elem, where(f), f"{show(t)} is passed for a buffer of {ty.words(elem) if elem else 'unknown'} elements")
                elif t[0] == "par":
                    # the caller's buffer and the caller's type
                    c.ob("buffer", inst, True if b[0] == "par" else None, where(f), show(b))
                elif t[0] == "app" and t[1] == "GDALRasterBand::GetRasterDataType":
                    c.ob("buffer", inst, t[2][0] == e.args[0] and (b[0] == "par" or None), where(f), f"the type is the one of {show(t[2][0])}, the transfer is by {show(e.args[0])}")
                else:
                    c.ob("buffer", inst, None, where(f), show(t))
    return c.finish({"constant": 10, "name": 1, "no data": 20, "branch": 5, "buffer": 8})


def element(b):
    """Element type of the container whose data is passed."""
    while b[0] in ("cast",):
        b = b[-1]
    if b[0] == "app" and b[1] == "data":
        x = b[2][0]
        while x[0] in ("out", "upd", "mut", "phi"):
            x = x[2][-1][0] if x[0] == "mut" and isinstance(x[2][-1], tuple) and x[2][-1] and isinstance(x[2][-1][0], tuple) else x[1] if x[0] in ("upd", "phi") else None
            if x is None:
                return None
        if x[0] in ("new", "init"):
            m = re.match(r"std::(?:vector|array)<([^,<>]+),", x[1])
            return ty.cxx(m.group(1)) if m else None
    return None
