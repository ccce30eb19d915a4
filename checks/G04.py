"""G04: comparing rasters reports a difference when there is one, and only then."""
import re
import flow, lueir, gdal as gd
from check import Check, where
from G01 import name
from common import *

# Documented: a dependency on the format, not on the contents
IGNORED = {"block_shape"}
TEXTS = "std::vector<std::basic_string"


def swap(t, m):
    if t in m:
        return m[t]
    return tuple(swap(x, m) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


def items(t, par):
    """Number of texts in a collection (a lower bound), or None."""
    n = 0
    while True:
        if t[0] == "init":
            return n + len(t[2])
        if t == par or t[0] == "new" and not t[3]:
            return n
        if t[0] == "mut" and t[1].split("::")[-1] in ("push_back", "emplace_back", "insert"):
            t, n = t[2][0], n + 1
        elif t[0] == "out":
            t = t[2][2][t[1]] if t[2][0] == "app" and len(t[2][2]) > t[1] else None
            if t is None:
                return None
        else:
            return None


class Sides:
    """The two things a function compares."""

    def __init__(self, f):
        ps = f["params"]
        self.pair = next(((("par", a[0]), ("par", b[0])) for i, a in enumerate(ps) for b in ps[i + 1:] if a[2] == b[2] and ("Band" in a[2] or "string" in a[2] or "Raster" in a[2])), None)
        self.map = {self.pair[0]: self.pair[1]} if self.pair else {}

    def compared(self, t):
        """The quantity a fact compares, as a term about the first side."""
        if t[0] == "eq" and len(t) == 3:
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if contains(a, self.pair[0]) and not contains(a, self.pair[1]) and swap(a, self.map) == b:
                    return a
        return None

    def same_reads(self, t):
        """A fact that compares two ranges, one of each side: their first terms"""
        if t[0] == "app" and t[1].split("::")[-1] in ("equal", "mismatch") and len(t[2]) >= 3 or t[0] == "eq":
            args = t[2][:1] + t[2][2:3] if t[0] == "app" else t[1:]
            ends = [x for x in t[2][1:] if x[0] == "app" and x[1] == "begin"] if t[0] == "app" else []
            a, b = (t[2][0], ends[0]) if ends else args
            return contains(a, self.pair[0]) and contains(b, self.pair[1]) or contains(a, self.pair[1]) and contains(b, self.pair[0])
        return False


def quantity(t):
    while t[0] in ("at", "fld") and t[1][0] in ("app", "at", "fld"):
        t = t[1]
    return t[1].split("::")[-1].split("<")[0] if t[0] == "app" else None


def no_data(facts, S):
    """(valid1, valid2, equal) according to a path; None: not tested"""
    valid, nan, equal = {}, {}, None
    for t, b in facts.items():
        if t[0] == "at" and t[2] == ("int", 1) and quantity(t) == "no_data_value" or t[0] == "fld" and t[2] == "<1>" and quantity(t) == "no_data_value":
            valid[contains(t, S.pair[1])] = b
        if t[0] == "app" and t[1].endswith("isnan") and quantity(t[2][0]) == "no_data_value":
            nan[contains(t, S.pair[1])] = b
        q = S.compared(t)
        if q is not None and quantity(q) == "no_data_value" and q[0] in ("at", "fld"):
            i = q[2][1] if q[0] == "at" else 0 if q[2] == "<0>" else 1
            if i == 0:
                equal = b
            else:
                valid.setdefault("same", b)
    if nan.get(False) and nan.get(True):
        equal = True
    elif nan.get(False) is not None and nan.get(True) is not None and nan[False] != nan[True]:
        equal = False if equal is None else equal
    return valid.get(False), valid.get(True), equal


def run():
    c = Check("G04", "on every path of the functions that compare rasters, bands and values, the number of differences reported is compared with the outcome of the comparisons of the two sides: "
              "a comparison that fails adds a difference, a path without differences compared everything that the classes for rasters and bands tell about their contents, "
              "and a path with differences has a comparison that failed",
              ["block shapes depend on the format and are not part of the contents", "the first iterations of the loops over bands and blocks are representative"])
    prog = lueir.load("gdal", "gdal templates")
    c.program(prog)
    fns = {k: f for k, f in prog.functions.items() if "body" in f and component(f) == "gdal" and "/test/" not in f["file"]}
    outside = {k for k, f in prog.functions.items() if component(f) != "gdal"}
    texts = lambda f: TEXTS in f["ret"] or any(TEXTS in t and flow.nonconst_ref(t) for _, _, t in f["params"])
    comparing = {k: f for k, f in fns.items() if texts(f) and Sides(f).pair and "::lambda@" not in f["q"]}
    if not comparing:
        raise lueir.AnalysisError("anchor not found: functions that compare rasters")

    def getters(cls):
        out = set()
        for key, q, access, const, static, *_ in prog.classes[cls]["methods"]:
            f = prog.functions.get(key)
            if f and access == "public" and not static and not f["params"] and f["ret"] != "void" and not f.get("ctor") and "~" not in q:
                out.add(q.split("::")[-1])
        return out - IGNORED

    of_raster = getters(gd.G + "Raster")
    of_band = getters(gd.G + "Raster::Band") | {q.split("::")[-1] for q in prog.by_name if q.startswith(gd.G + "Raster::Band::no_data_value")}
    extent = {f["q"].split("::")[-1]: int(m[1]) for f in fns.values() for m in [re.fullmatch(r"std::array<.*, (\d+)>", f["ret"])] if m and f["q"].startswith(gd.G + "Raster")}
    rounds = 2 if c.tier == "thorough" else 1
    for k, f in sorted(comparing.items()):
        S = Sides(f)
        exported = lambda k2: k2 in fns and "(anonymous)" not in fns[k2]["q"] and "::lambda@" not in fns[k2]["q"]
        A = flow.Analysis(prog, opaque=lambda q, k2: gd.gdal_call(q) or k2 != k and (k2 in comparing or exported(k2) or k2 in outside),
                          pure=lambda q, k2: (exported(k2) or k2 in outside) and not re.search("::read|::write", q) and k2 not in comparing, qualify=True)
        A.unroll = (rounds, lambda bound: True)
        A.class_outputs = {t.rstrip(" &") for _, _, t in f["params"] if TEXTS in t}
        try:
            paths = A.run(f)
        except lueir.AnalysisError as e:
            c.ob("differences", name(f), None, where(f), str(e))
            continue
        c.count("functions analysed")
        c.count("paths analysed", len(paths))
        par = next((("par", n) for n, _, t in f["params"] if TEXTS in t and flow.nonconst_ref(t)), None)
        values = not any("string" in t for _, _, t in f["params"][:2])
        level = "raster" if not values else "band"
        delegates = {e.key for p in paths for e in p.events if e.key in comparing}
        reads = any(e.q.split("::")[-1] in ("read", "read_block") for p in paths for e in p.events)
        if delegates and not any(S.compared(t) for p in paths for t in p.facts):
            continue        # only passes the work on
        if reads:
            level = "values"
        for p in paths:
            if p.kind != "ret":
                continue
            d = A.as_value(p.st, p.value) if par is None else final(A, p, f, par)
            n = items(d, par) if d is not None else None
            if n is None:
                c.ob("differences", name(f), None, where(f), f"the differences are {show(d) if d else 'unknown'}")
                continue
            if par is not None and any(t[0] == "eq" and ("int", 0) in t[1:] and any(x[0] == "app" and x[1].split("::")[-1] == "size" and x[2] == (par,) for x in t[1:]) and not b for t, b in p.facts.items()):
                continue        # differences have been reported already
            differ, same, parts = [], set(), {}
            for t, b in p.facts.items():
                q = S.compared(t)
                if q is not None and quantity(q) not in ("no_data_value", None):
                    if not b:
                        differ.append(quantity(q))
                    elif q[0] == "app":
                        same.add(quantity(q))
                    else:
                        parts.setdefault(quantity(q), set()).add(q[2])
                elif level == "values" and t[0] == "app" and S.same_reads(t):
                    (same.add("values") if b else differ.append("values"))
                elif t[0] in ("eq", "lt", "le") and b is (t[0] != "eq") and q is None and contains(t, S.pair[0]) and contains(t, S.pair[1]):
                    differ.append("?")
                if t[0] == "eq" and b and any(x[0] in ("null", "nullptr") for x in t[1:]) and level == "raster":
                    differ.append("existence")
            same |= {x for x, found in parts.items() if len(found) >= extent.get(x, len(found))}
            unsupported = [x for x in terms(d) if x[0] == "str" and "nsupported" in str(x[1])]
            v1, v2, eq = no_data(p.facts, S)
            if level == "band":
                if v1 is not None and v2 is not None and v1 != v2:
                    differ.append("no-data validity")
                if v1 and v2 and eq is False:
                    differ.append("no-data value")
            handed = [e for e in p.events if e.key in comparing]
            inst = name(f)
            if n and not differ and not unsupported:
                # nothing differs, or nothing was compared
                c.ob("no false difference", inst, None if "?" in differ else False, where(f), f"reported although {', '.join(sorted(same)) or 'nothing'} compares equal")
                continue
            if n:
                c.ob("no false difference", inst, True, where(f))
                known = [x for x in differ if x != "?"]
                if len(set(known)) > n and level != "raster" and "existence" not in known:
                    c.ob("differences", inst, None, where(f), "several comparisons fail, fewer differences are reported")
                continue
            hard = [x for x in differ if x != "?"]
            if hard:
                c.ob("differences", inst, False, where(f), f"nothing is reported although the {' and '.join(sorted(set(hard)))} differ")
                continue
            if level == "raster":
                looped = loops_over(p)
                missing = sorted(x for x in of_raster - same - {"band"})
                c.ob("complete", inst, not missing, where(f), f"nothing is reported without comparing {', '.join(missing)}")
                if looped:
                    both = [e for e in handed if contains(e.args[0], S.pair[0]) != contains(e.args[1], S.pair[0]) and swap(e.args[0], S.map) == e.args[1]]
                    c.ob("bands", inst, bool(both) and len(both) == len(handed), where(f), "a band is skipped, or compared with another band")
            elif level == "band":
                missing = sorted(x for x in of_band - same - {"no_data_value"})
                if v1 is None or v2 is None or v1 and v2 and eq is None:
                    missing.append("no-data value")
                c.ob("complete", inst, not missing, where(f), f"nothing is reported without comparing {', '.join(missing)}")
                ok = any(e.args[0] == S.pair[0] and e.args[1] == S.pair[1] or e.args[0] == S.pair[1] and e.args[1] == S.pair[0] for e in handed)
                c.ob("values", inst, ok, where(f), "nothing is reported without comparing the values of both bands")
                for e in handed:
                    flag = [a for (_, _, t), a in zip(comparing[e.key]["params"], e.args) if t.replace("const ", "") == "bool"]
                    if flag and v1 is not None and v2 is not None:
                        b = known_bool(flag[0], p.facts)
                        c.ob("no-data", inst, None if b is None else b == (v1 and v2), where(f), f"the no-data value is {'valid' if v1 and v2 else 'not valid'} in both bands, {show(flag[0])} is passed along")
            else:
                read = [e for e in p.events if e.q.split("::")[-1] in ("read", "read_block")]
                if read:
                    c.ob("values", inst, "values" in same, where(f), "values are read but not compared")
                elif any(e.q.split("::")[-1] in ("read", "read_block") for q2 in paths for e in q2.events):
                    # There must be nothing to read
                    empty = any(t[0] in ("lt", "le") and not b or t[0] not in ("lt", "le") and ("end" in str(t) or "empty" in str(t)) for t, b in p.facts.items())
                    c.ob("values", inst, empty or (False if p.facts else None), where(f), "values are not read although there are blocks")
    predicates(c, prog, {f["file"] for f in comparing.values()})
    loops(c, prog, fns, comparing, outside)
    return c.finish({"differences": 0, "complete": 5, "values": 5, "no false difference": 5, "equal values": 5})


def final(A, p, f, par):
    """What the referenced argument holds in the end."""
    try:
        return A.read(p.st, ("lv", ("m", par), ()))
    except Exception:
        return None


def known_bool(t, facts):
    if t[0] == "bool":
        return bool(t[1])
    if t in (flow.TRUE, flow.FALSE):
        return t == flow.TRUE
    if t in facts:
        return facts[t]
    if t[0] == "not":
        b = known_bool(t[1], facts)
        return None if b is None else not b
    return None


def loops_over(p):
    return any(t[0] in ("lt", "le") and b for t, b in p.facts.items()) or any(e.loops for e in p.events)


def predicates(c, prog, files):
    """The functions that decide whether two values are equal."""
    import types_ as ty
    for k, g in sorted(prog.functions.items()):
        if g["file"] not in files or len(g["params"]) != 2 or "body" not in g or g.get("ret") != "bool":
            continue
        if g["params"][0][2] != g["params"][1][2] or not ty.cxx(g["params"][0][2]) or ty.cxx(g["params"][0][2])[0] not in "uif":
            continue
        A = flow.Analysis(prog, opaque=lambda q, k2: False, pure=lambda q, k2: False)
        a, b = [("par", n) for n, _, _ in g["params"]]
        for p in A.run(g):
            if p.kind != "ret":
                continue
            v = A.as_value(p.st, p.value)
            nan = {x: p.facts.get(("app", "std::isnan", (x,))) for x in (a, b)}
            eq = next((y for t, y in p.facts.items() if t[0] == "eq" and set(t[1:]) == {a, b}), None)
            if v[0] == "eq":
                ok = set(v[1:]) == {a, b}
            elif v in (flow.TRUE, flow.FALSE):
                ok = True if (v == flow.TRUE) == (bool(nan[a] and nan[b]) or eq is True) and (eq is not None or nan[a] and nan[b]) else False
            else:
                ok = None
            c.ob("equal values", g["q"].split("::lambda@")[0].replace("lue::gdal::", "") + " for " + g["params"][0][2], ok, f"{lueir.rel(g['file'])}:{g['line']} ({g['q']})", f"values are taken for equal when {show(v)}")


def loops(c, prog, fns, comparing, outside):
    """All bands are compared."""
    for k, f in sorted(comparing.items()):
        if not any("string" in t for _, _, t in f["params"][:2]):
            continue
        A = flow.Analysis(prog, opaque=lambda q, k2: gd.gdal_call(q) or k2 != k and (k2 in fns and ("(anonymous)" not in fns[k2]["q"] or k2 in comparing) and "::lambda@" not in fns[k2]["q"] or k2 in outside),
                          pure=lambda q, k2: k2 in outside or k2 in fns and k2 not in comparing)
        done = set()
        for p in A.run(f):
            for e in p.events:
                for t in terms(("x",) + tuple(e.args[:2])) if e.key in comparing else ():
                    if t[0] == "ind" and t not in done:
                        done.add(t)
                        import poly as P
                        n = [x for x in terms(t[2]) if x[0] == "app" and x[1].split("::")[-1] in ("nr_bands", "nr_raster_bands")]
                        if not n:
                            c.ob("bands", f"all bands visited by {name(f)}", None, where(f), f"from {show(t[1])} up to {show(t[2])}")
                            continue
                        first, last = P.constant(P.poly(t[1])), P.constant(P.sub(P.poly(t[2]), P.poly(n[0])))
                        arg = [x for x in terms(("x",) + tuple(e.args[:2])) if x[0] == "app" and x[1].split("::")[-1] in ("band", "raster_band")]
                        shifts = {P.constant(P.sub(P.poly(x[2][-1]), {(t,): 1})) for x in arg}
                        ok = None if None in (first, last) or None in shifts and len(shifts) == 1 or not shifts else all(x is not None and (first + x, last + x) == (1, 1) for x in shifts)
                        c.ob("bands", f"all bands visited by {name(f)}", ok, where(f), f"from {show(t[1])} up to {show(t[2])}")
