"""G02: rows and columns of rasters are kept apart, and blocks of rasters are counted and placed right."""
import re
import flow, lueir, gdal as gd
import poly as P
from check import Check, where
from G01 import name
from common import *

PAIR = re.compile(r"(const )?(std::array<int, 2(UL)?>|lue::gdal::(Shape|Offset)|int ?\[2\])( const)? ?&?$")
R, C = "rows", "columns"
# What GDAL gives and takes, by position of the argument
GIVES = {"GetRasterYSize": R, "GetYSize": R, "GetRasterXSize": C, "GetXSize": C}
OUT = {"GDALRasterBand::GetBlockSize": {0: C, 1: R}, "GDALRasterBand::GetActualBlockSize": {2: C, 3: R}}
TAKES = {"GDALDriver::Create": {2: C, 3: R}, "GDALRasterBand::ReadBlock": {1: C, 2: R}, "GDALRasterBand::WriteBlock": {1: C, 2: R},
         "GDALRasterBand::GetActualBlockSize": {1: C, 2: R},
         "GDALRasterBand::RasterIO": {2: C, 3: R, 4: C, 5: R, 7: C, 8: R}}
WHAT = {2: "first column", 3: "first row", 4: "number of columns", 5: "number of rows", 7: "number of columns of the buffer", 8: "number of rows of the buffer"}


class Axes:
    def __init__(self, prog, params):
        self.prog, self.params = prog, dict(params)
        self.mixed = []

    def pair(self, t):
        """Is the term a pair (row first)?"""
        k = t[0]
        if k == "par":
            return bool(PAIR.match(self.params.get(t[1], "")))
        if k == "app":
            return any(PAIR.match(f.get("ret") or "") for f in self.prog.by_name.get(t[1], ())) or t[1] in ("std::min", "std::max") and all(self.pair(x) for x in t[2])
        if k == "fld":
            return any(n == t[2] and PAIR.match(ty) for cl in self.prog.classes.values() if "gdal" in cl["file"] for n, ty, _ in cl["fields"])
        if k == "upd":
            return self.pair(t[1])
        if k == "init":
            return bool(PAIR.match(t[1])) and len(t[2]) == 2
        return False

    def of(self, t):
        k = t[0]
        if k == "at" and t[2][0] == "int" and self.pair(t[1]):
            return {R} if t[2][1] == 0 else {C}
        if k == "app":
            last = t[1].split("::")[-1]
            if last in GIVES and gd.gdal_call(t[1]):
                return {GIVES[last]}
            if last in ("min", "max", "abs", "clamp", "move", "forward"):
                return self.join(t, t[2])
            if last == "nr_elements" and len(t[2]) == 1 and self.pair(t[2][0]):
                return {R, C}
            return set()
        if k == "out" and t[2][0] == "app" and t[2][1] in OUT:
            a = OUT[t[2][1]].get(t[1])
            return {a} if a else set()
        if k == "op":
            return self.join(t, t[2]) if t[1] in ("+", "-", "/", "%") else set().union(*[self.of(x) for x in t[2]]) if t[1] == "*" else set()
        if k == "ind":
            return self.of(t[1]) | self.of(t[2])
        if k == "phi":
            return self.of(t[1])
        if k == "cast":
            return self.of(t[-1])
        return set()

    def join(self, t, xs):
        a = [self.of(x) for x in xs]
        known = [x for x in a if x]
        if any(len(x) == 2 for x in known):
            if t[0] == "op" and t[1] in ("/", "%"):
                return set()
        if any(x != known[0] for x in known):
            self.mixed.append(t)
        return set().union(*a)


def writes(prog, key):
    """Does a function without body return values through its arguments?"""
    return any(flow.nonconst_ref(t) or flow.nonconst_ptr(t) for t in (prog.callees.get(key) or {}).get("params", ()))


def params_of(f):
    return [(n, t) for n, _, t in f["params"]]


def run():
    c = Check("G02", "each term is typed by the axis (rows, columns) it counts, from what GDAL and the row-first pairs of the library give; every pair is made of rows and columns in that "
              "order, every argument of GDAL is of the axis it takes, sums and minima don't mix axes; transfers cover the window and the buffer with the same shape; the number of blocks and "
              "valid cells are the normal forms of their definitions; and the rasters compared are read at the same cells, all of them",
              ["GDAL documentation: sizes and offsets are passed columns (x) first", "pairs of integers are rows first (documented for Shape and Offset)"])
    prog = lueir.load("gdal", "gdal templates")
    c.program(prog)
    fns = {k: f for k, f in prog.functions.items() if "body" in f and component(f) == "gdal" and "/test/" not in f["file"]}
    outside = {k for k, f in prog.functions.items() if component(f) != "gdal"}
    heavy = {k for k, f in fns.items() if sum("Raster::Band" in t for _, t in params_of(f)) > 1}
    exported = {k for k, f in fns.items() if "(anonymous)" not in f["q"] and "::lambda@" not in f["q"]}
    options = {k for k, f in fns.items() if any("std::map<" in t for _, t in params_of(f)) and f.get("ctor")}
    reach = reaching(prog, lambda q: gd.gdal_call(q) or q.startswith(gd.G + "Blocks::"))
    seen = {}

    def ob(rule, inst, ok, at, why=""):
        old = seen.get((rule, inst, at))
        rank = {False: 0, None: 1, True: 2}
        if old is None or rank[ok] < rank[old[0]]:
            seen[rule, inst, at] = (ok, why)

    for k, f in sorted(fns.items()):
        if k not in reach or "::lambda@" in f["q"] or f["q"].split("::")[-1].startswith("~") or f["q"].startswith(gd.G + "Blocks::"):
            continue
        compares = k in heavy
        if not compares and any(ck in heavy for _, ck, _ in calls_in(f)):
            continue            # leaves cells to the functions it calls
        A = flow.Analysis(prog, opaque=lambda q, k2: gd.gdal_call(q) or k2 in outside or k2 in options or k2 != k and (k2 in heavy or compares and k2 in exported),
                          pure=lambda q, k2: (gd.gdal_call(q) and not writes(prog, k2) or compares and q.startswith("lue::") and k2 not in heavy) and not re.search("read|write|Read|Write|IO|create|Create", q.split("::")[-1]))
        try:
            paths = A.run(f)
        except lueir.AnalysisError as e:
            ob("analysed", name(f), None, where(f), str(e))
            continue
        c.count("functions analysed")
        c.count("paths analysed", len(paths))
        X = Axes(prog, params_of(f))
        pairs = [n for n, t in params_of(f) if PAIR.match(t)]
        for p in paths:
            if p.kind == "abort":
                continue
            at = where(f)
            found = []
            if p.kind == "ret":
                found.append((A.as_value(p.st, p.value), "result"))
            for e in p.events:
                for i, a in enumerate(e.args):
                    found.append((a, f"argument {i + 1} of {e.q.split('::')[-1]}"))
            for t in p.facts:
                found.append((t, "condition"))
            X.mixed = []
            done = set()
            for term, what in found:
                for s in subterms(term):
                    if s in done or not s or not isinstance(s[0], str):
                        continue
                    done.add(s)
                    if s[0] == "init" and X.pair(s) or s[0] == "upd" and s[2][0] == "i" and X.pair(s[1]):
                        items = [(s[2][1], s[3])] if s[0] == "upd" else list(enumerate(s[2]))
                        for i, v in items:
                            ax = X.of(v)
                            want = R if i in (0, ("int", 0)) else C
                            ok = True if ax <= {want} else False
                            ob("pair", f"{want} of the pair in the {what} of {name(f)}", ok, at, f"{show(v)} counts {' and '.join(sorted(ax))}, not {want}")
                    elif s[0] == "op":
                        X.of(s)
            for s in X.mixed:
                ob("no mix", f"{name(f)}", False, at, f"{show(s)} combines rows and columns")
            if not X.mixed:
                ob("no mix", f"{name(f)}", True, at)
            for e in p.events:
                transfer(ob, X, e, f, pairs)
            if compares:
                comparison(ob, X, f, p)
    blocks(ob, prog, fns)
    for (rule, inst, at), (ok, why) in seen.items():
        c.ob(rule, inst, ok, at, why)
    members_set_first(c, prog, ("gdal",))
    return c.finish({"argument": 10, "pair": 4, "no mix": 20, "window": 4, "number of blocks": 2, "valid cells": 2, "same cells": 2})


def transfer(ob, X, e, f, pairs):
    if e.q not in TAKES:
        return
    last = e.q.split("::")[-1]
    at = where(f)
    for i, want in TAKES[e.q].items():
        a = e.args[i]
        ax = X.of(a)
        ok = True if ax == {want} or a == flow.ZERO else False if ax else None
        ob("argument", f"argument {i} of {last} in {name(f)}", ok, at, f"GDAL takes {want} here, {show(a)} counts {' and '.join(sorted(ax)) or 'something unknown'}")
    band = e.args[0]
    if last == "RasterIO":
        for i, j in ((4, 7), (5, 8)):
            ok = e.args[i] == e.args[j]
            ob("window", f"{WHAT[i]} of {name(f)}", ok, at, f"{show(e.args[i])} cells of the raster, {show(e.args[j])} cells of the buffer")
        for i in (10, 11):
            if i < len(e.args):
                ob("window", f"layout of the buffer of {name(f)}", True if e.args[i] == flow.ZERO else None, at, "strides that are not the default ones")
        for i in (2, 3, 4, 5):
            a, index = e.args[i], 1 if i in (2, 4) else 0
            offset = i < 4
            if offset:
                expected = [flow.ZERO] if len(pairs) < 2 else [("at", ("par", pairs[0]), ("int", index))]
            elif pairs:
                expected = [("at", ("par", pairs[-1]), ("int", index))]
            else:
                expected = None
            if expected is not None:
                ok = True if a in expected else None if loops(a) else False
                ob("window", f"{WHAT[i]} of {name(f)}", ok, at, f"{show(a)} instead of {show(expected[0])}")
            else:
                own = a[0] == "app" and a[1].split("::")[-1] in GIVES and a[2][0] == band
                ob("window", f"{WHAT[i]} of {name(f)}", True if own else None if loops(a) or a[0] != "app" else False, at, f"{show(a)} is not the shape of the band itself")
    elif last in ("ReadBlock", "WriteBlock") and len(pairs) == 1:
        for i, index in ((1, 1), (2, 0)):
            want = ("at", ("par", pairs[0]), ("int", index))
            ob("window", f"{'column' if i == 1 else 'row'} of the block of {name(f)}", True if e.args[i] == want else None if loops(e.args[i]) else False, at, f"{show(e.args[i])} instead of {show(want)}")


def loops(t):
    return any(x[0] in ("ind", "phi", "elem", "each") for x in terms(t))


# ------------------------------------------------------------------ comparing

def pick(t, i):
    """Element i of a pair."""
    if t[0] == "app" and t[1] in (gd.G + "Blocks::block_shape", gd.G + "Blocks::raster_shape") and len(t[2]) == 1:
        made = constructed(t[2][0])
        if made:
            return pick(made[1 if t[1].endswith("block_shape") else 0], i)
    if t[0] == "init":
        return t[2][i]
    if t[0] == "upd" and t[2][0] == "i":
        return t[3] if t[2][1] in (i, ("int", i)) else pick(t[1], i)
    return ("at", t, ("int", i))


def elements(t):
    """nr_elements(pair) as a product."""
    if t[0] == "app" and t[1].split("::")[-1] == "nr_elements" and len(t[2]) == 1:
        return ("op", "*", (pick(t[2][0], 0), pick(t[2][0], 1)))
    return None


def comparison(ob, X, f, p):
    at = where(f)
    reads = [e for e in p.events if e.q.split("::")[-1] in ("read", "read_block") and e.q.startswith(gd.G) and any(x.startswith("lue::gdal::Raster::Band") for x in (e.q,)) or
             e.q in (gd.G + "read", gd.G + "read_block")]
    if not reads:
        return
    bands = {}
    for e in reads:
        bands.setdefault(e.args[0], []).append(e)
    if len(bands) > 1:
        what = {b: [(e.q, tuple(a for a in e.args[1:-1] if X.pair(a))) for e in es] for b, es in bands.items()}
        first = next(iter(what.values()))
        ok = all(w == first for w in what.values())
        why = "the rasters are not read at the same cells: " + " / ".join("; ".join(show(a) for _, args in w for a in args)[:300] for w in what.values())
        if ok and any(e.q.endswith("read_block") for e in reads):
            b = list(bands)
            shapes = [t for t in p.facts if t[0] == "eq" and all(contains(x, y) for x, y in zip(sorted(t[1:], key=repr), sorted(b, key=repr))) and "block_shape" in repr(t) and p.facts[t]]
            if not shapes:
                ok, why = False, "natural blocks of both rasters are compared, although the shapes of those blocks can differ"
        ob("same cells", name(f), ok, at, why)
    for e in reads:
        if e.q.endswith("read_block"):
            continue
        ar = [a for a in e.args[1:-1] if X.pair(a)]
        if len(ar) != 2:
            continue
        offset, shape = ar
        # the window of a block
        if shape[0] == "app" and shape[1] == gd.G + "Blocks::shape_in_valid_cells":
            b, index = shape[2]
            made = constructed(b)
            if made:
                for i in (0, 1):
                    k = pick(index, i)
                    want = P.mul(P.poly(k), P.poly(pick(made[1], i)))
                    got = P.poly(pick(offset, i), lambda t: pick(t[1], t[2][1]) if t[0] == "at" and t[2][0] == "int" else None)
                    ob("block window", f"first {(R, C)[i]} read by {name(f)}", got == want, at, f"{show(pick(offset, i))} is not where block {show(k)} starts")
                    if k[0] == "ind":
                        n = pick(("app", gd.G + "Blocks::shape_in_blocks", (b,)), i)
                        d = P.constant(P.sub(P.poly(k[2]), P.poly(n)))
                        ok = True if k[1] == flow.ZERO and d == 0 else False if k[1][0] == "int" and d is not None else None
                        ob("all blocks", f"blocks along the {(R, C)[i]} visited by {name(f)}", ok, at, f"from {show(k[1])} up to {show(k[2])}")
    # the number of values compared
    for t in [x for t in p.facts for x in terms(t)] + [x for e in p.events for a in e.args for x in terms(a)]:
        if t[0] == "app" and t[1] in ("std::equal", "std::mismatch", "std::ranges::equal") and len(t[2]) >= 3:
            a, b = t[2][0], t[2][1]
            if a[0] == "app" and a[1] == "begin" and b[0] == "op" and b[1] == "+" and a in b[2]:
                n = [x for x in b[2] if x != a]
                src = a[2][0]
                origin = [s for s in terms(src) if s[0] == "app" and (s[1].endswith("::read") or s[1].endswith("::read_block"))]
                if len(n) == 1 and origin:
                    o = origin[0]
                    if o[1].endswith("read_block"):
                        whole = any(P.poly(n[0], elements) == P.poly(("app", "nr_elements", (s,)), elements) for s in terms(n[0]) if s[0] == "app" and s[1].endswith("block_shape"))
                        ob("values compared", name(f), None if whole else False, at, f"the first {show(n[0])} values of a block are compared, but the valid cells of a block are not its first ones")
                        continue
                    ar = [x for x in o[2][1:] if X.pair(x)]
                    if ar:
                        want = P.poly(("app", "nr_elements", (ar[-1],)), elements)
                        ob("values compared", name(f), P.poly(n[0], elements) == want, at, f"{show(n[0])} values are compared, {show(ar[-1])} cells are read")
            elif a[0] == "app" and a[1] == "begin" and b[0] == "app" and b[1] == "end":
                ob("values compared", name(f), True, at)


def constructed(t):
    while t[0] == "upd":
        t = t[1]
    return t[3] if t[0] == "new" and t[1] == gd.G + "Blocks" else None


# ------------------------------------------------------------------ blocks

def substitute(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    t = tuple(substitute(x, m) if isinstance(x, tuple) else x for x in t)
    if t and t[0] == "at" and len(t) == 3 and t[2][0] == "int" and t[1][0] in ("init", "upd"):
        return pick(t[1], t[2][1])
    return t


def blocks(ob, prog, fns):
    make = [f for f in fns.values() if f["q"] == gd.G + "Blocks::Blocks" and len(f["params"]) == 2]
    if len(make) != 1:
        raise lueir.AnalysisError("anchor not found: constructor of Blocks")
    make = make[0]
    shape, block = [("par", n) for n, _ in params_of(make)]
    A = flow.Analysis(prog, opaque=lambda q, k: False, pure=lambda q, k: False)
    fields = [n for n, *_ in prog.classes[gd.G + "Blocks"]["fields"]]
    states = []
    for p in A.run(make):
        if p.kind != "ret":
            continue
        this = A.read(p.st, ("lv", ("m", ("this",)), ()))
        states.append(({("fld", ("this",), n): A.select(p.st, this, ("f", n)) for n in fields}, p.facts))
    axis = lambda t, i: ("at", t, ("int", i))
    for last in ("raster_shape", "block_shape", "shape_in_blocks", "shape_in_valid_cells"):
        f = prog.one(gd.G + "Blocks::" + last)
        try:
            ps = [p for p in A.run(f) if p.kind == "ret"]
        except lueir.AnalysisError as e:
            ob(last.replace("_", " "), name(f), None, where(f), str(e))
            continue
        for p in ps:
            v = A.as_value(p.st, p.value)
            for m, facts in states:
                value = substitute(v, m)
                known = {**facts, **{substitute(t, m): b for t, b in p.facts.items()}}
                if impossible(known):
                    continue
                for i in (0, 1):
                    x = pick(value, i)
                    full, part = axis(shape, i), axis(block, i)
                    inst, at = f"{(R, C)[i]}", where(f)
                    if last in ("raster_shape", "block_shape"):
                        want = full if last[0] == "r" else part
                        ob(last.replace("_", " "), inst, True if x == want else False, at, f"{show(x)} instead of {show(want)}")
                    elif last == "shape_in_blocks":
                        ok = count_of(x, full, part, known)
                        ob("number of blocks", inst, ok, at, f"{show(x)} is not the number of blocks needed to cover {show(full)} cells")
                    else:
                        index = axis(("par", f["params"][0][0]), i)
                        ok = valid(x, full, part, index, known)
                        ob("valid cells", inst, ok, at, f"{show(x)} is not the number of cells of the block that are inside the raster")


def impossible(facts):
    for t, v in facts.items():
        if t[0] in ("lt", "le", "eq") and t[1][0] == t[2][0] == "int":
            a, b = t[1][1], t[2][1]
            if (a < b if t[0] == "lt" else a <= b if t[0] == "le" else a == b) != v:
                return True
    return False


def leaves(t, known):
    """Does a term consist of known terms, numbers and arithmetic only?"""
    if t in known or t[0] == "int":
        return True
    if t[0] in ("op",):
        return all(leaves(x, known) for x in t[2])
    if t[0] == "app" and t[1] in ("std::min", "std::max"):
        return all(leaves(x, known) for x in t[2])
    return t[0] == "cast" and leaves(t[-1], known)


def count_of(x, full, part, facts):
    """x = ceil(full / part), or 0 when part is not positive."""
    lo, hi = P.bounds(facts, P.poly(part))
    if hi is not None and hi <= 0:
        return True if x == flow.ZERO else None
    if x == flow.ZERO:
        return None if lo is None or lo <= 0 else False
    both = {("at", full[1], ("int", j)) for j in (0, 1)} | {("at", part[1], ("int", j)) for j in (0, 1)}
    extra = P.poly(x)
    quot = [(m, k) for m, k in extra.items() if m and m[0][0] == "op" and m[0][1] == "/"]
    if len(quot) == 1 and len(quot[0][0]) == 1 and quot[0][1] == 1:
        m = quot[0][0]
        num, den = m[0][2]
        rest = P.constant(P.sub(extra, {m: 1}))
        if rest is not None and den == part:
            n = P.sub(P.poly(num), P.poly(full))
            if rest == 0 and n == P.sub(P.poly(part), {(): 1}) or rest == 1 and n == {(): -1}:
                return True
            r = remainder(facts, full, part)
            if n == {} and (rest == 0 and r == "none" or rest == 1 and r == "some"):
                return True
            return False if leaves(num, both) and r is None else None
    return False if leaves(x, both) and not any(s[0] == "op" and s[1] == "%" for s in terms(x)) else None


def remainder(facts, full, part):
    """Whether the facts say that full % part is zero ('none') or not ('some')."""
    for t, v in facts.items():
        if t[0] == "eq" and any(s == ("op", "%", (full, part)) for s in t[1:]) and flow.ZERO in t[1:]:
            return "none" if v else "some"
        if t[0] == "lt" and t[1] == flow.ZERO and t[2] == ("op", "%", (full, part)):
            return "some" if v else "none"
    return None


def valid(x, full, part, index, facts):
    """x = min(part, full - index * part)"""
    last = P.sub(P.poly(full), P.mul(P.poly(index), P.poly(part)))
    d = P.sub(last, P.poly(part))           # full - (index + 1) * part
    if x[0] == "app" and x[1] == "std::min" and len(x[2]) == 2:
        return sorted(map(repr, map(norm, x[2]))) == sorted(map(repr, (norm_p(P.poly(part)), norm_p(last))))
    lo, hi = P.bounds(facts, d)
    got = P.poly(x)
    if got == P.poly(part):
        return lo is not None and lo >= 0
    if got == last:
        return hi is not None and hi <= 0
    both = {("at", y[1], ("int", j)) for y in (full, part, index) for j in (0, 1)}
    return False if leaves(x, both) and not any(s[0] == "op" and s[1] in ("%", "/") for s in terms(x)) else None


def norm(t):
    return norm_p(P.poly(t))


def norm_p(p):
    return sorted((repr(m), k) for m, k in p.items())
