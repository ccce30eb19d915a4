"""H06: reads, writes, existence tests and removals of attributes address the same attribute, with the type and length of the value at hand."""
import flow, lueir, types_ as ty
from check import Check, where, sig
from common import *

A_BY_NAME = {"H5Aexists": 1, "H5Aopen": 1, "H5Acreate2": 1, "H5Adelete": 1}


def handle(t):
    """Attribute handle -> (object, name) it was opened or created with."""
    t = strip(t)
    if t[0] == "app" and t[1] in ("H5Aopen", "H5Acreate2"):
        return strip(t[2][0]), plain(t[2][1])
    return None


def strip(t):
    while t[0] == "cast" or t[0] == "new" and t[1].endswith("Identifier") and t[3]:
        t = t[-1] if t[0] == "cast" else t[3][0]
    return t


def plain(t):
    while t[0] == "cast" or t[0] == "app" and t[1] in ("c_str", "data") and t[2]:
        t = t[-1] if t[0] == "cast" else t[2][0]
    return t


def from_attribute(t, call, h):
    """Is `t` the result of `call` (H5Aget_type, H5Aget_space) on the attribute opened as `h`?"""
    for x in terms(t):
        if len(x) > 2 and x[0] == "app" and x[1] == call and handle(x[2][0]) == h and h is not None:
            return True
    return False


def category(t):
    t = t.replace("const ", "").replace("&", "").strip()
    if t.startswith("std::vector<"):
        return "vector", ty.cxx(t[len("std::vector<"):].split(", std::allocator")[0])
    k = ty.cxx(t)
    return ("text" if k == ("s", 0) else "number"), k


def length_of(cat, value):
    return ("app", "size", (value,))


def same_length(p, cat, h, value):
    """On this path the stored length equals the length of the value."""
    for t, v in p.facts.items():
        if t[0] != "eq" or not v:
            continue
        sides = [plain(x) for x in t[1:]]
        if length_of(cat, value) not in sides:
            continue
        other = sides[0] if sides[1] == length_of(cat, value) else sides[1]
        if other[0] != "app":
            continue
        if cat == "text" and other[1] == "H5Tget_size" and from_attribute(other[2][0], "H5Aget_type", h):
            return True
        if cat == "vector" and other[1] in ("H5Sget_simple_extent_npoints", "H5Sget_select_npoints") and from_attribute(other[2][0], "H5Aget_space", h):
            return True
    return False


def created_as(e, p, cat, k, value):
    """Is the attribute created with the type and extent of the value?"""
    t, s = e.args[2], strip(e.args[3])
    if cat == "text":
        sizes = [x for x in p.events if x.q == "H5Tset_size" and strip(x.args[0]) == strip(t)]
        ok = bool(sizes) and plain(sizes[-1].args[1]) == length_of(cat, value)
    else:
        d = ty.hdf5_of(t)
        ok = None if d is None else d[:2] == k
    if s[0] != "app":
        return None
    if s[1] == "H5Screate":
        one = s[2][0] == ("int", 0) or "SCALAR" in str(s[2][0])
        return ok if cat != "vector" and one else False if ok is not None else None
    if s[1] == "H5Screate_simple" and cat == "vector":
        n = seq(s[2][1])
        return ok and (True if n == ("items", length_of(cat, value)) else None if n[0] != "items" else False) and s[2][0] == ("int", 1)
    return None if cat == "vector" or ok is None else False


def run():
    c = Check("H06", "on every path, the attribute that is tested, opened, created, removed, read or written is the one of the given object and name; a value is only written into an existing "
              "attribute whose stored length equals the value's, new attributes get the type and extent of the value, reads use the stored type and length, and return the value as it was read",
              ["HDF5 reference manual: H5Awrite and H5Aread transfer the whole attribute", "stored number attributes keep the type they were created with"])
    prog = lueir.load("hdf5", "cxx", "hl", "py")
    c.program(prog)
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: q in PURE_HDF5)
    for f in sorted(prog.functions.values(), key=lambda f: f["key"]):
        if "body" not in f or component(f) != "hdf5" or "/test/" in f["file"]:
            continue
        cls, last = f["q"].rsplit("::", 1)
        member = cls == "lue::hdf5::Attributes"
        single = cls == "lue::hdf5::Attribute"
        free = f["q"] in ("lue::hdf5::create_attribute", "lue::hdf5::detail::read_attribute", "lue::hdf5::detail::write_attribute")
        if not (member or single or free) or f.get("implicit") or f.get("copymove"):
            continue
        try:
            paths = [p for p in A.run(f) if p.kind == "ret"]
        except AnalysisError as e:
            c.ob("address", sig(f), None, where(f), str(e))
            continue
        if member and last == "write":
            c.ob("write", f"{sig(f)} when there is none", any(e.q == "H5Acreate2" for p in paths for e in p.events), where(f), "no path creates the attribute")
        names = [n for n, _, t in f["params"]]
        value = next((("par", n) for n, _, t in f["params"] if n == names[-1]), None)
        text = [("par", n) for n, _, t in f["params"] if "basic_string" in t]
        for p in paths:
            addressed(c, f, p, member, text)
            if member and last == "write" or f["q"] == "lue::hdf5::create_attribute" and not any("Datatype" in t for _, _, t in f["params"]) or single and last == "write" \
                    or f["q"].endswith("detail::write_attribute"):
                writes(c, f, p, value, member or free and "create" in last)
            elif last == "read" and (member or single) or f["q"].endswith("detail::read_attribute"):
                reads(c, A, f, p)
            elif member and last == "exists":
                exists(c, f, p, text)
            elif f["q"] == "lue::hdf5::create_attribute" or member and last == "add":
                plain_create(c, f, p)
            deletions(c, f, p, last)
    return c.finish({"address": 30, "write": 12, "read": 8, "exists": 1, "create": 2})


def addressed(c, f, p, member, text):
    if f["q"].startswith("lue::hdf5::detail") or f["q"] == "lue::hdf5::Attribute::read" or f["q"] == "lue::hdf5::Attribute::write":
        return
    for e in p.events:
        if e.q in A_BY_NAME:
            name = plain(e.args[1])
            obj = strip(e.args[0])
            root = ("this",) if member else next((("par", n) for n, _, t in f["params"] if "Identifier" in t), None)
            if root is None or not text:
                continue
            ok = name == text[0] and contains(obj, root)
            c.ob("address", f"{sig(f)}: {e.q}", ok, where(f, e.line), f"addresses {show(name)} of {show(obj)}")


def writes(c, f, p, value, named):
    t = f["params"][-1][2]
    cat, k = category(t)
    w = [i for i, e in enumerate(p.events) if e.q == "H5Awrite"]
    inst = f"{sig(f)}"
    if not w:
        c.ob("write", inst, False, where(f), f"nothing is written when {[show(x) + ' is ' + str(v) for x, v in p.facts.items()][:3]}")
        return
    e = p.events[w[-1]]
    buf = e.args[2]
    if not contains(buf, value):
        c.ob("write", inst, False, where(f, e.line), f"writes {show(buf)} instead of the value")
        return
    h = handle(e.args[0])
    if not named:
        # the attribute of this object, or the id and type passed
        roots = [("this",)] if f["q"].startswith("lue::hdf5::Attribute::") else [("par", f["params"][0][0])]
        types_ = [("par", n) for n, _, t in f["params"] if "Datatype" in t] or roots
        ok = any(contains(e.args[0], r) for r in roots) and any(contains(e.args[1], r) for r in types_)
        c.ob("write", inst, ok, where(f, e.line), f"writes {show(e.args[0])} as {show(e.args[1])}")
        return
    if h is None:
        c.ob("write", inst, None, where(f, e.line), f"writes {show(e.args[0])}")
        return
    if any(x.q == "H5Adelete" for x in p.events[w[-1]:]):
        c.ob("write", inst, False, where(f, e.line), "the attribute is removed after it was written")
        return
    typed = from_attribute(e.args[1], "H5Aget_type", h) or (ty.hdf5_of(e.args[1]) or ("", 0))[:2] == k
    made = strip(e.args[0])[1] == "H5Acreate2"
    if made:
        i = max(i for i, x in enumerate(p.events[:w[-1]]) if x.q == "H5Acreate2")
        cr = p.events[i]
        ok = created_as(cr, p, cat, k, value)
        what = f"the attribute is created as {show(cr.args[2])}, {show(cr.args[3])}"
        if f["q"].startswith("lue::hdf5::Attributes::"):
            free = any(x.q == "H5Adelete" and (strip(x.args[0]), plain(x.args[1])) == h for x in p.events[:i]) \
                or any(t[0] == "lt" and not v and t[1] == flow.ZERO and t[2][0] == "app" and t[2][1] == "H5Aexists" and (strip(t[2][2][0]), plain(t[2][2][1])) == h for t, v in p.facts.items()) \
                or any(t[0] == "eq" and v and flow.ZERO in t[1:] and any(x[0] == "app" and x[1] == "H5Aexists" for x in t[1:]) for t, v in p.facts.items())
            if not free:
                ok, what = False, "an attribute is created although one of that name may exist"
    else:
        ok = cat == "number" or same_length(p, cat, h, value)
        what = "the value is written with the stored length, which may differ from the length of the value"
        if f["q"].startswith("lue::hdf5::create_attribute"):
            ok, what = None, "writes an attribute it did not create"
    c.ob("write", inst + (" (new attribute)" if made else " (existing attribute)"), False if ok is False or not typed else ok, where(f, e.line), what if ok is not True else f"the memory type is {show(e.args[1])}")


CHANGES = {"resize", "erase", "pop_back", "clear", "assign", "insert", "append", "push_back", "replace", "operator+="}


def unchanged(v, length):
    """Is a value that was read returned as it was read?"""
    ok = True
    while v[0] in ("cast", "mut"):
        if v[0] == "mut":
            x = plain(v[2][1]) if len(v[2]) > 1 else None
            same = v[1] == "resize" and x is not None and x[0] == "app" and x[1] in length
            if not same and v[1] not in ("reserve", "shrink_to_fit"):
                if v[1] in CHANGES:
                    return False
                ok = None
            v = v[2][0]
        else:
            v = v[-1]
    return ok


def reads(c, A, f, p):
    single = f["q"].startswith("lue::hdf5::Attribute::")
    det = "::detail::" in f["q"]
    out = f["params"][-1][2] if det or f["params"] and "Datatype" in f["params"][0][2] else (f.get("targs") or "<>")[1:-1]
    cat, k = category(out)
    r = [e for e in p.events if e.q == "H5Aread"]
    inst = f"{sig(f)} as {cat} {ty.words(k) if k else ''}"
    if not r:
        c.ob("read", inst, False, where(f), "nothing is read")
        return
    e = r[-1]
    if det or single:
        roots = [("this",)] if single else [("par", f["params"][0][0])]
        types_ = [("par", n) for n, _, t in f["params"] if "Datatype" in t] or roots
        if not any(contains(e.args[0], x) for x in roots) or not any(contains(e.args[1], x) for x in types_):
            c.ob("read", inst, False, where(f, e.line), f"reads {show(e.args[0])} as {show(e.args[1])}")
            return
        h = None
    else:
        h = handle(e.args[0])
        if h is None:
            c.ob("read", inst, None, where(f, e.line), f"reads {show(e.args[0])}")
            return
    typed = h is None or from_attribute(e.args[1], "H5Aget_type", h) or (ty.hdf5_of(e.args[1]) or ("", 0))[:2] == k
    want = {"text": ("H5Tget_size",), "vector": ("H5Sget_simple_extent_npoints", "H5Sget_select_npoints")}.get(cat)
    ok, what = True, f"reads as {show(e.args[1])}"
    if want:
        n = [plain(x[2][1]) for x in terms(e.args[2]) if x[0] == "mut" and x[1] in ("resize", "assign") and len(x[2]) > 1]
        n += [plain(seq(x)[1]) for x in terms(e.args[2]) if x[0] == "new" and seq(x)[0] == "rep"]
        n += [plain(y) for x in terms(e.args[2]) if x[0] in ("new", "init") for y in (x[3] if x[0] == "new" else x[2]) if len(y) > 1]
        sized = [y for y in n if len(y) > 2 and y[0] == "app" and y[1] in want]
        call = "H5Aget_type" if cat == "text" else "H5Aget_space"
        ok = bool(sized) and (h is None or any(from_attribute(y, call, h) for y in sized))
        what = f"the buffer for the value is {show(e.args[2])}"
        if not sized and not n:
            ok = False
    if not det and not (f["params"] and "Datatype" in f["params"][0][2]):
        v = A.as_value(p.st, p.value)
        if not contains(v, e.res):
            ok, what = False, f"returns {show(v)} instead of what was read"
        elif want:
            kept = unchanged(v, want)
            if kept is not True and ok is not False:
                ok, what = kept, f"what was read is changed before it is returned: {show(v)}"
    c.ob("read", inst, ok and typed if ok is not None else None, where(f, e.line), what)


def exists(c, f, p, text):
    a = [e for e in p.events if e.q == "H5Aexists"]
    if not a:
        c.ob("exists", sig(f), None, where(f), f"returns {show(p.value)}")
        return
    r = a[-1].res
    pos = flow.mk_lt(flow.ZERO, r)
    if p.value == pos or p.value == flow.mk_eq(r, ("int", 1)):
        ok = True
    elif p.value[0] == "bool":
        d = decided(p.facts, pos)
        ok = None if d is None else d == p.value[1]
    else:
        ok = False
    c.ob("exists", sig(f), ok, where(f), f"returns {show(p.value)}")


def plain_create(c, f, p):
    cr = [e for e in p.events if e.q == "H5Acreate2"]
    if not cr:
        c.ob("create", sig(f), False, where(f), "no attribute is created")
        return
    e = cr[-1]
    t = next(("par", n) for n, _, t in f["params"] if "Datatype" in t)
    s = next(("par", n) for n, _, t in f["params"] if "Dataspace" in t)
    c.ob("create", sig(f), contains(e.args[2], t) and contains(e.args[3], s), where(f, e.line), f"creates it as {show(e.args[2])} with {show(e.args[3])}")


def deletions(c, f, p, last):
    for i, e in enumerate(p.events):
        if e.q != "H5Adelete":
            continue
        ok = last == "remove" or any(x.q == "H5Acreate2" and strip(x.args[0]) == strip(e.args[0]) and plain(x.args[1]) == plain(e.args[1]) for x in p.events[i:])
        c.ob("removal", sig(f), ok, where(f, e.line), "the attribute is removed and not created again")
