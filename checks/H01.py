"""H01: every acquired library handle goes into exactly one owner with the matching close call."""
import flow, lueir, h5
from check import Check, where, sig, short
from common import *

ID = "lue::hdf5::Identifier"
SMART_CTORS = ("std::shared_ptr::shared_ptr", "std::unique_ptr::unique_ptr", "std::__shared_ptr::__shared_ptr")
GDAL_ACQUIRE = {"GDALOpen", "GDALOpenEx", "GDALOpenShared", "GDALCreate", "GDALCreateCopy", "GDALDriver::Create", "GDALDriver::CreateCopy",
                "GDALDataset::Open"}
GDAL_CLOSE = {"GDALClose", "GDALDataset::Close"}


def closes(A, f):
    """Set of library close calls a deleter value makes on its argument: {name: number on each path}, or None."""
    if f[0] == "fn":
        if h5_call(f[1]) or f[1] in GDAL_CLOSE:
            return [f[1]]
        fn = A.prog.functions.get(f[2])
    elif f[0] == "lambda":
        fn = next((g for g in A.prog.by_name.get(f[1] + "::operator()", []) if "body" in g), None)
    elif f[0] == "glob":
        g = A.prog.globals.get(f[1]) or {}
        v = None
        if "init" in g:
            v = A.global_value(f[1])
        if v is None or v == f:
            return None
        return closes(A, v)
    elif f[0] == "addr":
        return None
    else:
        return None
    if fn is None:
        return None
    names = None
    for p in A.run(fn, args=[("par", "handle")]):
        if p.kind == "abort":
            continue
        if p.facts.get(("eq", ("par", "handle"), flow.NULL)) or p.facts.get(("eq", flow.NULL, ("par", "handle"))) or p.facts.get(("lt", ("par", "handle"), flow.ZERO)):
            continue
        mine = [e.q for e in p.events if (e.q in h5.CLOSERS or e.q in GDAL_CLOSE) and ("par", "handle") in e.args]
        if names is not None and mine != names:
            return ["different on different paths"]
        names = mine
    return names if names is not None else []


def fails(p, r):
    """On this path the call is known to have failed."""
    return (p.facts.get(("lt", r, flow.ZERO)) is True or p.facts.get(("lt", flow.ZERO, r)) is False and p.facts.get(("eq", r, flow.ZERO)) is False
            or p.facts.get(flow.mk_eq(r, flow.NULL)) is True or p.facts.get(("eq", r, ("int", -1))) is True
            or decided(p.facts, flow.mk_lt(r, flow.ZERO)) is True or decided(p.facts, flow.mk_eq(r, ("int", -1))) is True)


def acquisitions(c, prog, A, fns, acquire, owner_ctors, closers, rule):
    for fn in fns:
        try:
            paths = A.run(fn)
        except AnalysisError as e:
            c.ob(rule, sig(fn), None, where(fn), str(e))
            continue
        c.count("functions analysed")
        for p in paths:
            if p.kind == "abort":
                continue
            c.count("paths analysed")
            closed = {}
            for e in p.events:
                if e.q in closers:
                    for a in e.args[:1]:
                        closed.setdefault(a, []).append(e)
            got = {e.res: e for e in p.events if e.q in acquire}
            for e in p.events:
                if e.q in closers and e.args and e.args[0] not in got and e.fn == fn["key"] and not fn.get("lambda"):
                    c.ob(rule + " (no other closing)", f"{sig(fn)} calls {e.q}", False, where(fn, e.line),
                         f"{e.q} is called on {show(e.args[0])}, which this function did not acquire")
            for r, e in got.items():
                owners = [o for o in p.events if o.q in owner_ctors and o.args and o.args[0] == r]
                direct = closed.get(r, [])
                inst = f"{e.q} in {lookup(prog, e.fn)}"
                pl = f"{lueir.rel(prog.functions[e.fn]['file'])}:{e.line}"
                want = acquire[e.q]
                if len(owners) + len(direct) == 1:
                    if owners:
                        names = closes(A, owners[0].args[1]) if len(owners[0].args) > 1 else []
                        if names is None:
                            c.ob(rule, inst, None, pl, f"the close function {show(owners[0].args[1])} cannot be evaluated")
                        else:
                            c.ob(rule, inst, names == [want], pl,
                                 f"handle from {e.q} must be released by {want}; its owner releases it by {names or 'nothing'} (entered from {sig(fn)})")
                    else:
                        c.ob(rule, inst, direct[0].q == want, pl, f"handle from {e.q} must be closed by {want}, is closed by {direct[0].q}")
                elif not owners and not direct:
                    if fails(p, r) or (p.kind == "ret" and p.value is not None and contains_raw(p.value, r)):
                        continue
                    c.ob(rule, inst, False, pl, f"handle from {e.q} is neither owned nor closed on a path of {sig(fn)} that "
                         + ("returns" if p.kind == "ret" else "throws"))
                else:
                    c.ob(rule, inst, False, pl, f"handle from {e.q} is released {len(owners) + len(direct)} times on a path of {sig(fn)}")


def contains_raw(v, r):
    return v == r


def lookup(prog, key):
    f = prog.functions.get(key)
    return sig(f) if f else key


def final_field(A, p, root, name):
    st = p.st
    lv = ("lv", ("m", root), (("f", name),))
    return A.read(st, lv)


def members(c, prog):
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: q == ID + "::is_valid", fork_exceptions=False)
    this, other = ("this",), None
    tid, tcl = ("fld", ("this",), "_id"), ("fld", ("this",), "_close")

    def valid(p, i):
        """Is handle term i known to be valid on the path?"""
        r = None
        for t, v in p.facts.items():
            if t[0] == "app" and t[1] == ID + "::is_valid" and A.select(p.st, t[2][0], ("f", "_id")) == i:
                r = v
            if t == ("lt", i, flow.ZERO) and v:
                r = False
        return r

    fns = [f for f in prog.functions.values() if f.get("cls") == ID and ("body" in f or f.get("inits"))]
    if not fns:
        raise AnalysisError("anchor not found: class Identifier")
    R = "owner's special members"
    for f in fns:
        last = f["q"].split("::")[-1]
        par = ("par", f["params"][0][0]) if f["params"] else None
        move = bool(f["params"]) and f["params"][0][2].endswith("&&")
        copymove = bool(f["params"]) and ID in f["params"][0][2]
        if last.startswith("~"):
            kind = "destructor"
        elif f.get("ctor") and copymove:
            kind = "move constructor" if move else "copy constructor"
        elif last == "operator=" and copymove:
            kind = "move assignment" if move else "copy assignment"
        elif f.get("ctor") and len(f["params"]) == 2:
            kind = "constructor"
        elif last in ("increment_reference_count", "decrement_reference_count"):
            continue
        else:
            continue
        oid = ("fld", par, "_id") if par else None
        ocl = ("fld", par, "_close") if par else None
        for p in A.run(f):
            if p.kind != "ret" or any(k[0] == "caught" for k in p.st.store):
                continue        # an exception inside a special member ends the program's claim to the handle
            closed = [e for e in p.events if (e.q == "call" and e.args[0] == tcl or e.q in h5.CLOSERS) and tid in e.args]
            odd = [e for e in p.events if (e.q == "call" or e.q in h5.CLOSERS) and e not in closed]
            incs = [e for e in p.events if e.q == "H5Iinc_ref"]
            tv, ov = valid(p, tid), valid(p, oid) if par else None
            word = {True: "valid", False: "not valid", None: "of unknown validity"}
            same = None
            if par:
                for t, v in p.facts.items():
                    if t[0] == "eq" and {x[0] for x in t[1:]} == {"addr"}:
                        same = v
            end_id, end_cl = final_field(A, p, this, "_id"), final_field(A, p, this, "_close")
            facts = ", ".join(f"{show(t)}={v}" for t, v in p.facts.items()) or "always"
            ok, why = True, ""

            def need(cond, text):
                nonlocal ok, why
                if not cond and ok:
                    ok, why = False, f"{text} (path: {facts})"
            need(not odd, "calls a close function on something else")
            if kind == "constructor":
                need(end_id == ("par", f["params"][0][0]) and end_cl == ("par", f["params"][1][0]), "does not keep the handle and its close function")
                need(not closed and not incs, "releases or references the handle")
            elif kind == "destructor":
                need(len(closed) == {True: 1, False: 0, None: -1}[tv], f"closes {len(closed)} times when the handle is {word[tv]}")
                need(not incs, "adds a reference")
            elif kind == "copy constructor":
                need(end_id == oid and end_cl == ocl, "does not copy the handle and its close function")
                need(len(incs) == {True: 1, False: 0, None: -1}[ov] and all(oid in e.args for e in incs), "does not add exactly one reference to a valid handle")
                need(not closed, "closes")
            elif kind == "move constructor":
                need(end_id == oid and end_cl == ocl, "does not take over the handle and its close function")
                left = final_field(A, p, par, "_id")
                need(left[0] == "int" and left[1] < 0, "leaves the handle in the moved-from instance, which closes it again")
                need(not closed and not incs, "changes the reference count")
            elif same is True:
                need(end_id == tid and not closed and not incs, "self-assignment changes the instance")
            else:
                swapped = move and final_field(A, p, par, "_id") == tid
                need(end_id == oid and end_cl == ocl, "does not take over the handle and its close function")
                if swapped:
                    need(not closed and not incs, "changes the reference count")
                else:
                    need(len(closed) == {True: 1, False: 0, None: -1}[tv], f"closes the previous handle {len(closed)} times when it is {word[tv]}")
                    if move:
                        left = final_field(A, p, par, "_id")
                        need(left[0] == "int" and left[1] < 0, "leaves the handle in the moved-from instance, which closes it again")
                        need(not incs, "adds a reference")
                    else:
                        need(len(incs) == {True: 1, False: 0, None: -1}[ov] and all(oid in e.args for e in incs), "does not add exactly one reference to a valid handle")
            c.ob(R, f"{kind}", ok, where(f), why)
    have = {i for r, i, *_ in c.obs if r == R}
    cls = prog.classes.get(ID, {})
    for k in ("destructor", "copy constructor", "move constructor", "copy assignment", "move assignment", "constructor"):
        if k not in have:
            c.ob(R, k, False, "source/data_model/hdf5/include/lue/hdf5/identifier.hpp",
                 f"the owner of handles has no user-provided {k}: handles are copied or dropped without counting references")


def run():
    c = Check("H01", "each handle-yielding call's result flows, on every path, into exactly one owning object whose close function is the one "
              "for that call; the owner's special members count references; nothing else closes or re-references handles",
              ["HDF5 and GDAL reference manuals: which call releases what another call acquired", "C++ destroys members and locals on every exit (RAII)"])
    prog = lueir.load("hdf5", "cxx", "hl")
    c.program(prog)
    opq = lambda q, k: h5_call(q) or q == ID + "::Identifier"
    A = flow.Analysis(prog, opaque=opq, pure=lambda q, k: q in PURE_HDF5)
    fns = []
    for f in prog.functions.values():
        if "body" not in f:
            continue
        # any project function may acquire; outside the HDF5 layer only those that mention such a call themselves
        if component(f) == "hdf5":
            fns.append(f)
        elif any(n in h5.ACQUIRE or n in h5.CLOSERS for n, *_ in calls_in(f)):
            fns.append(f)
    acquisitions(c, prog, A, fns, h5.ACQUIRE, {ID + "::Identifier"}, h5.CLOSERS, "HDF5 handle")
    members(c, prog)
    # references are only counted by the owner
    for f in prog.functions.values():
        for n, k, line in calls_in(f):
            if n in ("H5Iinc_ref", "H5Idec_ref"):
                c.ob("reference counts", f"{n} in {sig(f)}", f.get("cls") == ID, where(f, line),
                     "reference counts of handles are changed outside the owning class")
    # GDAL
    g = lueir.load("gdal")
    c.count("gdal units", len(g.files))
    opq2 = lambda q, k: q in GDAL_ACQUIRE or q in GDAL_CLOSE or q in SMART_CTORS
    near = reaching(g, GDAL_ACQUIRE | GDAL_CLOSE)
    B = flow.Analysis(g, opaque=opq2, inline=lambda f: f["key"] in near or len(str(f.get("body"))) < 400)
    fns = [f for f in g.functions.values() if "body" in f and f["key"] in near]
    acquisitions(c, g, B, fns, {q: "GDALClose" for q in GDAL_ACQUIRE}, set(SMART_CTORS), GDAL_CLOSE, "GDAL dataset")
    return c.finish({"HDF5 handle": 15, "GDAL dataset": 3, "owner's special members": 6})
