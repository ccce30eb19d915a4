"""H02: the failure value of every fallible library call is excluded on every path that returns normally."""
import os
import flow, lueir, h5
from check import Check, where, sig, short
from common import *

ID = "lue::hdf5::Identifier"

ITERATIONS = 3 if os.environ.get("VERIF_TIER") == "thorough" else 2

# Calls the property does not speak about: they neither change, read, open nor create anything in a file.
QUERIES = {
    "H5Aexists": "existence query; the operation that follows it is checked itself",
    "H5Lexists": "existence query; the operation that follows it is checked itself",
    "H5Oexists_by_name": "existence query",
    "H5Iis_valid": "state of a handle in memory", "H5Iget_ref": "state of a handle in memory", "H5Iget_type": "state of a handle in memory",
    "H5Iobject_verify": "state of a handle in memory", "H5Iget_name": "name of an already open object", "H5Fget_name": "name of an already open file",
    "H5Tequal": "compares descriptions in memory", "H5Tget_class": "description in memory", "H5Tget_size": "description in memory",
    "H5Tget_cset": "description in memory", "H5Tget_sign": "description in memory", "H5Tget_order": "description in memory",
    "H5Sget_simple_extent_npoints": "description in memory", "H5Sget_simple_extent_ndims": "description in memory", "H5Sget_simple_extent_type": "description in memory",
    "H5Aget_type": "description of an already open attribute; using an invalid one fails", "H5Dget_type": "description of an already open array; using an invalid one fails",
    "H5Dvlen_reclaim": "returns memory, called from a destructor that cannot report",
    "H5Oget_info_by_name": "kind of an object met while iterating, the iteration itself is checked",
    "H5Eclear2": "error state of the library", "H5Eget_auto2": "error state of the library", "H5Eset_auto2": "error state of the library",
    "H5Eget_num": "error state of the library", "H5Ewalk2": "error state of the library", "H5Eget_current_stack": "error state of the library",
    "H5Eget_msg": "error state of the library", "H5Eprint2": "error state of the library",
    "H5get_libversion": "version of the library", "H5garbage_collect": "memory",
}
MEMORY_CLOSE = h5.CLOSERS


def excluded(A, p, r):
    """Is failure of the call with result r impossible on this path?"""
    f = p.facts
    if decided(f, flow.mk_lt(r, flow.ZERO)) is False or decided(f, flow.mk_lt(flow.ZERO, r)) is True:
        return True
    if decided(f, flow.mk_eq(r, ("int", -1))) is False:
        return True
    for t, v in f.items():
        if t[0] == "eq" and v and r in t[1:]:
            o = t[2] if t[1] == r else t[1]
            if o[0] == "int" and o[1] >= 0 or o[0] == "enum":
                return True
        if t[0] == "lt" and v and t[2] == r and t[1][0] == "int" and t[1][1] >= -1:
            return True
        if v and t[0] == "app" and t[1] == ID + "::is_valid":
            if A.select(p.st, t[2][0], ("f", "_id")) == r:
                return True
    return False


def status_paths(c, prog, A, fns, fallible, excluded, rule, raw_ok=lambda fn: True, chained=True):
    for fn in fns:
        try:
            paths = A.run(fn)
            if any(e.loops and fallible(e.q) for p in paths for e in p.events):
                # a later iteration may overwrite the result of an earlier one
                A.unroll = (ITERATIONS, lambda bound: True)
                try:
                    paths = paths + A.run(fn)
                except flow.TooComplex:
                    pass
                finally:
                    A.unroll = None
        except AnalysisError as e:
            c.ob(rule, sig(fn), None, where(fn), str(e))
            continue
        c.count("functions analysed")
        for p in paths:
            if p.kind == "abort":
                continue
            c.count("paths analysed")
            swallowed = any(k[0] == "caught" for k in p.st.store)
            if p.kind != "ret":
                continue
            good = set()
            evs = [e for e in p.events if fallible(e.q)]
            for e in reversed(evs):
                if excluded(A, p, e.res):
                    good.add(e.res)
            # a call on an invalid handle fails too, so a later checked call also covers the one that yielded its handle
            if chained:
                for e in reversed(evs):
                    if e.res in good:
                        for a in e.args:
                            if a[0] == "app":
                                good.add(a)
            for e in evs:
                site = prog.functions.get(e.fn)
                inst = f"{e.q} in {sig(site)}"
                ok = e.res in good
                if not ok and p.value == e.res and raw_ok(fn):
                    continue        # the caller gets the status itself
                c.ob(rule, inst, ok, f"{lueir.rel(site['file'])}:{e.line}",
                     f"a path of {sig(fn)} returns normally although {show(e.res)} may have failed"
                     + (" (an exception was caught and dropped)" if swallowed else ""))


COUNTS = {"H5Sget_simple_extent_ndims", "H5Sget_simple_extent_npoints"}      # none is a number as well


def statuses(q):
    """Calls that answer zero on success"""
    return q in COUNTS or h5_call(q) and q not in QUERIES and q not in h5.ACQUIRE and q not in MEMORY_CLOSE and not q.endswith(("_name", "_size", "_val", "get_comment", "exists", "_by_name"))


def refusals(c, prog, A, fns):
    """No path ends in an error because a call answered zero, which means success."""
    for fn in fns:
        try:
            paths = A.run(fn)
        except AnalysisError:
            continue                # an instance of the other rule
        for p in paths:
            if p.kind != "throw" or not p.facts:
                continue
            t, v = list(p.facts.items())[-1]
            if t[0] not in ("lt", "eq"):
                continue
            for e in p.events:
                if not statuses(e.q) or e.res not in t[1:]:
                    continue
                if t[0] == "eq":
                    o = t[2] if t[1] == e.res else t[1]
                    bad = v and o[0] == "int" and o[1] == 0
                else:
                    o = t[1] if t[2] == e.res else t[2]
                    # not o < r, with o >= 0; or r < o, with o > 0
                    bad = o[0] == "int" and (not v and t[2] == e.res and o[1] == 0 or v and t[1] == e.res and o[1] == 1)
                site = prog.functions.get(e.fn)
                c.ob("refused", f"{e.q} in {sig(site)}", not bad, f"{lueir.rel(site['file'])}:{e.line}", f"{sig(fn)} fails when {show(e.res)} is zero, which is no failure")


def catches_errors(ty):
    return ty is None or ty == "..." or any(x in ty for x in ("std::exception", "std::runtime_error"))


def handlers(c, prog, fallible_keys):
    """No handler drops the exception of a failed operation."""
    cg = call_graph(prog)
    for k, fn in prog.functions.items():
        if "body" not in fn or component(fn) == "other":
            continue
        found = []

        def visit(n):
            if n[0] == "try":
                found.append(n)
        scan(fn.get("body"), visit)
        for t in found:
            mentioned = calls_in({"body": t[1]})
            if not any(ck in fallible_keys or h5_call(q) and q not in QUERIES for q, ck, _ in mentioned):
                continue
            last = fn["q"].split("::")[-1]
            if last.startswith("~") or fn.get("copymove") or (last == "operator=" and fn["params"] and fn["params"][0][2].endswith("&&")):
                continue        # must not throw
            if last.startswith(("PyInit_", "pybind11_exec_")):
                continue        # turned into a Python exception by pybind11's module macro
            for h in t[2]:
                if not catches_errors(h[0] if isinstance(h, (list, tuple)) else None):
                    continue
                body = h[2]
                names = [q for q, *_ in calls_in({"body": body})]
                throws = []
                scan(body, lambda n: throws.append(n) if n[0] == "throw" else None)
                reported = throws or any(q.endswith("Issues::add_error") for q in names)
                c.ob("handler", f"catch ({h[0]}) in {sig(fn)}", bool(reported), where(fn),
                     "an exception raised by a failed storage operation is caught and neither rethrown nor reported")


def run():
    c = Check("H02", "on every path that returns normally, the failure value of every HDF5 call that changes, reads, opens or creates something "
              "is excluded by a branch of that path (directly, through the validity of its owner, or through a later checked call on its handle)",
              ["HDF5 reference manual: negative results denote failure; calls on invalid handles fail"] +
              [f"not considered: {q} ({why})" for q, why in sorted(QUERIES.items())])
    prog = lueir.load("hdf5", "cxx", "hl", "py")
    c.program(prog)
    fallible = lambda q: h5_call(q) and q not in QUERIES and q not in MEMORY_CLOSE
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: q in PURE_HDF5)
    fns = []
    for f in prog.functions.values():
        if "body" not in f:
            continue
        if component(f) == "hdf5" or any(fallible(n) for n, *_ in calls_in(f)):
            fns.append(f)
    status_paths(c, prog, A, fns, fallible, excluded, "checked status", raw_ok=lambda fn: component(fn) == "hdf5")
    refusals(c, prog, A, fns)
    handlers(c, prog, reaching(prog, fallible))
    return c.finish({"checked status": 25, "refused": 20})
