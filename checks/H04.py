"""H04: effects analysis: which library functions can reach calls that create, write, resize, delete or truncate."""
import json, os
import flow, lueir, h5, pyb
from check import Check, where, sig, short
from common import *
from lueir import VERIF

SPEC = os.path.join(VERIF, "spec", "effects.json")
DELETE = {"H5Ldelete", "H5Ldelete_by_idx", "H5Fdelete", "H5Gunlink",
          "std::filesystem::remove", "std::filesystem::remove_all", "std::remove", "remove", "unlink", "std::filesystem::rename", "rename",
          "std::filesystem::resize_file", "truncate"}
WRITE = (h5.MUTATE - {"H5Fcreate"} - DELETE)
KINDS = {"truncate": {"H5Fcreate"}, "delete": DELETE, "write": WRITE}
VERBS = {"write": "changes a file", "truncate": "creates or truncates a file", "delete": "deletes objects or files"}
RDONLY = 0
# what a Python user calls to change something
PY_WRITERS = ("add", "create", "set_", "expand", "__setitem__", "reserve", "write", "resize", "remove", "insert", "update", "link")


def exempt_edges(c, prog):
    """Calls in validation code that only touch an in-memory scratch file: {function key: {callee key}}"""
    out = {}
    for k, f in prog.functions.items():
        if "body" not in f or component(f) not in ("hdf5", "cxx"):
            continue
        names = calls_in(f)
        if not any(q == "lue::hdf5::create_in_memory_file" for q, *_ in names) or "create_in_memory" in f["q"]:
            continue
        reach = reaching(prog, h5.MUTATE)
        writers = {ck for q, ck, _ in names if ck in reach}
        A = flow.Analysis(prog, opaque=lambda q, key: key in writers or q == "lue::hdf5::create_in_memory_file", inline=lambda fn: False)
        try:
            paths = A.run(f)
        except AnalysisError as e:
            c.note(f"{sig(f)}: {e}")
            continue
        touched = {}
        for p in paths:
            mem = {e.res for e in p.events if e.q == "lue::hdf5::create_in_memory_file"}
            for e in p.events:
                if e.key not in writers:
                    continue
                ok = e.q == "lue::hdf5::create_in_memory_file" or e.args and any(contains(e.args[0], m) for m in mem)
                touched[e.key] = touched.get(e.key, True) and bool(ok)
        out[k] = {ck for ck, ok in touched.items() if ok}
        c.note(f"{sig(f)}: {len(out[k])} of {len(writers)} changing calls only touch an in-memory file")
    return out


def effects(prog, exempt):
    cg = call_graph(prog)
    res = {}
    for kind, names in KINDS.items():
        callers, todo = {}, []
        for k, cs in cg.items():
            for q, ck, _ in cs:
                if ck in exempt.get(k, ()):
                    continue
                callers.setdefault(ck, set()).add(k)
                if q in names:
                    todo.append(k)
        seen = set()
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo += callers.get(k, ())
        for k in seen:
            res.setdefault(k, set()).add(kind)
    return res


def route(prog, k, names, exempt):
    cg = call_graph(prog)
    queue, seen = [(k, ())], {k}
    while queue:
        k, p = queue.pop(0)
        for q, ck, line in cg.get(k, ()):
            if ck in exempt.get(k, ()):
                continue
            if q in names:
                return " -> ".join([prog.functions[x]["q"] for x in p + (k,)] + [q])
            if ck in cg and ck not in seen:
                seen.add(ck)
                queue.append((ck, p + (k,)))
    return ""


def api(prog):
    return {k: f for k, f in prog.functions.items()
            if component(f) in ("hdf5", "cxx", "hl") and "body" in f and "lambda@" not in k and "/test/" not in f["file"]}


def generate():
    """Writes the reviewed table of functions that may change files (run by hand, the result is committed)."""
    prog = lueir.load("hdf5", "cxx", "hl", "py")
    c = Check("H04", "")
    ex = exempt_edges(c, prog)
    eff = effects(prog, ex)
    t = {}
    for k, f in api(prog).items():
        t.setdefault(short(f["q"]), {})[sig(f)] = sorted(eff.get(k, ()))
    json.dump(t, open(SPEC, "w"), indent=0, sort_keys=True)
    return t


def run():
    c = Check("H04", "no function whose task is to open, navigate, query, read or validate can reach, through any chain of calls, a call that creates, writes, resizes, links, "
              "deletes or truncates (calls on the scratch file in memory used by validation excepted); files are opened with the caller's access flags or read-only",
              ["spec/effects.json lists, for every function of the library, which kinds of effect its task includes (reviewed by hand)",
               "calls through function pointers other than visited lambdas and references do not occur in the analysed code"])
    prog = lueir.load("hdf5", "cxx", "hl", "py")
    c.program(prog)
    spec = json.load(open(SPEC))
    byname = {q: set().union(*d.values()) for q, d in spec.items()}
    ex = exempt_edges(c, prog)
    eff = effects(prog, ex)
    for k, f in api(prog).items():
        s = sig(f)
        q = short(f["q"])
        allowed = set(spec[q][s]) if s in spec.get(q, {}) else byname.get(q)
        if allowed is None:
            c.count("new functions (judged through their callers)")
            continue
        for kind in KINDS:
            bad = kind in eff.get(k, ()) and kind not in allowed
            if bad or kind == "write" or kind in eff.get(k, ()):
                c.ob(f"effect {kind}" if bad else "effect", s, not bad, where(f), f"{VERBS[kind]}: {route(prog, k, KINDS[kind], ex)}" if bad else "")
    # Python names
    for b in pyb.bindings(prog):
        if not b["fns"] or b["name"] is None:
            continue
        writer = b["name"].startswith(PY_WRITERS)
        for _, k, _ in b["fns"]:
            e = eff.get(k, set())
            inst = f"{pyb.bound_class(b)}.{b['name']}"
            ok = not e or writer and not (e & {"truncate", "delete"}) or writer and b["name"].startswith(("create_dataset", "create_file", "create_raster_view", "remove"))
            ok = ok or b["name"].startswith("remove") and e <= {"delete"}
            c.ob("python", inst, bool(ok), where(b["fn"], b["line"]), "; ".join(f"{VERBS[x]}: {route(prog, k, KINDS[x], ex)}" for x in e))
    memory_file(c, prog)
    open_modes(c, prog)
    return c.finish({"effect": 500, "python": 150, "open": 5, "in-memory file": 1})


def memory_file(c, prog):
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: q in PURE_HDF5)
    for f in prog.functions.values():
        if f["q"] != "lue::hdf5::create_in_memory_file" or "body" not in f:
            continue
        for p in A.run(f):
            if p.kind != "ret":
                continue
            made = [e for e in p.events if e.q == "H5Fcreate"]
            core = [e for e in p.events if e.q == "H5Pset_fapl_core"]
            ok = bool(made) and all(any(s.args[0] == m.args[3] and s.args[2] in (("int", 0), ("bool", False)) for s in core) for m in made)
            c.ob("in-memory file", sig(f), ok, where(f), "the scratch file is not created by the core driver without backing store")


def open_modes(c, prog):
    near = reaching(prog, {"H5Fopen"})
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: q in PURE_HDF5, inline=lambda f: f["key"] in near or "AccessPropertyList" in f["q"] or "Identifier" in f["q"] or f["q"].endswith("python_mode_to_hdf5_flag"))
    bound = {k: f"{pyb.bound_class(b)}.{b['name']}" for b in pyb.bindings(prog) for _, k, _ in b["fns"]}
    modes = next((f for f in prog.functions.values() if f["q"].endswith("python_mode_to_hdf5_flag")), None)
    for k in sorted(near):
        f = prog.functions.get(k)
        if f is None or "body" not in f or component(f) not in ("hdf5", "cxx", "hl", "python") or "/test/" in f["file"]:
            continue
        last = f["q"].split("::")[-1]
        if component(f) == "python" and k not in bound:
            continue
        inst = bound.get(k, sig(f))
        try:
            paths = A.run(f)
        except AnalysisError as e:
            c.ob("open", inst, None, where(f), str(e))
            continue
        defaults = {i: d for i, d in f.get("defaults", [])}
        for p in paths:
            for e in p.events:
                if e.q != "H5Fopen":
                    continue
                fl = e.args[1]
                while fl[0] == "cast":
                    fl = fl[-1]
                detail = f"opens with flags {show(fl)}"
                if fl[0] in ("int", "op", "enum"):
                    writer = any(x in f["q"] for x in ("create", "add"))
                    ok = fl == ("int", RDONLY) or writer
                    if component(f) == "python" and fl == ("int", 1):
                        ok = any(t[0] == "eq" and v and ("str", "w") in t[1:] for t, v in p.facts.items())
                        detail += " although the mode asked for is not 'w'"
                elif fl[0] == "par":
                    ok = True
                    for i, (n, _, _) in enumerate(f["params"]):
                        if ("par", n) == fl and i in defaults:
                            r = A.ev(defaults[i], flow.State(), A.new_frame(f, ()))
                            v = r[0][1]
                            ok = v == ("int", RDONLY)
                            detail = f"the default access mode is {show(v)}"
                else:
                    ok = None
                c.ob("open", inst, ok, where(f, e.line), detail)
    for f in [modes] if modes else []:
        # mode text -> access flag
        B = flow.Analysis(prog, opaque=lambda q, k: h5_call(q))
        m = ("par", f["params"][0][0])
        for p in B.run(f):
            if p.kind != "ret":
                continue
            yes = [x for t, v in p.facts.items() if t[0] == "eq" and v and m in t[1:] for x in t[1:] if x[0] == "str"]
            want = {"r": ("int", 0), "w": ("int", 1)}
            v = p.value
            while v[0] == "cast":
                v = v[-1]
            ok = (v == want.get(yes[0])) if len(yes) == 1 and yes[0][1] in want else None
            if len(yes) == 1:
                ok = want.get(yes[0][1]) == v
            elif not yes:
                ok = None if v != ("int", 1) else False
            c.ob("open", f"mode {yes[0][1] if yes else '?'} in {sig(f)}", ok, where(f), f"mode {yes} opens with flags {show(v)}")
    for b in pyb.bindings(prog):
        if b["name"] in ("open_dataset", "open_file"):
            text = []
            scan(b["args"], lambda x: text.append(x) if x[0] == "call" and len(x) > 5 and str(x[5]).endswith("arg::operator=") else None)
            for t in text:
                if contains_str(t[2], "mode"):
                    v = []
                    scan(t[3], lambda x: v.append(x[1]) if x[0] == "str" else None)
                    c.ob("open", f"default mode of {b['name']}", (v == ["r"]) if v else None, where(b["fn"], b["line"]), f"the default mode is {v}")


def contains_str(node, s):
    hit = []
    scan([node], lambda x: hit.append(1) if x[0] == "str" and x[1] == s else None)
    return bool(hit)
