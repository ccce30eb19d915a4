"""E01: temporary changes to the error state of libraries are undone; memory allocated for strings is reclaimed once."""
import flow, lueir
from check import Check, where
from G01 import name
from common import *

PUSH, POP = {"CPLPushErrorHandler", "CPLPushErrorHandlerEx", "H5Epush_stack"}, {"CPLPopErrorHandler"}
SAVE = {"H5Eget_auto2": "H5Eset_auto2", "H5Eget_auto1": "H5Eset_auto1", "CPLGetErrorHandler": "CPLSetErrorHandlerEx"}
SET = set(SAVE.values()) | {"H5Eset_auto", "CPLSetErrorHandler"}
RECLAIM = {"H5Dvlen_reclaim", "H5Treclaim"}
API = PUSH | POP | set(SAVE) | SET | RECLAIM
THIS = ("this",)


def called(x):
    return {q for q, _, _ in calls_in(x) if q in API}


def strip(t):
    """A library handle is known by the object that holds it."""
    while t[0] in ("app", "new") and (t[0] == "app" and t[1].split("::")[-1] in ("id", "operator()", "get", "operator long", "move") and t[2] or t[0] == "new" and len(t[3]) == 1):
        t = t[2][0] if t[0] == "app" else t[3][0]
    return t


def ends(prog, f):
    A = flow.Analysis(prog, opaque=lambda q, k: q in API or component(prog.functions.get(k, {"file": ""})) == "other", pure=lambda q, k: q not in API)
    A.keeps = SET
    return A, [p for p in A.run(f) if p.kind in ("ret", "throw")]


def run():
    c = Check("E01", "each class that changes the error state of a library, or that owns memory of a library, saves in its constructors what its destructor gives back, on all paths, and cannot be copied if that would "
              "happen twice; all objects of these classes are variables or members (not temporaries); elsewhere such changes are balanced on each path; and the memory given back is that which was read",
              ["handlers installed by the initialisation of the Python module are meant to stay"])
    prog = lueir.load("hdf5", "cxx", "hl", "gdal", "py", "qa", "pytop")
    c.program(prog)
    users = {k: f for k, f in prog.functions.items() if "body" in f and component(f) != "other" and "/test/" not in f["file"] and called(f)}
    if not users:
        raise lueir.AnalysisError("anchor not found: functions that change the error state of libraries")
    dtor = {f["cls"]: f for f in users.values() if "::~" in f["q"]}
    guards = set(dtor)
    # Classes that change the state without a destructor that undoes it
    for f in users.values():
        if f.get("ctor") and f.get("cls") and f["cls"] not in guards and called(f) & (PUSH | SET):
            c.ob("restored", f["cls"].replace("lue::", ""), False, where(f), "the error state is changed by a constructor and not restored by the destructor")

    for cls in sorted(guards):
        d, short = dtor[cls], cls.replace("lue::", "")
        methods = prog.classes[cls]["methods"]
        A, ps = ends(prog, d)
        undo = [[e for e in p.events if e.q in API] for p in ps]
        counted = {q for es in undo for e in es for q in [e.q]}
        fields = [n for n, _, _ in prog.classes[cls]["fields"]]
        field = lambda t: t[2] if t[0] == "fld" and t[1] == THIS else None
        once = {len([e for e in es if e.q in POP | SET | RECLAIM]) for es in undo}
        c.ob("restored", short + ": by the destructor", once == {1}, where(d), f"{sorted(once)} calls of {', '.join(sorted(counted))} on its paths")
        ctors = [prog.functions[m[0]] for m in methods if m[0] in prog.functions and prog.functions[m[0]].get("ctor") and "body" in prog.functions[m[0]] and not prog.functions[m[0]].get("copymove")]
        for f in ctors:
            if any(i[0] == "d" and i[2][2] == cls for i in f.get("inits") or []):
                continue        # leaves it to another constructor
            c.count("constructors analysed")
            B, qs = ends(prog, f)
            for p in qs:
                if p.kind != "ret":
                    n = sum(e.q in PUSH for e in p.events) - sum(e.q in POP for e in p.events)
                    c.ob("restored", short + ": failing constructor", n == 0, where(f), "the constructor throws after it changed the state: its destructor is not called")
                    continue
                evs = [e for e in p.events if e.q in API]
                obj = B.read(p.st, ("lv", ("m", THIS), ()))
                if counted & POP:
                    n = sum(e.q in PUSH for e in evs) - sum(e.q in POP for e in evs)
                    c.ob("restored", short + ": by constructor", n == 1, where(f), f"{n} handlers are pushed, one is popped by the destructor")
                for es in undo:
                    for e in es:
                        if e.q in SET:
                            # The arguments are members that still hold what was asked for before the change
                            gets = [(i, x) for i, x in enumerate(evs) if SAVE.get(x.q) == e.q]
                            sets = [i for i, x in enumerate(evs) if x.q in SET]
                            if not gets:
                                c.ob("restored", short + ": saved state", False, where(f), f"the state restored by {e.q} is not saved by the constructor")
                                continue
                            c.ob("restored", short + ": saved state", not sets or gets[0][0] < sets[0], where(f), "the state is saved after it has been changed")
                            for i, a in list(enumerate(e.args))[1:]:
                                n = field(a)
                                held = B.select(p.st, obj, ("f", n)) if n else None
                                ok = None if held is None else held[0] == "out" and held[1] == i and held[2][0] == "app" and held[2][1] == gets[0][1].q
                                c.ob("restored", short + f": argument {i}", False if n is None and a[0] in ("nullptr", "null", "int") else ok, where(d), f"{show(a)} holds {show(held) if held else 'something else'} instead of the saved state")
                            n, given = field(strip(e.args[0])), strip(gets[0][1].args[0])
                            held = B.select(p.st, obj, ("f", n)) if n else None
                            c.ob("restored", short + ": error stack", (e.args[0] == gets[0][1].args[0] or (False if e.args[0][0] in ("int", "glob") else None)) if held is None else held == given or given == ("fld", THIS, n) or strip(held) == given, where(d), f"restored for {show(e.args[0])}, saved for {show(gets[0][1].args[0])}")
                        if e.q in RECLAIM:
                            for i, a in ((0, e.args[0]), (1, e.args[1]), (3, e.args[3])):
                                n = field(strip(a))
                                held = B.select(p.st, obj, ("f", n)) if n else None
                                par = {0: "Datatype", 1: "Dataspace", 3: "void *"}[i]
                                given = [("par", x) for x, _, t in f["params"] if par in t]
                                ok = None if held is None or not given else strip(held) == given[0]
                                c.ob("reclaimed", short + f": argument {i}", ok, where(d), f"{show(a)} does not hold {show(given[0]) if given else 'the argument of the constructor'}")
        if counted & (POP | RECLAIM):
            # Copies would undo twice
            special = {m[0]: m for m in methods if prog.functions.get(m[0], {}).get("copymove") or "::operator=(" in m[0]}
            for k, m in sorted(special.items()):
                c.ob("copies", m[0].replace("lue::", ""), bool(m[5]), where(d), "objects can be copied or moved: both destructors undo the change")
            if not special:
                c.ob("copies", short, False, where(d), "copies are not prevented: each destructor undoes the change")

    # Objects of these classes live in variables and members
    for k, f in sorted(prog.functions.items()):
        if component(f) == "other" or "/test/" in f["file"] or "body" not in f:
            continue
        temporaries(c, prog, f, f["body"], guards)

    for k, f in sorted(users.items()):
        if f.get("cls") in guards:
            continue
        if called(f) <= RECLAIM:
            c.ob("reclaimed", name(f), None, where(f), "memory is reclaimed outside of a guard")
            continue
        if component(f) == "python" and not called(f) & set(SAVE) and not called(f) & (PUSH | POP):
            c.ob("balanced", name(f), True, where(f))        # meant to stay
            continue
        A, ps = ends(prog, f)
        for p in ps:
            es = [e for e in p.events if e.q in API]
            n = sum(e.q in PUSH for e in es) - sum(e.q in POP for e in es)
            c.ob("balanced", name(f), n == 0, where(f), f"{n} error handlers are left behind when the function {'returns' if p.kind == 'ret' else 'throws'}")
            sets = [e for e in es if e.q in SET]
            if sets:
                saved = any(e.q in SAVE for e in es)
                last = sets[-1]
                ok = saved and len(sets) > 1 and any(contains(a, "out") or a[0] == "out" for a in last.args)
                c.ob("balanced", name(f), ok, where(f), f"the error handler is left changed when the function {'returns' if p.kind == 'ret' else 'throws'}")
        # Calls that may throw between the change and its undoing
        push = [l for q, _, l in calls_in(f) if q in PUSH | SET]
        pop = [l for q, _, l in calls_in(f) if q in POP | SET]
        if push and pop:
            risky = [q for q, k2, l in calls_in(f) if min(push) < l < max(pop) and q.startswith("lue::")]
            c.ob("balanced", name(f) + " when a call throws", not risky, where(f), f"{', '.join(sorted(set(risky))[:3])} may throw before the error state is restored")

    reads(c, prog, guards, dtor)
    return c.finish({"restored": 3, "copies": 2, "reclaimed": 1, "lives long enough": 0})


def temporaries(c, prog, f, body, guards):
    def walk(x, held):
        if not isinstance(x, (list, dict)):
            return
        if isinstance(x, dict):
            for y in x.values():
                walk(y, False)
            return
        if x and x[0] == "v" and len(x) > 4 and x[3] in guards:
            c.count("objects of these classes")
            c.ob("lives long enough", f"{x[3].replace('lue::', '')} in {name(f)}", True, where(f))
            for y in x[5:] if x[4] is None else x[4][3] if isinstance(x[4], list) and len(x[4]) > 3 else []:
                walk(y, False)
            return
        if x and x[0] == "ctor" and len(x) > 3 and x[2] in guards:
            c.count("objects of these classes")
            c.ob("lives long enough", f"{x[2].replace('lue::', '')} in {name(f)}", False, where(f), "a temporary object: the change is undone at once")
        for y in x:
            walk(y, False)
    walk(body, False)


def buffer_of(t):
    while t[0] == "out" and t[2][0] == "app" and t[2][2] and t[2][1].split("::")[-1] == "read":
        t = t[2][2][-1]     # the object in which the read placed the values
    return buffer_of(t[2][0]) if t[0] == "app" and t[1].split("::")[-1] in ("get", "data") and t[2] else t


def reads(c, prog, guards, dtor):
    """Memory allocated by a read is reclaimed for the buffer, type and extent of that read."""
    owners = {g for g in guards if called(dtor[g]) & RECLAIM}
    for k, f in sorted(prog.functions.items()):
        if component(f) == "other" or "body" not in f or "/test/" in f["file"]:
            continue
        made = [(q, k2) for q, k2, _ in constructed(f["body"]) if q in owners]
        strings = "char *[]" in str(f["body"]) or "vector<char *" in str(f["body"]) or "unique_ptr<char *" in str(f["body"])
        if not made and not strings:
            continue
        A = flow.Analysis(prog, opaque=lambda q, k2: True, pure=lambda q, k2: not any(q.startswith(o) for o in owners) and q.split("::")[-1] != "read", qualify=True)
        try:
            ps = A.run(f)
        except (lueir.AnalysisError, flow.TooComplex) as e:
            c.ob("reclaimed", name(f), None, where(f), str(e))
            continue
        short = lambda e: e.q.rsplit("::", 1)[0]
        seen = set()
        for p in ps:
            for i, e in enumerate(p.events):
                if e.q.split("::")[-1] == "read" and (any(short(x) in owners for x in p.events) or any("<char *" in t[1] for t in terms(e.args) if t[0] in ("app", "new", "init"))):
                    own = [x for x in p.events if short(x) in owners]
                    x = next((x for x in own if buffer_of(x.args[-1]) == buffer_of(e.args[-1])), None)
                    buffers = x is not None
                    if (e.line, show(e.args[-1])) in seen:
                        continue
                    seen.add((e.line, show(e.args[-1])))
                    c.ob("reclaimed", name(f) + ": buffer", buffers, where(f), f"strings are read into {show(e.args[-1])}, {'the memory of ' + show(own[0].args[-1]) if own else 'no memory'} is reclaimed")
                    if not buffers:
                        continue
                    types = [a for a in e.args if "datatype" in show(a).lower()]
                    if types:
                        c.ob("reclaimed", name(f) + ": type", types[0] == x.args[0], where(f), f"read as {show(types[0])}, reclaimed as {show(x.args[0])}")
                    space = x.args[1]
                    shape = space[2][0] if space[0] == "app" and space[1].endswith("create_dataspace") and space[2] else None
                    number = extent(x.args[2])
                    ok = None
                    if shape is None:
                        # The extent of another object than the buffer
                        ok = False if space[0] == "app" and space[1].split("::")[-1] == "dataspace" and number is not None and not contains(number, space) else None
                    elif number is not None:
                        if shape[0] in ("init", "new"):
                            while shape[0] == "new" and shape[3]:
                                shape = shape[3][0]
                            its = shape[2] if shape[0] == "init" else ()
                            ok = len(its) == 1 and contains(number, its[0]) or None
                        elif number[0] in ("app", "at") and "operator[]" in show(number) or number[0] == "at":
                            ok = contains(number, shape) and any(b and t[0] == "eq" and ("int", 1) in t[1:] and contains(t, shape) for t, b in p.facts.items()) or (False if not contains(number, shape) else None)
                        else:
                            ok = True if contains(number, shape) else None
                    c.ob("reclaimed", name(f) + ": extent", ok, where(f), f"{show(number) if number else 'an unknown number of'} strings are read, {show(space)} is reclaimed")


def extent(t):
    """Number of elements of a buffer."""
    for x in terms(t):
        if x[0] == "app" and x[1].startswith("std::make_unique") and len(x[2]) == 1:
            return x[2][0]
        if x[0] == "app" and x[1].split("::")[-1] == "data" and x[2]:
            return ("app", "size", (x[2][0],))
    return None


def constructed(x):
    if isinstance(x, list):
        if x and x[0] == "ctor" and len(x) > 2 and isinstance(x[2], str):
            yield x[2], x[1], 0
        for y in x:
            yield from constructed(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from constructed(y)
