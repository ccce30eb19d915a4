"""Helpers shared by the checks."""
import flow, lueir, check
from flow import show, subterms
from lueir import AnalysisError

PURE_HDF5 = {
    "lue::hdf5::Identifier::is_valid", "lue::hdf5::Identifier::pathname", "lue::hdf5::PrimaryDataObject::pathname",
    "lue::hdf5::File::pathname", "lue::hdf5::Datatype::is_native",
}


def h5_call(q):
    return q.startswith("H5") and "::" not in q and q not in ("H5open", "H5check_version")


def scan(x, visit):
    """Visits every expression/statement node of an extracted body."""
    if isinstance(x, (list, tuple)):
        if x and isinstance(x[0], str):
            visit(x)
        for y in x:
            if isinstance(y, (list, tuple)):
                scan(y, visit)


def calls_in(fn):
    """Qualified names of everything a function mentions as called, constructed or passed as function."""
    names = []

    def visit(n):
        if n[0] == "call" and len(n) > 5 and isinstance(n[5], str):
            names.append((n[5], n[1], n[4]))
        elif n[0] == "fn" and len(n) > 2 and isinstance(n[1], str):
            names.append((n[1], n[2], 0))
        elif n[0] == "lambda":
            names.append((n[1] + "::operator()", n[2], n[4] if len(n) > 4 and isinstance(n[4], int) else 0))
        elif n[0] in ("ctor", "inherited") and len(n) > 4 and isinstance(n[1], str):
            names.append((n[1].split("(")[0], n[1], n[4] if isinstance(n[4], int) else 0))
    scan(fn.get("body"), visit)
    scan(fn.get("inits"), visit)
    return names


def component(fn):
    f = lueir.rel(fn["file"])
    for c in ("hdf5", "cxx", "hl", "gdal", "python"):
        if f.startswith(f"source/data_model/{c}/"):
            return c
    if f.startswith("source/quality_assurance/"):
        return "qa"
    return "other"


def decided(facts, atom):
    """Truth of an atom on a path, None when unknown."""
    if atom == flow.TRUE:
        return True
    if atom == flow.FALSE:
        return False
    if atom[0] == "not":
        r = decided(facts, atom[1])
        return None if r is None else not r
    return facts.get(atom)


def contains(t, sub):
    return any(x == sub for x in subterms(t))


def call_graph(prog):
    """function key -> [(qualified name, key, line)]"""
    if getattr(prog, "_cg", None) is None:
        prog._cg = {k: calls_in(f) for k, f in prog.functions.items()}
    return prog._cg


def reaching(prog, names):
    """Keys of the functions from which a call of one of `names` can be reached."""
    pred = names if callable(names) else (lambda q: q in names)
    cg = call_graph(prog)
    callers = {}
    todo = []
    for k, cs in cg.items():
        for q, ck, _ in cs:
            callers.setdefault(ck, set()).add(k)
            if pred(q):
                todo.append(k)
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        todo += callers.get(k, ())
    return seen


# ------------------------------------------------------------------ sequences of extents

SEQS = {"Shape", "Offset", "Count", "Stride", "vector"}


def seq(t):
    """Normal form of a container of extents: ("items", …), ("rep", n, v), ("dims", space), ("upd", s, k, v) or the term itself."""
    def ctor(x):
        if x[0] == "new":
            return x[2]
        return None
    if t[0] == "app" and t[1] in ("begin", "data", "cbegin", "size"):
        return seq(t[2][0])
    if t[0] == "out" and len(t) > 2 and t[2][0] == "app" and t[2][1] in ("H5Sget_simple_extent_dims",):
        return ("dims", t[2][2][0])
    if t[0] == "upd":
        k = t[2]
        return ("upd", seq(t[1]), k, t[3])
    if t[0] == "init":
        return ("items",) + tuple(t[2])
    if t[0] == "new":
        a = [x for x in t[3] if not (x[0] in ("new", "init") and "allocator" in str(x[1]))]
        if not a:
            return ("items",)
        if len(a) == 2 and a[0][0] == "app" and a[0][1] in ("begin", "cbegin") and a[1][0] == "app" and a[1][1] in ("end", "cend") \
                and a[0][2][0] == a[1][2][0]:
            return seq(a[0][2][0])
        if len(a) == 1 and a[0][0] in ("init", "new", "out", "upd", "fld"):
            return seq(a[0])
        if len(a) in (1, 2):
            return ("rep", a[0], a[1] if len(a) == 2 else flow.ZERO)
    return t


def terms(t):
    """Sub-terms that have a constructor and arguments."""
    return (x for x in subterms(t) if len(x) > 1 and isinstance(x[0], str))


def members_set_first(c, prog, components):
    """Members that initialise other members (or themselves) in a constructor have a value by then."""
    from check import where, sig

    def nodes(x):
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                if x[0] == "lambda":
                    return
                yield x
            for y in x:
                yield from nodes(y)

    for f in prog.functions.values():
        if not f.get("ctor") or f.get("implicit") or f.get("copymove") or not f.get("inits") or component(f) not in components or "/test/" in f["file"]:
            continue
        fields = {x[0] for x in (prog.classes.get(f["cls"]) or {"fields": []})["fields"]}
        done = set()
        for i in f["inits"]:
            for n in nodes(i[2]) if len(i) > 2 else ():
                if n[0] == "mem" and n[1] == ["this"] and n[2] in fields:
                    c.ob("members", f"{sig(f)}: {i[1] if i[0] == 'f' else 'base'}", n[2] in done, where(f), f"is initialised with {n[2]}, which has no value yet")
            if i[0] == "f":
                done.add(i[1])
