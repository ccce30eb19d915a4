"""P02: NumPy element types and stored element types correspond, in kind and width, wherever elements or types pass between them."""
import flow
from check import Check, where, short, VERIF
from common import *
from model import Model, H
import types_, pyarrays, pyb
from pyarrays import *

NUMPY = {ord("i"): "i", ord("u"): "u", ord("f"): "f", ord("U"): "s", ord("S"): "s", ord("b"): "b", ord("c"): "c"}
DTYPE = "pybind11::dtype"


def run():
    c = Check("P02", "the tables between NumPy types and stored types preserve kind and width for all ten types and refuse other types; each transfer between an array and memory uses the type of the memory; "
              "each type can be read and written with each kind of index",
              ["pybind11::array_t<T> is memory with elements of type T", "HDF5 converts between the stored type and the memory type it is given"])
    m = Model("hdf5", "cxx", "hl", "py")
    c.program(m.prog)
    X = Arrays(m)
    tables(c, m, X)
    transfers(c, X)
    return c.finish({"stored": 11, "reported": 5, "transfer": 30, "reads": 12, "writes": 12})


def tables(c, m, X):
    P = m.prog
    for f in P.functions.values():
        if component(f) != "python" or "body" not in f or len(f["params"]) != 1:
            continue
        par, ret = bare(f["params"][0][2]), bare(f["ret"])
        if (par, ret) == (DTYPE, H + "Datatype"):
            stored(c, X, f)
        elif (par, ret) == (H + "Datatype", DTYPE):
            reported(c, X, f)
    inverse = {f["q"] for f in P.functions.values() if component(f) == "python" and len(f["params"]) == 1 and (bare(f["params"][0][2]), bare(f["ret"])) == (H + "Datatype", DTYPE)}
    n = 0
    for b in pyb.bindings(P):
        if b["name"] != "dtype" or pyb.bound_class(b) != "lue::data_model::Array":
            continue
        for kind, k, _ in b["fns"]:
            f = P.functions.get(k)
            if f is None or "body" not in f:
                continue
            A = flow.Analysis(P, opaque=lambda q, k: q.startswith("pybind11::") or q in inverse or h5_call(q), pure=lambda q, k: q in PURE_HDF5)
            n += 1
            self = ("par", f["params"][0][0])
            for p in A.run(f):
                if p.kind != "ret":
                    continue
                calls = [e for e in p.events if e.q in inverse]
                ok = None
                if calls:
                    a = calls[-1].args[0]
                    ok = contains(a, self)
                c.ob("reported", "an array reports the type of its own elements", ok, where(f), "the reported type is not that of the array")
    if not n:
        raise AnalysisError("no dtype property of an array")


def stored(c, X, f):
    A, ps = X.paths(f)
    par = ("par", f["params"][0][0])
    if ps is None:
        raise AnalysisError(f"{f['q']} is too complex")
    seen = {}
    for p in ps:
        kind, size, other = None, None, set()
        for t, v in p.facts.items():
            if t[0] != "eq":
                continue
            for a, b in (t[1:], t[1:][::-1]):
                if a[0] == "app" and a[2] == (par,) and b[0] == "int":
                    last = a[1].split("::")[-1]
                    if last in ("kind", "char_") and v:
                        kind = NUMPY.get(b[1])
                    elif last == "itemsize" and v:
                        size = b[1] * 8
                    elif last == "kind":
                        other.add(NUMPY.get(b[1]))
        if p.kind == "ret":
            got = types_.hdf5_of(A.as_value(p.st, p.value))
            text = any(x[0] == "app" and x[1] == H + "create_string_datatype" for x in terms(A.as_value(p.st, p.value)))
            if text:
                got = ("s", 0, "text")
            if kind in ("b", "c"):
                c.ob("stored", "other NumPy types are refused", False, where(f), f"a NumPy type without counterpart is stored{' as ' + types_.words(got) if got else ''}")
                continue
            if kind is None or got is None or (size is None and kind != "s"):
                c.ob("stored", f"{sig(kind, size)}", None, where(f), "the NumPy type or the stored type is not known")
                continue
            want = ("s", 0) if kind == "s" else (kind, size)
            seen.setdefault(want, True)
            ok = got[:2] == want and (want[0] == "s" or got[2] == "native")
            seen[want] = seen[want] and ok
            c.ob("stored", f"elements of NumPy type {types_.words(want)}", ok, where(f), f"NumPy type {types_.words(want)} is stored as {types_.words(got)}")
    unknown = any(r[2] is None for r in c.obs if r[0] == "stored") if hasattr(c, "obs") else False
    for t in types_.NUMERIC + [("s", 0)]:
        c.ob("stored", f"{types_.words(t)} can be stored", (t in seen) or (None if unknown else False), where(f), f"NumPy type {types_.words(t)} is refused")
    raised = any(p.kind == "throw" for p in ps)
    fall = [p for p in ps if p.kind == "ret" and not any(v for t, v in p.facts.items() if t[0] == "eq")]
    c.ob("stored", "other NumPy types are refused", raised and not fall, where(f), "a NumPy type without counterpart is not refused")


def sig(kind, size):
    return f"elements of NumPy kind {kind}, {size} bits"


def reported(c, X, f):
    A, ps = X.paths(f)
    if ps is None:
        raise AnalysisError(f"{f['q']} is too complex")
    par = ("par", f["params"][0][0])
    got, unknown = {}, False
    for p in ps:
        if p.kind != "ret":
            continue
        v = A.as_value(p.st, p.value)
        rows = entries(v)
        if rows:
            for a, b in rows:
                got.setdefault(a, set()).add(b)
            continue
        eq = [k for k, val in equal_types(p).items() if val]
        to = dtype_of(v)
        if len(eq) == 1 and to is not None:
            got.setdefault(eq[0], set()).add(to)
        else:
            unknown = True
    for t in types_.NUMERIC:
        ok = got[t] == {t} if t in got else None if unknown else False
        c.ob("reported", f"elements of type {types_.words(t)}", ok, where(f), f"{types_.words(t)} is reported as " + (", ".join(types_.words(x) for x in got[t]) if t in got else "unsupported"))
    for t in set(got) - set(types_.NUMERIC):
        c.ob("reported", f"elements of type {types_.words(t)}", None, where(f), "not an element type of arrays")
    c.ob("reported", "other types are refused", any(p.kind == "throw" for p in ps), where(f), "a type without NumPy counterpart is not refused")


def dtype_of(t):
    hit = set()
    for x in terms(t):
        if x[0] == "app" and x[1].startswith("pybind11::dtype::of<"):
            hit.add(types_.cxx(x[1][len("pybind11::dtype::of<"):-1]))
    return hit.pop() if len(hit) == 1 else None


def entries(t):
    """Rows of a table between types"""
    out = []
    for x in terms(t):
        items = x[1] if x[0] == "tuple" else x[2] if x[0] == "init" else x[3] if x[0] == "new" else ()
        if len(items) == 2 and all(isinstance(i, tuple) and i for i in items):
            a, b = types_.hdf5_of(items[0]), dtype_of(items[1])
            if a is not None and b is not None and (a[:2], b) not in out:
                out.append((a[:2], b))
    return out


def transfers(c, X):
    readable, writable, n = {}, {}, 0
    for b, f in X.bindings:
        A, ps = X.paths(f)
        index = words_of(f)
        if ps is None:
            c.ob("transfer", f"{b['name']} with {index}", None, where(f), "too complex")
            continue
        c.count("paths", len(ps))
        typed = [element(t) for _, _, t in f["params"] if element(t)]
        got = {}
        for s in X.sites(f, b):
            n += 1
            to = X.pointee(s.buffer, f["file"])
            if to == "parameter":
                ty = [t for nm, _, t in f["params"] if requested(s.buffer) == ("par", nm)]
                to = element(ty[0]) if ty else None
            explicit = types_.hdf5_of(s.datatype) if s.datatype is not None else None
            own = s.datatype is not None and explicit is None and contains(s.datatype, s.object)
            facts = [k for k, v in equal_types(s.p).items() if v]
            if explicit is not None:
                kind = explicit[:2]
            elif own and len(facts) == 1:
                kind = facts[0]
            elif own and is_text(s.p):
                kind = ("s", 0)
            else:
                kind = None
            if to is None:
                ok, why = None, "the type of the memory is not known"
            elif kind is None and own and to != ("s", 0):
                ok, why = False, f"elements of any type are moved as {types_.words(to)}"
            elif kind is None:
                ok, why = (True, "") if own and s.kind == "write" and not typed else (None, "the type of the elements is not known")
            else:
                ok, why = kind == to, f"elements of type {types_.words(kind)} are moved to or from memory for {types_.words(to)}"
            got.setdefault(to, []).append(ok)
            number = {"pybind11::int_": "i", "pybind11::float_": "f"}.get(bare(f["params"][-1][2]))
            if number and b["name"] == "__setitem__" and to is not None and kind is not None:
                c.ob("numbers", f"{b['name']} with {index}: a Python number is not narrowed", kind == (number, 64), where(f, s.e.line), f"a Python number is moved as {types_.words(kind)}")
            c.ob("transfer", f"{b['name']} with {index}: {s.kind} {types_.words(to) if to else '?'}", ok, where(f, s.e.line), why)
            if s.kind == "read" and s.p.kind == "ret" and to is not None:
                v = A.as_value(s.p.st, s.p.value)
                src = requested(s.buffer)
                ok = contains(v, src) if src is not None else result(v, to) if to != ("s", 0) else None if not any(x[0] == "new" and "pybind11::array" in str(x[1]) for x in terms(v)) else True
                c.ob("returned", f"{b['name']} with {index}: {types_.words(to)}", ok, where(f, s.e.line), f"elements that are read as {types_.words(to)} are not what is returned")
        if b["name"] == "__getitem__":
            for t in types_.NUMERIC:
                unknown = any(k is None for k in got)
                c.ob("reads", f"{types_.words(t)} with {index}", (t in got) or (None if unknown else False), where(f), f"elements of type {types_.words(t)} cannot be read")
        else:
            for t in typed:
                writable.setdefault(index, {})[t] = f
            if typed:
                ok = bool(got) or False
                c.ob("transfer", f"{b['name']} with {index}: {types_.words(typed[0])} is written", ok, where(f), "nothing is written")
    for index, ts in writable.items():
        f = next(iter(ts.values()))
        for t in types_.NUMERIC:
            c.ob("writes", f"{types_.words(t)} with {index}", t in ts, where(f), f"elements of type {types_.words(t)} cannot be written with {index}")
    c.count("transfers", n)


def result(v, to):
    """Whether a returned array has the type of the value read"""
    hit = {element(x[1]) for x in terms(v) if x[0] == "new" and element(str(x[1]))}
    of = dtype_of(v)
    if of is not None:
        hit.add(of)
    return hit == {to} if hit else None


def is_text(p):
    for t, v in p.facts.items():
        if v and t[0] == "eq" and any(x[0] == "app" and x[1] == "H5Tget_class" for x in terms(t)):
            return True
    return False


def words_of(f):
    t = bare(f["params"][1][2])
    if t.startswith("std::vector"):
        return "a tuple"
    return {"pybind11::slice": "a slice", "pybind11::int_": "an integer", "long": "an integer"}.get(t, t)


if __name__ == "__main__":
    raise SystemExit(run())
