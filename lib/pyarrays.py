"""How the bindings of an array in the Python package select, read and write elements."""
import re
import flow, pyb
from common import *
import types_
from model import H

READ, WRITE, FILL, SPACE, SHAPE = H + "Dataset::read", H + "Dataset::write", H + "Dataset::fill", H + "create_dataspace", H + "Dataset::shape"
OPAQUE = {READ, WRITE, FILL, SPACE, SHAPE, H + "create_string_datatype"}
PURE_PY = {"kind", "itemsize", "dtype", "of"}


def parameters(key):
    """Parameter types a function key mentions"""
    i = key.index("(", key.rfind("::lambda@") + 1 if "::lambda@" in key else 0)
    depth, out, cur = 0, [], ""
    for ch in key[i + 1:]:
        if ch == ")" and depth == 0:
            break
        depth += (ch in "<([") - (ch in ">)]")
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return [x for x in out + [cur.strip()] if x]


def bare(t):
    t = re.sub(r"\bconst\b", "", t).strip()
    while t and t[-1] in "&* ":
        t = t[:-1]
    return t.strip()


def element(t):
    """Kind and width of the elements of a NumPy array type, None when it is not typed"""
    t = bare(t)
    if not t.startswith("pybind11::array_t<"):
        return None
    return types_.cxx(t[len("pybind11::array_t<"):].rsplit(",", 1)[0])


class Site:
    """One transfer of elements on one path"""

    def __init__(self, binding, f, A, p, e):
        self.binding, self.f, self.A, self.p, self.e = binding, f, A, p, e
        self.kind = e.q.split("::")[-1]
        self.object = e.args[0]
        named = dict(zip([bare(t) for t in parameters(e.key)], e.args[1:]))
        self.datatype = named.get(H + "Datatype")
        self.space = named.get(H + "Dataspace")
        self.slab = named.get(H + "Hyperslab")
        self.buffer = e.args[-1]


class Arrays:
    def __init__(self, model, unroll=0):
        self.unroll = unroll        # number of indices of a tuple that are followed one by one
        self.prog = P = model.prog
        self.reach = reaching(P, {READ, WRITE, FILL})
        self.bindings = []
        for b in pyb.bindings(P):
            for kind, k, _ in b["fns"]:
                f = P.functions.get(k)
                if f is None or "body" not in f or component(f) != "python" or b["name"] not in ("__getitem__", "__setitem__"):
                    continue
                if k in self.reach and pyb.bound_class(b) in {"lue::data_model::Array"}:
                    self.bindings.append((b, f))
        self.types = {}
        self.done = {}
        parts = {p: part(P, p) for p in ("start", "stride", "count")}
        self.part = parts

    def analysis(self):
        A = flow.Analysis(self.prog, opaque=lambda q, k: q.startswith("pybind11::") or q in OPAQUE or h5_call(q) or q.startswith(("Py", "_Py")),
                          pure=lambda q, k: q in PURE_HDF5 or q == SHAPE or q.startswith("pybind11::") and q.split("::")[-1] in PURE_PY, qualify=True)
        A.max_steps = 900000
        return A

    def paths(self, f):
        if f["key"] not in self.done:
            A = self.analysis()
            if self.unroll and bare(f["params"][1][2]).startswith("std::vector"):
                size = ("app", "size", (("par", f["params"][1][0]),))
                A.unroll = (self.unroll, lambda bound: bound == size)
            try:
                self.done[f["key"]] = (A, A.run(f))
            except flow.TooComplex:
                self.done[f["key"]] = (A, None)
        return self.done[f["key"]]

    def sites(self, f, binding=None):
        A, ps = self.paths(f)
        for p in ps or ():
            for e in p.events:
                if e.q in (READ, WRITE, FILL):
                    yield Site(binding, f, A, p, e)

    # ---------------------------------------------------------------- types of local variables

    def variable(self, file, vid):
        """Declared type of a local variable or parameter"""
        if file not in self.types:
            m = self.types[file] = {}
            for f in self.prog.functions.values():
                if f["file"] != file:
                    continue
                for n, i, t in f["params"]:
                    m.setdefault(i, set()).add(t)

                def visit(x):
                    if x[0] == "decl" and len(x) > 1:
                        for v in x[1]:
                            if v[0] == "v":
                                m.setdefault(v[2], set()).add(v[3])
                scan(f.get("body"), visit)
        got = {bare(t) for t in self.types[file].get(vid, ())}
        return got.pop() if len(got) == 1 else None

    def pointee(self, t, file):
        """Kind and width of the elements a buffer term points at; None when that is not known"""
        if t[0] == "cast":
            return self.pointee(t[-1], file)
        if t[0] == "addr" and t[1][0] == "lv" and t[1][1][0] == "v":
            ty = self.variable(file, t[1][1][-1])
            return types_.cxx(ty) if ty else None
        v = requested(t)
        if v is not None:
            if v[0] == "new":
                return element(v[1])
            if v[0] == "par":
                return "parameter"
        if t[0] in ("addr", "phi"):
            for x in terms(t):
                if x[0] == "new" and str(x[1]).startswith("char *[]"):
                    return ("s", 0)
        return None


def requested(t):
    """The NumPy array whose memory a buffer term is, None when it is something else"""
    while t[0] == "cast":
        t = t[-1]
    if t[0] == "fld" and t[2] == "ptr" and t[1][0] == "app" and t[1][1] == "pybind11::buffer::request":
        return t[1][2][0]
    if t[0] == "app" and t[1].split("<")[0].split("::")[-1] in ("data", "mutable_data") and t[1].startswith("pybind11::array"):
        return t[2][0]
    return None


def ensured(v):
    """The array behind a contiguous copy of it"""
    if v[0] == "app" and v[1].split("<")[0].endswith("::ensure") and v[2]:
        return v[2][0]
    return v


def equal_types(p):
    """Element types that the path compared the elements of an array with: {(kind, width): outcome}"""
    out = {}
    for t, v in p.facts.items():
        es = [x for x in terms(t) if x[0] == "app" and x[1] == "H5Tequal"]
        if len(es) != 1 or t[0] not in ("lt", "not", "eq", "ne"):
            continue
        if t != ("lt", flow.ZERO, es[0]):
            continue
        for a in es[0][2]:
            k = types_.hdf5_of(a)
            if k is not None and k[2] == "native":
                out[k[:2]] = v
    return out


def part(P, name):
    """Name of the member that a part of a hyperslab is kept in"""
    for k, f in P.functions.items():
        if f["q"] == H + "Hyperslab::" + name and "body" in f:
            A = flow.Analysis(P, opaque=lambda q, k: False, pure=lambda q, k: False)
            for p in A.run(f):
                v = p.value
                for x in subterms(v):
                    if isinstance(x, tuple) and len(x) == 2 and x[0] == "f":
                        return x[1]
                for x in terms(v):
                    if x[0] == "fld" and x[1] == ("this",):
                        return x[2]
    raise AnalysisError(f"no Hyperslab::{name}")
