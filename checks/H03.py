"""H03: array reads and writes hand the library exactly the requested selection, types and buffer."""
import flow, lueir
from check import Check, where, sig
from common import *

READ, WRITE = "H5Dread", "H5Dwrite"
XFER = ("glob", "H5P_CLS_DATASET_XFER_ID_g")
ALL = (("int", 0), ("cast", "int", ("int", 0)))


def root(t):
    while t[0] in ("fld",):
        t = t[1]
    return t


def member_path(t):
    p = []
    while t[0] == "fld":
        p.append(t[2])
        t = t[1]
    return t, tuple(reversed(p))


class Names:
    """Which members the accessors of the selection types expose."""

    def __init__(self, prog, A):
        self.prog, self.A = prog, A

    def getter(self, q):
        for f in self.prog.functions.values():
            if f["q"] == q and "body" in f and not f["params"] and f.get("const"):
                ps = [p for p in self.A.run(f) if p.kind == "ret"]
                if len(ps) == 1:
                    return self.A.as_value(ps[0].st, ps[0].value)
        raise AnalysisError(f"{q} not found or not a plain accessor")

    def of(self, q, obj):
        t = self.getter(q)

        def sub(x):
            if x == ("this",):
                return obj
            return tuple(sub(y) if isinstance(y, tuple) else y for y in x)
        return sub(t)


def same_seq(a, b):
    """True/False/None"""
    a, b = seq(a), seq(b)
    if a == b:
        return True
    if a[0] == "upd" and b[0] == "upd" and a[2] == b[2]:
        r = same_seq(a[1], b[1])
        if r is not True:
            return r
        return False if known(a[3]) and known(b[3]) else None
    if known(a) and known(b):
        return False
    return None


SEQ = ("items", "rep", "dims", "upd")


def known(t):
    """Is the term composed of parts the rule understands, so that being different means being different?"""
    if t[0] in SEQ:
        return all(known(x) for x in t[1:] if isinstance(x, tuple))
    if t[0] in ("par", "this", "int", "i", "ind", "null", "enum"):
        return all(known(x) for x in t[1:] if isinstance(x, tuple))
    if t[0] == "fld":
        return known(t[1])
    if t[0] == "op":
        return all(known(x) for x in t[2])
    if t[0] == "app" and t[1] in ("size", "H5Dget_space", "H5Sget_simple_extent_dims", "H5Sget_simple_extent_ndims", "begin", "end", "data"):
        return all(known(x) for x in t[2])
    if t[0] in ("out",):
        return known(t[2])
    if t[0] in ("at", "elem"):
        return all(known(x) for x in t[1:] if isinstance(x, tuple))
    if t[0] == "new":
        s = seq(t)
        return s[0] in SEQ and known(s)
    return False


def rep_of(t, value):
    s = seq(t)
    if s[0] == "rep":
        return s[2] == ("int", value) if s[2][0] == "int" else None
    if s[0] == "items":
        return all(x == ("int", value) for x in s[1:])
    return False if known(s) else None


def own_space(t, dataset):
    return t[0] == "app" and t[1] == "H5Dget_space" and t[2][0] == dataset


def all3(*xs):
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def run():
    c = Check("H03", "on every path of every overload that reads, writes or fills an array, one transfer call receives the array's own handle, the in-memory type "
              "of the caller, the caller's buffer, the array's data space selected with start, stride and count of the caller (or all of it), and a memory "
              "space that is the caller's or has exactly the extents (or number of elements) of the selection",
              ["HDF5 reference manual: H5Sselect_hyperslab with H5S_SELECT_SET, no block and the given start, stride, count selects product(count) elements"])
    prog = lueir.load("hdf5", "cxx")
    c.program(prog)
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q) or q in ("memcpy", "std::memcpy"), pure=lambda q, k: q in PURE_HDF5 or q == "H5Tget_size")
    N = Names(prog, A)
    reach = reaching(prog, {READ, WRITE})
    fns = []
    for f in prog.functions.values():
        last = f["q"].split("::")[-1]
        if "body" in f and component(f) in ("hdf5", "cxx") and last in ("read", "write", "fill") \
                and any("void" in p[2] for p in f["params"]) and f.get("cls"):
            fns.append(f)
    # an overload that transfers nothing belongs to the others of its class
    mine = {f["cls"] for f in fns if f["key"] in reach}
    fns = [f for f in fns if f["cls"] in mine]
    covered = set()
    for f in fns:
        transfer(c, prog, A, N, f)
        covered |= A.visited
    for f in prog.functions.values():
        if component(f) in ("hdf5", "cxx") and any(q in (READ, WRITE, "H5Dwrite_chunk", "H5Dread_chunk") for q, *_ in calls_in(f)):
            c.ob("transfers covered", sig(f), True if f["key"] in covered else None, where(f), "calls the transfer function outside the analysed overloads")
    constructors(c, prog, A, N)
    return c.finish({"transfer": 20, "selection": 20, "memory space": 20, "hyperslab": 3})


def transfer(c, prog, A, N, f):
    last = f["q"].split("::")[-1]
    want = READ if last == "read" else WRITE
    par = {}
    for name, vid, ty in f["params"]:
        for k in ("Datatype", "Dataspace", "Hyperslab", "TransferPropertyList", "void", "IndexRange"):
            if k in ty:
                par[k] = ("par", name)
                break
        else:
            par["index"] = ("par", name)
    inst = sig(f)
    try:
        paths = A.run(f)
    except AnalysisError as e:
        c.ob("transfer", inst, None, where(f), str(e))
        return
    c.count("functions analysed")
    for p in paths:
        if p.kind != "ret":
            continue
        c.count("paths analysed")
        ts = [e for e in p.events if e.q in (READ, WRITE)]
        if not ts:
            c.ob("transfer", inst, None if any(contains(t, ("par", x)) for t in p.facts for x, _, _ in f["params"]) else False,
                 where(f), "a path returns without any transfer")
            continue
        if len(ts) > 1 or ts[0].q != want:
            c.ob("transfer", inst, False if ts[0].q != want else None, where(f, ts[0].line), f"{len(ts)} transfers: {', '.join(e.q for e in ts)}")
            continue
        t = ts[0]
        ds, ty, mem, file_space, xfer, buf = t.args[:6]
        r, fields = member_path(ds)
        ok = r == ("this",) and all("type" not in x for x in fields)
        c.ob("transfer", inst + " handle", ok, where(f, t.line), f"transfers for {show(ds)}")
        # in-memory type
        if "Datatype" in par:
            ok = root(ty) == par["Datatype"]
        else:
            try:
                own = N.of("lue::data_model::Array::memory_datatype", ("this",))
            except AnalysisError:
                own = None
            ok = None if own is None else contains(ty, own)
        c.ob("transfer", inst + " type", ok, where(f, t.line), f"transfers in type {show(ty)}")
        if last != "fill":
            c.ob("transfer", inst + " buffer", True if buf == par["void"] else False if known(buf) else None, where(f, t.line), f"transfers {show(buf)}")
        ok = (root(xfer) == par["TransferPropertyList"]) if "TransferPropertyList" in par else \
            True if xfer in ALL or xfer[0] == "app" and xfer[1] == "H5Pcreate" else None
        c.ob("transfer", inst + " transfer properties", ok, where(f, t.line), f"transfers with {show(xfer)}")
        selection(c, A, N, f, inst, p, t, ds, par, mem, file_space, last)


def selection(c, A, N, f, inst, p, t, ds, par, mem, file_space, last):
    sel = [e for e in p.events if e.q.startswith(("H5Sselect_", "H5Scombine", "H5Sset_extent", "H5Soffset")) and e.args[0] == file_space]
    w = where(f, t.line)
    start = stride = count = None
    dims = None
    if file_space in ALL:
        ok, why = "Hyperslab" not in par and "index" not in par and "IndexRange" not in par, "transfers everything, ignoring the selection"
        count = ("dims", ("own",))
    elif not own_space(file_space, ds):
        ok, why = (None if file_space[0] not in ("app", "par", "fld") else False), f"the file space is {show(file_space)}"
    elif len(sel) > 1 or any(e.q not in ("H5Sselect_hyperslab", "H5Sselect_all") for e in sel):
        ok, why = None, "selection built in several steps"
    elif not sel or sel[0].q == "H5Sselect_all":
        ok, why = "Hyperslab" not in par and "index" not in par and "IndexRange" not in par, "the requested selection is not applied to the file space"
        count = ("dims", ("own",))
    else:
        s = sel[0]
        _, op, a_start, a_stride, a_count, a_block = s.args[:6]
        unit_stride = a_stride == flow.NULL
        block_ok = a_block == flow.NULL or rep_of(a_block, 1)
        set_ok = op[0] == "enum" and op[1].endswith("H5S_SELECT_SET")
        strip = lambda x: x[2][0] if x[0] == "app" and x[1] == "data" else x
        start, stride, count = strip(a_start), strip(a_stride), strip(a_count)
        if "Hyperslab" in par:
            H = par["Hyperslab"]
            e_start, e_stride, e_count = (N.of("lue::hdf5::Hyperslab::" + x, H) for x in ("start", "stride", "count"))
            ok = all3(same_seq(start, e_start), same_seq(stride, e_stride), same_seq(count, e_count))
        elif "index" in par or "IndexRange" in par:
            if "index" in par:
                first, n = par["index"], ("int", 1)
            else:
                b, e = (N.of("lue::data_model::IndexRange::" + x, par["IndexRange"]) for x in ("begin", "end"))
                first, n = b, flow.mk_bin("-", e, b)
            s0, s2 = seq(start), seq(count)
            ok = all3(s0[0] == "upd" and s0[2] == ("i", flow.ZERO) and s0[3] == first and rep_of(s0[1], 0),
                      True if unit_stride else rep_of(stride, 1),
                      s2[0] == "upd" and s2[2] == ("i", flow.ZERO) and s2[3] == n and s2[1][0] == "dims" and own_space(s2[1][1], ds)) \
                if s0[0] == "upd" and s2[0] == "upd" else (False if known(s0) and known(s2) else None)
        else:
            s2 = seq(count)
            ok = all3(rep_of(start, 0), True if unit_stride else rep_of(stride, 1),
                      own_space(s2[1], ds) if s2[0] == "dims" else (False if known(s2) else None))
        ok = all3(ok, set_ok, block_ok)
        why = f"selects start {show(start)}, stride {show(stride)}, count {show(count)}" + ("" if set_ok and block_ok else f", operation {show(op)}, block {show(a_block)}")
    c.ob("selection", inst, ok, w, why)

    # memory space
    if "Dataspace" in par:
        c.ob("memory space", inst, root(mem) == par["Dataspace"], w, f"memory space {show(mem)}")
        return
    if last == "fill":
        return fill(c, A, N, f, inst, p, t, mem, count, par)
    if mem in ALL:
        full = "Hyperslab" not in par and "index" not in par and "IndexRange" not in par
        c.ob("memory space", inst, full, w, "the memory space is the whole array although a part is selected")
        return
    if own_space(mem, ds):
        c.ob("memory space", inst, mem == file_space or "Hyperslab" not in par and "index" not in par and "IndexRange" not in par, w,
             f"memory space {show(mem)}")
        return
    if mem[0] == "app" and mem[1] == "H5Screate_simple" and count is not None:
        rank, dims, _ = mem[2][:3]
        x = dims[2][0] if dims[0] == "app" and dims[1] == "data" else dims
        ok = same_seq(x, count) if count[0] != "dims" else (True if seq(x)[0] == "dims" and own_space(seq(x)[1], ds) else None)
        rank_ok = rank == A.size(x) or same_size(rank, x)
        c.ob("memory space", inst, all3(ok, rank_ok if rank_ok else None), w, f"memory space of rank {show(rank)} and extents {show(x)}, selection {show(count)}")
        return
    c.ob("memory space", inst, None, w, f"memory space {show(mem)}")


def same_size(n, x):
    return n[0] == "app" and n[1] == "size" and seq(n[2][0]) == seq(x)


def product_of_counts(n, count, facts):
    """Is n the number of elements selected (or a step in computing it)?  True/False/None"""
    if n == flow.ZERO:
        return True             # judged by the branch that gives zero: nothing is selected
    if n == ("int", 1):
        return True
    parts = n[2] if n[0] == "op" and n[1] == "*" else (n,)
    unknown, counts = 0, 0
    for x in parts:
        if x[0] == "phi":
            unknown += 1
        elif x[0] in ("at", "elem") and x[1] == count:
            counts += 1
        elif x[0] == "app" and x[1].split("::")[-1] in ("accumulate", "reduce", "fold_left"):
            if count in list(flow.subterms(x)) and ("int", 1) in list(flow.subterms(x)):
                counts += 1
            else:
                return None
        elif known(x):
            return False
        else:
            return None
    return counts == 1 or (None if counts == 0 else False)


def fill(c, A, N, f, inst, p, t, mem, count, par):
    w = where(f, t.line)
    if not (mem[0] == "app" and mem[1] == "H5Screate_simple"):
        c.ob("memory space", inst, None, w, f"memory space {show(mem)}")
        return
    rank, dims, _ = mem[2][:3]
    x = seq(dims[2][0] if dims[0] == "app" and dims[1] == "data" else dims)
    if x == seq(count):
        n = None
        ok = True
    elif x[0] == "items" and len(x) == 2:
        n = x[1]
        ok = product_of_counts(n, count, p.facts)
    else:
        ok, n = None, None
    c.ob("memory space", inst, ok, w, f"the memory space has {show(n) if n else show(mem)} elements, the selection product({show(count)})")
    buf = t.args[5]
    inner = buf[2][0] if buf[0] == "app" and buf[1] == "data" else buf
    if n is not None and inner[0] == "new" and len(inner[3]) >= 1:
        want = flow.mk_bin("*", n, ("app", "H5Tget_size", (t.args[1],)))
        c.ob("memory space", inst + " buffer", True if inner[3][0] == want else None if n == flow.ZERO else False, w,
             f"the buffer has {show(inner[3][0])} bytes, {show(want)} are transferred")
    else:
        c.ob("memory space", inst + " buffer", None, w, f"buffer {show(buf)}")
    # every element of the buffer is a copy of the whole value
    for e in p.events:
        if e.q.split("::")[-1] != "memcpy" or len(e.args) != 3:
            continue
        ok = all3(True if root(e.args[1]) == par["void"] else False if known(e.args[1]) else None,
                  True if e.args[2] == ("app", "H5Tget_size", (t.args[1],)) else None if e.args[2][0] != "op" else False)
        c.ob("fill value", inst, ok, w, f"copies {show(e.args[2])} bytes from {show(e.args[1])} per element")


def emptiness(A, N, f):
    """The predicate, in every world of (no dimensions, a count of zero, a stride of zero)."""
    of = {x: N.getter("lue::hdf5::Hyperslab::" + x) for x in ("start", "stride", "count")}
    mixed = []

    def truth(t, world):
        if t[0] == "bool":
            return t[1]
        if t[0] == "not":
            v = truth(t[1], world)
            return None if v is None else not v
        if t[0] == "app" and t[1].split("::")[-1] == "empty" and t[2] and t[2][0] in of.values():
            return world["rank"]
        if t[0] == "eq":
            for a, b in (t[1:], t[:0:-1]):
                if a[0] == "app" and a[1] == "size" and a[2][0] in of.values() and b == flow.ZERO:
                    return world["rank"]
                if a[0] == "app" and a[1].split("::")[-1] in ("end", "cend") and b[0] == "app" and "find" in b[1] and "_if" not in b[1]:
                    looked = [x for x in subterms(b) if x in of.values()]
                    if not looked or flow.ZERO not in b[2]:
                        return None
                    if len(set(looked)) > 1 or a[2][0] != looked[0]:
                        mixed.append(f"the end of {show(a[2][0])} is compared with a position in {show(looked[0])}")
                        return None
                    k = next(k for k, v in of.items() if v == looked[0])
                    return None if k == "start" else not world[k]
        return None

    ok, why = True, ""
    ps = [p for p in A.run(f) if p.kind == "ret"]
    if any(isinstance(s, tuple) and s and s[0] in ("elem", "at", "phi", "deref") for p in ps for t in [*p.facts, p.value] for s in subterms(t)):
        return None, "elements are looked at one by one"
    for rank, count, stride in ((True, False, False), (False, False, False), (False, True, False), (False, False, True), (False, True, True)):
        world = {"rank": rank, "count": count, "stride": stride}
        said = "no dimensions" if rank else ", ".join(f"{k} of zero" for k in ("count", "stride") if world[k]) or "elements"
        for p in ps:
            vs = [(truth(a, world), b) for a, b in p.facts.items()]
            if any(v is not None and v != b for v, b in vs):
                continue
            r = truth(A.as_value(p.st, p.value), world)
            if r is None or any(v is None for v, _ in vs):
                ok, why = (None, f"returns {show(p.value)}") if ok else (ok, why)
            elif r != (rank or count or stride):
                ok, why = False, f"a selection with {said} is {'' if r else 'not '}empty"
    return (False, mixed[0]) if mixed else (ok, why)


def constructors(c, prog, A, N):
    """What is passed as start, stride and count is what the accessors return; defaults are unit stride and zero start."""
    for f in prog.functions.values():
        if f["q"] == "lue::hdf5::Hyperslab::Hyperslab" and f["params"] and not f.get("copymove"):
            types = {next((k for k in ("Offset", "Stride", "Count", "Shape") if k in ty), ty): ("par", n) for n, _, ty in f["params"]}
            v = ("new", "lue::hdf5::Hyperslab", f["key"], tuple(("par", n) for n, _, _ in f["params"]))
            st = flow.State()
            try:
                got = {}
                for x in ("start", "stride", "count"):
                    t = N.getter("lue::hdf5::Hyperslab::" + x)
                    got[x] = A.select(st, v, ("f", t[2]))
            except AnalysisError as e:
                c.ob("hyperslab", sig(f), None, where(f), str(e))
                continue
            exp = types.get("Offset")
            c.ob("hyperslab", sig(f) + " start", (same_seq(got["start"], exp) if exp else rep_of(got["start"], 0)), where(f), f"start is {show(got['start'])}")
            exp = types.get("Stride")
            c.ob("hyperslab", sig(f) + " stride", (same_seq(got["stride"], exp) if exp else rep_of(got["stride"], 1)), where(f), f"stride is {show(got['stride'])}")
            exp = types.get("Count") or types.get("Shape")
            c.ob("hyperslab", sig(f) + " count", same_seq(got["count"], exp), where(f), f"count is {show(got['count'])}")
        if f["q"] == "lue::hdf5::Hyperslab::empty" and "body" in f:
            ok, why = emptiness(A, N, f)
            c.ob("hyperslab", "a selection is empty when it has no dimensions, or a count or stride of zero", ok, where(f), why)
        if f["q"] == "lue::hdf5::Hyperslab::nr_elements" and "body" in f:
            count = N.getter("lue::hdf5::Hyperslab::count")
            for p in A.run(f):
                if p.kind == "ret":
                    c.ob("hyperslab", "number of elements", product_of_counts(p.value, count, p.facts), where(f), f"the number of selected elements is {show(p.value)}")
        if f["q"] == "lue::hdf5::hyperslab" and "body" in f and len(f["params"]) == 3:
            center, shape = ("par", f["params"][0][0]), ("par", f["params"][1][0])
            for p in A.run(f):
                if p.kind != "ret":
                    continue
                v = p.value
                for x, fn in (("start", lambda i: flow.mk_bin("-", ("at", center, ("int", i)), flow.mk_bin("/", ("at", shape, ("int", i)), ("int", 2)))),
                              ("count", lambda i: ("at", shape, ("int", i)))):
                    g = seq(A.select(p.st, v, ("f", N.getter("lue::hdf5::Hyperslab::" + x)[2])))
                    ok = None
                    if g[0] == "items":
                        ok = all3(*[True if g[1 + i] == fn(i) else False if known(g[1 + i]) else None for i in range(len(g) - 1)])
                    c.ob("hyperslab", f"centred {x}", ok, where(f), f"{x} is {[show(y) for y in g[1:]]}")
