"""P03: the bindings of arrays in the Python package select exactly what an index denotes and never move more elements than the memory holds."""
import os
import flow, pyb
from check import Check, where, short
from common import *
from model import Model, H
from pyarrays import *
from P02 import words_of

INT1 = ("int", 1)


def uncast(t):
    while t[0] == "cast":
        t = t[-1]
    return t


def updates(t):
    """(base, [(index, value)]) of a container term; removed elements appear as ("removed", None)"""
    out = []
    t = uncast(t)
    while True:
        if t[0] == "upd" and t[2][0] == "i":
            out.append((t[2][1], t[3]))
            t = uncast(t[1])
        elif t[0] == "mut" and t[1] == "erase":
            out.append(("removed", t[2][1:] if len(t[2]) > 1 else ()))
            t = uncast(t[2][0])
        elif t[0] == "mut" and t[2]:
            return None, out[::-1]
        else:
            return t, out[::-1]


def at_least(facts, rank, par, d):
    """Whether a dimension is known to exist when there is an index for it"""
    size = ("app", "size", (par,))
    for t, v in facts.items():
        if t[0] != "lt":
            continue
        # what the fact says: more - less >= k
        less, more, k = (t[1], t[2], 1) if v else (t[2], t[1], 0)
        e = flow.linear(more, 1, flow.linear(less, -1, {}))
        const = e.pop(None, 0)
        atoms = {a: n for a, n in e.items() if n}
        if atoms == {rank: 1, size: -1} and k - const >= 0:
            return True
        if atoms == {rank: 1} and k - const >= d + 1:
            return True
    return False


def extents_of(t, obj, n=8):
    """The extents in a container that started as the shape of an array: [("dim", d) | term], None when that is not known"""
    t = uncast(t)
    if shape_of(t, obj):
        return [("dim", d) for d in range(n)]
    if t[0] == "upd" and t[2][0] == "i":
        base, i = extents_of(t[1], obj, n), uncast(t[2][1])
        if base is None or i[0] != "int" or not 0 <= i[1] < len(base):
            return None
        base[i[1]] = uncast(t[3])
        return base
    if t[0] == "mut" and t[1] == "erase" and len(t[2]) == 2:
        base, at = extents_of(t[2][0], obj, n), t[2][1]
        while at[0] == "new" and "__normal_iterator" in at[1]:
            at = at[3][0]
        if at[0] == "app" and at[1].split("<")[0] in ("next", "std::next"):
            at = flow.mk_bin("+", at[2][0], at[2][1] if len(at[2]) > 1 else INT1)
        e = flow.linear(at, 1, {})
        pos = e.pop(None, 0)
        atoms = [a for a, k in e.items() if k]
        if base is None or len(atoms) != 1 or atoms[0][0] != "app" or atoms[0][1] not in ("begin", "cbegin"):
            return None
        if not 0 <= pos < len(base):
            return None
        del base[pos]
        return base
    if t[0] == "mut" and t[1] in ("push_back", "emplace_back") and len(t[2]) == 2:
        base = extents_of(t[2][0], obj, n)
        return None if base is None else base + [uncast(t[2][1])]
    if t[0] in ("new", "init") and not [a for a in (t[3] if t[0] == "new" else t[2]) if "allocator" not in str(a[1:2])]:
        return []
    return None


class Selection:
    """The parts of a hyperslab term"""

    def __init__(self, X, slab):
        self.ok = slab is not None
        self.values = {}
        if not self.ok:
            return
        t = uncast(slab)
        members = {v: k for k, v in X.part.items()}
        part = {}
        while t[0] == "upd":
            if t[2][0] == "f" and t[2][1] in members:
                part.setdefault(members[t[2][1]], t[3])
            else:
                self.ok = False
            t = uncast(t[1])
        if t[0] != "new" or t[1] != H + "Hyperslab":
            self.ok = False
            return
        args = [a for a in t[3] if not "allocator" in str(a[1:2])]
        self.base = None
        if len(args) == 1:
            self.base = args[0]
        elif len(args) == 3:
            for n, a in zip(("start", "stride", "count"), args):
                part.setdefault(n, a)
        else:
            self.ok = False
        for n in ("start", "stride", "count"):
            if n in part:
                b, u = updates(part[n])
                if b is None or any(i == "removed" for i, _ in u):
                    self.ok = False
                self.values[n] = u
            else:
                self.values[n] = []

    def at(self, name, idx):
        for i, v in self.values[name][::-1]:
            if uncast(i) == idx:
                return uncast(v)
        return None


def shape_of(t, obj):
    """Whether a term is the shape of an array"""
    t = uncast(t)
    return t == ("app", SHAPE, (obj,)) or t[0] == "new" and len(t[3]) == 1 and shape_of(t[3][0], obj)


def extent(t, idx, obj):
    """Whether a term is the extent of dimension idx of an array"""
    t = uncast(t)
    if t[0] == "at" and uncast(t[2]) == idx:
        return shape_of(t[1], obj)
    if t[0] == "app" and t[1] in ("front",) and idx == flow.ZERO:
        return shape_of(t[2][0], obj)
    return False


def plus(t):
    return [uncast(x) for x in (t[2] if t[0] == "op" and t[1] == "+" else t[1:] if t[0] == "+" else ())]


def bound(s, idx, start):
    """(ok, reason) for the first element that is selected along a dimension by an integer"""
    ext = []
    for t, v in s.p.facts.items():
        if t[0] != "lt":
            continue
        a, b = uncast(t[1]), uncast(t[2])
        if v and a == start and extent(b, idx, s.object):
            ext.append(t)
        if not v and b == start and extent(a, idx, s.object):
            ext.append(("le", t))
    if not any(e[0] == "lt" for e in ext):
        return False, f"an index is not compared with the extent of the dimension ({show(start)[:60]})"
    xs = plus(start)
    index = [x for x in xs if not extent(x, idx, s.object)]
    if xs and len(index) == 1 and len(xs) == 2:
        negative = s.p.facts.get(("lt", index[0], flow.ZERO))
        if negative is True:
            return True, ""
        return (False if negative is False else None), "the extent is added to an index that is not negative"
    if start[0] == "op":
        return (False if extent_inside(start, idx, s.object) else None), f"what is selected is {show(start)[:60]}"
    negative = s.p.facts.get(("lt", start, flow.ZERO))
    if negative is True:
        return False, "a negative index is used as it is"
    return True, ""


def extent_inside(t, idx, obj):
    return any(x[0] == "at" and extent(x, idx, obj) for x in terms(t))


def computed(t):
    """(position, call) for an output of slice::compute"""
    t = uncast(t)
    if t[0] == "out" and t[2][0] == "app" and t[2][1] == "pybind11::slice::compute":
        return t[1], t[2]
    return None


def selection(c, X, s, index):
    """Obligations for what a transfer selects"""
    name = f"{s.binding['name']} with {index}: {s.kind}"
    w = where(s.f, s.e.line)
    if s.slab is None:
        # all elements are transferred
        par = [n for n, _, t in s.f["params"]][1:2]
        c.ob("selection", f"{name} selects what the index denotes", False, w, "the index is not used: all elements are transferred")
        return None
    sel = Selection(X, s.slab)
    if not sel.ok:
        c.ob("selection", f"{name} selects what the index denotes", None, w, f"the selection is not known: {show(s.slab)[:80]}")
        return None
    if sel.base is not None and not shape_of(sel.base, s.object):
        c.ob("selection", f"{name} is for the array that is indexed", False if any(shape_of(x, None) for x in ()) else None, w, "the selection is not made for the shape of the array")
    indices = []
    for n in ("start", "stride", "count"):
        for i, v in sel.values[n]:
            if uncast(i) not in indices:
                indices.append(uncast(i))
    for idx in indices:
        start, stride, count = (sel.at(n, idx) for n in ("start", "stride", "count"))
        got = computed(start) if start is not None else None
        if start is None:
            ok, why = False, "the first element is not set"
        elif got:
            n, call = got
            ok, why = True, ""
            if not extent(call[2][1], idx, s.object):
                ok, why = False, f"the slice is resolved for another extent: {show(call[2][1])[:60]}"
            elif n != 1:
                ok, why = False, "the first element is not the start of the slice"
            elif stride is None or computed(stride) != (3, call):
                ok, why = False, "the stride is not the step of the slice"
            elif count is None or computed(count) != (4, call):
                ok, why = False, "the number of elements is not that of the slice"
            elif s.p.facts.get(call) is not True and not any(v is True and contains(t, call) for t, v in s.p.facts.items() if t[0] != "not" and t[0] not in ("lt", "eq")):
                ok, why = False, "a slice that cannot be resolved is not refused"
        else:
            ok, why = bound(s, idx, start)
            if ok is not False:
                if count != INT1:
                    ok, why = (False if count is None or count[0] == "int" or computed(count) else None), f"an integer selects {show(count) if count else 'all'} elements"
                elif stride not in (INT1, None):
                    ok, why = None, "an integer with a stride"
        # the index that is used belongs to the dimension
        if ok and idx[0] == "int" and index.startswith("a tuple"):
            par = ("par", s.f["params"][1][0])
            used = {uncast(x[2]) for x in terms(start) if x[0] == "at" and x[1] == par}
            if used != {idx}:
                ok, why = (False if used else None), "the index of another dimension is used" if used else "which index is used is not known"
            elif not at_least(s.p.facts, ("app", "size", (("app", SHAPE, (s.object,)),)), par, idx[1]):
                ok, why = False, "the number of indices is not compared with the number of dimensions"
        if ok and idx[0] == "ind":
            each = [x for x in terms(start) if x[0] in ("each", "elem", "at") and x[1] == idx[2][2][0]] if idx[2][0] == "app" and idx[2][1] == "size" else []
            if not each:
                ok, why = None, "which index is used is not known"
            for x in each:
                if x[0] == "at" and uncast(x[2]) != idx:
                    ok, why = False, "the index of another dimension is used"
        if ok and idx[0] == "ind":
            limit = idx[2]
            fits = any(t[0] == "lt" and v is False and uncast(t[2]) == limit and contains(t[1], ("app", SHAPE, (s.object,))) for t, v in s.p.facts.items()) \
                or any(t[0] == "le" and v is True and uncast(t[1]) == limit for t, v in s.p.facts.items())
            if not fits:
                ok, why = False, "the number of indices is not compared with the number of dimensions"
        c.ob("selection", f"{name} selects what the index denotes", ok, w, why)
    if index.startswith("a tuple") and all(i[0] == "int" for i in indices):
        par = ("par", s.f["params"][1][0])
        size = ("app", "size", (par,))
        n = max([t[1][1] + 1 for t, v in s.p.facts.items() if v is True and t[0] == "lt" and t[2] == size and t[1][0] == "int"] or [0])
        missing = [i for i in range(n) if ("int", i) not in indices]
        c.ob("selection", f"{name} uses each index", not missing, w, f"index {missing[:1]} is not used")
    if not indices and not index.startswith("a tuple"):
        c.ob("selection", f"{name} selects what the index denotes", False, w, "the index is not used: all elements are transferred")
    return sel


def memory_read(c, X, s, sel, index):
    """The memory that is read into has the shape of the selection"""
    name = f"{s.binding['name']} with {index}: read"
    w = where(s.f, s.e.line)
    b = s.buffer
    v = requested(b)
    shape, single, text = None, False, False
    if v is not None and v[0] == "new":
        # the shape comes first, or after the type of the elements
        for x in v[3]:
            while x[0] == "new" and "any_container" in str(x[1]) and x[3]:
                x = x[3][0]
            if contains(x, ("app", SHAPE, (s.object,))):
                shape = x
                break
    elif b[0] == "addr" and b[1][0] == "lv" and b[1][1][0] == "v":
        single = True
    elif b[0] in ("addr", "phi"):
        for x in terms(b):
            if x[0] == "new" and str(x[1]).startswith("char *[]") or x[0] == "init" and str(x[1]).startswith("char *[]"):
                n = uncast((x[3] if x[0] == "new" else x[2])[0])
                if n[0] == "at" and uncast(n[2]) == flow.ZERO:
                    ok = rank(s.p, n[1], 1)
                    c.ob("memory", f"{name} of text has one dimension", ok, w, "the number of dimensions of the selection is not tested")
                    shape = n[1]
                elif [uncast(y) for _, y in sel.values["count"] if uncast(y) != INT1] == [n]:
                    shape = one_dimension(s)
                    c.ob("memory", f"{name} of text has one dimension", shape is not None, w, "the number of dimensions of the selection is not tested")
                    text = True
                elif n[0] == "int":
                    c.ob("memory", f"{name} into memory of the size of the selection", False, w, "memory of fixed size")
                    return
    if single:
        for t, v2 in s.p.facts.items():
            if v2 is True and t[0] == "eq" and flow.ZERO in t[1:]:
                for a in t[1:]:
                    a = uncast(a)
                    if a[0] == "app" and a[1] == "size" and contains(a, ("app", SHAPE, (s.object,))):
                        shape = a[2][0]
            if v2 is True and t[0] == "app" and t[1] == "empty":
                shape = t[2][0]
        if shape is None:
            ones = any(v2 is True and t[0] == "eq" and INT1 in t[1:] and any(x[0] == "app" and "nr_elements" in str(x[1]) for x in terms(t)) for t, v2 in s.p.facts.items())
            c.ob("memory", f"{name} of one element", True if ones else False, w, "that a single element is selected is not established")
            return
    if shape is None:
        c.ob("memory", f"{name} into memory of the size of the selection", None, w, f"the size of the memory is not known: {show(b)[:80]}")
        return
    have = extents_of(shape, s.object)
    if have is not None and all(uncast(i)[0] == "int" for i, _ in sel.values["count"]):
        want = []
        for d in range(8):
            v = sel.at("count", ("int", d))
            if v is None:
                want.append(("dim", d))
            elif computed(v) or v[0] != "int":
                want.append(v)
        same = len(have) == len(want) and (single or text) or len(have) == len(want) and all(a == b or b[0] == "dim" and extent(a, ("int", b[1]), s.object) for a, b in zip(have, want))
        bad = [(a, b) for a, b in zip(have, want) if a != b]
        c.ob("memory", f"{name} into memory of the size of the selection", same, w, "the extents of the memory differ from those of the selection"
             + (f": {show(bad[0][0])[:40]} instead of {show(bad[0][1])[:40]}" if bad else ""))
        return
    base, ups = updates(shape)
    if base is None or not shape_of(base, s.object):
        c.ob("memory", f"{name} into memory of the size of the selection", None, w, f"the size of the memory is not known: {show(shape)[:80]}")
        return
    written = [v for i, v in ups if i != "removed"]
    removed = [i for i, _ in ups if i == "removed"]
    count = [v for _, v in sel.values["count"]]
    ok, why = True, ""
    if [uncast(v) for v in written] != [uncast(v) for v in count]:
        ok, why = False, f"the selection is {', '.join(show(v)[:40] for v in count) or 'all'}, the memory is for {', '.join(show(v)[:40] for v in written) or 'all'}"
    else:
        for (i, _), (j, _) in zip([u for u in ups if u[0] != "removed"], sel.values["count"]):
            i, j = uncast(i), uncast(j)
            if i != j and not contains(i, j):
                ok, why = False, "another dimension of the memory has the size of the selection"
        ints = sum(1 for v in count if uncast(v) == INT1)
        if ok and len(removed) != ints:
            ok, why = False, "dimensions of integers are not removed" if len(removed) < ints else "more dimensions are removed than there are integers"
    if ok is False and index.startswith("a tuple") and removed:
        ok = None
    c.ob("memory", f"{name} into memory of the size of the selection", ok, w, why)


def same_size(t):
    """A container of the same size with less changes"""
    t = uncast(t)
    while t[0] == "upd" and t[2][0] == "i":
        t = uncast(t[1])
    if t[0] == "mut" and t[1] == "erase":
        return ("erase", same_size(t[2][0]))
    return t


def impossible(s, sel):
    """Whether a path needs more dimensions than it allows"""
    if s.f["params"][1][2].find("std::vector") < 0 or any(uncast(i)[0] != "int" for i, _ in sel.values["count"]):
        return False
    n = len({uncast(i) for i, _ in sel.values["count"]})
    if not n or not at_least(s.p.facts, ("app", "size", (("app", SHAPE, (s.object,)),)), ("par", s.f["params"][1][0]), n - 1):
        return False
    for t, v in s.p.facts.items():
        if t[0] == "eq" and v is True:
            for x, y in (t[1:], t[1:][::-1]):
                x = uncast(x)
                if x[0] == "app" and x[1] == "size" and y[0] == "int":
                    have = extents_of(x[2][0], s.object)
                    if have is not None and n > y[1] + 8 - len(have):
                        return True
    return False


def one_dimension(s):
    """The container of extents that is known to have one element"""
    for t, v in s.p.facts.items():
        if t[0] == "eq" and v is True and INT1 in t[1:]:
            for x in t[1:]:
                x = uncast(x)
                if x[0] == "app" and x[1] == "size" and contains(x, ("app", SHAPE, (s.object,))):
                    return x[2][0]
    return None


def rank(p, shape, n):
    for t, v in p.facts.items():
        if t[0] == "eq" and v is True and ("int", n) in t[1:]:
            for x in t[1:]:
                x = uncast(x)
                if x[0] == "app" and x[1] == "size" and same_size(x[2][0]) == same_size(shape):
                    return True
    return False


def memory_write(c, X, s, sel, index):
    """No more elements are taken from memory than the assigned array has"""
    name = f"{s.binding['name']} with {index}: write"
    w = where(s.f, s.e.line)
    v = requested(s.buffer)
    if v is None:
        # a copy of the elements
        n = None
        for x in terms(s.buffer):
            if x[0] in ("new", "init") and "[]" in str(x[1]):
                a = x[3] if x[0] == "new" else x[2]
                n = uncast(a[0]) if a else None
        if n is None or sel is None:
            c.ob("memory", f"{name} from memory of the size of the selection", None, w, f"the size of the memory is not known: {show(s.buffer)[:80]}")
            return
        count = [uncast(x) for _, x in sel.values["count"]]
        ok = count == [n]
        c.ob("memory", f"{name} from memory of the size of the selection", ok if ok or not count else None, w, "the memory does not have the size of the selection")
        param = [("par", nm) for nm, _, t in s.f["params"][2:3]][0]
        ok = False
        for t, v2 in s.p.facts.items():
            if v2 is True and t[0] == "eq" and n in [uncast(x) for x in t[1:]]:
                other = [x for x in t[1:] if uncast(x) != n]
                if other and any(contains(x, param) for x in other):
                    ok = True
        c.ob("assigned", f"{name}: as many elements as are selected", ok, w, "the number of assigned elements is not compared with the number of selected elements")
        return
    arr = ensured(v)
    params = {("par", nm): t for nm, _, t in s.f["params"]}
    flags = contiguous(v, params)
    c.ob("assigned", f"{name}: elements are contiguous", flags, w, "the elements of the assigned array need not be contiguous")
    ok = sizes(s, v)
    if ok is None and s.space is None:
        cmp = [t for t, v2 in s.p.facts.items() if v2 is True and t[0] == "eq" and contains(t, arr) and any(sel is not None and contains(t, uncast(x)) for _, x in (sel.values["count"] if sel else ()))]
        ok = True if cmp else False
        why = "the number of assigned elements is not compared with the number of selected elements"
    else:
        why = "the size of the memory is not that of the assigned array"
    c.ob("assigned", f"{name}: as many elements as are selected", ok, w, why)


def contiguous(v, params):
    if v[0] == "app" and v[1].split("<")[0].endswith("::ensure"):
        return len(v[2]) > 1 and "c_style" in show(v[2][1]) or (v[1].startswith("pybind11::array_t<") or None)
    t = params.get(v)
    if t is None:
        return None
    t = bare(t)
    if t.startswith("pybind11::array_t<"):
        try:
            return bool(int(t[:-1].rsplit(",", 1)[1]) & 1)
        except ValueError:
            return None
    return False


def sizes(s, v):
    """Whether the memory data space of a transfer has the shape of the array whose memory is used: None when it is not known"""
    if s.space is None:
        return None
    for x in terms(s.space):
        if x[0] == "app" and x[1] == SPACE:
            shape = x[2][0]
            of = [y for y in terms(shape) if y[0] == "app" and y[1] in ("pybind11::array::shape", "pybind11::array::size", "pybind11::buffer::request", "pybind11::array::ndim", "pybind11::array::nbytes")]
            if not of:
                return False
            if any(y[2][0] != v for y in of):
                return False
            ends = [y for y in of if y[1] == "pybind11::array::shape"]
            a = shape[3] if shape[0] == "new" else ()
            if len(a) >= 2 and all(y[1] != "pybind11::array::size" for y in of):
                if not (a[0][0] == "app" and a[0][1] == "pybind11::array::shape" and a[0][3:] is not None):
                    return None
                rest = [uncast(z) for z in plus(a[1])]
                if not any(z[0] == "app" and z[1] == "pybind11::array::ndim" for z in rest) or len(rest) != 2:
                    return False
            return True
    return None


def strings(c, X):
    """Each string is taken from, and put in, its own place"""
    for b, f in X.bindings:
        A, ps = X.paths(f)
        seen = set()
        for p in ps or ():
            if b["name"] == "__setitem__" and not element(f["params"][-1][2]):
                for v in p.st.store.values():
                    for x in terms(v):
                        if x[0] == "new" and str(x[1]).startswith("std::basic_string<char") and len(x[3]) >= 2:
                            taken(c, b, f, x[3][0], uncast(x[3][1]), 1, None, seen)
                for e in p.events:
                    if e.q == "PyUnicode_DecodeUTF32":
                        taken(c, b, f, e.args[0], uncast(e.args[1]), 4, e.line, seen)
            for e in p.events:
                if e.q not in ("PyUnicode_DecodeUTF32", "PyUnicode_FromString", "PyUnicode_AsUCS4", "PyUnicode_DecodeUTF8", "PyUnicode_FromStringAndSize") or not e.loops:
                    continue
                a = e.args[1] if e.q == "PyUnicode_AsUCS4" else e.args[0]
                if e.q == "PyUnicode_AsUCS4" and e.args[2][0] == "int":
                    continue        # on this path there are no strings
                parts = plus(a) if e.q == "PyUnicode_AsUCS4" else [a]
                own = any(x[0] in ("ind", "each", "elem") for y in parts for x in terms(y) if y[0] != "addr")
                phi = any(x[0] == "phi" for x in terms(a))
                tested = [t for t in e.facts if t[0] == "eq" and ("null",) in t[1:] and any(x[0] in ("ind", "each", "elem") for x in terms(t))]
                own = own or a[0] == "str" and any(e.facts[t] for t in tested)
                c.ob("strings", f"{b['name']} with {words_of(f)}: {e.q} in each iteration", True if own else None if phi else False, where(f, e.line), "the same string is used in each iteration")
                if e.q == "PyUnicode_AsUCS4":
                    places(c, b, f, e, a, p)


def unwritten(c, X):
    """Strings that have not been written are null pointers"""
    for b, f in X.bindings:
        A, ps = X.paths(f)
        for p in ps or ():
            used = [(e.q, e.args[0], e.facts, e.line) for e in p.events if e.q in ("PyUnicode_FromString", "PyUnicode_DecodeUTF8")]
            found = {x for s in (p.facts, *[e.args for e in p.events]) for t in s for x in terms(t) if x[0] == "app" and x[1].split("::")[-1] in ("strlen", "strdup", "strcpy")}
            used += [(x[1], x[2][0], p.facts, None) for x in sorted(found, key=str)]
            for q, a, facts, line in used:
                if any(x[0] == "new" and x[1] == "char *[]" or x[0] == "app" and "<char *" in x[1] for x in terms(a)) and a[0] in ("at", "deref", "elem", "each"):
                    null = next((v for t, v in facts.items() if t[0] == "eq" and set(t[1:]) == {a, ("null",)}), None)
                    c.ob("strings", f"{b['name']} with {words_of(f)}: {q} of strings that have not been written", null is False, where(f, line), "strings that have not been written are null pointers, which are not tested for")


def step_of(a):
    """(base, step) of base + position * step"""
    step, base = [], []
    for x in plus(a):
        if x[0] == "op" and x[1] == "*" and any(y[0] == "ind" for y in x[2]):
            step.append([y for y in x[2] if y[0] != "ind"])
        elif x[0] == "ind":
            step.append([INT1])
        else:
            base.append(x)
    if len(step) != 1 or len(base) != 1 or not step[0]:
        return None
    return base[0], step[0][0] if len(step[0]) == 1 else ("op", "*", tuple(step[0]))


def taken(c, b, f, a, n, width, line, seen):
    """Strings of n bytes are taken from places that are n bytes apart in the assigned array"""
    got = step_of(a)
    if got is None or requested(got[0]) is None:
        return
    step = uncast(got[1])
    ok = None
    if step == n and width == 1 or step == ("op", "/", (n, ("int", 4))) and width == 4:
        ok = True
    elif step[0] == "op" and step[1] == "/" and step[2][0] == n and step[2][1][0] == "int" or step[0] == "op" and step[1] == "+" or step[0] == "int" or width == 1 and step[0] == "op":
        ok = False
    if (a, n) not in seen:
        seen.add((a, n))
        c.ob("strings", f"{b['name']} with {words_of(f)}: strings are taken from where they are", ok, where(f, line), f"strings of {show(n)[:50]} bytes are taken from places {show(step)[:60]} apart")


def places(c, b, f, e, a, p):
    """The places of strings in the memory are as far apart as the strings are long, and there are enough of them"""
    step = None
    for x in plus(a):
        if x[0] == "op" and x[1] == "*" and any(y[0] == "ind" for y in x[2]):
            step = [y for y in x[2] if y[0] != "ind"]
    if step is None or len(step) != 1:
        return
    n = uncast(e.args[2])
    if n[0] == "int":
        return
    for x in terms(a):
        if x[0] == "new" and "[]" in str(x[1]) and "char *" not in str(x[1]) and x[3]:
            size = uncast(x[3][0])
            bound = [y[2] for y in terms(a) if y[0] == "ind"]
            factors = sorted(map(str, size[2])) if size[0] == "op" and size[1] == "*" else [str(size)]
            want = sorted(map(str, [n, *bound[:1]]))
            c.ob("strings", f"{b['name']} with {words_of(f)}: there is a place for each string", factors == want or (None if len(factors) > 2 or not bound else False), where(f, e.line),
                 f"memory for {show(size)[:60]} characters, {show(n)[:40]} for each string")
            break
    ok = uncast(step[0]) == n
    c.ob("strings", f"{b['name']} with {words_of(f)}: places are as far apart as strings are long", True if ok else None if any(x[0] == "phi" for x in terms(step[0])) else False, where(f, e.line),
         f"places are {show(step[0])[:60]} apart, strings have {show(n)[:60]} characters")


def run():
    c = Check("P03", "each transfer selects, along each dimension, an element whose position was compared with the extent of that dimension or what Python resolved a slice to for that extent; memory that is read into "
              "has the shape of the selection; memory that is written from is contiguous and its number of elements is that of the assigned array, or was compared with the selection",
              ["pybind11::slice::compute resolves slices as Python does", "HDF5 refuses a transfer for which the numbers of elements in memory and in the selection differ (H5Dread, H5Dwrite)",
               "arrays have one or more dimensions"])
    m = Model("hdf5", "cxx", "hl", "py")
    c.program(m.prog)
    X = Arrays(m, unroll=3 if os.environ.get("VERIF_TIER") == "thorough" else 2)
    n = 0
    for b, f in X.bindings:
        A, ps = X.paths(f)
        if ps is None:
            c.ob("selection", f"{b['name']} with {words_of(f)}", None, where(f), "too complex")
            continue
        c.count("paths", len(ps))
        moved = {id(s.p) for s in X.sites(f, b)}
        for p in ps:
            if b["name"] in ("__setitem__", "__getitem__") and p.kind == "ret":
                none = [k for k, v in p.facts.items() if v and k[0] == "eq" and flow.ZERO in k[1:] and any(x[0] == "app" and ("size" in x[1] or "nr_" in x[1] or "extent" in x[1]) for x in terms(k))]
                c.ob("transfer", f"{b['name']} with {words_of(f)}{', ' + bare(f['params'][-1][2]).split('::')[-1] if b['name'] == '__setitem__' else ''}: elements are transferred",
                     id(p) in moved or (None if none else False), where(f), "returns without having transferred elements")
        for s in X.sites(f, b):
            if rank(s.p, ("app", SHAPE, (s.object,)), 0):
                continue
            n += 1
            index = words_of(f)
            t = f["params"][-1][2]
            if b["name"] == "__setitem__":
                index += f", {bare(t).split('::')[-1]}"
            sel = selection(c, X, s, index)
            if sel and impossible(s, sel):
                continue
            if s.kind == "read" and sel:
                memory_read(c, X, s, sel, index)
            elif s.kind == "write":
                memory_write(c, X, s, sel, index)
    strings(c, X)
    unwritten(c, X)
    fills(c, X)
    handed_over(c, m.prog)
    c.count("transfers", n)
    return c.finish({"selection": 150, "memory": 80, "assigned": 60, "strings": 4, "handed over": 3, "transfer": 200})


def fills(c, X):
    """Python numbers are converted with a test of the range before anything is written"""
    for b, f in X.bindings:
        if b["name"] != "__setitem__" or bare(f["params"][-1][2]) not in ("pybind11::int_", "pybind11::float_"):
            continue
        A, ps = X.paths(f)
        for p in ps or ():
            if not any(e.q == FILL for e in p.events):
                continue
            bad = [e for e in p.events if e.q.startswith("pybind11::int_::operator ")]
            c.ob("numbers", f"{b['name']} with {words_of(f)}: a number that does not fit is refused", not bad, where(f, bad[0].line if bad else None),
                 "the conversion of a Python integer that does not fit yields -1")


def handed_over(c, prog):
    """Operations of the library that are given the memory of arrays are only called when these have the number of elements they are told about"""
    def opaque(q, k):
        g = prog.functions.get(k)
        return g is None or component(g) != "python"
    for b in pyb.bindings(prog):
        for kind, key, node in b["fns"][:1]:
            f = prog.functions.get(key)
            if f is None or "body" not in f or component(f) != "python" or pyb.bound_class(b).endswith("::Array"):
                continue
            arrays = {("par", p[0]): p[2] for p in f["params"] if isinstance(p, (list, tuple)) and "pybind11::array" in p[2]}
            if not arrays:
                continue
            A = flow.Analysis(prog, opaque=opaque, pure=lambda q, k: bool((prog.functions.get(k) or prog.callees.get(k) or {}).get("const")), qualify=True)
            try:
                ps = A.run(f)
            except flow.TooComplex:
                c.ob("handed over", f"{short(pyb.bound_class(b))}.{b['name']}", None, where(f), "too complex")
                continue
            for p in ps:
                for e in p.events:
                    used = [uncast(a)[2][0] for a in e.args if uncast(a)[0] == "app" and uncast(a)[1].split("::")[-1] in ("data", "mutable_data") and len(uncast(a)[2]) == 1 and uncast(a)[2][0] in arrays]
                    if e.q.startswith("lue::") and used:
                        handed(c, f, b, p, e, used, arrays)


def extent_of(t):
    """(array, dimension) of an extent of an array"""
    t = uncast(t)
    if t[0] == "at" and t[1][0] == "app" and t[1][1] == "pybind11::array::shape" and uncast(t[2])[0] == "int":
        return t[1][2][0], uncast(t[2])[1]
    if t[0] == "app" and t[1] == "pybind11::array::shape" and len(t[2]) == 2 and uncast(t[2][1])[0] == "int":
        return t[2][0], uncast(t[2][1])[1]
    if t[0] == "deref" and t[1][0] == "app" and t[1][1] == "pybind11::array::shape":
        return t[1][2][0], 0
    return None


def handed(c, f, b, p, e, used, arrays):
    inst = f"{short(pyb.bound_class(b))}.{b['name']}"
    ndims = {}
    pairs = []
    for t, v in p.facts.items():
        if t[0] != "eq" or not v:
            continue
        x, y = (uncast(z) for z in t[1:3])
        for x, y in ((x, y), (y, x)):
            if x[0] == "app" and x[1] == "pybind11::array::ndim" and y[0] == "int":
                ndims[x[2][0]] = y[1]
        pairs.append((x, y))

    def canonical(t):
        t = uncast(t)
        ext = extent_of(t)
        if ext:
            return ("extent",) + ext
        if t[0] == "app" and t[1] == "pybind11::array::size" and ndims.get(t[2][0]) == 1:
            return ("extent", t[2][0], 0)
        return t

    def same(a):
        out, todo = set(), [canonical(a)]
        while todo:
            t = todo.pop()
            if t not in out:
                out.add(t)
                for x, y in pairs:
                    x, y = canonical(x), canonical(y)
                    todo += [z for w, z in ((x, y), (y, x)) if w == t]
        return out
    told = set()
    for a in e.args:
        if not any(contains(a, x) for x in used) or canonical(a)[0] == "extent" or uncast(a)[0] == "app" and uncast(a)[1] == "pybind11::array::size":
            told |= same(a)
    for a in used:
        n = a[1]
        w = where(f, e.line)
        c.ob("handed over", f"{inst}: elements of {n} are contiguous", contiguous(a, arrays), w, "elements of the array need not be contiguous, its memory is read as if they were")
        k = ndims.get(a)
        c.ob("handed over", f"{inst}: number of dimensions of {n}", k is not None, w, f"{short(e.q)} is called without a test of the number of dimensions")
        if k is None:
            continue
        c.ob("handed over", f"{inst}: number of items in {n}", ("extent", a, 0) in told, w, f"{short(e.q)} is told about another number of items than {n} has")
        for d in range(1, k):
            others = {t for t in same(("at", ("app", "pybind11::array::shape", (a,)), ("int", d))) if t[0] != "extent"}
            c.ob("handed over", f"{inst}: extent {d} of {n}", bool(others), w, "the extent is not compared with what the library reads")


if __name__ == "__main__":
    raise SystemExit(run())
