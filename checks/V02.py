"""V02: every count mismatch in a dataset is reported as an error by validation."""
import os
import flow
from check import Check, where, sig, short
from common import *
from model import H, D
from validators import Validators, REPORTS, ISSUES, norm, same, each_of, iterates

ADD_ERROR = ISSUES + "::add_error"


COMPARE = {"less", "less_equal", "greater", "greater_equal", "not_equal_to"}


class It:
    """An iterator: a sequence and a position."""

    def __init__(self, seq, pos):
        self.seq, self.pos = seq, pos


class World:
    """A small dataset: what the parts of the dataset that a validation function looks at contain. A path is followed with the first iteration of each of its loops."""

    def __init__(self, ids=None, sets=None, aids=None, aidx=None, count=None, value_ids=None, arrays=None, time=None, when=None, disc=None, kinds=(), collection=None, later=False):
        self.later = later          # what is wrong is wrong in the second iteration
        self.lists = {"ids": ids, "sets": sets, "aids": aids, "aidx": aidx}
        self.count, self.value_ids, self.arrays, self.time, self.when, self.disc, self.kinds, self.collection = count, value_ids, arrays, time, when or {}, disc, kinds, collection

    # ---- what an object term denotes

    def role(self, t):
        t = norm(t)
        if t[0] == "par":
            cls = flow.base_type(self.types.get(t[1], ""))
            last = cls[len(D):] if cls.startswith(D) else ""
            if last == "ObjectID":
                return "ids"
            if last == "ObjectTracker":
                return "tracker"
            if last.endswith("Property"):
                return "property"
            if last.endswith("Value") or last.endswith(("SpaceBox", "SpacePoint")):
                return "value"
            if last in ("TimeBox", "TimeCell", "TimePoint"):
                return "time"
            if last == "SpaceDomain" or last == "TimeDomain":
                return "domain"
            return None
        if t[0] == "app":
            name = t[1].split("<")[0].split("::")[-1]
            if name == "object_tracker":
                return "tracker"
            o = self.role(t[2][0]) if t[2] and isinstance(t[2][0], tuple) else None
            if o == "tracker":
                return {"active_set_index": "sets", "active_object_id": "aids", "active_object_index": "aidx"}.get(name)
            if name == "value" and o == "property":
                return "value"
            if name == "value" and o == "disc property":
                return "disc"
            if name == "value" and o == "domain":
                return "time" if "::Time" in t[1].split("<", 1)[-1] else "value"
            if name == "count" and o == "time":
                return "counts"
            if name == "collection" or name == "properties":
                return t[1].split("<", 1)[1][len(D):-1] if name == "collection" and "<" in t[1] else "properties"
            if name in ("operator[]", "at") and len(t[2]) == 2 and o and o.endswith("Properties"):
                return "disc property"
            if name in ("operator[]", "at") and o == "value":
                return "array"
        return None

    def items(self, role):
        if role in self.lists:
            return self.lists[role]
        if role == "counts":
            return self.time and self.time.get("counts")
        if role == "time":
            return self.time and self.time.get("coordinates")
        return None

    # ---- values of terms

    def val(self, t):
        if not isinstance(t, tuple) or not t:
            return None
        k = t[0]
        if k == "int" or k == "bool" or k == "str":
            return t[1]
        if k == "enum":
            return ("enum", t[1].split("::")[-1])
        if k == "cast":
            return self.val(t[-1])
        if k in ("addr", "deref"):
            v = self.val(t[1])
            if k == "deref" and isinstance(v, It):
                return v.seq[v.pos] if v.pos < len(v.seq) else None
            return v
        if k == "lv":
            return self.val(t[1][1]) if t[1][0] == "m" and not t[2] else None
        if k == "phi":
            return self.val(t[1])
        if k == "ind":
            v = self.val(t[1])
            return self.val(("deref", t[1])) if isinstance(v, It) else v
        if k == "elem":
            v = self.val(t[1])
            return v[0] if isinstance(v, (list, tuple)) and len(v) else None
        if k == "at":
            v, i = self.val(t[1]), self.val(t[2])
            return v[i] if isinstance(v, list) and isinstance(i, int) and 0 <= i < len(v) else None
        if k == "op":
            a = [self.val(x) for x in t[2]]
            return self.arith(t[1], a)
        if k in ("eq", "ne", "lt", "le", "gt", "ge"):
            a, b = self.val(t[1]), self.val(t[2])
            if isinstance(a, It) and isinstance(b, It):
                return {"eq": a.pos == b.pos, "ne": a.pos != b.pos}.get(k)
            if a is None or b is None or isinstance(a, It) or isinstance(b, It):
                return None
            try:
                return {"eq": a == b, "ne": a != b}[k] if k in ("eq", "ne") else {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k]
            except TypeError:
                return None
        if k == "not":
            v = self.val(t[1])
            return None if v is None else not v
        if k in ("and", "or"):
            vs = [self.val(x) for x in (t[1] if len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:])]
            if k == "and":
                return False if False in vs else None if None in vs else all(vs)
            return True if True in vs else None if None in vs else any(vs)
        if k == "init":
            vs = [self.val(x) for x in t[2]]
            return None if None in vs else vs
        if k == "new":
            return self.new(t)
        if k == "mut" and t[1] == "push_back":
            v, x = self.val(t[2][0]), self.val(t[2][1])
            return v + [x] if isinstance(v, list) else None
        if k == "upd" and len(t) == 4:
            v, i, x = self.val(t[1]), self.val(t[2]), self.val(t[3])
            return x if isinstance(x, list) and t[2][-1] in (0, ("int", 0)) else None
        if k == "out":
            return self.out(t)
        if k == "app":
            return self.app(t)
        return None

    def arith(self, op, a):
        if len(a) != 2 or not all(isinstance(x, int) and not isinstance(x, bool) for x in a):
            if len(a) == 2 and isinstance(a[0], It) and isinstance(a[1], int):
                return It(a[0].seq, a[0].pos + (a[1] if op == "+" else -a[1])) if op in "+-" else None
            if len(a) == 2 and isinstance(a[0], It) and isinstance(a[1], It) and op == "-":
                return a[0].pos - a[1].pos
            return None
        return {"+": a[0] + a[1], "-": a[0] - a[1], "*": a[0] * a[1]}.get(op)

    def new(self, t):
        a = [x for x in t[3] if not (isinstance(x, tuple) and len(x) > 1 and x[0] in ("new", "init") and "allocator" in str(x[1]))]
        if len(a) >= 2:
            v, w = self.val(a[0]), self.val(a[1])
            if isinstance(v, It) and isinstance(w, It):
                items = list(v.seq[v.pos:w.pos])
                return sorted(set(items)) if "std::set" in t[1] or "unordered_set" in t[1] else items
        if t[1].startswith("std::vector") and a:
            n = self.val(a[0])
            if isinstance(n, list):
                return n
            return [0] * n if isinstance(n, int) else None
        return None

    def out(self, t):
        src = t[2]
        if src[0] != "app":
            return None
        name = src[1].split("<")[0].split("::")[-1]
        if name == "read":
            return self.items(self.role(src[2][0]))
        if "operator()" in src[1] or src[1].startswith("std::"):
            args = [x for x in src[2] if x[0] != "glob"]
            if any(s[0] == "glob" and s[1].endswith("sort") for s in src[2]) or name == "sort":
                v = self.val(args[0])
                return sorted(v if isinstance(v, list) else v.seq) if isinstance(v, (list, It)) else None
            return self.val(args[0])
        return None

    def app(self, t):
        name, a = t[1].split("<")[0].split("::")[-1], t[2]
        if t[1].split("<")[0].startswith("std::ranges") and a and a[0][0] == "glob":
            name, a = a[0][1].split("::")[-1], a[1:]
        if t[1].startswith(D):
            r = self.model(t, name, a)
            if r is not None:
                return r
        if name in self.when and a:
            return self.when[name]
        if name == "names" and a and norm(a[0])[0] == "app":
            return {"collection_property_sets": ["a set"], "property_sets": []}.get(norm(a[0])[1].split("::")[-1])
        if name in ("begin", "cbegin", "end", "cend", "size", "empty", "data") and len(a) == 1:
            v = self.val(a[0])
            if not isinstance(v, list):
                return None
            return {"begin": It(v, 0), "end": It(v, len(v)), "size": len(v), "empty": not v, "data": v}[name.lstrip("c") if name != "data" else name]
        if name in ("adjacent_find", "find", "accumulate", "is_sorted", "reduce", "find_if", "find_if_not", "any_of", "all_of", "none_of", "count_if"):
            plain = [x for x in a if not (x[0] in ("new", "init") and ("equal_to" in str(x[1]) or "identity" in str(x[1])))]
            preds = [x for x in plain if x[0] in ("lambda", "fn") or x[0] in ("new", "init") and str(x[1]).startswith("std::") and str(x[1]).split("<")[0].split("::")[-1] in COMPARE]
            plain = [x for x in plain if x not in preds]
            if len(preds) > 1 or any(x[0] in ("new", "init") and str(x[1]).startswith("std::ranges::") for x in plain):
                return None
            return self.algorithm(name, [self.val(x) for x in plain], preds[0] if preds else None)
        if name in ("operator[]", "at", "front", "back"):
            v = self.val(a[0])
            i = self.val(a[1]) if len(a) > 1 else 0 if name == "front" else -1
            return v[i] if isinstance(v, list) and isinstance(i, int) and i < len(v) else None
        return None

    def call(self, f, *args):
        """What a predicate returns for these numbers."""
        if f[0] in ("new", "init"):
            a, b = args
            return {"less": a < b, "less_equal": a <= b, "greater": a > b, "greater_equal": a >= b, "not_equal_to": a != b}[f[1].split("<")[0].split("::")[-1]]
        st = self.path.st.fork()
        st.facts, st.eqc, st.loops, st.marks = {}, {}, (), ()
        try:
            outs = self.A.call_value(f, [("int", x) for x in args], st, self.A.new_frame({"key": "eval"}, ()), 0)
        except (flow.TooComplex, KeyError):
            return None
        for s, v, x in outs:
            if x is None and all(self.truth(a) == w for a, w in s.facts.items()):
                return self.val(self.A.as_value(s, v))
        return None

    def algorithm(self, name, a, f=None):
        if a and isinstance(a[0], list):
            seq, rest, start = a[0], a[1:], 0
        elif len(a) > 1 and isinstance(a[0], It) and isinstance(a[1], It):
            seq, rest, start = a[0].seq[:a[1].pos], a[2:], a[0].pos
        else:
            return None
        if name in ("accumulate", "reduce"):
            return None if f else sum(seq[start:]) + sum(x for x in rest if isinstance(x, int))
        if name == "find":
            return It(seq, seq.index(rest[0], start) if rest[0] in seq[start:] else len(seq)) if rest and rest[0] is not None else None
        if name == "adjacent_find":
            # equal neighbours, unless another comparison is given
            hits = [(seq[i] == seq[i + 1] if f is None else self.call(f, seq[i], seq[i + 1])) for i in range(start, len(seq) - 1)]
        elif f is not None:
            hits = [self.call(f, x) for x in seq[start:]]
        else:
            return None
        if None in hits:
            return None
        hits = [bool(x) for x in hits]
        if name in ("any_of", "all_of", "none_of", "count_if"):
            return {"any_of": any(hits), "all_of": all(hits), "none_of": not any(hits), "count_if": sum(hits)}[name]
        if name == "find_if_not":
            hits = [not x for x in hits]
        return It(seq, start + hits.index(True) if True in hits else len(seq)) if name != "is_sorted" else None

    def model(self, t, name, a):
        """Questions about parts of the dataset"""
        role = self.role(a[0]) if a else None
        if name == "configuration":
            return None
        if name == "value" and "<" in t[1] and a and norm(a[0])[0] == "app" and norm(a[0])[1].endswith("::configuration"):
            e = self.when.get(t[1].split("<", 1)[1][:-1].split("::")[-1])
            return ("enum", e) if e else None
        if role in self.lists and name in ("nr_indices", "nr_ids", "nr_objects", "nr_arrays"):
            v = self.lists[role]
            return None if v is None else len(v)
        if role == "value":
            if name in ("nr_arrays", "nr_objects", "nr_locations_in_time"):
                return self.count
            if name in ("exists", "contains"):
                i = self.val(a[1])
                return None if self.value_ids is None or i is None else i in self.value_ids
        if role == "array" and name in ("nr_arrays", "nr_objects") and isinstance(self.arrays, dict):
            i = self.val(norm(a[0])[2][1])
            return self.arrays.get(i, 0)
        if role == "time" and self.time:
            return self.time.get(name)
        if role == "disc" and self.disc is not None:
            if name == "nr_arrays":
                return self.disc
        if name == "empty" and role and role.endswith("Properties"):
            return role[:-len("::Properties")] not in self.kinds
        if name in ("value_variability", "shape_per_object", "shape_variability", "space_discretization_type", "time_discretization_type"):
            return ("enum", self.when[name]) if name in self.when else None
        if role == "property" and name in ("time_is_discretized", "space_is_discretized", "presence_is_discretized"):
            return self.when.get(name, False)
        if name in ("presence_is_discretized",):
            return self.when.get(name, False)
        return None

    # ---- whether a path is the path taken

    def follows(self, p):
        """False: not the path of this world; True: it is; None: it may be"""
        self.path = p
        known = True
        for a, v in p.facts.items():
            r = self.truth(a)
            if r is None:
                known = None
            elif r != v:
                return False
        for kind, ctx in p.marks:
            r = self.runs(ctx)
            if r is None:
                known = None
            elif r != (kind != "none"):
                return False
        return known

    def unknown(self, p):
        """What decides whether this path is taken, depends on the data and cannot be evaluated"""
        for a in [a for a, v in p.facts.items() if self.truth(a) is None] + [c[1] if c[0] == "ind" else c for k, c in p.marks if self.runs(c) is None]:
            for s in subterms(a):
                if len(s) > 2 and s[0] == "app" and s[1].split("<")[0].split("::")[-1] not in ("id", "name", "memory_datatype", "file_datatype", "configuration", "array_shape", "rank") and s[2] and isinstance(s[2][0], tuple) and (self.role(s[2][0]) in (*self.lists, "value", "array", "time", "counts", "disc")):
                    return a
        return None

    def truth(self, a):
        if a[0] == "eq" and self.collection is not None:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y == ("str", "lue_collection_property_sets") or y[0] == "glob" and y[1].endswith("collection_property_sets_tag"):
                    return self.collection
        v = self.val(a)
        return v if isinstance(v, bool) else bool(v) if isinstance(v, int) else None

    def runs(self, ctx):
        """Whether a loop has a first iteration"""
        if ctx[0] == "ind":
            a, b = self.val(ctx[1]), self.val(ctx[2])
            if isinstance(a, It) and isinstance(b, It):
                return a.pos < b.pos
            return a < b if isinstance(a, int) and isinstance(b, int) else None
        v = self.val(ctx)
        return bool(v) if isinstance(v, list) else None


# ------------------------------------------------------------------ the datasets

OFF = {"time_is_discretized": False, "space_is_discretized": False}


def cases():
    """(what is compared, parameter classes, world, an error is expected)"""
    out = []

    def add(what, classes, ok, **kw):
        out.append((what, classes, World(**kw), not ok))

    def pairs(what, classes, make):
        for a in range(4):
            for b in range(4):
                kw = make(a, b)
                if kw is not None:
                    add(what, classes, a == b, **kw)
    ids = lambda n: list(range(10, 10 + n))
    # objects and values that do not change through time
    pairs("objects and values", ("ObjectID", "same_shape::Property"), lambda a, b: dict(ids=ids(a), count=b, when=OFF))
    pairs("objects and values", ("ObjectID", "different_shape::Property"), lambda a, b: dict(ids=ids(a), count=b, value_ids=ids(b), when=OFF))
    add("objects without value", ("ObjectID", "different_shape::Property"), False, ids=[10], count=1, value_ids=[11], when=OFF)
    for item in ("box", "point"):
        pairs(f"objects and stationary {item}es".replace("pointes", "points"), ("ObjectID", "ObjectTracker", "SpaceDomain"),
              lambda a, b: dict(ids=ids(a), sets=[], aids=[], aidx=[], count=b, when=dict(OFF, Mobility="stationary", SpaceDomainItemType=item)))
        pairs(f"active objects and mobile {item}es".replace("pointes", "points"), ("ObjectID", "ObjectTracker", "SpaceDomain"),
              lambda a, b: dict(ids=ids(5), sets=[0], aids=ids(a), aidx=[], count=b, when=dict(OFF, Mobility="mobile", SpaceDomainItemType=item)))
    # active objects and values
    pairs("active objects and values", ("ObjectTracker", "same_shape::constant_shape::Property"), lambda a, b: dict(sets=[0], aids=ids(a), aidx=[], count=b, when=OFF))
    pairs("active objects and values", ("ObjectTracker", "different_shape::constant_shape::Property"),
          lambda a, b: dict(sets=[0] if a else [], aids=ids(a), aidx=[0] * a, count=b, value_ids=ids(b), arrays={i: 1 for i in ids(b)}, when=OFF))
    add("active objects and values", ("ObjectTracker", "different_shape::constant_shape::Property"), True, sets=[0, 2], aids=[10, 11, 10, 11], aidx=[0, 0, 1, 1], count=2, value_ids=[10, 11], arrays={10: 2, 11: 2}, when=OFF)
    add("active objects and arrays of a value", ("ObjectTracker", "different_shape::constant_shape::Property"), False, sets=[0], aids=[10], aidx=[1], count=1, value_ids=[10], arrays={10: 1}, when=OFF)
    add("active objects and arrays of a value", ("ObjectTracker", "different_shape::constant_shape::Property"), False, sets=[0], aids=[10], aidx=[0], count=1, value_ids=[10], arrays={10: 0}, when=OFF)
    for n in (0, 1, 3):
        add("active objects and active object indices", ("ObjectTracker", "different_shape::constant_shape::Property"), False, sets=[0], aids=[10, 11], aidx=[0] * n, count=2, value_ids=[10, 11], arrays={10: 1, 11: 1}, when=OFF)
    # active sets and values
    for kind in ("same_shape", "different_shape"):
        pairs("active sets and locations in time", ("ObjectTracker", kind + "::variable_shape::Property"),
              lambda a, b: dict(sets=[2 * i for i in range(a)], aids=ids(2 * a), aidx=[], count=b, arrays={i: 2 for i in range(b)}, when=OFF))
    for n in (1, 3):
        add("sizes of active sets and values", ("ObjectTracker", "same_shape::variable_shape::Property"), False, sets=[0, 2], aids=ids(4), aidx=[], count=2, arrays={0: n, 1: 2}, when=OFF)
    add("sizes of active sets and values", ("ObjectTracker", "same_shape::variable_shape::Property"), False, sets=[0], aids=ids(2), aidx=[], count=1, arrays={0: 1}, when=OFF)
    for first, sets, n in ((2, [0, 2], 1), (2, [0, 2], 3), (4, [0, 4], 1), (4, [0, 4], 0)):
        more = {4: 4}[4] - first
        if n != more:
            add("sizes of active sets and values", ("ObjectTracker", "same_shape::variable_shape::Property"), False, sets=sets, aids=ids(4), aidx=[], count=2, arrays={0: first, 1: n}, when=OFF, later=True)
    add("sizes of active sets and values", ("ObjectTracker", "same_shape::variable_shape::Property"), True, sets=[0, 4], aids=ids(4), aidx=[], count=2, arrays={0: 4, 1: 0}, when=OFF, later=True)
    add("sizes of active sets and values", ("ObjectTracker", "same_shape::variable_shape::Property"), True, sets=[0, 1], aids=ids(4), aidx=[], count=2, arrays={0: 1, 1: 3}, when=OFF, later=True)
    # time domains
    for item, n in (("box", "nr_boxes"), ("point", "nr_points")):
        pairs("active sets and time " + ("boxes" if item == "box" else "points"), ("ObjectTracker", "TimeDomain"),
              lambda a, b: dict(sets=[0] * a, aids=[], aidx=[], time={n: b, "coordinates": list(range(b * (2 if item == "box" else 1)))}, when=dict(TimeDomainItemType=item)))
    pairs("time boxes and counts", ("ObjectTracker", "TimeDomain"),
          lambda a, b: dict(sets=[0] * (2 * b), aids=[], aidx=[], time={"nr_boxes": a, "nr_counts": b, "counts": [2] * b, "coordinates": list(range(2 * a))}, when=dict(TimeDomainItemType="cell")))
    pairs("active sets and time cells", ("ObjectTracker", "TimeDomain"),
          lambda a, b: dict(sets=[0] * a, aids=[], aidx=[], time={"nr_boxes": 1, "nr_counts": 1, "counts": [b], "coordinates": [0, 1]}, when=dict(TimeDomainItemType="cell")))
    # object trackers
    tracker = ("ObjectID", "ObjectTracker")
    for a in range(3):
        for b in range(3):
            add("active objects and active object indices", tracker, a == b or b == 0, ids=ids(3), sets=[0] if a or b else [], aids=ids(a), aidx=[0] * b)
    add("active sets and active objects", tracker, False, ids=ids(3), sets=[], aids=ids(2), aidx=[])
    add("active sets and active object indices", tracker, False, ids=ids(3), sets=[], aids=[], aidx=[0, 0])
    add("active sets and active objects", tracker, True, ids=ids(3), sets=[0, 2], aids=[10, 11, 12], aidx=[])
    add("active sets and active objects", tracker, True, ids=[], sets=[0], aids=[10, 11, 12], aidx=[0, 0, 0])
    add("active sets and active objects", tracker, False, ids=ids(3), sets=[0, 4], aids=[10, 11, 12], aidx=[])
    add("active sets and active objects", tracker, False, ids=ids(3), sets=[3, 1], aids=[10, 11, 12], aidx=[])
    add("active sets and active objects", tracker, False, ids=ids(3), sets=[4], aids=[10, 11, 12], aidx=[])
    add("active sets and active object indices", tracker, False, ids=ids(3), sets=[0, 3], aids=[10, 11, 12], aidx=[0, 0])
    add("objects", tracker, False, ids=[10, 10], sets=[], aids=[], aidx=[])
    add("objects", tracker, False, ids=[10, 11, 10], sets=[], aids=[], aidx=[])
    add("objects", tracker, True, ids=[12, 11, 10], sets=[], aids=[], aidx=[])
    add("objects in an active set", tracker, False, ids=ids(3), sets=[0], aids=[11, 11], aidx=[])
    add("objects in an active set", tracker, False, ids=ids(3), sets=[0], aids=[11, 10, 11], aidx=[])
    add("active objects that are not objects", tracker, False, ids=ids(3), sets=[0], aids=[99], aidx=[])
    # the same, but only in the second iteration
    add("objects without value", ("ObjectID", "different_shape::Property"), False, ids=[10, 11], count=2, value_ids=[10, 12], when=OFF, later=True)
    add("objects without value", ("ObjectID", "different_shape::Property"), True, ids=[10, 11], count=2, value_ids=[10, 11], when=OFF, later=True)
    late = ("ObjectTracker", "different_shape::constant_shape::Property")
    for sets, aids, aidx, arrays, ok in (([0], [10, 11], [0, 1], {10: 1, 11: 1}, False), ([0], [10, 11], [0, 1], {10: 1, 11: 2}, True), ([0, 1], [10, 10], [0, 1], {10: 1}, False),
                                         ([0, 1], [10, 11], [0, 0], {10: 1, 11: 0}, False), ([0, 1], [10, 10], [0, 1], {10: 2}, True)):
        add("active objects and arrays of a value", late, ok, sets=sets, aids=aids, aidx=aidx, count=len(arrays), value_ids=list(arrays), arrays=arrays, when=OFF, later=True)
    add("active objects that are not objects", tracker, False, ids=ids(3), sets=[0], aids=[10, 99], aidx=[], later=True)
    add("objects in an active set", tracker, False, ids=ids(3), sets=[0, 0], aids=[11, 11], aidx=[], later=True)
    add("active sets and active objects", tracker, False, ids=[], sets=[0, 2, 1], aids=[10, 11, 12], aidx=[], later=True)
    add("active sets and active objects", tracker, True, ids=ids(3), sets=[0, 1], aids=[11, 10], aidx=[], later=True)
    # discretisation
    grid = dict(space_is_discretized=True, time_is_discretized=False, value_variability="constant", shape_per_object="same", space_discretization_type="regular_grid")
    for b in range(4):
        for coll in (True, False):
            add("discretisation of all values", ("ObjectTracker", "same_shape::constant_shape::Property"), b == 1, sets=[0], aids=ids(2), aidx=[], count=2, disc=b, collection=coll, when=grid)
        for kind, extra in (("different_shape", {}), ("different_shape::constant_shape", {"sets": [0], "aids": ids(2), "aidx": [0, 0], "arrays": {10: 1, 11: 1}})):
            tr = "ObjectTracker" if "::" in kind else "ObjectID"
            kw = dict(count=2, value_ids=ids(2), when=grid, disc=b, **extra)
            if tr == "ObjectID":
                kw["ids"] = ids(2)
            add("discretisation of all values", (tr, kind + "::Property"), b == 1, collection=True, **kw)
            add("discretisation of each value", (tr, kind + "::Property"), b == 2, collection=False, **kw)
    times = dict(time_is_discretized=True, space_is_discretized=False, value_variability="variable", shape_per_object="same", shape_variability="constant", time_discretization_type="regular_grid")
    for b in (1, 2, 3):
        add("discretisation of locations in time", ("ObjectTracker", "same_shape::variable_shape::Property"), b == 2, sets=[0, 2], aids=ids(4), aidx=[], count=2, arrays={0: 2, 1: 2}, disc=b, when=times)
    # collection property sets
    for a in range(1, 4):
        for b in range(1, 4):
            add("active sets and active objects of a collection", ("Phenomenon",), a == b, sets=[0] * a, aids=ids(b), aidx=[], kinds=("same_shape::constant_shape",))
            add("active sets and active objects of a collection", ("Phenomenon",), a == b, sets=[0] * a, aids=ids(b), aidx=[], kinds=("same_shape::variable_shape",))
            add("active sets and active object indices of a collection", ("Phenomenon",), a == b, sets=[0] * a, aids=ids(a), aidx=[0] * b, kinds=("different_shape::constant_shape",))
    return out


def run():
    c = Check("V02", "in small datasets that cover agreement and disagreement, in both directions, of each pair of related counts, every path that the validating function can take reports an error when the counts differ, and none does when they agree",
              ["a loop reports what its first two iterations report (its iterations do not differ in kind)", "counts that are not among those varied agree", "element types and ranks of discretisation properties are not varied"])
    V = Validators("hdf5", "cxx")
    c.program(V.prog)
    whole = {D + x for x in ("PropertySet", "Properties", "Phenomenon", "Universe", "Dataset")}
    groups = {}
    for what, classes, world, error in cases():
        groups.setdefault(classes, {}).setdefault(what, []).append((world, error))
    for classes, rows in groups.items():
        fs = [f for f in V.functions.values() if set(classes) <= {flow.base_type(t)[len(D):] for _, _, t in f["params"]} and len([t for _, _, t in f["params"] if flow.base_type(t).startswith(D) and flow.base_type(t)[len(D):] in V_TYPES]) == len(classes)]
        tag = " with ".join(short(D + x) for x in classes)
        if not fs:
            raise AnalysisError(f"no validation function for {tag}")
        results = {what: [] for what in rows}
        for f in fs:
            if "::Property" in classes[-1] or classes[-1] == "Property":
                hidden = whole - {D + "Properties"}
            else:
                hidden = whole
            inline = [k for k, g in V.functions.items() if k != f["key"] and not any(flow.base_type(t) in hidden for _, _, t in g["params"])]
            ps = V.paths(f, inline=inline)
            for what, ws in rows.items():
                first = verdict(V, f, ps, [w for w in ws if not w[0].later], c)
                if first[0] is not False and any(w[0].later for w in ws):
                    second = verdict(V, f, V.paths(f, unroll=2, inline=inline), [w for w in ws if w[0].later], c)
                    first = second if second[0] is not True else first
                results[what].append((f, *first))
        for what, rs in results.items():
            # one of the functions for these objects has to compare the counts
            best = next((r for r in rs if r[1]), None) or next((r for r in rs if r[1] is None), None) or rs[0]
            c.ob("counts", f"{tag}: {what}", best[1], where(best[0]), best[2])
    c.count("paths", V.paths_seen)
    return c.finish({"counts": 12})


V_TYPES = {"ObjectID", "ObjectTracker", "SpaceDomain", "TimeDomain", "Phenomenon", "PropertySet", "Properties", "Universe", "Dataset", "TimeBox", "TimeCell", "TimePoint",
           "StationarySpaceBox", "StationarySpacePoint", "MobileSpaceBox", "MobileSpacePoint"} | {
    k + "::" + x for k in ("same_shape", "different_shape", "same_shape::constant_shape", "same_shape::variable_shape", "different_shape::constant_shape", "different_shape::variable_shape") for x in ("Property", "Value", "Properties")}


def verdict(V, f, ps, worlds, c):
    if ps is None:
        return None, "too many paths"
    undecided = ""
    for w, error in worlds:
        w.A = V.analyses[f["key"]]
        w.types = {n: t for n, _, t in f["params"]}
        taken = []
        for p in ps:
            r = w.follows(p)
            if r is not False:
                taken.append((p, r, any(e.q == ADD_ERROR for e in p.events)))
        c.count("datasets")
        if not taken:
            undecided = undecided or f"no path of {sig(f)} matches {describe(w)}"
        elif error:
            bad = next((p for p, r, e in taken if not e), None)
            if bad is not None and w.unknown(bad) is not None and (os.environ.get("LUE_V02") != "1"):
                undecided = undecided or f"whether {sig(f)} reports an error for {describe(w)} depends on {show(w.unknown(bad))[:200]}"
            elif bad is not None:
                return False, f"{sig(f)} reports no error for {describe(w)}"
        else:
            if any(r and e for p, r, e in taken) or all(e for p, r, e in taken):
                return False, f"{sig(f)} reports an error for {describe(w)}, in which the counts agree"
    return (None, undecided) if undecided else (True, "")


def describe(w):
    out = []
    names = {"ids": "object ids", "sets": "active set indices", "aids": "active object ids", "aidx": "active object indices"}
    for k, v in w.lists.items():
        if v is not None:
            out.append(f"{len(v)} {names[k]} {v}")
    if w.count is not None:
        out.append(f"{w.count} values")
    if w.time:
        out.append(", ".join(f"{k} {v}" for k, v in w.time.items() if k != "coordinates"))
    if w.arrays:
        out.append("arrays per value " + ", ".join(str(v) for v in w.arrays.values()))
    if w.disc is not None:
        out.append(f"{w.disc} values in the discretisation property")
    return ", ".join(out)


if __name__ == "__main__":
    raise SystemExit(run())
