"""H07: existence queries and listings tell exactly what is stored under a name, and nothing else."""
import flow, lueir
from check import Check, where, sig
from common import *
from M09 import evaluate
from P04 import nodes

OBJECTS = {"H5O_TYPE_GROUP": 0, "H5O_TYPE_DATASET": 1, "H5O_TYPE_NAMED_DATATYPE": 2, "H5O_TYPE_UNKNOWN": -1}
LINKS = {"H5L_TYPE_HARD": 0, "H5L_TYPE_SOFT": 1, "H5L_TYPE_EXTERNAL": 64, "H5L_TYPE_ERROR": -1}
H, D = "lue::hdf5::", "lue::data_model::"
# What each query is about: a link of any kind, an object of some kind, a link of some kind, an attribute, a file
QUERIES = {
    H + "link_exists": ("link",),
    H + "group_exists": ("object", "H5O_TYPE_GROUP"), H + "Group::contains_group": ("object", "H5O_TYPE_GROUP"),
    H + "dataset_exists": ("object", "H5O_TYPE_DATASET"), H + "Group::contains_dataset": ("object", "H5O_TYPE_DATASET"),
    H + "soft_link_exists": ("kind", "H5L_TYPE_SOFT"), H + "Group::contains_soft_link": ("kind", "H5L_TYPE_SOFT"),
    H + "hard_link_exists": ("kind", "H5L_TYPE_HARD"), H + "Group::contains_hard_link": ("kind", "H5L_TYPE_HARD"),
    H + "link_is_group": ("target", "H5O_TYPE_GROUP"), H + "link_is_dataset": ("target", "H5O_TYPE_DATASET"),
    H + "Attributes::exists": ("attribute",), H + "PrimaryDataObject::contains_attribute": ("attribute",),
    H + "file_exists": ("file",), D + "dataset_exists": ("file",),
    D + "collection_exists": ("object", "H5O_TYPE_GROUP"), D + "space_domain_exists": ("object", "H5O_TYPE_GROUP"), D + "time_domain_exists": ("object", "H5O_TYPE_GROUP"),
    D + "same_shape::constant_shape::value_exists": ("object", "H5O_TYPE_DATASET"), D + "different_shape::Value::contains": ("object", "H5O_TYPE_DATASET"),
    D + "SpaceDomain::presence_is_discretized": ("kind", "H5L_TYPE_SOFT"), D + "has_linked_object_tracker": ("kind", "H5L_TYPE_SOFT"), D + "has_linked_time_domain": ("kind", "H5L_TYPE_SOFT"),
    D + "PropertySet::owns_object_tracker": ("not of kind", "H5L_TYPE_SOFT"),
    D + "PropertyGroup::time_is_discretized": ("attribute",), D + "PropertyGroup::space_is_discretized": ("attribute",),
    D + "different_shape::constant_shape::Value::exists": ("object", "H5O_TYPE_DATASET"),
}
LISTS = {H + "Group::group_names": {"H5O_TYPE_GROUP"}, H + "Group::object_names": {"H5O_TYPE_GROUP", "H5O_TYPE_DATASET"}}
BY_NAME = {"H5Lexists": 1, "H5Oget_info_by_name": 1, "H5Oget_info_by_name1": 1, "H5Lget_info": 1, "H5Aexists": 1, "H5Oexists_by_name": 1, "H5Aopen": 1}
LEVELS = {"property_set_group": 3, "property_sets_group": 4, "phenomena_group": 6, "dataset_group": 7}
INSERTS = {"insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"}


def short(q):
    return q.split("(")[0].split("::")[-1] if isinstance(q, str) else ""


def name(fn):
    return sig(fn).replace(D, "").replace(H, "")


def plain(t):
    while t[0] == "cast" or t[0] == "app" and t[1] in ("c_str", "data") and t[2]:
        t = t[-1] if t[0] == "cast" else t[2][0]
    return t


def number(t):
    """Constants of HDF5, integers and truth values."""
    if t[0] in ("int", "bool"):
        return t[1]
    if t[0] in ("enum", "glob"):
        n = t[1].split("::")[-1]
        return OBJECTS.get(n, LINKS.get(n))
    return None


class World:
    """What is stored: whether there is a link of the name (or HDF5 fails to tell), of which kind, and the kind of the object it leads to, if to any."""

    def __init__(self, link=0, kind="H5L_TYPE_HARD", target="H5O_TYPE_GROUP", attribute=0, file="none", info=0):
        self.link, self.kind, self.target, self.attribute, self.file, self.info = link, kind, target, attribute, file, info

    def __call__(self, t):
        v = number(t)
        if v is not None:
            return v
        if t[0] == "app":
            q = short(t[1])
            if q == "H5Lexists":
                return self.link
            if q in ("H5Oget_info_by_name", "H5Oget_info_by_name1"):
                return 0 if self.target and self.link > 0 and self.info == 0 else -1
            if q == "H5Oexists_by_name":
                return -1 if self.link < 0 else 1 if self.target and self.link else 0
            if q == "H5Lget_info":
                return 0 if self.link > 0 and self.info == 0 else -1
            if q == "H5Aexists":
                return self.attribute
            if q == "is_regular_file":
                return self.file == "file"
            if q == "is_directory":
                return self.file == "directory"
            if q == "exists" and "status" in str(t) or t[1] == "std::filesystem::exists":
                return self.file != "none"
        if t[0] == "fld" and t[2] == "type":
            made = [x for x in terms(t[1]) if x[0] == "out" and x[2][0] == "app"]
            if made:
                q = short(made[0][2][1])
                if q.startswith("H5Oget_info"):
                    return OBJECTS[self.target] if self.target else None
                if q == "H5Lget_info":
                    return LINKS[self.kind]
        return None

    def __str__(self):
        if self.file != "none":
            return f"a {self.file} of that name"
        if self.attribute:
            return "an attribute of that name" if self.attribute > 0 else "an object that can't be examined"
        if self.link < 0:
            return "a location that can't be examined"
        if not self.link:
            return "nothing of that name"
        return f"{self.kind[9:].lower().replace('hard', 'a hard').replace('soft', 'a soft').replace('external', 'an external')} link to " + \
            ("nothing" if not self.target else {"H5O_TYPE_GROUP": "a group", "H5O_TYPE_DATASET": "an array", "H5O_TYPE_NAMED_DATATYPE": "a named datatype"}[self.target]) + \
            (" whose info can't be obtained" if self.info else "")


def worlds(kind):
    if kind[0] == "attribute":
        return [World(attribute=n) for n in (-1, 0, 1)]
    if kind[0] == "file":
        return [World(file=f) for f in ("none", "file", "directory")]
    ws = [World(link=n) for n in (0, -1)] if kind[0] != "target" else []
    targets = ("H5O_TYPE_GROUP", "H5O_TYPE_DATASET", "H5O_TYPE_NAMED_DATATYPE")
    ws += [World(link=1, kind=k, target=t) for k in ("H5L_TYPE_HARD", "H5L_TYPE_SOFT") for t in targets]
    return ws + [World(link=1, kind="H5L_TYPE_SOFT", target=None)]


def expected(kind, w):
    """True, False, or nothing for an answer that can't be given; the last of the pair tells whether failing is fine as well."""
    if kind[0] == "attribute":
        return w.attribute > 0, w.attribute < 0
    if kind[0] == "file":
        return w.file == "file", False
    if kind[0] == "link":
        return w.link > 0, w.link < 0
    if kind[0] == "kind":
        return w.link > 0 and w.kind == kind[1], w.link < 0
    if kind[0] == "not of kind":
        return not (w.link > 0 and w.kind == kind[1]), w.link < 0
    return w.link > 0 and w.target == kind[1], w.link < 0 or w.link > 0 and w.target is None


def outcomes(A, paths, w):
    """What happens in this world: a set of True, False, None (can't tell) and "throw"."""
    res = set()
    for p in paths:
        if any(evaluate(t, w) not in (None, v) for t, v in p.facts.items()):
            continue
        sure = all(evaluate(t, w) is not None for t in p.facts)
        if p.kind == "throw":
            res.add("throw" if sure else None)
        elif p.kind == "ret":
            v = evaluate(A.as_value(p.st, p.value), w)
            res.add(None if v is None or not sure else bool(v))
    return res


# Functions of HDF5 that copy a text to a buffer: positions of the buffer and of its size
TEXTS = {"H5Iget_name": (1, 2), "H5Fget_name": (1, 2), "H5Aget_name": (2, 1), "H5Lget_val": (2, 3), "H5Iget_comment": (1, 2), "H5Fget_obj_name": (1, 2)}


def minus(a, b):
    """a - b when that is a number, else None"""
    d = {}
    flow.linear(plain(a), 1, d)
    flow.linear(plain(b), -1, d)
    d = {k: v for k, v in d.items() if v}
    return d.get(None, 0) if set(d) <= {None} else None


def bounded(t):
    """The smaller of something and a number"""
    return any(isinstance(x, tuple) and len(x) > 2 and x[0] in ("app", "min") and str(x[1]).split("::")[-1].split("<")[0] in ("min", "clamp") and any(plain(y)[0] == "int" for y in x[2] if isinstance(y, tuple) and y) for x in flow.subterms(t))


def texts(prog, fns, ob, c):
    """Texts that HDF5 copies to a buffer: the buffer has room for what is asked for, all of the text is asked for, and the result is exactly the text."""
    A = flow.Analysis(prog, opaque=lambda q, k: q.startswith("std::") or h5_call(q))
    for f in fns.values():
        if not any(q in TEXTS for q, _, _ in calls_in(f)):
            continue
        c.count("functions analysed")
        for p in A.run(f):
            if p.kind != "ret":
                continue
            sizes, total, filled = {}, None, None

            def root(t):
                while True:
                    t = plain(t)
                    if t[0] == "out" and t[2][0] == "app" and t[1] < len(t[2][2]):
                        t = t[2][2][t[1]]
                    elif t[0] == "app" and t[1].split("::")[-1] in ("data", "c_str", "begin") and t[2]:
                        t = t[2][0]
                    elif t[0] == "addr" or t[0] in ("at", "sub") and t[-1] == flow.ZERO:
                        t = t[1]
                    else:
                        return t

            def resolved(t):
                if not isinstance(t, tuple):
                    return t
                if len(t) > 2 and t[0] == "app" and t[1].split("::")[-1] in ("size", "length") and t[2] and sizes.get(root(t[2][0])):
                    return sizes[root(t[2][0])]
                return tuple(resolved(x) for x in t)
            for e in p.events:
                last = e.q.split("::")[-1]
                if "basic_string" in e.q and last == "basic_string":
                    sizes[root(e.res)] = e.args[0] if len(e.args) >= 2 and e.key.find("(unsigned long") >= 0 or len(e.args) == 3 and e.args[1][0] == "int" else flow.ZERO if not e.args else None
                elif "basic_string" in e.q and last == "resize" and e.args:
                    sizes[root(e.args[0])] = e.args[1]
                elif "basic_string" in e.q and last in ("assign", "append", "operator=", "push_back", "pop_back", "erase", "shrink_to_fit") and e.args:
                    sizes[root(e.args[0])] = None
                elif e.q in TEXTS:
                    b, n = (e.args[i] for i in TEXTS[e.q])
                    if b == ("null",) or b == flow.ZERO:
                        total = e.res
                        continue
                    buffer = root(b)
                    n = resolved(n)
                    length = total
                    if e.q == "H5Lget_val":
                        sized = [t for t in flow.subterms(n) if isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[2] == "val_size"]
                        length = ("op", "-", (sized[0], ("int", 1))) if sized else None
                    room = sizes.get(buffer)
                    d = minus(n, room) if room else None
                    ob("text", f"room for what {e.q} writes in {name(f)}", None if d is None and (room is None or room[0] not in ("int",)) else d is not None and d <= 1, where(f, e.line),
                       f"{flow.show(n)} bytes are written to a text of {flow.show(room) if room else '?'}")
                    d = minus(n, length) if length else None
                    ob("text", f"what {e.q} yields in {name(f)}", (False if plain(n)[0] == "int" or bounded(n) else None) if d is None else d >= 1, where(f, e.line), f"{flow.show(n)} bytes are asked for of a text of {flow.show(length) if length else '?'} and a terminator")
                    filled = (buffer, length, e)
            if filled and filled[1] is not None and root(A.as_value(p.st, p.value)) == filled[0]:
                d = minus(sizes[filled[0]], filled[1]) if sizes.get(filled[0]) else None
                ob("text", f"length of what {name(f)} returns", None if d is None else d == 0, where(f, filled[2].line), f"is {flow.show(sizes[filled[0]]) if sizes.get(filled[0]) else '?'}, the text has {flow.show(filled[1])} characters")


def run():
    c = Check("H07", "each existence query, evaluated for every state a name can be in (nothing, an error, hard or soft links to a group, an array, a named datatype or nothing), answers yes exactly "
              "in the states it is about, for the location and name it was given; the callbacks of listings visit all links and collect exactly those of the listed kinds; collections hold one item "
              "for each listed name and find, add, count and name those; the groups reached from a property are those the format nests it in; removing removes that file",
              ["HDF5 documentation: H5Lexists returns a positive value, zero or a negative value for a link that exists, does not, and a failure; H5Literate stops when its callback returns non-zero"])
    prog = lueir.load("hdf5", "cxx", "hl", "templates")
    c.program(prog)
    fns = {k: f for k, f in prog.functions.items() if "body" in f and component(f) in ("hdf5", "cxx", "hl") and "/test/" not in f["file"]}
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: q in PURE_HDF5)
    results = {}

    def ob(rule, inst, ok, at, why=""):
        old = results.get((rule, inst, at))
        rank = {False: 0, None: 1, True: 2}
        if old is None or rank[ok] < rank[old[0]]:
            results[rule, inst, at] = (ok, why)

    texts(prog, fns, ob, c)

    def paths_of(A, f, rule):
        c.count("functions analysed")
        try:
            return A.run(f)
        except lueir.AnalysisError as e:
            ob(rule, name(f), None, where(f), str(e))
            return []

    for k, f in sorted(fns.items()):
        if f["q"] in QUERIES:
            query(c, ob, A, f, QUERIES[f["q"]], paths_of(A, f, "query"))
        if f["q"] in LISTS:
            listing(c, ob, prog, A, f, LISTS[f["q"]], paths_of(A, f, "listing"))
    for k, f in sorted(fns.items()):
        if f["q"] in (H + "remove_file", D + "remove_dataset"):
            B = flow.Analysis(prog, opaque=lambda q, k2: q.startswith("std::filesystem::remove") or q in ("remove", "std::remove", "unlink"), pure=lambda q, k2: False)
            for p in paths_of(B, f, "removal"):
                if p.kind != "ret":
                    continue
                gone = [e for e in p.events if e.q.startswith("std::filesystem::remove") or e.q in ("remove", "std::remove", "unlink")]
                ok = bool(gone) and all(contains(plain(e.args[0]), ("par", f["params"][0][0])) for e in gone)
                ob("removal", name(f), ok, where(f), "returns without having removed the file of that name" if not gone else f"removes {show(gone[0].args[0])}")
    collections(c, ob, prog, fns, paths_of)
    parents(c, ob, prog, fns, paths_of)
    layers(ob, prog, fns, paths_of)
    for (rule, inst, at), (ok, why) in sorted(results.items()):
        c.ob(rule, inst, ok, at, why)
    return c.finish({"query": 8, "asked about": 8, "listing": 1, "collected": 2, "collection opened": 5, "collection query": 10, "collection item": 8, "collection added": 4, "removal": 1, "text": 4,
                     "level": 2, "parent": 2, "path": 5, "collection named": 1})


def query(c, ob, A, f, kind, paths):
    at, inst = where(f), name(f)
    for w in worlds(kind):
        c.count("states of a name considered")
        want, may_fail = expected(kind, w)
        got = outcomes(A, paths, w)
        if may_fail:
            got.discard("throw")
            ok = None if None in got else got <= {want}
        else:
            ok = False if (got - {None}) - {want} else None if None in got or not got else True
        ob("query", f"{inst}: {w}", ok, at, f"answers {sorted(map(str, got))} for {w}")
    root = ("this",) if f.get("cls") and not f.get("static") else next((("par", n) for n, _, t in f["params"] if "Identifier" in t or "Group" in t), None)
    rest = [("par", n) for n, _, t in f["params"] if ("par", n) != root]
    for p in paths:
        es = [e for e in p.events if e.q in BY_NAME]
        for e in es:
            n = plain(e.args[1])
            ok = (root is None or contains(e.args[0], root)) and (any(contains(n, x) for x in rest) if rest else n[0] in ("str", "glob"))
            ob("asked about", inst, True if ok else False if n[0] in ("str", "par", "glob") else None, where(f, e.line), f"asks about {show(n)} of {show(e.args[0])}")
        if kind[0] == "file":
            ts = [x for t in list(p.facts) + ([A.as_value(p.st, p.value)] if p.kind == "ret" else []) for x in terms(t) if len(x) > 2 and x[0] == "app" and short(x[1]) in ("is_regular_file", "exists", "is_directory")]
            for x in ts:
                ob("asked about", inst, contains(x, rest[0]) if rest else None, where(f), f"asks about {show(x)}")


def callback_of(prog, t, f):
    t = plain(t)
    while t[0] in ("addr", "deref", "app") and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    n = t[1] if t[0] in ("glob", "fn", "lambda", "func") else None
    if n is None:
        return None
    found = [g for g in prog.functions.values() if "body" in g and (g["key"] == n or g["q"] == n or g["key"].startswith(n)) and len(g["params"]) == 4]
    return found[0] if len(found) == 1 else next((g for g in found if g["file"] == f["file"]), None)


def listing(c, ob, prog, A, f, kinds, paths):
    at, inst = where(f), name(f)
    seen = set()
    for p in paths:
        if p.kind != "ret":
            continue
        es = [e for e in p.events if e.q.startswith("H5Literate")]
        if not es:
            ob("listing", inst, False, at, "returns without having visited the links")
            continue
        if len(es) > 1:
            ob("listing", inst, None, at, "visits the links more than once")
            continue
        e = es[0]
        start = plain(e.args[3])
        from_start = start[0] in ("null", "nullptr") or start == flow.ZERO
        if start[0] == "addr":
            from_start = None
        ob("listing", f"{inst}: from the first link", from_start, at, f"starts at {show(start)}")
        ob("listing", f"{inst}: links of this group", contains(e.args[0], ("this",)), at, f"visits {show(e.args[0])}")
        v = A.as_value(p.st, p.value)
        given = [x for x in terms(v) if x[0] == "out" and x[2] == e.res]
        t = v
        while t[0] in ("fld", "cast", "deref") or t[0] == "new" and len(t[3]) == 1:
            t = t[1] if t[0] != "cast" else t[-1]
            if t is None or not isinstance(t, tuple):
                break
        ob("listing", f"result of {inst}", True if given and t in given else None if given else False, at, f"returns {show(v)} instead of what was collected")
        g = callback_of(prog, e.args[4], f)
        if g is None:
            ob("listing", inst, None, at, f"callback {show(e.args[4])} is unknown")
            continue
        if g["key"] in seen:
            continue
        seen.add(g["key"])
        collected(c, ob, A, f, g, kinds)


def additions(A, p, item):
    """Terms in memory that stand for a sequence to which the item was added."""
    res = set()
    stores = [e for e in p.events if short(e.q) in ("push_back", "emplace_back", "insert", "add")]
    for e in stores:
        if any(contains(a, item) for a in e.args):
            res.add(("event", e.line))
    for t in values(p.st):
        for x in terms(t):
            if x and x[0] == "mut" and x[1] in ("push_back", "emplace_back", "insert", "emplace") and any(contains(a, item) for a in x[2][1:]):
                res.add(x)
    return res


def values(st):
    for v in st.store.values():
        if isinstance(v, tuple):
            yield v
        elif isinstance(v, dict):
            yield from (x for x in v.values() if isinstance(x, tuple))


def collected(c, ob, A, f, g, kinds):
    at, inst = where(g), f"{name(f)} by its callback"
    c.count("functions analysed")
    try:
        paths = A.run(g)
    except lueir.AnalysisError as e:
        return ob("collected", inst, None, at, str(e))
    loc, item = ("par", g["params"][0][0]), ("par", g["params"][1][0])
    for p in paths:
        for e in p.events:
            if e.q in BY_NAME:
                ob("collected", f"{inst}: what is examined", contains(e.args[0], loc) and contains(e.args[1], item), where(g, e.line), f"examines {show(e.args[1])} of {show(e.args[0])}")
    ws = [World(link=1, target=t) for t in ("H5O_TYPE_GROUP", "H5O_TYPE_DATASET", "H5O_TYPE_NAMED_DATATYPE")] + [World(link=1, target=None, info=-1)]
    for w in ws:
        c.count("states of a name considered")
        for p in paths:
            if any(evaluate(t, w) not in (None, v) for t, v in p.facts.items()):
                continue
            if p.kind == "throw":
                ob("collected", f"{inst}: {w}", None, at, "throws through HDF5")
                continue
            v = evaluate(A.as_value(p.st, p.value), w)
            adds = additions(A, p, item)
            if w.target is None:
                ok = None if v is None else v < 0 and not adds
                ob("collected", f"{inst}: {w}", ok, at, f"goes on ({v}) when a link can't be examined")
                continue
            want = w.target in kinds
            ok = None if v is None else v == 0 and len(adds) == (1 if want else 0)
            ob("collected", f"{inst}: {w}", ok, at, "the names after this one aren't visited" if v else f"{w} is {'not ' if want else ''}listed")


def collections(c, ob, prog, fns, paths_of):
    low = lambda q, k: h5_call(q) or q.startswith("lue::") and not q.startswith((D + "Collection<", D + "Collection::"))
    A = flow.Analysis(prog, opaque=low, pure=low)
    for cls, info in sorted(prog.classes.items()):
        if not cls.startswith(D + "Collection<"):
            continue
        holds = [n for n, t, *_ in info["fields"] if "map<" in t]
        if len(holds) != 1:
            continue
        items = ("fld", ("this",), holds[0])
        stored = lambda p: A.read(p.st, ("lv", ("m", ("this",)), (("f", holds[0]),)))
        for f in sorted((f for f in fns.values() if f.get("cls") == cls and not f.get("implicit") and not f.get("copymove")), key=lambda f: f["key"]):
            last, at, inst = f["q"].split("::")[-1], where(f), name(f)
            operator = f["q"].endswith("operator[]")
            if f.get("ctor"):
                opened(ob, f, [p for p in paths_of(A, f, "collection opened") if p.kind == "ret"], stored, prog, cls)
            elif last == "names":
                for p in paths_of(A, f, "collection named"):
                    if p.kind == "ret":
                        named(ob, A, prog, f, p, items)
            elif last == "item_names":
                for p in paths_of(A, f, "collection opened"):
                    v = A.as_value(p.st, p.value)
                    ob("collection opened", inst, True if v[0] == "app" and v[1] == H + "Group::group_names" and contains(v, ("this",)) else None if contains(v, ("this",)) else False, at, f"names are {show(v)}")
            elif last in ("empty", "size", "contains") or operator:
                ps = paths_of(A, f, "collection query")
                for n in (0, 1, 2):
                    for there in ((None,) if last in ("empty", "size") else (False, True)):
                        if there and not n:
                            continue
                        w = held(items, f, n, there)
                        for p in ps:
                            if any(evaluate(t, w) not in (None, v) for t, v in p.facts.items()):
                                continue
                            sure = all(evaluate(t, w) is not None for t in p.facts)
                            what = f"{inst} of {n} items" + ("" if there is None else ", that one " + ("among them" if there else "not among them"))
                            if operator:
                                if p.kind == "throw" or not there:
                                    ob("collection item", what, True if (p.kind == "throw") == (not there) else False if sure else None, at, "gives an item" if not there else "raises though there is such an item")
                                    continue
                                v = A.as_value(p.st, p.value)
                                x = ("app", "find", (items, ("par", f["params"][0][0])))
                                found = contains(v, x) or any(len(y) > 2 and y[0] in ("app", "at") and contains(y, items) and contains(y, ("par", f["params"][0][0])) for y in terms(v) if y)
                                ob("collection item", what, True if found else False if sure and not contains(v, ("par", f["params"][0][0])) else None, at, f"gives {show(v)}")
                                continue
                            want = {"empty": n == 0, "size": n, "contains": there}[last]
                            got = evaluate(A.as_value(p.st, p.value), w) if p.kind == "ret" else "an exception"
                            ob("collection query", what, None if got is None else True if got == want else False if sure else None, at, f"{got} instead of {want}")
            elif last == "add":
                key, item = (("par", n) for n, _, t in f["params"])
                for p in paths_of(A, f, "collection added"):
                    if p.kind != "ret":
                        continue
                    v = stored(p)
                    r = A.as_value(p.st, p.value)
                    mine = lambda x: len(x) > 2 and (x[0] == "app" and short(x[1]) in ("find", "at") and key in x[2] or x[0] == "at" and key in x or x[0] == "app" and short(x[1]) in INSERTS)
                    another = any(len(x) > 2 and x[0] == "app" and short(x[1]) in ("begin", "rbegin", "cbegin") and contains(x, items) or x[:1] == ("at",) and contains(x[1], items) and x[2][0] == "int" for x in terms(r) if x)
                    ob("collection item", f"result of {inst}", False if another else True if any(mine(x) for x in terms(r) if x) else False if contains(r, items) and not contains(r, key) else None, at, f"gives {show(r)}")
                    ob("collection added", inst, added(v, items, lambda k: k == key, lambda x: contains(x, item)), at, f"items become {show(v)}")
            elif last in ("begin", "end"):
                for p in paths_of(A, f, "collection query"):
                    v = A.as_value(p.st, p.value)
                    ok = v[0] == "app" and short(v[1]) in (last, "c" + last) and v[2] == (items,)
                    ob("collection query", inst, True if ok else None if v[0] != "app" else False, at, f"{show(v)}")


def layers(ob, prog, fns, paths_of):
    """A raster view contains the layers it names."""
    low = lambda q, k: h5_call(q)
    A = flow.Analysis(prog, opaque=low, pure=low)
    for k, f in sorted(fns.items()):
        if f["q"] != D + "RasterView::contains" or not f.get("cls"):
            continue
        names = [n for n, t, *_ in prog.classes.get(f["cls"], {"fields": []})["fields"] if t.startswith("std::vector<std::basic_string") or t.startswith("std::vector<std::string")]
        if len(names) != 1:
            ob("collection query", name(f), None, where(f), "the names of layers are kept in an unknown way")
            continue
        items = ("fld", ("this",), names[0])
        for n, there in ((0, False), (1, False), (1, True), (3, True), (3, False)):
            inner, me = held(items, f, n, there), ("par", f["params"][0][0])

            def w(t):
                if t[0] == "app" and contains(t, items) and me in t[2]:
                    q = t[1].replace("__", "::")
                    if "find_fn" in q or short(t[1]) == "find":
                        return "there" if there else "end"
                    if "count_fn" in q or short(t[1]) == "count":
                        return int(there)
                if t[0] == "eq" and me in t[1:] and any(x[0] in ("elem", "each", "at") and x[1] == items for x in t[1:]):
                    return there
                return inner(t)

            for p in paths_of(A, f, "collection query"):
                if any(m[1] == items and (m[0] == "none") != (n == 0) for m in p.marks) or any(evaluate(t, w) not in (None, v) for t, v in p.facts.items()):
                    continue
                v = A.as_value(p.st, p.value) if p.kind == "ret" else None
                got = evaluate(v, w) if v else "an exception"
                used = [x for x in terms(v) if x] if v else []
                seen = contains(v, items) if v else True
                ok = None if got is None and seen and any(x == ("par", f["params"][0][0]) for x in used) else got == there
                ob("collection query", f"{name(f)} of {n} layers, that one {'' if there else 'not '}among them", ok, where(f), f"{got} instead of {there}")


def held(items, f, n, there):
    """A collection of n items, in which the one of the given name is present or not."""
    def world(t):
        v = number(t)
        if v is not None:
            return v
        if t[0] == "app" and t[2] and t[2][0] == items:
            q = short(t[1])
            if q == "size":
                return n
            if q == "empty":
                return n == 0
            if q in ("end", "cend"):
                return "end"
            if q in ("begin", "cbegin"):
                return "end" if n == 0 else None
            mine = len(t[2]) == 2 and f["params"] and t[2][1] == ("par", f["params"][0][0])
            if mine and q == "find":
                return "there" if there else "end"
            if mine and q == "count":
                return 1 if there else 0
            if mine and q == "contains":
                return there
            if mine and q in ("lower_bound", "upper_bound"):
                return "there" if there and q == "lower_bound" else "end" if n == 0 else "another"
        if t[0] == "op" and t[1] == "+" and len(t) > 2:
            vs = [evaluate(x, world) for x in t[2]]
            return None if None in vs or not all(isinstance(v, int) for v in vs) else sum(vs)
        return None
    return world


def added(v, before, key, item):
    """Is v the container `before` with one item added under a key?"""
    if v == before:
        return False
    if v[0] == "upd":
        k = v[2]
        return True if v[1] == before and len(k) > 1 and isinstance(k[1], tuple) and key(k[1]) and item(v[3]) else None
    if v[0] != "mut" or v[1] not in INSERTS or v[2][0] != before:
        return None
    args = v[2][1:]
    if len(args) == 1 and args[0][0] in ("tuple", "init"):
        args = args[0][-1]
    elif len(args) == 1 and args[0][0] == "new":
        args = args[0][3]
    args = tuple(args)
    if len(args) != 2:
        return None
    return key(args[0]) and item(args[1])


def named(ob, A, prog, f, p, items):
    """The names are the keys of all items."""
    at, inst, v = where(f), name(f), A.as_value(p.st, p.value)
    key = lambda t: t[0] == "fld" and t[2] == "first" and t[1][0] in ("elem", "each") and t[1][1] == items
    marks = {m[0] for m in p.marks if m[1] == items}
    if v[0] == "mut" and v[1] in ("push_back", "emplace_back"):
        return ob("collection named", inst, "break" not in marks and "some" in marks and (True if len(v[2]) == 2 and key(v[2][1]) else None if contains(v[2][1], ("fld", ("elem", items), "first")) else False), at, f"names {show(v)}")
    if marks == {"none"}:
        return ob("collection named", f"{inst}: no items", True, at)
    calls = [n for n in nodes(f["body"]) if n[0] == "call" and str(n[1]).startswith("std::transform<")]
    field = items[2]
    if len(calls) != 1 or p.marks:
        return ob("collection named", inst, None, at, f"names {show(v)}")
    args = calls[0][3]
    ends = [len(a) > 5 and a[0] == "call" and str(a[5]).split("::")[-1] in ("begin", "cbegin", "end", "cend") and list(a[2])[:1] == ["mem"] and a[2][2] == field and str(a[5]).split("::")[-1].strip("c") for a in args[:2]]
    made = [m for a in args[3:] for m in nodes(a) if m[0] == "lambda"]
    inner = [g for k, g in prog.functions.items() if made and "body" in g and f"lambda@{made[0][1].split('lambda@')[-1]}" in k and g["params"]]
    if not inner:
        return ob("collection named", inst, None, at, "the names come from an unknown function")
    firsts = set()
    for g in inner:
        try:
            firsts |= {A.as_value(q.st, q.value) == ("fld", ("par", g["params"][0][0]), "first") for q in A.run(g) if q.kind == "ret"}
        except lueir.AnalysisError:
            firsts.add(None)
    ok = None if None in firsts or None in ends or "False" in map(str, ends) else ends == ["begin", "end"] and firsts == {True}
    ob("collection named", inst, ok, at, "names are not the names of all items")


def opened(ob, f, paths, stored, prog, cls):
    at, inst = where(f), name(f)
    roots = [("par", n) for n, _, _ in f["params"]] + [("this",)]
    seen = set()
    for p in paths:
        v = stored(p)
        marks = [m for m in p.marks if any(len(x) > 1 and x[0] == "app" and short(x[1]) in ("group_names", "item_names") for x in terms(m[1]))]
        kinds = {m[0] for m in marks}
        seen |= kinds
        if not marks:
            ob("collection opened", inst, False, at, "items stored earlier aren't looked up")
        elif "break" in kinds:
            ob("collection opened", inst, False, at, "not all items stored earlier are held")
        elif kinds == {"none"}:
            ob("collection opened", f"{inst}: no items", True if v[0] == "new" and not v[3] or v[0] == "init" and not v[2] else None, at, f"holds {show(v)}")
        else:
            names = marks[0][1]
            before = v[2][0] if v[0] == "mut" else v[1] if v[0] == "upd" else None
            each = lambda t: t[0] in ("elem", "each") and t[1] == names or t[0] == "at" and t[1] == names
            made = lambda t: t[0] == "new" and any(each(a) for a in t[3]) and any(contains(a, r) for a in t[3] for r in roots) or None
            if v[0] not in ("mut", "upd"):
                ob("collection opened", inst, False, at, "items stored earlier aren't held")
            else:
                ok = added(v, before, each, made)
                ob("collection opened", inst, ok, at, f"holds {show(v)}")
    if paths and "some" not in seen and "break" not in seen:
        ob("collection opened", inst, False, at, "items stored earlier are never held")


def parents(c, ob, prog, fns, paths_of):
    up = H + "Group::parent"
    low = lambda q, k: q == up
    A = flow.Analysis(prog, opaque=low, pure=low)
    for k, f in sorted(fns.items()):
        last = f["q"].split("::")[-1]
        if f["q"] == D + last and last in LEVELS and len(f["params"]) == 1:
            for p in paths_of(A, f, "level"):
                if p.kind != "ret":
                    continue
                v, n = A.as_value(p.st, p.value), 0
                while v[0] == "app" and v[1] == up or v[0] in ("cast",) or v[0] == "new" and len(v[3]) == 1:
                    n += v[0] == "app"
                    v = v[2][0] if v[0] == "app" else v[-1] if v[0] == "cast" else v[3][0]
                ob("level", name(f) + (f["targs"] or ""), n == LEVELS[last] if v == ("par", f["params"][0][0]) else None, where(f), f"{n} levels up instead of {LEVELS[last]}")
    deep = lambda q, k: q.startswith("lue::") and q != D + "property"
    P = flow.Analysis(prog, opaque=deep, pure=deep)
    for k, f in sorted(fns.items()):
        if f["q"] == D + "property" and len(f["params"]) == 2:
            at_path(c, ob, P, f, paths_of(P, f, "path"))
    B = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: q in PURE_HDF5 or q == H + "Identifier::pathname")
    told = None
    for k, f in sorted(fns.items()):
        if f["q"] == H + "Group::parent_pathname":
            for p in paths_of(B, f, "parent"):
                v = B.as_value(p.st, p.value)
                told = v if v[0] == "fld" and v[1] == ("this",) else None
                ob("parent", name(f), True if told else None, where(f), f"{show(v)}")
    for k, f in sorted(fns.items()):
        at = where(f)
        if f["q"] == up and told:
            for p in paths_of(B, f, "parent"):
                if p.kind != "ret":
                    continue
                es = [e for e in p.events if e.q.startswith("H5Gopen")]
                ob("parent", name(f), bool(es) and plain(es[-1].args[1]) == told and contains(es[-1].args[0], ("this",)), at, "opens another group" if es else "opens no group")
        if f["q"] == H + "Group::has_parent" and told:
            for p in paths_of(B, f, "parent"):
                for n in (0, 1, 5):
                    world = lambda t, n=n: number(t) if number(t) is not None else n if t == ("app", "size", (told,)) else (n == 0) if t == ("app", "empty", (told,)) else (n == 0) if t in (("eq", told, ("str", "")), ("eq", ("str", ""), told)) else None
                    if any(evaluate(t, world) not in (None, v) for t, v in p.facts.items()):
                        continue
                    got = evaluate(B.as_value(p.st, p.value), world)
                    ob("parent", f"{name(f)} {'with' if n else 'without'} one", None if got is None else bool(got) == (n > 0), at, f"{got} for a parent path of {n} characters")
        if f.get("ctor") and f.get("cls") == H + "Group" and told and not f.get("implicit") and not f.get("copymove"):
            for p in paths_of(B, f, "parent"):
                if p.kind != "ret":
                    continue
                v = B.read(p.st, ("lv", ("m", ("this",)), (("f", told[2]),)))
                known = [t for t in p.facts if t[0] == "app" and short(t[1]) == "has_parent_path"]
                groups = [("par", n) for n, _, t in f["params"] if "Group" in t]
                named = [n for n, _, t in f["params"] if "basic_string" in t]
                inst = name(f)
                if not groups and not named:
                    ob("parent", inst, True if v == ("str", "") or v[0] in ("new", "init") and not v[-1] else None, at, f"the file has parent {show(v)}")
                elif not named:
                    ok = v[0] == "app" and short(v[1]) == "pathname" and contains(v, groups[0])
                    ob("parent", inst, True if ok else None if contains(v, groups[0]) else False, at, f"parent is {show(v)}")
                elif known and p.facts[known[0]] is False:
                    ob("parent", f"{inst}: the root", True if v == ("str", "") or v[0] in ("new", "init") and not v[-1] else None, at, f"parent is {show(v)}")
                else:
                    es = [e for e in p.events if e.q.startswith("H5Gopen")]
                    x = next((x for x in terms(v) if len(x) > 2 and x[0] == "app" and short(x[1]) == "parent_path"), None)
                    other = any(len(y) > 1 and y[0] == "app" and short(y[1]) in ("root_path", "root_name", "root_directory", "filename", "stem", "relative_path", "extension") for y in terms(v) if y)
                    ok = x is not None and bool(es) and contains(x, es[-1].res) and any(len(y) > 1 and y[0] == "app" and short(y[1]) == "pathname" for y in terms(x) if y)
                    ob("parent", inst, True if ok else None if (x is not None or v[0] == "app") and not other else False, at, f"parent is {show(v)}")


def part(t, path):
    """deref(begin(path) + n) -> n"""
    t = plain(t)
    if t[0] != "deref":
        return None
    x, n = t[1], 0
    while x[0] == "op" and x[1] == "+":
        ints = [y for y in x[2] if y[0] == "int"]
        rest = [y for y in x[2] if y[0] != "int"]
        if len(rest) != 1:
            return None
        n, x = n + sum(y[1] for y in ints), rest[0]
    return n if x[0] == "app" and short(x[1]) in ("begin", "cbegin") and contains(x, path) else None


def at_path(c, ob, A, f, paths):
    """The property found at /phenomenon/property set/property is the one of those names."""
    at, inst = where(f), name(f) + (f["targs"] or "")
    path = ("par", f["params"][1][0])
    sets = ("collection_property_sets", "property_sets")

    def unwrap(t):
        while t[0] == "cast" or t[0] == "app" and t[2] and "&" in t[1] and not t[1].startswith("lue::") or t[0] == "new" and len(t[3]) == 1 or t[0] in ("deref", "some"):
            t = t[-1] if t[0] == "cast" else t[2][0] if t[0] == "app" else t[3][0] if t[0] == "new" else t[1]
        return t

    def level(t):
        """(the innermost kind of collection, names used on the way to it)"""
        t = unwrap(t)
        if t[0] != "app" or not t[2]:
            return None
        q = short(t[1])
        if q == "phenomena":
            return ("phenomena",), ()
        if q in sets + ("properties",):
            inner = unwrap(t[2][0])
            key = None
            if inner[0] == "app" and short(inner[1]) == "operator[]" and len(inner[2]) == 2:
                key, inner = inner[2][1], inner[2][0]
            elif inner[0] == "at":
                key, inner = inner[2], inner[1]
            up = level(inner) if key is not None else None
            return (up[0] + (q,), up[1] + (part(key, path),)) if up else None
        return None

    for there in [(a, b, s, d, n) for a in (0, 1) for b in (0, 1) for s in (0, 1) for d in (0, 1) for n in (1, 2, 3, 4)]:
        a, b, s, d, n = there

        def world(t):
            v = number(t)
            if v is not None:
                return v
            if t[0] == "eq":
                for x, y in ((t[1], t[2]), (t[2], t[1])):
                    if x[0] == "app" and short(x[1]) in ("end", "cend") and contains(x, path):
                        m = part(("deref", y), path)
                        return None if m is None else m == n
            if t[0] == "app" and short(t[1]) == "contains" and len(t[2]) == 2:
                l = level(t[2][0])
                m = part(t[2][1], path)
                if l and m == len(l[1]) + 1 and l[1] == tuple(range(1, m)):
                    return bool({"phenomena": a, sets[0]: b, sets[1]: s, "properties": d}[l[0][-1]])
            return None

        want = bool(a and (b or s) and d and n == 4)
        what = f"{inst}: {n - 1} names in the path" + (f", phenomenon {'' if a else 'un'}known, property set {'known' if b or s else 'unknown'}, property {'' if d else 'un'}known")
        for p in paths:
            if any(evaluate(t, world) not in (None, v) for t, v in p.facts.items()):
                continue
            sure = all(evaluate(t, world) is not None for t in p.facts)
            if (p.kind == "ret") != want:
                ob("path", what, False if sure else None, at, "gives a property" if p.kind == "ret" else "raises")
                continue
            if not want:
                ob("path", what, True, at)
            else:
                v = A.as_value(p.st, p.value)
                groups = [x for x in terms(v) if len(x) > 2 and x[0] == "app" and short(x[1]) == "collection_group"]
                l = level(groups[0][2][0]) if groups else None
                last = v[3][-1] if v[0] == "new" and v[3] else ()
                if l is None or not last:
                    ob("path", what, None, at, f"gives {show(v)}")
                    continue
                which = sets[0] if b else sets[1]
                ok = l[0] == ("phenomena", which, "properties") and l[1] == (1, 2) and part(groups[0][2][1], path) == 3 and part(last, path) == 3
                if b and s:
                    ok = ok or l[0][1] == sets[1] and l[1] == (1, 2)
                ob("path", what, True if ok else False if sure else None, at, f"gives {show(v)}")
