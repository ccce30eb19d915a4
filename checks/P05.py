"""P05: functions exposed to Python reach the library operation they name, for the kinds asked for, with the arguments in their positions."""
import re
import flow, lueir, pyb
from check import Check, sig, where
from common import *
from model import chain
from P04 import nodes, bare, short

ALIAS = {"__contains__": "contains", "__getitem__": "operator[]"}
SETTINGS = {"ValueVariability", "ShapePerObject", "ShapeVariability", "Mobility", "SpaceDomainItemType", "TimeDomainItemType"}
CONVERSIONS = re.compile(r"^lue::(?:data_model::)?(numpy_type_to|tuple_to|hdf5_type_id|.*_to_(tuple|shape|numpy|memory))")


def library(prog, q, k):
    """Whether a function belongs to the library behind the Python package."""
    f = prog.functions.get(k) or prog.callees.get(k)
    if f and f.get("file"):
        return component(f) in ("cxx", "hdf5", "hl", "gdal", "qa")
    return q.startswith("lue::")


def keywords(b):
    """[(name, default term or None)] of the arguments that are named in a binding."""
    out = []
    for a in b["args"][2:]:
        if isinstance(a, list) and a and a[0] in ("call", "ctor", "cast", "un"):
            named = [x for x in nodes(a, ("lambda",)) if x[0] == "call" and len(x) > 5 and str(x[5]).startswith("pybind11::operator\"\"")]
            if named:
                value = next((x[3] for x in nodes(a, ("lambda",)) if x[0] == "call" and len(x) > 5 and x[5] == "pybind11::arg::operator="), None)
                out.append((named[0][3][0][1], value))
    return out


def norm(n):
    n = n.strip("_")
    for tail in ("_args", "_idx_", "_"):
        if n.endswith(tail):
            n = n[:-len(tail)]
    return n


def constant(x):
    while isinstance(x, list) and x and (x[0] in ("cast", "paren") or x[0] == "ctor" and len(x[3] or []) >= 1 and isinstance(x[3][0], list) or isinstance(x[0], list) and len(x) == 1):
        x = x[0] if isinstance(x[0], list) else x[3][0] if x[0] == "ctor" else x[-1]
    if isinstance(x, list) and x and x[0] == "ctor" and not x[3] and "basic_string" in x[2]:
        return ("str", "")
    return (x[0], x[1]) if isinstance(x, list) and len(x) > 1 and x[0] in ("str", "int", "bool", "enum", "float") else None


def kinds(cls):
    """The settings that a class of the library stands for, by name: {type: value}."""
    name, out = cls.split("::")[-1], {}
    if "same_shape" in cls or "different_shape" in cls:
        out["ShapePerObject"] = "same" if "same_shape" in cls else "different"
        if "constant_shape" in cls or "variable_shape" in cls:
            out["ValueVariability"] = "variable"
            out["ShapeVariability"] = "constant" if "constant_shape" in cls else "variable"
        else:
            out["ValueVariability"] = "constant"
    else:
        m = re.fullmatch(r"(Mobile|Stationary)Space(Point|Box)", name)
        if m:
            out = {"Mobility": m[1].lower(), "SpaceDomainItemType": m[2].lower()}
        m = re.fullmatch(r"Time(Point|Box|Cell)", name)
        if m:
            out = {"TimeDomainItemType": m[1].lower()}
    return out


def cast_class(t):
    """Class of the object that a Python object stands for."""
    while t[0] in ("new", "cast") and t[-1] and isinstance(t[-1], tuple) and t[-1] and (t[0] == "cast" or len(t[3]) == 1):
        t = t[-1] if t[0] == "cast" else t[3][0]
    if t[0] == "app" and t[1].startswith("pybind11::cast<"):
        return bare(re.sub(r", 0>$", "", t[1][len("pybind11::cast<"):]))
    return None


class Calls:
    """Calls of the library on a path, events and pure ones: (q, key or None, args)."""

    def __init__(self, prog, A, p):
        self.prog, self.A, self.p = prog, A, p
        value = A.as_value(p.st, p.value) if p.value is not None else None
        self.value = value
        self.roots = [a for e in p.events for a in e.args] + list(p.facts) + ([value] if value is not None else [])
        for e in p.events:
            for a in e.args:
                if a[0] == "addr" and a[1][0] == "lv":
                    self.roots.append(A.read(p.st, a[1]))   # what is passed by address
        self.calls = [(e.q, e.key, list(e.args)) for e in p.events if library(prog, e.q, e.key)]
        seen = set()
        for r in self.roots:
            for t in subterms(r):
                if t and t[0] == "app" and t not in seen and t[1].startswith("lue::"):
                    seen.add(t)
                    self.calls.append((t[1], None, list(t[2])))

    def names(self):
        return {last(q) for q, _, _ in self.calls}


def last(q):
    """Unqualified name, without template arguments."""
    q = re.sub(r"operator\s*(<<|>>|<|>|\[\]|\(\)|[a-z ]+|.=?)?.*$", lambda m: m[0], q) if "operator" in q else q
    if "operator" in q:
        i = q.rfind("operator")
        return q[i:].split("<")[0] if not q[i:].startswith("operator<") else q[i:]
    out, depth = "", 0
    for ch in q:
        depth -= ch == ">"
        if depth == 0 and ch != ">":
            out += ch
        depth += ch == "<"
    return out.replace("<", "").split("::")[-1]


def params_in(t, names):
    """Names of the binding's parameters a term depends on."""
    return {x[1] for x in subterms(t) if x and x[0] == "par" and x[1] in names}


def plural(n):
    return n[:-1] + "ies" if n.endswith("y") else n + "s"


def run():
    c = Check("P05", "on each path of each function exposed to Python that returns, the operation of the library with the name of the function is reached (add_x: through the collection of x), each argument given by name reaches the parameter "
              "of that name of each operation, arguments of the same type keep their order, all arguments are used, defaults agree with those of the library; the class of the object that is returned is the one of the settings known on the "
              "path, each supported combination of settings results in an object and the other ones in an error; items are looked up in the collection they were found in, and not refused when they were found; modes for opening map to the matching flags; and what adds classes and functions to a module is reached when it is imported",
              ["the names of parameters of library functions tell what they stand for"])
    prog = lueir.load("py", "pytop", "pyqa", "qa", "hdf5", "cxx", "hl")
    c.program(prog)
    bs = pyb.bindings(prog)
    if len(bs) < 60:
        raise lueir.AnalysisError("anchor not found: functions exposed to Python")
    registered(c, prog, bs)
    modules = {}
    for k, f in prog.functions.items():
        if component(f) in ("cxx", "hdf5", "hl", "qa") and not f.get("cls") and "/test/" not in f["file"] and f["q"].startswith("lue::"):
            modules.setdefault(f["q"].split("::")[-1], []).append(f)
    for b in bs:
        if not b["name"] or not (b["kind"].startswith("def")) or b["kind"].startswith(("def_readwrite", "def_static")):
            continue
        cls = pyb.bound_class(b)
        for kind, key, node in b["fns"][:1]:
            f = prog.functions.get(key) or prog.callees.get(key)
            if f is None:
                continue
            c.count("exposed functions")
            types = ", ".join(short(bare(p[2])) for p in f["params"] if isinstance(p, (list, tuple))) if f.get("params") else ""
            inst = f"{short(cls)}.{b['name']}({types})"
            w = f"{lueir.rel(b['fn']['file'])}:{b['line']} ({b['fn']['q']})"
            exposed_setting(c, f, b["name"], cls, w)
            wanted = operations(prog, modules, cls, b["name"])
            if library(prog, f["q"], key):
                if wanted:
                    c.ob("operation", inst, last(f["q"]) in wanted, w, f"{last(f['q'])} is exposed instead of {'/'.join(sorted(wanted))}")
                named(c, b, f, inst, w)
                continue
            if "body" not in f or component(f) != "python":
                continue
            follow(c, prog, modules, b, f, cls, wanted, inst, w)
    conversions(c, prog)
    return c.finish({"registered": 20, "operation": 40, "arguments": 50, "used": 20, "kind": 9, "lookup": 3, "mode": 3, "conversion": 1})


def conversions(c, prog):
    """Modes of Python and flags of the library, and tuples and shapes, stand for each other."""
    for f in prog.functions.values():
        if component(f) != "python" or "body" not in f or f.get("cls") or len(f["params"]) != 1 or "lambda" in f["q"] or "/test/" in f["file"]:
            continue
        n, t, r = f["params"][0][0], bare(f["params"][0][2]), bare(f["ret"])
        par = ("par", n)
        text = lambda x: "basic_string" in x or x == "std::string"
        flag = lambda x: x in ("unsigned int", "unsigned", "int")
        if (text(t) and flag(r) or flag(t) and text(r)) and ("mode" in f["q"] or "intent" in f["q"] or "flag" in f["q"]):
            A = flow.Analysis(prog)
            for p in A.run(f):
                if p.kind != "ret":
                    continue
                v = A.as_value(p.st, p.value)
                known = [x for a, b in p.facts.items() if b and (a[0] == "eq" or a[0] == "app" and last(a[1]).startswith("operator==")) for x in subterms(a) if x[0] in ("str", "int")]
                pair = {x[0]: x[1] for x in [*known, v] if x[0] in ("str", "int")}
                ok = None if len(pair) != 2 else FLAGS.get(pair["str"]) == pair["int"]
                if not known and v[0] in ("str", "int"):
                    ok = False
                c.ob("mode", f"{sig(f)}: {pair.get('str', '?')}", ok, where(f), f"{show(v)} results for {known[0][1] if known else 'what is unknown'!r} (flag 0: read only, 1: read and write)")
        elif t.split("::")[-1] == "tuple" and "Shape" in r:
            A = flow.Analysis(prog)
            size = ("app", "size", (par,))
            for p in A.run(f):
                if p.kind != "ret" or not any(m[0] == "some" for m in p.marks):
                    continue
                v = A.as_value(p.st, p.value)
                inds = {x for x in subterms(v) if isinstance(x, tuple) and x and x[0] == "ind"}
                ok, why = None, f"the result is {show(v)[:120]}"
                if len(inds) == 1:
                    lo, hi = next(iter(inds))[1:3]
                    low, high = {}, {}
                    flow.linear(lo, 1, low)
                    flow.linear(hi, 1, high)
                    kl, kh = low.pop(None, 0), high.pop(None, 0)
                    if not low and high == {size: 1}:
                        ok = kl == 0 and kh == 0
                        why = f"items {kl} up to size{kh:+d} are converted"
                    items = {x for x in subterms(v) if isinstance(x, tuple) and len(x) > 2 and x[0] == "at" and x[1] == par}
                    if ok and items and any(x[2] not in inds for x in items):
                        ok, why = False, "items end up at another position"
                c.ob("conversion", sig(f), ok, where(f), why)


def registered(c, prog, bs):
    """The functions that add classes and functions to the module are reached when it is imported"""
    graph, seen, todo = call_graph(prog), set(), [k for k, f in prog.functions.items() if "::pybind11_init_" in f["q"]]
    if not todo:
        raise lueir.AnalysisError("anchor not found: initialisation of the Python modules")
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo += [x for _, x, _ in graph.get(k, ()) if x in prog.functions]
    makers = {b["fn"]["key"] for b in bs} | {k for k, f in prog.functions.items() if component(f) == "python" and "(lambda" not in k and any(flow.base_type(p[2]) == "pybind11::module_" for p in f["params"] if isinstance(p, (list, tuple)))}
    for k in sorted(makers & set(prog.functions)):
        f = prog.functions[k]
        c.ob("registered", sig(f) + " in " + lueir.rel(f["file"]), k in seen, where(f), "what it adds to the module is not there after importing it")


def operations(prog, modules, cls, name):
    """Names of the library operations that a name in Python stands for: empty when there is none of that name."""
    name = ALIAS.get(name, name)
    if cls == "module":
        return {name} if name in modules else set()
    public = {m[1].split("::")[-1] for k in chain(prog, cls) for m in (prog.classes.get(k) or {"methods": []})["methods"] if m[2] == "public"}
    public |= {f["q"].split("::")[-1] for f in prog.functions.values() if f.get("cls") in chain(prog, cls) and f.get("access", "public") == "public"}
    if name in public:
        return {name}
    if name.startswith("add_") and plural(name[4:]) in public:
        return {plural(name[4:])}
    return set()


def exposed_setting(c, f, name, cls, w):
    """A setting is exposed under its own name."""
    e = bare(f.get("ret", "")).split("::")[-1]
    snake = lambda x: re.sub(r"(?<!^)([A-Z])", r"_\1", x).lower()
    if e in SETTINGS and any(snake(x).endswith(name) for x in SETTINGS):
        c.ob("operation", f"{short(cls)}.{name}: setting", snake(e).endswith(name), w, f"the {snake(e)} is exposed as {name}")


def named(c, b, f, inst, w):
    """Keywords of a library function that is exposed itself."""
    if not f.get("params") or not isinstance(f["params"][0], (list, tuple)):
        return
    names = [norm(p[0]) for p in f["params"]]
    for i, (n, default) in enumerate(keywords(b)):
        n = norm(n)
        if n in names:
            c.ob("arguments", f"{inst}: {n}", names.index(n) == i, w, f"argument {i + 1} is called {n} in Python, and {names[i] if i < len(names) else 'nothing'} in the library")
            if default is not None and i < len(f["params"]):
                defaults(c, f, i, default, f"{inst}: {n}", w)


def defaults(c, f, i, default, inst, w):
    theirs = next((x[1] for x in f.get("defaults") or [] if x[0] == i), None)
    ours, theirs = constant(default), constant(theirs) if theirs else None
    if ours and theirs:
        c.ob("default", inst, ours == theirs, w, f"the default is {ours[1]!r} in Python and {theirs[1]!r} in the library")


def follow(c, prog, modules, b, f, cls, wanted, inst, w):
    def opaque(q, k):
        g = prog.functions.get(k)
        return g is None or component(g) != "python" or bool(CONVERSIONS.match(q))

    def pure(q, k):
        g = prog.functions.get(k) or prog.callees.get(k)
        if g and g.get("cls") and not g.get("ctor") and (not g.get("params") and g["ret"].rstrip().endswith("&") or q.split("<")[0].endswith("::operator[]")):
            return True     # Parts of an object
        return bool(g and g.get("const")) or bool(CONVERSIONS.match(q)) or q.startswith(("std::operator==", "std::operator!="))

    A = flow.Analysis(prog, opaque=opaque, pure=pure, qualify=True)
    if cls == "lue::data_model::Array" or "pybind11::array" in f["key"] and b["name"] in ("__getitem__", "__setitem__"):
        return      # P03
    try:
        paths = A.run(f)
    except flow.Budget if hasattr(flow, "Budget") else Exception:
        c.ob("operation", inst, None, w, "too many paths")
        return
    names = [p[0] for p in f["params"]]
    types = [p[2] for p in f["params"]]
    keys = keywords(b)
    method = cls != "module" and bool(names)
    python = {}
    for i, n in enumerate(names[1:] if method else names):
        python[n] = norm(keys[i][0]) if i < len(keys) and len(keys) == len(names) - method else norm(n)
    paths = [(p, Calls(prog, A, p)) for p in paths]
    good = [(p, k) for p, k in paths if p.kind == "ret"]
    special = b["name"].startswith("__") and b["name"] not in ALIAS and b["name"] != "__getattr__"
    def constructs(modules, k):
        return cls == "module" and k.value is not None and k.value[0] == "new" and any(g["ret"] == k.value[1] for n in wanted for g in modules[n])

    if wanted and good and not special:
        missing = [p for p, k in good if not wanted & k.names() and not constructs(modules, k) or b["name"] not in wanted and b["name"].startswith("add_") and "add" not in k.names()]
        c.ob("operation", inst, not missing, w, f"{'/'.join(sorted(wanted))} is not reached on a path that returns")
    if not special:
        arguments(c, prog, b, f, good, names, types, python, method, inst, w, dict(keys))
    kindly(c, prog, A, b, f, cls, paths, types, inst, w)
    if b["name"] == "__getattr__":
        for p, k in good:
            told = {(t[2][0], t[2][-1], v) for t, v in p.facts.items() if t[0] == "app" and last(t[1]) == "contains"}
            found, missing = ([(o, x) for o, x, v in told if v == z] for z in (True, False))
            for q, _, args in k.calls:
                if last(q) == "operator[]" and len(args) == 2 and told:
                    at = show(args[0]).split("(")[0].split("::")[-1]
                    here = lambda pairs: any(x == args[1] and contains(args[0], o) for o, x in pairs)
                    c.ob("lookup", f"{inst}: {at}", here(found) if found else not here(missing), w, f"an item is looked up in {show(args[0])}, in which it need not be")
        for p, k in paths:
            if p.kind != "ret":
                there = next((t for t, v in p.facts.items() if v and t[0] == "app" and last(t[1]) == "contains"), None)
                c.ob("lookup", f"{inst}: refused", there is None, w, f"an error is raised for what is there: {show(there)}" if there else "")
    modes(c, b, f, paths, inst, w)


def arguments(c, prog, b, f, good, names, types, python, method, inst, w, defaulted):
    if not good:
        return
    for n in python:
        if not n:
            continue
        used = all(any(n in params_in(r, {n}) for r in k.roots) for p, k in good)
        c.ob("used", f"{inst}: {python[n]}", used, w, "the argument has no influence on the result")
    seen = {}
    for p, k in good:
        for q, key, args in k.calls:
            g = prog.functions.get(key) or prog.callees.get(key) if key else next((g for g in by_name(prog).get(re.sub(r"<.*", "", q), ()) if len(g["params"]) == len(args) - 1), None)
            if not g or not g.get("params") or not isinstance(g["params"][0], (list, tuple)):
                continue
            own = len(args) - len(g["params"])
            if own not in (0, 1):
                continue
            passed = [(norm(gp[0]), bare(gp[2]), a, params_in(a, set(python))) for gp, a in zip(g["params"], args[own:])]
            back = {v: n for n, v in python.items()}
            for j, (pn, pt, a, d) in enumerate(passed):
                if not pn or pn not in back or a[0] == "defarg":
                    continue
                # Only arguments of the kind: the library may use a name of a part in operations on parts
                ok = back[pn] in d
                if not ok and not d and not (set(python) & {x for _, _, _, dd in passed for x in dd}):
                    continue
                item = f"{inst}: {pn} of {last(q)}"
                seen[item] = seen.get(item, True) and ok
                why = f"{last(q)} gets {show(a)[:60]} as {pn}"
                if not ok:
                    seen[item + "?"] = why
                if (default := defaulted.get(next((x for x, _ in keywords(b) if norm(x) == pn), None))) is not None:
                    defaults(c, g, j, default, item, w)
            for i in range(len(passed)):
                for j in range(i + 1, len(passed)):
                    di, dj = passed[i][3], passed[j][3]
                    if passed[i][1] == passed[j][1] and len(di) == len(dj) == 1 and di != dj:
                        x, y = next(iter(di)), next(iter(dj))
                        if bare(types[names.index(x)]) == bare(types[names.index(y)]):
                            item = f"{inst}: order of {last(q)}"
                            exact = passed[i][0] == python[x] and passed[j][0] == python[y]
                            ok = exact or names.index(x) < names.index(y)
                            seen[item] = seen.get(item, True) and ok
                            if not ok:
                                seen[item + "?"] = f"{last(q)} gets {python[y]} and {python[x]} in another order"
    for item, ok in sorted(seen.items()):
        if not item.endswith("?"):
            c.ob("arguments", item, ok, w, seen.get(item + "?", ""))


_names = {}


def by_name(prog):
    if id(prog) not in _names:
        table = _names.setdefault(id(prog), {})
        for g in prog.functions.values():
            table.setdefault(re.sub(r"<.*", "", g["q"]), []).append(g)
    return _names[id(prog)]


def settings(prog, facts):
    """{type: value} that the facts of a path tell."""
    out, left = {}, {}
    for t, v in facts.items():
        if t[0] == "eq":
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if y[0] == "enum" and y[1].split("::")[-2] in SETTINGS and x[0] != "enum":
                    s = y[1].split("::")[-2]
                    if v:
                        out[s] = (y[1].split("::")[-1], x)
                    else:
                        left.setdefault((s, x), set(enumerators(prog, s))).discard(y[1].split("::")[-1])
    for (s, x), values in left.items():
        if len(values) == 1:
            out.setdefault(s, (values.pop(), x))
    return out


def kindly(c, prog, A, b, f, cls, paths, types, inst, w):
    """The class of what is returned and the settings."""
    given = {bare(t).split("::")[-1] for t in types} & SETTINGS
    ret = f["ret"].strip()
    produced, covered = 0, []
    for p, k in paths:
        known = settings(prog, p.facts)
        if p.kind != "ret":
            covered.append({s: v for s, (v, _) in known.items()})
            continue
        made = cast_class(k.value) if ret.startswith("pybind11::") else bare(ret)
        want = kinds(made) if made else {}
        if not want and ret.startswith("pybind11::object") and known and k.value is not None and k.value[0] == "new" and k.value[1].endswith("::none"):
            c.ob("kind", f"{inst}: " + " ".join(f"{s}={v}" for s, (v, _) in sorted(known.items())), False, w, "nothing is returned for this combination of settings")
            continue
        if not want or not (known or given):
            if want and not known:
                continue
            continue
        produced += 1
        covered.append({s: v for s, (v, _) in known.items()})
        wrong = {s: v for s, (v, _) in known.items() if s in want and want[s] != v}
        label = f"{inst}: {short(made)}"
        c.ob("kind", label, not wrong, w, f"{short(made)} results when " + ", ".join(f"{s} is {v}" for s, v in sorted(wrong.items())))
        # What distinguishes the class has been looked at, when the caller gives it
        loose = [s for s in want if s in given and s not in known]
        if loose:
            c.ob("kind", label, False, w, f"{short(made)} results whatever {', '.join(loose)} is")
        name = next((n for n, _, t in f["params"] if "basic_string" in t), None)
        for s, (v, x) in known.items():
            if x[0] == "app" and s in want and name and x[1].startswith("lue::") and len(x[2]) > 1:
                c.ob("kind", f"{label} ({s})", x[2][-1][0] == "par" and x[2][-1][1] == name or None, w, f"the {s} of {show(x[2][-1])} decides")
    if produced >= 2:
        have = {}
        for e in covered:
            for s, v in e.items():
                have.setdefault(s, set()).add(v)
        for s in have:
            values = {x.split("::")[-1] for x in enumerators(prog, s)}
            missing = values - have[s]
            c.ob("kind", f"{inst}: all of {s}", not missing, w, f"{', '.join(sorted(missing))} is not supported")


def enumerators(prog, s):
    return [v[0] for q, e in prog.enums.items() if q.split("::")[-1] == s for v in e["values"]]


FLAGS = {"r": 0, "w": 1}


def modes(c, b, f, paths, inst, w):
    for p, k in paths:
        flags = [args[-1] for q, _, args in k.calls if len(args) >= 2 and args[-1][0] == "int" and any(x in q for x in ("Dataset::Dataset", "File::File"))]
        mode = [t[2][-1] if t[0] == "app" else t[2] for t, v in p.facts.items() if v and (t[0] == "eq" or t[0] == "app" and last(t[1]).startswith("operator==")) and "'" in show(t)]
        mode = [m[1] for m in mode if m[0] == "str"]
        if p.kind == "ret" and flags and [n for n, _, t in f["params"] if "mode" in n]:
            c.ob("mode", f"{inst}: {mode[0] if mode else '?'}", bool(mode) and FLAGS.get(mode[0]) == flags[0][1] if mode else False, w, f"mode {mode} opens with flag {flags[0][1]} (0: read only, 1: read and write)")
