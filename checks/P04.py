"""P04: Python objects keep alive what they refer to, and are what they stand for instead of copies."""
import re
import flow, lueir, pyb
from check import Check, where
from G01 import name
from common import *

POLICY = "pybind11::return_value_policy::"
NODES = ("std::map<", "std::unordered_map<", "std::list<", "std::multimap<", "std::set<", "std::unique_ptr<", "std::shared_ptr<")
MOVES = ("push_back", "emplace_back", "insert", "resize", "reserve", "erase", "emplace", "push_front", "clear", "assign")


def bare(t):
    t = t.strip()
    while t.endswith(("&", "*", " const")):
        t = t[:-6].strip() if t.endswith(" const") else t[:-1].strip()
    return t[6:].strip() if t.startswith("const ") else t


def extras(b):
    """(policy or None, {(nurse, patient)}) of a binding."""
    policy, kept = None, set()
    for a in b["args"][1:]:
        if isinstance(a, list):
            for x in nodes(a, ("lambda",)):
                if x[0] == "enum" and str(x[1]).startswith(POLICY):
                    policy = x[1][len(POLICY):]
                elif x[0] == "ctor" and len(x) > 2 and (m := re.match(r"pybind11::keep_alive<(\d+)(?:UL)?, (\d+)(?:UL)?>", str(x[2]))):
                    kept.add((int(m[1]), int(m[2])))
    return policy, kept


def nodes(x, closed=()):
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            yield x
            if x[0] in closed:
                return
        for y in x:
            yield from nodes(y, closed)
    elif isinstance(x, dict):
        for y in x.values():
            yield from nodes(y, closed)


class Owner:
    """Where the object that an expression denotes lives: ('par', position), ('local', name), ('new',), or None."""

    def __init__(self, prog):
        self.prog = prog

    def __call__(self, x, f, depth=0):
        if depth > 12 or not isinstance(x, list) or not x:
            return None
        k = x[0]
        rec = lambda y: self(y, f, depth + 1)
        if k in ("un", "cast", "par", "paren"):
            return rec(x[-1])
        if k == "var":
            for i, (n, d, t) in enumerate(f["params"]):
                if d == x[2]:
                    return ("par", i) if t.rstrip().endswith(("&", "*")) else ("local", n)
            for y in nodes(f["body"]):
                if y[0] == "v" and len(y) > 4 and y[2] == x[2]:
                    t = y[3].rstrip()
                    if len(y) > 6 and y[6]:
                        return ("par", -1)      # static
                    if t.endswith("&") or t.endswith("*") or "iterator" in t.lower() or t.startswith("std::reference_wrapper"):
                        return rec(y[4])
                    return ("local", x[1])
            return None
        if k == "this":
            return ("par", 0)
        if k in ("mem", "member", "field", "dot"):
            return next((r for y in x[1:] if isinstance(y, list) and (r := rec(y))), None)
        if k == "cond":
            found = [rec(y) for y in x[2:4]]
            return next((r for r in found if r and r[0] in ("local", "new")), found[0] if found[0] == found[1] else None)
        if k == "call":
            if x[2] is not None:
                return rec(x[2])
            g = self.prog.functions.get(x[1])
            refs = [a for a, p in zip(x[3], g["params"] if g else []) if p[2].rstrip().endswith("&") and "basic_string" not in p[2]] if g else x[3][:1]
            return rec(refs[0]) if len(refs) >= 1 else None
        if k == "ctor":
            return ("new",)
        if k == "index":
            return rec(x[1])
        return None


def stateful(prog, cls, seen=None):
    """Whether copies of objects of a class get to differ from the original."""
    seen = seen if seen is not None else set()
    if cls in seen:
        return None
    seen.add(cls)
    c = prog.classes.get(cls)
    if not c or not cls.startswith("lue::"):
        return None
    for n, t, *_ in c["fields"]:
        if t.startswith(("std::map<", "std::unordered_map<", "std::vector<lue::data_model")):
            return n
        if re.fullmatch(r"(unsigned )?(long long|long|int|short|char)|bool", t) and cls.startswith("lue::data_model::") and n.lstrip("_").startswith("nr"):
            return n
        for inner in re.findall(r"lue::[\w:]+(?:<[^<>]*>)?", t):
            if (s := stateful(prog, inner, seen)):
                return s
    for b in c["bases"]:
        b = b if isinstance(b, str) else b[0]
        if (s := stateful(prog, b, seen)):
            return s
    return None


def holds_pointer(prog, cls, seen=None):
    """Classes of objects to which objects of a class hold plain pointers or references."""
    seen = seen if seen is not None else set()
    if cls in seen or cls not in prog.classes:
        return set()
    seen.add(cls)
    out = set()
    for n, t, *_ in prog.classes[cls]["fields"]:
        if t.startswith("lue::") and t.rstrip().endswith(("*", "&")):
            out.add(bare(t))
        m = re.match(r"std::reference_wrapper<(.*)>$", t)
        if m:
            out.add(bare(m[1]))
    for b in prog.classes[cls]["bases"]:
        out |= holds_pointer(prog, b if isinstance(b, str) else b[0], seen)
    return out


def run():
    c = Check("P04", "for each function exposed to Python: a reference or pointer it returns to an object of an exposed class (also one wrapped by pybind11::cast in a function that returns a Python object) "
              "comes with an annotation that keeps its owner alive, refers to an object that outlives the call, and is not turned into a copy that gets out of step with the original; an object that holds "
              "a pointer to an argument keeps that argument alive; references into collections stay valid when items are added",
              ["pybind11 returns the existing Python object for the object a method is called on", "pybind11's return value policies and keep_alive do what their documentation says"])
    prog = lueir.load("py", "pytop", "pyqa", "qa", "hdf5", "cxx", "hl")
    c.program(prog)
    bs = pyb.bindings(prog)
    exposed = {pyb.bound_class(b) for b in bs} - {"module"}
    for f in prog.functions.values():
        if component(f) == "python" and "body" in f:
            for x in nodes(f["body"]):
                if x[0] == "ctor" and len(x) > 2 and str(x[2]).startswith("pybind11::class_<"):
                    exposed.add(pyb.bound_class({"cls": x[2]}))
    if len(bs) < 60 or len(exposed) < 15:
        raise lueir.AnalysisError("anchor not found: functions exposed to Python")
    owner = Owner(prog)
    for b in bs:
        if not b["name"] or not b["kind"].startswith("def"):
            continue
        policy, kept = extras(b)
        getter = b["kind"].startswith("def_property") or b["kind"].startswith("def_read")
        wrapped = any(x[0] == "ctor" and x[2] == "pybind11::cpp_function" for a in b["args"][1:2] if isinstance(a, list) for x in nodes(a, ("lambda",)))
        for kind, key, node in b["fns"][:1]:
            f = prog.functions.get(key) or prog.callees.get(key)
            if f is None:
                continue
            c.count("exposed functions")
            ret, inst = f["ret"].strip(), f"{pyb.bound_class(b).replace('lue::', '')}.{b['name']}" + (f" -> {short(f['ret'])}" if "object" not in f["ret"] else "")
            w = f"{lueir.rel(b['fn']['file'])}:{b['line']} ({b['fn']['q']})"
            effective = policy or ("reference_internal" if getter and not wrapped else "automatic")
            if ret.endswith("&&"):
                continue
            if ret.endswith(("&", "*")) and bare(ret) in exposed:
                reference(c, prog, owner, b, f, kind, inst, w, effective, kept, ret, exposed)
            elif ret.startswith(("pybind11::object", "pybind11::handle")) and "body" in f:
                objects(c, prog, owner, f, inst, w, kept, exposed)
            elif ret in exposed or bare(ret) in prog.classes and not ret.endswith(("&", "*")):
                held = holds_pointer(prog, ret)
                if ret in exposed and (member := stateful(prog, ret)) and "body" in f:
                    found = [owner(copied(prog, y[1]), f) for y in nodes(f["body"], ("lambda",)) if y[0] == "ret" and len(y) > 1 and y[1]]
                    c.ob("the object itself", inst, not any(x and x[0] == "par" for x in found), w, f"a copy is returned: what is added through the copy is not seen through the original (member {member})")
                params = f["params"] if f.get("params") and isinstance(f["params"][0], (list, tuple)) else []
                shift = 1 if kind == "fn" and f.get("cls") and not f.get("static") and "::lambda@" not in f.get("q", "") and pyb.bound_class(b) != "module" else 0
                for i, (n, _, t) in enumerate(params):
                    if t.rstrip().endswith(("&", "*")) and bare(t) in held:
                        c.ob("kept alive", f"{inst}: argument {n}", (0, i + 1 + shift) in kept, w, f"the result holds a pointer to the argument {n}, which it does not keep alive")
            elif "terator" in ret and ret.startswith("pybind11::"):
                c.ob("kept alive", inst, (0, 1) in kept, w, "the collection iterated over is not kept alive")
    stable(c, prog, exposed)
    return c.finish({"kept alive": 25, "outlives the call": 5, "the object itself": 5, "stable": 3})


def short(t):
    return re.sub(r"std::basic_string<char, .*?>>|std::allocator<[^<>]*>", "std::string", t).replace("lue::data_model::", "").replace("lue::", "")[:60]


def reference(c, prog, owner, b, f, kind, inst, w, policy, kept, ret, exposed):
    cls = bare(ret)
    # The object the method is called on: the existing Python object is returned
    own = f.get("params") and isinstance(f["params"][0], (list, tuple)) and bare(f["params"][0][2]) == cls if "body" in f and "::lambda@" in f.get("q", "") else f.get("cls") == cls
    at = None
    if "body" in f:
        found = [owner(y[1], f) for y in nodes(f["body"], ("lambda",)) if y[0] == "ret" and len(y) > 1 and y[1]]
        bad = next((x for x in found if x and x[0] in ("local", "new")), None)
        if "::lambda@" in f["q"]:
            c.ob("outlives the call", inst, False if bad else True if found and all(found) else None, w, f"a reference to {bad[1] if bad and len(bad) > 1 else 'a temporary object'} is returned")
            positions = {x[1] + 1 for x in found if x and x[0] == "par"}
            at = positions if positions and 0 not in positions else None
    if own and (at is None or at == {1}) and self_returned(prog, f, cls):
        c.ob("kept alive", inst, True, w)
        return
    if policy in ("automatic", "automatic_reference", "copy", "move"):
        if ret.endswith("*"):
            ok = policy == "automatic_reference" and (0, 1) in kept
            c.ob("kept alive", inst, ok, w, "Python takes the ownership of an object that belongs to another object" if policy == "automatic" else "the owner is not kept alive")
            return
        s = stateful(prog, cls)
        c.ob("the object itself", inst, not s, w, f"a copy is returned: what is added through the copy is not seen through the original (member {s})")
        return
    if policy == "take_ownership":
        c.ob("kept alive", inst, False if not owned(f) else None, w, "Python takes the ownership of an object that belongs to another object")
        return
    for i in sorted(at or {1}):
        ok = (0, i) in kept or policy == "reference_internal" and i == 1
        c.ob("kept alive", inst, ok, w, f"the owner (argument {i}) of the object that is returned is not kept alive (policy {policy})")
    c.ob("the object itself", inst, True, w)


def self_returned(prog, f, cls):
    """Whether a function returns the object it is called on."""
    if "body" not in f:
        return False
    rets = [y[1] for y in nodes(f["body"], ("lambda",)) if y[0] == "ret" and len(y) > 1 and y[1]]
    first = f["params"][0][1] if f["params"] else None
    return bool(rets) and all(any(z[0] == "this" or z[0] == "var" and z[2] == first for z in [strip(y)]) for y in rets)


def copied(prog, x):
    """What is copied by an expression that initialises an object."""
    while isinstance(x, list) and x and x[0] == "ctor" and len(x[3] or []) == 1 and (prog.functions.get(x[1]) or prog.callees.get(x[1]) or {}).get("copymove"):
        x = x[3][0]
    if isinstance(x, list) and x and x[0] == "call":
        g = prog.functions.get(x[1]) or prog.callees.get(x[1]) or {"ret": "&"}
        if not g["ret"].rstrip().endswith("&"):
            return None     # The result of the call
    return x


def strip(x):
    while isinstance(x, list) and x and x[0] in ("un", "cast", "paren"):
        x = x[-1]
    return x


def owned(f):
    return any(y[0] == "new" for y in nodes(f.get("body"), ("lambda",)))


def objects(c, prog, owner, f, inst, w, kept, exposed):
    """Functions that wrap an object themselves."""
    todo, seen = [(f, None)], set()
    while todo:
        g, argument = todo.pop()
        if g["key"] in seen:
            continue
        seen.add(g["key"])
        for x in nodes(g.get("body")):
            if x[0] != "call" or len(x) < 6:
                continue
            h = prog.functions.get(x[1])
            if h and "body" in h and component(h) == "python" and h["ret"].startswith(("pybind11::object", "pybind11::handle")):
                a = [owner(y, g) for y, (_, _, t) in zip(x[3], h["params"]) if t.rstrip().endswith("&") and bare(t) in exposed]
                up = argument if a and a[0] and a[0][0] == "par" else a[0] if a else None
                todo.append((h, up))
            if x[5] != "pybind11::cast":
                continue
            m = re.match(r"pybind11::cast<(.*), 0>\(", x[1])
            t = re.sub(r"\*\s*(const)?\s*&&?$", "*", m[1].strip()) if m else ""
            if not t.endswith(("*", "&")) or bare(t) not in exposed:
                continue
            policy = next((y[1][len(POLICY):] for y in x[3][1:2] if y[0] == "enum"), "automatic_reference")
            parent = x[3][2] if len(x[3]) > 2 and x[3][2][0] != "defarg" else None
            at = f"{lueir.rel(g['file'])}:{x[4]} ({g['q']})"
            pos = owner(x[3][0], g)
            if pos and pos[0] == "par" and argument and argument[0] in ("local", "new"):
                pos = argument
            label = f"{inst}: {short(bare(t))}"
            if t.endswith("*") and policy == "automatic":
                policy = "take_ownership"
            if t.endswith("*") and policy == "take_ownership":
                c.ob("kept alive", label, None if any(y[0] == "new" for y in nodes(x[3][0])) else False, at, "Python takes the ownership of an object that belongs to another object")
                continue
            if t.endswith("&") and policy in ("automatic", "automatic_reference", "copy") or policy == "copy":
                s = stateful(prog, bare(t))
                c.ob("the object itself", label, not s or pos == ("new",), at, f"a copy is returned: what is added through the copy is not seen through the original (member {s})")
                continue
            if policy == "move":
                c.ob("the object itself", label, pos is not None and pos[0] in ("local", "new") or None, at, "the object is moved from its owner")
                continue
            c.ob("the object itself", label, True, at)
            c.ob("outlives the call", label, False if pos and pos[0] in ("local", "new") else True if pos else None, at, f"the object belongs to {pos[1] if pos and len(pos) > 1 else 'a temporary object'}, which does not outlive the call")
            if pos and pos[0] in ("local", "new"):
                continue
            i = pos[1] + 1 if pos and pos[0] == "par" and g is f else 1
            ok = (0, i) in kept or (policy == "reference_internal" and parent is not None)
            c.ob("kept alive", label, ok, w, "the object that is returned does not keep its owner alive: a return value policy has no effect on objects that have been wrapped already")


def stable(c, prog, exposed):
    """References to items of a container stay valid when items are added."""
    for cls, d in sorted(prog.classes.items()):
        if not cls.startswith("lue::") or cls not in exposed and not any(cls in [b if isinstance(b, str) else b[0] for b in prog.classes[e]["bases"]] for e in exposed if e in prog.classes):
            continue
        refs = {bare(prog.functions[m[0]]["ret"]) for m in d["methods"] if m[0] in prog.functions and prog.functions[m[0]]["ret"].rstrip().endswith("&") and m[2] == "public"}
        for n, t, *_ in d["fields"]:
            items = [r for r in refs if r in exposed and r != cls and re.search(r"[<, ]" + re.escape(r) + r"[ ,>]", t)]
            if not items or not t.startswith("std::"):
                continue
            inst = f"{short(cls)}: items"
            if t.startswith(NODES) or t.startswith("std::optional<") or t.startswith("std::array<"):
                c.ob("stable", inst, True, f"{lueir.rel(d['file'])}:{d['line']}")
                continue
            grows = any(x[5].split("::")[-1] in MOVES for m in d["methods"] if "body" in prog.functions.get(m[0], {}) for x in nodes(prog.functions[m[0]]["body"]) if x[0] == "call" and len(x) > 5 and isinstance(x[5], str) and x[5].startswith("std::"))
            c.ob("stable", inst, not grows, f"{lueir.rel(d['file'])}:{d['line']}", f"references to items of a {t.split('<')[0]} are handed out, and become invalid when items are added")
