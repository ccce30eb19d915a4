"""M08: domains and property links report the configuration they were created with."""
import itertools, re
import flow
from check import Check, where, sig, short
from common import *
from model import Model, H, D, chain, name_of

SPACE = re.compile(r"^(Stationary|Mobile)Space(Box|Point)$")
TIME = re.compile(r"^Time(Box|Cell|Point)$")
ENUMS = {D + "Mobility": 0, D + "SpaceDomainItemType": 1, D + "TimeDomainItemType": 2}


def run():
    c = Check("M08", "in every configuration of a domain each function that depends on the configuration creates or opens the items of exactly that configuration; what sets a link and what reports, types and follows it use the same name, "
              "different links have different names; a clock is read from the attributes its parts were written to, in every combination of parts",
              ["attributes and soft links read back what was last written (H06, M01)", "the text of settings maps back to the setting (M02)"])
    m = Model("hdf5", "cxx", "hl", "py")
    c.program(m.prog)
    dispatch(c, m)
    links(c, m)
    presence(c, m)
    clock(c, m)
    return c.finish({"configuration": 12, "handled": 5, "link": 8, "distinct": 2, "presence": 3, "clock": 5})


# ------------------------------------------------------------------ configurations and items


def items_of(prog):
    out = {}
    for cls in prog.classes:
        n = cls[len(D):] if cls.startswith(D) else ""
        s, t = SPACE.match(n), TIME.match(n)
        if s:
            out[cls] = (s.group(1).lower(), s.group(2).lower(), None)
        elif t:
            out[cls] = (None, None, t.group(1).lower())
    return out


def worlds(prog, dims):
    opts = []
    for q, i in ENUMS.items():
        names = [v[0] for v in prog.enums[q]["values"]]
        opts.append(names if i in dims else [None])
    return list(itertools.product(*opts))


def enum_of(t):
    if t[0] == "enum":
        q = t[1] if isinstance(t[1], str) else ""
        for e, i in ENUMS.items():
            if q.startswith(e + "::"):
                return i, q.split("::")[-1]
    return None


def truth(a, world):
    """Truth of a condition about the configuration; None when it is about something else"""
    if a[0] == "not":
        r = truth(a[1], world)
        return None if r is None else not r
    if a[0] in ("and", "or"):
        rs = [truth(x, world) for x in a[1:]]
        if a[0] == "and":
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if a[0] in ("eq", "ne") and len(a) == 3:
        es = [enum_of(x) for x in a[1:]]
        if all(es):
            return (es[0] == es[1]) == (a[0] == "eq")
        for e, other in ((es[0], a[2]), (es[1], a[1])):
            if e and world[e[0]] is not None:
                return (world[e[0]] == e[1]) == (a[0] == "eq")
    return None


def about(a):
    if a[0] in ("not", "and", "or"):
        return set().union(*(about(x) for x in a[1:]))
    if a[0] in ("eq", "ne"):
        es = [enum_of(x) for x in a[1:]]
        return {e[0] for e in es if e} if not all(es) else set()
    return set()


def item_events(p, items, prog):
    """Item classes a path creates or opens"""
    got = []
    for e in p.events:
        q = e.q
        cls = q.rsplit("::", 1)[0]
        if cls in items and q.split("::")[-1] == cls.split("::")[-1]:
            if len(e.args) == 1 and e.args[0][0] in ("new", "app") and e.args[0][1].split("(")[0] in (cls, q):
                continue  # copied or moved
            got.append((cls, e.line))
        last = q.split("::")[-1]
        if last.startswith("create_") and q.startswith(D):
            want = "".join(w.capitalize() for w in last[len("create_"):].split("_"))
            if D + want in items:
                got.append((D + want, e.line))
    return got


def mentions_items(prog, f, items):
    for q, key, _ in calls_in(f):
        cls = q.rsplit("::", 1)[0]
        last = q.split("::")[-1]
        if cls in items or "SpaceDomain::value<" in key or "TimeDomain::value<" in key or re.match(r"create_(stationary_space|mobile_space|time)_(box|point|cell)$", last):
            return True
    return False


def mentions_configuration(f):
    found = []

    def visit(n):
        if n[0] == "enum" and len(n) > 1 and any(str(x).startswith(tuple(e + "::" for e in ENUMS)) for x in n[1:]):
            found.append(1)
    scan(f.get("body"), visit)
    return bool(found)


def dispatch(c, m):
    items = items_of(m.prog)
    kinds = set(items.values())
    for f in sorted(m.prog.functions.values(), key=lambda f: f["key"]):
        if "body" not in f or component(f) not in ("cxx", "hl", "python") or f.get("implicit") or not mentions_configuration(f) or not mentions_items(m.prog, f, items):
            continue
        own = lambda q, k: q.split("::")[-1].startswith(("validate", "add_", "not_supported")) or q.startswith("pybind11") or "AspectMap" in q or "aspect_to_string" in q
        A = m.analysis(f, more=lambda q, k: q != f["q"] and own(q, k))
        A.max_steps = 40000
        try:
            paths = [p for p in A.run(f) if p.kind == "ret"]
        except flow.TooComplex as e:
            c.ob("configuration", f"{sig(f)} can be followed", None, where(f), str(e))
            continue
        dims = set()
        for p in paths:
            for a in p.facts:
                dims |= about(a)
        if not dims:
            continue  # the configuration is a constant here
        c.count("functions that depend on a configuration")
        complete = True
        all_worlds = worlds(m.prog, {0, 1} if dims & {0, 1} else {2}) if not (dims & {0, 1} and 2 in dims) else worlds(m.prog, {0, 1, 2})
        handled = {}
        label_ = name_of_function(f)
        for w in all_worlds:
            mine = [p for p in paths if not any(truth(a, w) is not None and truth(a, w) != v for a, v in p.facts.items())]
            text = " ".join(x for x in w if x)
            wrong = None
            seen = set()
            for p in mine:
                for cls, line in item_events(p, items, m.prog):
                    k = items[cls]
                    seen.add(cls)
                    for i in (0, 1, 2):
                        if k[i] is not None and i in dims and w[i] is not None and k[i] != w[i]:
                            wrong = (cls, line)
            handled[w] = seen
            c.ob("configuration", f"{label_} of {text} items", wrong is None, where(f, wrong[1] if wrong else None),
                 f"{'creates' if 'create' in f['q'] else 'uses'} {short(wrong[0])} for {text} items" if wrong else "")
            last = f["q"].split("::")[-1]
            if last in ("create_space_domain", "create_time_domain") or is_value(f):
                want = [cls for cls, k in items.items() if all(k[i] is None or k[i] == w[i] for i in (0, 1, 2)) and any(k[i] is not None and w[i] is not None for i in (0, 1, 2))]
                missing = next((p for p in mine if not {x for x, _ in item_events(p, items, m.prog)} & set(want)), None)
                ok = bool(mine) and missing is None
                c.ob("handled", f"{label_} of {text} items", ok, where(f), "" if ok else f"there is a path that does not {'create' if 'create' in last else 'return'} the items")


def is_value(f):
    """The function a Python property named value calls with a domain"""
    return "lambda" in f["q"] and len(f["params"]) == 1 and flow.base_type(f["params"][0][2]) in (D + "SpaceDomain", D + "TimeDomain")


def name_of_function(f):
    s = sig(f)
    return re.sub(r"\blambda@[^:(]*(:\d+)*(::operator\(\))?", "value", s)


# ------------------------------------------------------------------ links


TOPIC = {"time_discretization": "time", "space_discretization": "space", "presence_discretization": "presence"}


def text(A, t):
    while t[0] in ("cast", "addr", "deref"):
        t = t[-1]
    return t[1] if t[0] == "str" else None


def names_in(t):
    return {x[1] for x in terms(t) if x[0] == "str"}


def links(c, m):
    setters = {}
    for f in m.prog.functions.values():
        last = f["q"].split("::")[-1]
        if f.get("cls", "") and f["cls"].startswith(D) and last.startswith("set_") and last.endswith("_discretization") and "body" in f:
            setters[(f["cls"], last[4:])] = f
    link_names = {}
    for (cls, topic), f in sorted(setters.items()):
        par = next((n for n, _, t in f["params"] if flow.base_type(t) == D + "PropertyGroup"), None)
        A, paths = m.run(f)
        link, attr = None, None
        for p in paths:
            ls = [e for e in p.events if e.q.endswith("create_soft_link")]
            ok, d = None, ""
            if len(ls) != 1:
                ok, d = False, f"{len(ls)} links made"
            else:
                strs = [text(A, x) for x in ls[0].args if text(A, x)]
                link = strs[0] if len(strs) == 1 else None
                to = any(contains(x, ("par", par)) for x in ls[0].args[1:])
                frm = contains(ls[0].args[0], ("this",))
                ok = link is not None and to and frm
                d = f"link named {link}"
            c.ob("link", f"{sig(f)} links the given property", ok, where(f), d)
            ws = [e for e in p.events if e.q == H + "Attributes::write"]
            kind = next((n for n, _, t in f["params"] if n != par), None)
            if kind:
                good = [e for e in ws if any(contains(x, ("par", kind)) for x in e.args[2:])]
                ok = len(good) == 1 and text(A, good[0].args[1]) is not None
                attr = text(A, good[0].args[1]) if ok else None
                c.ob("link", f"{sig(f)} stores the given kind", ok, where(f), f"attribute {attr}")
        if link is None:
            continue
        link_names.setdefault(link, set()).add(topic)
        if attr:
            link_names.setdefault(attr, set()).add(topic + " kind")
        words = topic.split("_")
        for g in sorted(m.prog.functions.values(), key=lambda g: g["key"]):
            if g.get("cls") != cls or "body" not in g or g["params"] or not set(words[:1]) <= set(g["q"].split("::")[-1].split("_")):
                continue
            last = g["q"].split("::")[-1]
            if "is" in last.split("_"):
                B, qs = m.run(g, impure={H + "Attributes::read"})
                for q in qs:
                    v = B.as_value(q.st, q.value)
                    want = {link} if not attr else {link, attr}
                    n = names_in(v)
                    ask = {x[1].split("::")[-1] for x in terms(v) if x[0] == "app"}
                    fits = n == {link} and bool(ask & {"contains_soft_link", "link_exists", "link_is_soft_link"}) or attr is not None and n == {attr} and "exists" in ask
                    neg = v[0] == "not"
                    c.ob("link", f"{sig(g)} asks for what the setter makes", None if not n and not q.facts else bool(fits) and not neg and len(n & want) == 1, where(g), f"{show(v)[:120]}, setter makes {', '.join(sorted(want))}")
            elif last.endswith("property"):
                B, qs = m.run(g)
                for q in qs:
                    v = B.as_value(q.st, q.value)
                    used = {text(B, x) for t in terms(v) if t[0] == "new" and t[1].endswith("SoftLink") for x in t[3] if text(B, x)} or names_in(v)
                    c.ob("link", f"{sig(g)} follows the link of the setter", used == {link} if used else None, where(g), f"follows {', '.join(sorted(used))}, the setter makes {link}")
                    break
            elif last.endswith("type") and attr:
                B, qs = m.run(g, impure={H + "Attributes::read"})
                used = set()
                for q in qs:
                    used |= {text(B, x) for e in q.events if e.q == H + "Attributes::read" for x in e.args if text(B, x)}
                c.ob("link", f"{sig(g)} reads the kind the setter stores", used == {attr} if used else None, where(g), f"reads {', '.join(sorted(used))}, the setter stores {attr}")
    for n, topics in sorted(link_names.items()):
        c.ob("distinct", f"the name {n} belongs to one link", len(topics) == 1, "", f"used for {', '.join(sorted(topics))}")


def presence(c, m):
    """What reports that a domain is there asks for what creating or linking it made"""
    made = {}
    for f in m.prog.functions.values():
        last = f["q"].split("::")[-1]
        if not f["q"].startswith(D) or "body" not in f or f.get("cls"):
            continue
        for key in ("create_space_domain", "create_time_domain", "link_time_domain", "link_object_tracker", "create_object_tracker"):
            if last == key:
                A, paths = m.run(f)
                for p in paths:
                    for e in p.events:
                        n = e.q.split("::")[-1]
                        if n in ("create_group", "create_soft_link"):
                            made.setdefault((key, n), set()).update(text(A, x) for x in e.args if text(A, x))
    pairs = {"space_domain_exists": ("create_space_domain", "create_group"), "time_domain_exists": ("create_time_domain", "create_group"), "has_linked_time_domain": ("link_time_domain", "create_soft_link"),
             "has_linked_object_tracker": ("link_object_tracker", "create_soft_link")}
    for f in sorted(m.prog.functions.values(), key=lambda f: f["key"]):
        last = f["q"].split("::")[-1]
        if not f["q"].startswith(D) or "body" not in f or last not in pairs or f.get("cls"):
            continue
        A, paths = m.run(f)
        for p in paths:
            v = A.as_value(p.st, p.value)
            used = names_in(v)
            want = made.get(pairs[last], set())
            ask = {x[1].split("::")[-1] for x in terms(v) if x[0] == "app"}
            kind = {"create_group": {"contains_group", "group_exists"}, "create_soft_link": {"contains_soft_link", "link_is_soft_link"}}[pairs[last][1]]
            ok = None if not used or not want else used == want and bool(ask & kind) and v[0] != "not"
            c.ob("presence", f"{sig(f)} asks for what {pairs[last][0]} makes", ok, where(f), f"asks {show(v)[:100]}, made: {', '.join(sorted(want))}")


# ------------------------------------------------------------------ clocks


def clock(c, m):
    creators = m.prog.named(D + "create_time_domain")
    readers = [f for f in m.prog.functions.values() if f.get("ctor") and f.get("cls") == D + "TimeDomain" and not f.get("copymove") and "body" in f]
    for f in creators:
        par = next(n for n, _, t in f["params"] if flow.base_type(t) == D + "Clock")
        A, wpaths = m.run(f)
        parts = {"_kind": None, "_origin": None, "_calendar": None}
        for origin, calendar in ((0, 0), (1, 0), (1, 1)):
            w = {"_origin": origin, "_calendar": calendar}
            stored = []
            sure = True
            for p in wpaths:
                ts = [(given(a, w), v) for a, v in p.facts.items()]
                if any(t is not None and t != v for t, v in ts):
                    continue
                at = {}
                for e in p.events:
                    if e.q == H + "Attributes::write" and len(e.args) > 2 and any(contains(x, ("par", par)) for x in e.args[2:]) and text(A, e.args[1]):
                        at[text(A, e.args[1])] = field_of(e.args[2], par)
                if at not in stored:
                    stored.append(at)
            label_ = f"{'origin' if origin else 'no origin'}, {'calendar' if calendar else 'no calendar'}"
            if len(stored) != 1:
                c.ob("clock", f"what is stored of a clock with {label_}", None, where(f), f"{len(stored)} possibilities")
                continue
            at = stored[0]
            for g in sorted(readers, key=lambda g: g["key"]):
                B = m.analysis(g, impure={H + "Attributes::read"})
                for q in B.run(g):
                    if q.kind != "ret":
                        continue
                    ex = [(exists(B, a, at), v) for a, v in q.facts.items()]
                    if any(t is not None and t != v for t, v in ex):
                        continue
                    this = B.read(q.st, ("lv", ("m", ("this",)), ()))
                    clk = B.select(q.st, this, ("f", clock_field(m)))
                    for part, expect in parts_of(m):
                        t = clk
                        for x in part:
                            t = B.select(q.st, t, ("f", x))
                        got = {text(B, a) for x in terms(t) if x[0] in ("app", "out", "evt") and "Attributes::read" in str(x[1]) for a in x[2] if isinstance(a, tuple) and text(B, a)}
                        got |= {text(B, a) for e in q.events if e.q == H + "Attributes::read" and contains(t, e.res) for a in e.args if text(B, a)}
                        absent = t == ("nullopt",) or t[0] in ("new", "init") and "optional" in str(t[1]) and not t[-1]
                        should = not (part[-1] == "_origin" and not origin or part[-1] == "_calendar" and not calendar)
                        names = {n for n, fld in at.items() if fld == part}
                        if not should:
                            ok = True if absent else False if got else None
                        else:
                            ok = False if absent or t[0] in ("enum", "str", "int") or t[0] == "some" and t[1][0] in ("enum", "str", "int") else (got == names if got else None)
                        c.ob("clock", f"{'.'.join(part)} of a clock with {label_} by {sig(g)}", ok, where(g), f"stored under {', '.join(sorted(names)) or 'nothing'}, read from {', '.join(sorted(x for x in got if x)) or show(t)[:80]}")


def clock_field(m):
    return next(n for n, t, *_ in m.prog.classes[D + "TimeDomain"]["fields"] if flow.base_type(t) == D + "Clock")


def parts_of(m):
    out = []
    for n, t, *_ in m.prog.classes[D + "Clock"]["fields"]:
        b = flow.base_type(t)
        if b in m.prog.classes and m.prog.classes[b]["fields"]:
            out += [((n, x), y) for x, y, *_ in m.prog.classes[b]["fields"]]
        else:
            out.append(((n,), t))
    return out


def field_of(t, par):
    """Which part of the clock a stored value comes from"""
    best = ()
    for x in terms(t):
        p, y = [], x
        while y[0] in ("fld", "deref", "some", "cast"):
            if y[0] == "fld":
                p.append(y[2])
                y = y[1]
            else:
                y = y[-1]
        if y == ("par", par) and len(p) > len(best):
            best = tuple(reversed(p))
    return best


def given(a, w):
    """Truth of a test whether an optional part of the clock is there"""
    if a[0] == "not":
        r = given(a[1], w)
        return None if r is None else not r
    if a[0] == "app" and a[1].split("::")[-1] in ("has_value", "operator bool", "operator!") and len(a[2]) == 1 and a[2][0][0] == "fld" and a[2][0][2] in w:
        return bool(w[a[2][0][2]]) == (a[1].split("::")[-1] != "operator!")
    if a[0] == "fld" and a[2] in w:
        return bool(w[a[2]])
    if a[0] in ("eq", "ne") and ("nullopt",) in a[1:]:
        for x in a[1:]:
            if x[0] == "fld" and x[2] in w:
                return bool(w[x[2]]) == (a[0] == "ne")
    return None


def exists(B, a, at):
    if a[0] == "not":
        r = exists(B, a[1], at)
        return None if r is None else not r
    if a[0] == "app" and a[1].split("::")[-1] == "exists":
        n = next((text(B, x) for x in a[2] if text(B, x)), None)
        return None if n is None else n in at
    return None
