"""M05: a new property set gets exactly the object tracker, time domain, space domain and property collections that were asked for, and reports and exposes those when it is opened."""
import flow
from check import Check, where, sig, short
from common import *
from model import Model, H, D, PRIM, PURE, chain, name_of, show_place
from flow import show

GROUP, LINK = H + "create_group", H + "Group::create_soft_link"
PARTS = {"create_object_tracker", "create_time_domain", "create_space_domain", "create_properties"}


def kind(t):
    t = flow.base_type(t)
    for k, names in (("tracker", ("ObjectTracker",)), ("time", ("TimeDomain",)), ("clock", ("Clock",)), ("datatype", ("Datatype",)), ("name", ("basic_string",)), ("parent", (H + "Group",))):
        if any(n in t for n in names) and "ItemType" not in t:
            return k
    if "TimeDomainItemType" in t or "TimeConfiguration" in t:
        return "time_cfg"
    if "SpaceDomainItemType" in t or "SpaceConfiguration" in t:
        return "space_cfg"
    return "rank"


def tag(m, name):
    for f in m.prog.functions.values():
        if component(f) == "cxx" and "body" in f:
            v = m.analysis(f).global_value(D + name)
            return name_of(v) if v else None


def run():
    c = Check("M05", "every way to add a property set creates, under a guard on the name, the tracker, domains and collections its arguments ask for and no others, and the opened set exposes those")
    m = Model()
    c.program(m.prog)
    T = {n: tag(m, n + "_tag") for n in "object_tracker time_domain space_domain properties property_sets collection_property_sets object_id".split()}
    known = {D + n for n in PARTS}
    for f in sorted(m.prog.functions.values(), key=lambda f: f["key"]):
        if "body" not in f or component(f) not in ("cxx", "hl") or "/test/" in f["file"]:
            continue
        if f["q"] == D + "create_property_set" or f["q"] == D + "PropertySets::add":
            creation(c, m, f, T, known)
        elif f.get("ctor") and f["cls"] == D + "PropertySet" and not f.get("copymove"):
            opened(c, m, f, T)
        elif f.get("cls") == D + "PropertySet" and not f.get("ctor"):
            report(c, m, f, T)
        if f.get("cls") in (D + "PropertySet", D + "Phenomenon") and not f.get("ctor") and not f["params"]:
            exposed(c, m, f)
        if f["key"] in m.creators and f["q"].split("::")[-1] in ("create_properties", "create_object_tracker", "create_phenomenon") and f["q"].count("::") == 2:
            complete(c, m, f)
    guard(c, m)
    return c.finish({"parts": 12, "name in use": 9, "opened": 2, "reported": 3, "exposed": 6, "complete": 3})


# ------------------------------------------------------------ creation

def analysis(m, f, known):
    own = set(chain(m.prog, f["cls"])) if f.get("cls") else set()
    return flow.Analysis(m.prog, opaque=lambda q, k: k != f["key"] and (h5_call(q) or q in PRIM or k in m.openers and m.openers[k]["cls"] not in own or q in known),
                         pure=lambda q, k: q in PURE)


def same(m, t, place):
    return m.place(t) == place


def creation(c, m, f, T, known):
    par = {}
    for n, _, t in f["params"]:
        par.setdefault(kind(t), []).append(("par", n))
    if any(len(v) > 1 for v in par.values()):
        return c.ob("parts", sig(f), None, where(f), "the parameters cannot be told apart by type")
    par = {k: v[0] for k, v in par.items()}
    parent = ("this",) if f.get("cls") else (par.get("parent"),)
    name = par.get("name")
    if parent[0] is None or name is None:
        return c.ob("parts", sig(f), None, where(f), "no parent or no name")
    A = analysis(m, f, known)
    group = parent + (name_of(name),)
    for p in A.run(f):
        made = [e for e in p.events if e.q == GROUP or e.q == LINK or e.q in known]
        exists = [v for a, v in p.facts.items() if a[0] == "app" and a[1].split("::")[-1] in ("group_exists", "contains_group", "contains") and name in a[2]]
        if p.kind != "ret":
            if True in exists:
                c.ob("name in use", sig(f), not made, where(f), "something is created although the name is in use")
            continue
        if True in exists and not (made and made[0].q == GROUP and m.place(made[0].args[0]) == parent and name_of(made[0].args[1]) == name_of(name)):
            c.ob("name in use", sig(f), False, where(f), "a name that is in use is not refused")
        want, got, problems = {}, {}, []
        for e in made:
            last = e.q.split("::")[-1]
            a = e.args
            if e.q == GROUP:
                pl = m.place(a[0])
                if pl is None:
                    problems.append((None, f"a group is created at an unknown place (line {e.line})"))
                    continue
                ok = pl + (name_of(a[1]),) == group
                got["group"] = got.get("group", 0) + 1
                if not ok:
                    problems.append((False, f"a group is created at {show_place(pl + (name_of(a[1]),))} instead of {show_place(group)}"))
                continue
            at = m.place(a[0])
            if at != group:
                problems.append((None if at is None else False, f"{last} is done at {show_place(at)} instead of in the new property set"))
            if e.q == LINK:
                which = {T["object_tracker"]: ("link tracker", "tracker"), T["time_domain"]: ("link time", "time")}.get(name_of(a[2]) if len(a) > 2 else None)
                if which is None:
                    problems.append((False if name_of(a[-1]).__class__ is str else None, f"a link named {name_of(a[-1])} is created"))
                    continue
                got[which[0]] = got.get(which[0], 0) + 1
                if which[1] in par and m.place(a[1]) != (par[which[1]],):
                    problems.append((False if m.place(a[1]) else None, f"the link {name_of(a[2])} refers to {show(a[1])}"))
                continue
            got[last] = got.get(last, 0) + 1
            rest = [strip(x) for x in a[1:]]
            expect = {"create_time_domain": ("time_cfg", "clock"), "create_space_domain": ("space_cfg", "datatype", "rank")}.get(last, ())
            if rest != [par.get(k) for k in expect]:
                sure = all(x[0] == "par" for x in rest)
                problems.append((False if sure else None, f"{last} is passed {', '.join(show(x) for x in rest)}"))
        want["group"] = 1
        want["create_properties"] = 1
        want["link tracker" if "tracker" in par else "create_object_tracker"] = 1
        if "time" in par:
            want["link time"] = 1
        if "time_cfg" in par:
            want["create_time_domain"] = 1
        if "space_cfg" in par:
            want["create_space_domain"] = 1
        for k in sorted(set(want) | set(got)):
            if want.get(k, 0) != got.get(k, 0):
                problems.append((False, f"{k}: {got.get(k, 0)} time(s) instead of {want.get(k, 0)}"))
        if f.get("cls"):
            problems += listed(m, A, p, name, group)
        else:
            v = A.as_value(p.st, p.value)
            pl = m.place(v)
            if pl != group:
                problems.append((None if pl is None else False, f"the returned property set is the one at {show_place(pl)}"))
        ok = True if not problems else False if any(x is False for x, _ in problems) else None
        c.ob("parts", sig(f), ok, where(f), "; ".join(t for _, t in problems))
        c.ob("name in use", sig(f), True, where(f))


def strip(t):
    while t[0] == "cast":
        t = t[-1]
    return t


def listed(m, A, p, name, group):
    """The set is entered in the collection under its name"""
    this = A.read(p.st, ("lv", ("m", ("this",)), ()))
    for t in subterms(this):
        if len(t) > 1 and t[0] == "mut" and t[1] in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            args = t[2][1:]
            if len(args) == 1:
                args = args[0][-1] if args[0][0] in ("tuple", "init") else args[0][3] if args[0][0] == "new" else args
                if isinstance(args, tuple) and args and isinstance(args[0], str):
                    args = (args,)
            if len(args) >= 2:
                out = []
                if strip(args[0]) != name:
                    out.append((False if strip(args[0])[0] in ("par", "str") else None, f"the new property set is entered under {show(args[0])}"))
                if m.place(args[1]) != group:
                    out.append((False if m.place(args[1]) else None, f"the property set that is entered is the one at {show_place(m.place(args[1]))}"))
                return out
            return [(None, "the entry made in the collection is not understood")]
    return [(False, "the new property set is not entered in the collection")]


def guard(c, m):
    """Creating a group under a name in use is refused by the layer below, for functions that do not test it themselves"""
    for f in m.prog.functions.values():
        if f["q"] != GROUP or "body" not in f:
            continue
        A = flow.Analysis(m.prog, opaque=lambda q, k: h5_call(q) or q in PRIM and q != GROUP, pure=lambda q, k: q in PURE)
        for p in A.run(f):
            if p.kind == "ret":
                facts = [v for a, v in p.facts.items() if a[0] == "app" and a[1] in (H + "group_exists", H + "Group::contains_group", H + "link_exists")]
                c.ob("name in use", sig(f), True not in facts, where(f), "a group is created under a name in use")


# ------------------------------------------------------------ the opened set

def opened(c, m, f, T):
    A, ps = m.run(f)
    fields = {n: t for n, t, _ in m.prog.classes[D + "PropertySet"]["fields"]}
    for p in ps:
        this = A.read(p.st, ("lv", ("m", ("this",)), ()))
        base = m.base_place(f) if len(f["params"]) < 2 else (("par", f["params"][0][0]), ("par", f["params"][1][0]))
        for fld, t in fields.items():
            which = next((x for x, n in (("object_tracker", "ObjectTracker"), ("time_domain", "TimeDomain"), ("space_domain", "SpaceDomain"), ("properties", "Properties")) if n in t), None)
            if which is None:
                continue
            v = A.select(p.st, this, ("f", fld))
            i = f"{sig(f)} {which}"
            if "optional" not in t:
                c.ob("opened", i, built(m, v, base), where(f), f"{which} is {show(v)}"[:300])
                continue
            there = [x for a, x in p.facts.items() if a[0] == "app" and a[1].split("::")[-1] in ("group_exists", "contains_group", "contains_soft_link", "link_exists")
                     and name_of(a[2][-1]) == T[which] and inside(m.place(a[2][0]), base)]
            if v == ("nullopt",):
                c.ob("opened", i + " absent", (there[0] is False) if there else False, where(f), f"the {which} is left out although it may be in the file")
            elif v[0] == "some":
                c.ob("opened", i + " present", built(m, v[1], base) and ((there[0] is True) if there else None), where(f), f"{which} is {show(v)}"[:300])
            else:
                c.ob("opened", i, None, where(f), f"{which} is {show(v)}"[:200])


def inside(pl, base):
    return pl is not None and (pl == base or pl == ("this",))


def built(m, v, base):
    """An object opened within the property set"""
    v = strip(v)
    if v[0] == "new" and v[3]:
        pl = m.place(v[3][0])
        return True if inside(pl, base) else None if pl is None else False
    return None


# ------------------------------------------------------------ reports

def report(c, m, f, T):
    last = f["q"].split("::")[-1]
    for which in ("time_domain", "space_domain", "object_tracker"):
        if last not in (f"has_{which}", f"owns_{which}"):
            continue
        A, ps = m.run(f)
        have = ("app", "has_value", (("fld", ("this",), "_" + which),))
        link = None
        atoms = set()
        for p in ps:
            for t in list(p.facts) + [A.as_value(p.st, p.value)]:
                atoms |= {x for x in terms(t) if x[0] == "app" and (x[1] == "has_value" or "soft_link" in x[1])}
        for a in atoms:
            if a[1] == "has_value" and a != have:
                c.ob("reported", sig(f), False, where(f), f"depends on {show(a)}")
            elif a[1] != "has_value":
                link = a
                ok = name_of(a[2][-1]) == T[which] and m.place(a[2][0]) == ("this",)
                if not ok:
                    c.ob("reported", sig(f), False, where(f), f"depends on {show(a)}")
        for h in (True, False):
            for l in (True, False):
                want = h if last.startswith("has") else (not l) and (h or which == "object_tracker")
                world = {have: h}
                if link:
                    world[link] = l
                elif last.startswith("owns") and l:
                    c.ob("reported", sig(f), False if h else None, where(f), "does not depend on whether it is a link")
                    continue
                for p in ps:
                    if any(p.facts.get(a, v) != v for a, v in world.items()):
                        continue
                    got = truth(A.as_value(p.st, p.value), world)
                    c.ob("reported", sig(f), None if got is None else got == want, where(f), f"yields {got} when present is {h} and linked is {l}")


def truth(t, world):
    t = strip(t)
    if t in world:
        return world[t]
    if t[0] == "bool":
        return t[1]
    if t[0] == "not":
        r = truth(t[1], world)
        return None if r is None else not r
    if t[0] in ("and", "or"):
        rs = [truth(x, world) for x in t[1:]]
        if t[0] == "and":
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if t[0] in ("eq", "ne") and len(t) == 3:
        a, b = truth(t[1], world), truth(t[2], world)
        return None if a is None or b is None else (a == b) == (t[0] == "eq")
    return None


def exposed(c, m, f):
    """An accessor yields the field that is opened at the place of that name"""
    ret = f.get("ret") or ""
    if not ret.rstrip().endswith("&") or not flow.base_type(ret).startswith(D) or "body" not in f:
        return
    last = f["q"].split("::")[-1]
    A, ps = m.run(f)
    types = {}
    for b in chain(m.prog, f["cls"]):
        for n, t, _ in (m.prog.classes.get(b) or {"fields": ()})["fields"]:
            types.setdefault(flow.base_type(t), []).append(n)
    for p in ps:
        v = strip(A.as_value(p.st, p.value))
        while v[0] in ("deref", "cast") or v[0] == "app" and v[1] in ("value", "get", "deref"):
            v = v[1] if v[0] == "deref" else v[-1] if v[0] == "cast" else v[2][0]
        if not (v[0] == "fld" and v[1] == ("this",)):
            c.ob("exposed", sig(f), None, where(f), f"yields {show(v)}"[:200])
            continue
        want = tag(m, last + "_tag")
        if want is None:
            continue
        for g in m.openers.values():
            if g["cls"] == f["cls"] and "body" in g:
                B, qs = m.run(g)
                for q in qs:
                    x = strip(B.select(q.st, B.read(q.st, ("lv", ("m", ("this",)), ())), ("f", v[2])))
                    if x[0] == "some":
                        x = x[1]
                    if x == ("nullopt",):
                        continue
                    pl = m.place(x)
                    c.ob("exposed", sig(f), None if pl is None else pl[-1] == want, where(f), f"yields what is opened at {show_place(pl)}")


def complete(c, m, f):
    """Everything that opening the object requires is made when it is created"""
    cls = flow.base_type(f["ret"])
    made = m.layout(f, True)
    for g in m.openers.values():
        if g["cls"] != cls or len(g["params"]) != 1 or "&&" not in g["params"][0][2]:
            continue
        base = m.base_place(f)
        need = {(k, m.base_place(f) + pl[1:] if pl and pl[0] == "this" else pl) for (k, pl), always in m.layout(g, False).items() if always and k != "attribute"}
        need = {(k, base + pl[1:]) if pl and base and pl[0] == ("par", g["params"][0][0]) else (k, pl) for k, pl in need}
        for k, pl in sorted(need, key=str):
            if pl is None or pl == base or "*" in pl:
                continue
            ok = made.get((k, pl))
            if ok is None and any(x is None for _, x in made):
                c.ob("complete", f"{sig(f)} {show_place(pl)}", None, where(f))
            else:
                c.ob("complete", f"{sig(f)} {show_place(pl)}", bool(ok), where(f), f"the {k} {show_place(pl)} is not created on every path, but is needed to open the object")
