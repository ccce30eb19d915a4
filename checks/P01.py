"""P01: Python enumerations offer exactly the settings of the library."""
import json, os
import flow
from check import Check, where, short, VERIF
from common import *
from model import Model, D
import M02

ENUM = "pybind11::enum_"


def run():
    c = Check("P01", "each enumeration that is kept in files is registered once, under the name of its class, with exactly one name for each enumerator, which is the enumerator's own and no other's",
              ["pybind11 offers what is registered under the name given", "the name of an enumerator is the name of the setting (spec/settings.json, M02)"])
    m = Model("hdf5", "cxx", "hl", "py")
    P = m.prog
    c.program(P)
    tables = M02.Tables(P)
    spec = json.load(open(os.path.join(VERIF, "spec", "settings.json")))
    values, registered = {}, {}
    reach = reaching(P, {ENUM + "::enum_", ENUM + "::value"})
    roots = [f for k, f in P.functions.items() if component(f) == "python" and "body" in f and k in reach and "lambda" not in f["q"]]
    # functions that are called by other such functions are examined in their callers, with the arguments they get there
    called = {k for f in roots for q, k, l in calls_in(f) if k != f["key"]}
    n = 0
    for f in roots:
        if not any(q.startswith(ENUM + "::") for q, k, l in calls_in(f)) and f["key"] in called:
            continue
        A = flow.Analysis(P, opaque=lambda q, k: q.startswith("pybind11::") or k in reach and not direct(P, k), pure=lambda q, k: False, qualify=True)
        A.max_steps = 400000
        try:
            ps = A.run(f)
        except flow.TooComplex:
            continue
        ps = [p for p in ps if p.kind == "ret"]
        n += len(ps)
        for p in ps[:1] if len(ps) == 1 else ps:
            for e in p.events:
                if not e.q.split("<")[0].startswith(ENUM):
                    continue
                ty = e.key.split("enum_<", 1)[1].split(">::")[0] if "enum_<" in e.key else None
                if e.key.split("(")[0].split("<")[0] and "::enum_" in e.q and e.q.endswith("::enum_"):
                    registered.setdefault(ty, set()).add((e.args[0], e.args[1], where(f, e.line)))
                elif e.q.endswith("::value"):
                    values.setdefault(ty, set()).add((text(tables, e.args[1]), M02.enumerator(e.args[2]), e.args[1], where(f, e.line), len(ps)))
    for ty, setting in spec.items():
        e = P.enums.get(D + ty)
        if e is None:
            raise AnalysisError(f"no enumeration {ty}")
        names = [x[0] for x in e["values"]]
        place = sorted(w for _, _, w in registered.get(D + ty, ()))
        c.ob("registered", f"{ty} is an enumeration of the package", len(place) == 1 or (len({(a, b) for a, b, _ in registered.get(D + ty, ())}) == 1), place[0] if place else "", f"{len(place)} registrations of {ty}")
        if not place:
            continue
        under = {b for _, b, _ in registered[D + ty]}
        ok = all(b == ("str", ty.split("::")[-1]) for b in under) if all(b[0] == "str" for b in under) else None
        c.ob("registered", f"{ty} has the name of the class", ok, place[0], f"{ty} is registered as {', '.join(show(b) for b in under)}")
        rows = values.get(D + ty, set())
        unknown = [r for r in rows if r[0] is None or r[1] is None]
        for x in names:
            own = [r for r in rows if r[0] == x]
            wrong = [r for r in own if r[1] is not None and r[1].split("::")[-1] != x]
            right = [r for r in own if r[1] is not None and r[1].split("::")[-1] == x]
            others = [r for r in rows if r[1] is not None and r[1].split("::")[-1] == x and r[0] is not None and r[0] != x]
            if wrong:
                ok, why = False, f"{ty}.{x} selects {wrong[0][1].split('::')[-1]}"
            elif others:
                ok, why = False, f"{x} is also selected by {ty}.{others[0][0]}"
            elif right:
                ok, why = True, ""
            else:
                ok, why = (None, "a name or value is not known") if unknown else (False, f"{ty} does not offer {x}")
            c.ob("values", f"{ty}.{x}", ok, (wrong or others or right or [(0, 0, 0, place[0])])[0][3], why)
        for r in sorted(rows, key=str):
            if r[0] is not None and r[0] not in names:
                c.ob("values", f"{ty}.{r[0]}", False, r[3], f"{ty}.{r[0]} is not a setting")
    # two enumerations of one scope have different names
    scopes = {}
    for ty, rs in registered.items():
        for a, b, w in rs:
            scopes.setdefault((str(a), b, w.split("(")[-1]), []).append((ty, w))
    for (a, b, _), tys in scopes.items():
        c.ob("registered", f"{show(b)} names one enumeration", len({t for t, _ in tys}) == 1, tys[0][1], f"{show(b)} names {', '.join(t for t, _ in tys)}")
    c.count("paths", n)
    return c.finish({"registered": 10, "values": 14})


def direct(P, k):
    """Whether a function registers values itself (rather than through the functions it calls)"""
    f = P.functions.get(k)
    return f is not None and any(q.split("<")[0].startswith(ENUM + "::") for q, _, _ in calls_in(f))


def text(tables, t):
    t = M02.strip(t)
    if t[0] == "str":
        return t[1]
    r = tables.lookup(t)
    if r is not None and r[2][0] == "enum":
        texts = {b for a, b in r[1] if a == r[2][1]}
        return texts.pop() if len(texts) == 1 else None
    return None



if __name__ == "__main__":
    raise SystemExit(run())
