"""V01: validation visits every part of a dataset."""
import flow
from check import Check, where, sig, short
from common import *
from model import H, D
from validators import Validators, REPORTS, ISSUES, norm, same, each_of, iterates

KINDS = ["same_shape", "different_shape", "same_shape::constant_shape", "same_shape::variable_shape", "different_shape::constant_shape", "different_shape::variable_shape"]


class Part:
    def __init__(self, name, make, cls=None, when=(), loose=False):
        self.name, self.make, self.cls, self.when, self.loose = name, make, cls, dict(when), loose


def requirements(prog):
    """class -> its parts. A part has a term (over the term of the whole), a class and the conditions under which it exists."""
    def member(cls, name, targs=""):
        return lambda t: ("app", D + cls + "::" + name + targs, (t,))

    def part(cls, name, pcls=None, when=(), loose=False):
        return Part(name, member(cls, name), D + pcls if pcls else None, [((D + cls + "::" + k), v) for k, v in when], loose)
    req = {
        "Dataset": [part("Dataset", "universes", "Universes"), part("Dataset", "phenomena", "Phenomena")],
        "Universe": [part("Universe", "phenomena", "Phenomena")],
        "Phenomenon": [part("Phenomenon", "property_sets", "PropertySets"), part("Phenomenon", "collection_property_sets", "PropertySets")],
        "PropertySet": [part("PropertySet", "object_tracker", "ObjectTracker"), part("PropertySet", "time_domain", "TimeDomain", [("has_time_domain", True)]),
                        part("PropertySet", "space_domain", "SpaceDomain", [("has_space_domain", True)]), part("PropertySet", "properties", "Properties")],
        "ObjectTracker": [part("ObjectTracker", n) for n in ("active_set_index", "active_object_id", "active_object_index")],
    }
    for coll, item in (("Universes", "Universe"), ("Phenomena", "Phenomenon"), ("PropertySets", "PropertySet")):
        req[coll] = [Part("each", None, D + item)]
    req["Properties"] = []
    for k in KINDS:
        coll = k + "::Properties"
        req["Properties"].append(Part(f"collection<{k}>", member("Properties", "collection", "<" + D + coll + ">"), D + coll))
        req[coll] = [Part("each", None, D + k + "::Property")]
        ps = [Part("value", None, None)]
        ps[0].make = [member(k + "::Property", "value"), member(k + "::Property", "value", "<>")]
        for what in ("time", "space"):
            ps.append(Part(f"{what} discretization", None, None, [(f"{what}_is_discretized", True)], loose=True))
            ps[-1].make = what
        req[k + "::Property"] = ps
    req["TimeDomain"] = [Part(f"value<Time{x.capitalize()}>", member("TimeDomain", "value", f"<{D}Time{x.capitalize()}>"), None, [(D + "TimeDomainItemType", x)]) for x in ("box", "cell", "point")]
    req["SpaceDomain"] = []
    for mob in ("Stationary", "Mobile"):
        for it in ("Box", "Point"):
            req["SpaceDomain"].append(Part(f"value<{mob}Space{it}>", member("SpaceDomain", "value", f"<{D}{mob}Space{it}>"), None,
                                           [(D + "Mobility", mob.lower()), (D + "SpaceDomainItemType", it.lower())]))
    return {D + k: v for k, v in req.items()}


class Coverage:
    def __init__(self, V, req):
        self.V, self.req = V, req
        self.memo = {}
        self.obligations = {}

    # ---- the worlds in which a path can run

    def possible(self, facts, when, t):
        """Whether a path can run when the part exists and nothing has been reported as wrong."""
        for a, v in facts.items():
            r = self.truth(a, when, t)
            if r is not None and r != v:
                return False
        return True

    def truth(self, a, when, t):
        if a[0] == "not":
            r = self.truth(a[1], when, t)
            return None if r is None else not r
        if a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                y = norm(y)
                if y[0] == "enum":
                    for q, want in when.items():
                        if isinstance(want, str) and y[1].startswith(q + "::") and any(same(s, t) for s in terms(x)):
                            return y[1].split("::")[-1] == want
            if self.error_count(a[1]) and self.error_count(a[2]):
                return True
            if {self.error_count(a[1]), self.error_count(a[2])} == {True, False} and flow.ZERO in (a[1], a[2]):
                return None
        if a[0] in ("lt", "gt") and self.error_count(a[1]) and self.error_count(a[2]):
            return False
        if a[0] == "app":
            if a[2] and same(a[2][0], t):
                name = a[1].split("<")[0]
                for q, want in when.items():
                    if isinstance(want, bool) and (name == q or q in ("time_is_discretized", "space_is_discretized", "presence_is_discretized") and name.endswith("::" + q)):
                        return want
            f = self.called(a)
            if f is not None:
                return self.clean_result(f)
        return None

    def error_count(self, t):
        t = norm(t)
        return t[0] == "app" and t[1] == "size" and len(t[2]) == 1 and norm(t[2][0])[0] == "app" and norm(t[2][0])[1] == ISSUES + "::errors"

    def called(self, a):
        fs = [f for f in self.V.functions.values() if f["q"] == a[1].split("<")[0] and len(f["params"]) == len(a[2])]
        return fs if fs and all(f.get("ret") == "bool" for f in fs) else None

    def clean_result(self, fs):
        """What a validation function returns when it reports no error; None when that is not fixed."""
        got = set()
        for f in fs:
            for p in self.V.paths(f) or ():
                if any(e.q == ISSUES + "::add_error" for e in p.events):
                    continue
                v = p.value
                if v is not None and v[0] == "eq" and self.error_count(v[1]) and self.error_count(v[2]):
                    v = flow.TRUE
                if v is not None and v[0] == "not" and v[1][0] == "eq" and self.error_count(v[1][1]) and self.error_count(v[1][2]):
                    v = flow.FALSE
                d = decided(p.facts, v) if v is not None and not any(s[0] == "find" for s in terms(v)) else None
                got.add(d)
        return got.pop() if len(got) == 1 else None

    # ---- what a path visits

    def part_terms(self, part, t):
        return [mk(t) for mk in part.make] if isinstance(part.make, list) else [part.make(t)]

    def receivers(self, p, match):
        """[(function, parameter)] that a path hands an object to"""
        out = []
        for e in p.events:
            f = self.V.functions.get(e.key)
            for i, a in enumerate(e.args if f else ()):
                if i < len(f["params"]) and match(a) and (f, i) not in out:
                    out.append((f, i))
        return out

    def mentioned(self, p, match):
        """Whether a path looks at an object: tests something of it, reports it, or hands it to a function that does"""
        def has(x):
            return any(match(s) for s in terms(x))
        if any(has(a) for a in p.facts):
            return True
        for e in p.events:
            f = self.V.functions.get(e.key)
            if f is None and e.q not in REPORTS:
                continue
            for i, a in enumerate(e.args):
                if has(a) and (f is None or not match(norm(a)) or i < len(f["params"]) and self.looks_at(f, i)):
                    return True
        return False

    def looks_at(self, f, i):
        key = f["key"], i
        if key not in self.memo:
            self.memo[key] = True
            ps, t = self.V.paths(f), ("par", f["params"][i][0])
            self.memo[key] = ps is None or all(self.mentioned(p, lambda s: s == t) or not self.possible(p.facts, {}, t) or any(k == "none" for k, _ in p.marks) for p in ps)
        return self.memo[key]

    def exempt(self, p, t):
        """An error was reported for the object itself."""
        for e in p.events:
            if e.q == ISSUES + "::add_error" and len(e.args) > 1:
                a = norm(e.args[1])
                o = a[1] if a[0] == "fld" else a[2][0] if a[0] == "app" and a[2] else None
                if o is not None and same(o, t):
                    return True
        return False

    def covers(self, p, cls, t, part):
        """Whether a path visits a part of the object `t`: itself or by handing `t` to something that does; None when undecided"""
        if not self.possible(p.facts, part.when, t):
            return True
        got = [self.visits(f, i, part) for f, i in self.receivers(p, lambda a: same(a, t))]
        if True in got:
            return True
        if part.name == "each":
            r = self.covers_each(p, t, part)
        elif part.loose:
            r = self.covers_discretization(p, t, part)
        elif part.cls is None:
            r = any(self.mentioned(p, lambda s: same(s, u)) for u in self.part_terms(part, t))
        else:
            rs = [self.whole(p, part.cls, u) for u in self.part_terms(part, t)]
            r = True if True in rs else None if None in rs else False
        if r is False and self.exempt(p, t):
            return True
        return None if r is False and None in got else r

    def covers_each(self, p, t, part):
        marks = [k for k, c in p.marks if iterates(c, t)]
        if not marks or "break" in marks:
            return False
        if "some" not in marks:
            return True
        rs = [self.whole(p, part.cls, x) for x in self.items(p, t)]
        return True if True in rs else None if None in rs else False

    def items(self, p, t):
        out = []
        for e in p.events:
            for a in e.args:
                for s in terms(a):
                    if each_of(s, t) and norm(s) not in out:
                        out.append(norm(s))
        for a in p.facts:
            for s in terms(a):
                if each_of(s, t) and norm(s) not in out:
                    out.append(norm(s))
        return out

    def covers_discretization(self, p, t, part):
        """The question whether there is a discretisation was asked and led to looking at it or to an issue."""
        if not any(a[0] == "app" and a[1].endswith(f"::{part.make}_is_discretized") and a[2] and same(a[2][0], t) for a in p.facts):
            return False
        if self.mentioned(p, lambda s: s[0] == "app" and f"::{part.make}_discretization_" in s[1] and s[2] and same(s[2][0], t)):
            return True
        for e in p.events:
            reports = e.q in REPORTS or e.key in self.V.functions and not any(same(a, t) for a in e.args)
            if reports and any(same(s, t) for a in e.args for s in terms(a) if s[0] != "app" or not s[1].endswith("::value")):
                return True
        return False

    def whole(self, p, cls, t):
        """The object as a whole: all its parts, or, of a class without known parts, the object itself"""
        if cls not in self.req:
            return self.mentioned(p, lambda s: same(s, t))
        rs = [self.covers(p, cls, t, part) for part in self.req[cls]]
        return False if False in rs else None if None in rs else True

    # ---- what a function visits

    def visits(self, f, i, part):
        key = f["key"], i, id(part)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True      # a recursive visit adds nothing
        cls = flow.base_type(f["params"][i][2])
        ps = self.V.paths(f)
        if ps is None:
            r = None
        elif part not in self.req.get(cls, ()):
            r = False
        else:
            rs = [self.covers(p, cls, ("par", f["params"][i][0]), part) for p in ps]
            r = False if False in rs or not rs else None if None in rs else True
        self.memo[key] = r
        return r

    # ---- obligations, from the dataset down

    def demand(self, f, i, part):
        """Makes the function that takes care of a part of this parameter answer for it."""
        if (f["key"], i, id(part)) in self.obligations:
            return
        t = ("par", f["params"][i][0])
        cls = flow.base_type(f["params"][i][2])
        ps = self.V.paths(f)
        self.obligations[f["key"], i, id(part)] = None
        if ps is None or part not in self.req.get(cls, ()):
            self.obligations[f["key"], i, id(part)] = (f, i, part, None if ps is None else False, None)
            return
        verdict, bad = True, None
        for p in ps:
            r = self.local(p, cls, t, part, True)
            if r is not True and verdict is not False:
                verdict, bad = r, p
        self.obligations[f["key"], i, id(part)] = (f, i, part, verdict, bad)

    def local(self, p, cls, t, part, first):
        """Like covers(), with parts that are handed on answered for by the functions that get them."""
        if not self.possible(p.facts, part.when, t):
            return True
        got = self.receivers(p, lambda a: same(a, t))
        for f, i in got:
            if self.visits(f, i, part):
                self.demand(f, i, part)
                return True
        own = self.inside(p, t, part)
        if own is False and self.exempt(p, t):
            return True
        if own is False and got and not first:
            # nobody visits it: the first function that could
            f, i = max(got, key=lambda g: sum(self.visits(g[0], g[1], x) is True for x in self.req[cls]))
            self.demand(f, i, part)
            return True
        return own

    def inside(self, p, t, part):
        if part.name == "each":
            marks = [k for k, c in p.marks if iterates(c, t)]
            if not marks or "break" in marks:
                return False
            if "some" not in marks:
                return True
            us = self.items(p, t)
        elif part.loose:
            return self.covers_discretization(p, t, part)
        elif part.cls is None:
            return any(self.mentioned(p, lambda s: same(s, u)) for u in self.part_terms(part, t))
        else:
            us = self.part_terms(part, t)
        best = False
        for u in us:
            if part.cls not in self.req:
                r = self.mentioned(p, lambda s: same(s, u))
            elif not any(same(s, u) for e in p.events for a in e.args for s in terms(a)) and not any(same(s, u) for _, m in p.marks if m != ("loop",) for s in terms(m)):
                r = False
            else:
                rs = [self.local(p, part.cls, u, x, False) for x in self.req[part.cls]]
                r = False if False in rs else None if None in rs else True
            best = True if r else None if r is None and best is False else best
        return best


def run():
    c = Check("V01", "starting from the validation of a dataset, every path that can run while no error was found hands each existing part (each item of each collection, the tracker, the domains, the properties of every kind, their values "
              "and discretisations) to code that examines it", ["the public accessors of the data model yield the parts (M-properties)", "a loop over the names of a collection visits all of them"])
    V = Validators("hdf5", "cxx")
    c.program(V.prog)
    C = Coverage(V, requirements(V.prog))
    roots = [f for f in V.functions.values() if any(flow.base_type(t) == D + "Dataset" for _, _, t in f["params"]) and f["q"] == D + "validate"]
    if not roots:
        raise AnalysisError("no validation of a dataset found")
    for root in roots:
        i = next(i for i, (_, _, t) in enumerate(root["params"]) if flow.base_type(t) == D + "Dataset")
        for part in C.req[D + "Dataset"]:
            C.demand(root, i, part)
    for f, i, part, r, bad in C.obligations.values():
        cls = flow.base_type(f["params"][i][2])
        rule = "discretization" if part.loose else "value" if part.name.startswith("value") else "part"
        text = ""
        if bad is not None:
            facts = ", ".join(("" if v else "not ") + flow.show(a)[:90] for a, v in bad.facts.items())
            text = f"{sig(f)} does not examine {part.name} when {facts or 'nothing is known'}"
        c.ob(rule, f"{short(cls)}: {part.name}", r, where(f), text)
    c.count("validation_functions", len(V.functions))
    c.count("paths", V.paths_seen)
    return c.finish({"part": 12, "value": 3, "discretization": 6})


if __name__ == "__main__":
    raise SystemExit(run())
