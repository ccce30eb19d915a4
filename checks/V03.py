"""V03: a dataset with reported issues does not pass as valid."""
import itertools
import flow
import pyb
from check import Check, where, sig, short
from common import *
from model import H, D
from validators import Validators, ISSUES, norm

KINDS = ("error", "warning")
HANDLED = {"std::terminate", "std::abort", "std::exit"}


def has(t, pred):
    return any(isinstance(s, tuple) and s and pred(s) for s in subterms(t))


class V03:
    def __init__(self):
        self.c = Check("V03", "asserting validity throws, with all messages, exactly when errors (or, when asked, warnings) were reported: on every path of the assertion functions, of the functions that report through others, and of the collection of issues",
                       ["exceptions are derived from std::exception", "standard containers and streams keep what is put into them"])
        self.V = Validators("hdf5", "cxx", "py")
        self.prog = self.V.prog
        self.c.program(self.prog)
        self.reporters = {k for k, f in self.prog.functions.items() if not f.get("cls") and "body" in f and "/test/" not in f["file"]
                          and any(flow.base_type(t) == ISSUES and "const" not in t for _, _, t in f["params"])}

    def analysis(self, f, inline=(), describe=True):
        def opaque(q, k):
            if k == f["key"] or k in inline:
                return False
            g = self.prog.functions.get(k)
            return k in self.reporters or q.startswith(ISSUES + "::") or h5_call(q) or k in self.V.m.openers or k in self.V.m.creators or self.V.accessor(q, k) or q.startswith(H + "Issue::") and "operator" not in q \
                or (describe and self.describes(g))

        def pure(q, k):
            if k in self.reporters:
                return False
            if q.startswith(ISSUES + "::") and (self.prog.functions.get(k) or {}).get("const"):
                return True
            return q.startswith(H + "Issue::") and (self.prog.functions.get(k) or {}).get("const") or (describe and self.describes(self.prog.functions.get(k)))
        A = flow.Analysis(self.prog, opaque=opaque, pure=pure, qualify=True)
        A.class_outputs = {ISSUES}
        A.strict_catch = True
        A.streams = True
        A.max_steps = 400000
        return A

    def describes(self, g):
        """Functions that turn issues into text."""
        return g is not None and "body" in g and "basic_string" in g["ret"] and not g.get("cls") and any(flow.base_type(t) == ISSUES for _, _, t in g["params"])

    def paths(self, A, f):
        try:
            return A.run(f)
        except flow.TooComplex:
            return None

    # ------------------------------------------------------------ the collection of issues

    def collection(self):
        m = {}
        for f in self.prog.functions.values():
            if f.get("cls") == ISSUES and "body" in f:
                m.setdefault(f["q"].split("::")[-1], f)
        need = [a + b for a in ("add_",) for b in KINDS] + [k + "s_found" for k in KINDS] + [k + "s" for k in KINDS]
        if any(n not in m for n in need):
            raise AnalysisError("the collection of issues is not recognised")
        start = ("par", "issues")

        def run(f, this, args=None):
            A = flow.Analysis(self.prog, opaque=lambda q, k: q.startswith(H + "Issue::") or q.startswith(H + "Identifier::"), pure=lambda q, k: False)
            ps = A.run(f, args=args, this=this)
            return A, ps

        # which member the items of each kind are read from
        member = {}
        for k in KINDS:
            A, ps = run(m[k + "s"], start)
            vs = {A.as_value(p.st, p.value) for p in ps if p.kind == "ret"}
            member[k] = vs.pop() if len(vs) == 1 else None
        for k in KINDS:
            other = KINDS[1 - KINDS.index(k)]
            f = m["add_" + k]
            names = [n for n, _, _ in f["params"]]
            # what the collections contain after adding one to an empty one
            A, ps = run(f, start)
            ok, why = True, ""
            for p in ps:
                if p.kind != "ret":
                    ok, why = False, "does not always return"
                    continue
                after = {key: v for key, v in p.st.store.items() if key == ("m", start)}
                obj = A.read(p.st, ("lv", ("m", start), ()))

                def now(kind):
                    A2 = flow.Analysis(self.prog, opaque=lambda q, k: q.startswith(H + "Issue::"), pure=lambda q, k: False)
                    r = A2.run(m[kind + "s"], this=obj)
                    return A2.as_value(r[0].st, r[0].value)
                mine, others = now(k), now(other)
                if not has(mine, lambda s: s[0] == "mut" and s[1] in ("emplace_back", "push_back", "insert", "emplace") and has(s, lambda u: u == ("par", names[0])) and has(s, lambda u: u == ("par", names[1]))):
                    ok, why = False, f"{short(f['q'])} does not add its arguments to the {k}s"
                if others != member[other]:
                    ok, why = False, f"{short(f['q'])} changes the {other}s"
            self.c.ob("collection", f"adding an {k} adds it to the {k}s and leaves the {other}s", ok, where(f), why)
            f = m[k + "s_found"]
            ok, why = True, ""
            if member[k] is None:
                ok, why = None, "the collection is not a member"
            else:
                for count in (0, 1, 2, 3):
                    empty = count == 0
                    A = flow.Analysis(self.prog, opaque=lambda q, k: False, pure=lambda q, k: False)
                    for p in A.run(f, this=start):
                        r = A.as_value(p.st, p.value) if p.kind == "ret" else None
                        v = self.found(r, member[k], count)
                        if any(self.found(a, member[k], count) != b for a, b in p.facts.items()):
                            continue
                        if v is None:
                            ok, why = (None, show(r)[:200]) if ok else (ok, why)
                            if not has(r, lambda s: s == member[k]):
                                ok, why = False, f"{short(f['q'])} does not depend on the {k}s"
                        elif v == empty:
                            ok, why = False, f"{short(f['q'])} is {str(v).lower()} when there are {count or 'no'} {k}s"
            self.c.ob("collection", f"{k}s are found exactly when there are any", ok, where(f), why)
        # issues keep their parts
        ctor = next((f for f in self.prog.functions.values() if f.get("cls") == H + "Issue" and f.get("ctor") and len(f["params"]) == 2), None)
        if ctor is None:
            raise AnalysisError("the constructor of issues is not recognised")
        A = flow.Analysis(self.prog, opaque=lambda q, k: q.startswith(H + "Identifier::"), pure=lambda q, k: False)
        outs = A.construct(ctor["key"], H + "Issue", [("par", "id"), ("par", "message")], flow.State(), A.new_frame({"key": "new"}, ()), 0)
        for name in ("id", "message"):
            f = next((f for f in self.prog.functions.values() if f["q"] == H + "Issue::" + name and "body" in f), None)
            if f is None:
                raise AnalysisError("the members of issues are not recognised")
            ok, why = True, ""
            for st, v, x in outs:
                for p in A.run(f, this=A.as_value(st, v)):
                    r = A.as_value(p.st, p.value)
                    if not has(r, lambda s: s == ("par", name)):
                        ok, why = False, f"{short(f['q'])} returns {show(r)[:100]}"
            self.c.ob("collection", f"an issue has the {name} it was created with", ok, where(f), why)

    def found(self, t, member, count):
        """Value of a condition when the collection has that many items."""
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == "bool":
            return t[1]
        if t[0] == "not":
            v = self.found(t[1], member, count)
            return None if v is None else not v
        if t[0] == "cast":
            return self.found(t[-1], member, count)
        if t[0] == "app" and t[1].split("::")[-1] == "empty" and t[2] == (member,):
            return count == 0
        if t[0] in ("and", "or") and len(t) == 3 and isinstance(t[1], tuple):
            v = [self.found(x, member, count) for x in t[1:]]
            return None if None in v else all(v) if t[0] == "and" else any(v)
        if t[0] in ("eq", "ne", "lt", "le"):
            a, b = (self.number(x, member, count) for x in t[1:3])
            if a is not None and b is not None:
                return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b}[t[0]]
        if t[0] == "app" and t[1].split("::")[-1] == "size":
            v = self.number(t, member, count)
            return None if v is None else v != 0
        return None

    def number(self, t, member, count):
        if t[0] == "int":
            return t[1]
        if t[0] == "cast":
            return self.number(t[-1], member, count)
        if t[0] == "app" and t[1].split("::")[-1] == "size" and t[2] == (member,):
            return count
        v = self.found(t, member, count)
        return None if v is None else int(v)

    # ------------------------------------------------------------ assertions

    def assertions(self):
        fs = [f for f in self.prog.functions.values() if f["q"] == D + "assert_is_valid" and "body" in f and component(f) == "cxx"]
        if len(fs) < 2:
            raise AnalysisError("fewer than 2 functions that assert validity")
        for f in fs:
            A = self.analysis(f, inline=[g["key"] for g in fs])
            ps = self.paths(A, f)
            tag = sig(f)
            what = f["params"][0][0]
            flag = next((n for n, _, t in f["params"] if flow.base_type(t) == "bool"), None)
            if ps is None:
                self.c.ob("assertion", f"{tag} throws exactly when there are issues that count", None, where(f), "too many paths")
                continue
            ok, why = True, ""
            said, unsaid = True, ""
            for e, w, fatal in itertools.product((False, True), repeat=3):
                taken = 0
                for p in ps:
                    issues = self.validated(p, what)
                    vs = [(self.truth(a, issues, e, w, fatal, flag), b) for a, b in p.facts.items()]
                    if any(v is not None and v != b for v, b in vs):
                        continue
                    if p.kind == "abort":
                        continue
                    taken += 1
                    must = e or w and fatal
                    sure = all(v is not None or not has(a, lambda s: s == issues or s == ("par", flag)) for (v, b), a in zip(vs, p.facts)) or issues is None
                    state = f"{'errors' if e else 'no errors'}, {'warnings' if w else 'no warnings'}{', fatal' if fatal else ', not fatal'}"
                    if issues is None and p.kind == "throw":
                        continue    # what cannot be opened cannot be validated
                    if issues is None:
                        ok, why = False, f"a path of {tag} does not validate {what}"
                    elif p.kind == "ret" and must:
                        ok, why = (False if sure or ok is False else None), f"{tag} returns with {state}"
                    elif p.kind == "throw" and not must:
                        ok, why = (False if sure or ok is False else None), f"{tag} throws with {state}"
                    if p.kind == "throw" and must and issues is not None:
                        thrown = p.outcome[2]
                        if not has(thrown, lambda s: s[0] == "app" and self.describes(self.prog.functions.get(self.by_name(s[1]))) and any(norm(a) == issues for a in s[2])):
                            said, unsaid = (False if not has(thrown, lambda s: s == issues) else None), f"what {tag} throws does not describe the issues"
                if not taken:
                    ok, why = (None if ok else ok), "no path"
            self.c.ob("assertion", f"{tag} throws exactly when there are issues that count", ok, where(f), why)
            self.c.ob("assertion", f"{tag} names the issues", said, where(f), unsaid)

    def by_name(self, q):
        fs = self.prog.by_name.get(q, [])
        return fs[0]["key"] if fs else None

    def validated(self, p, what):
        """The collection of issues after validating the parameter"""
        for ev in p.events:
            if ev.key in self.reporters and ev.q.endswith("::validate"):
                g = self.prog.functions[ev.key]
                for i, (n, _, t) in enumerate(g["params"]):
                    if flow.base_type(t) == ISSUES:
                        if any(has(a, lambda s: s == ("par", what)) for j, a in enumerate(ev.args) if j != i):
                            return ("out", i, ev.res)
        return None

    def truth(self, a, issues, e, w, fatal, flag):
        k = a[0]
        if k == "bool":
            return a[1]
        if k == "par":
            return fatal if a[1] == flag else None
        if k == "not":
            v = self.truth(a[1], issues, e, w, fatal, flag)
            return None if v is None else not v
        if k == "app" and a[2] and norm(a[2][0]) == issues:
            return {"errors_found": e, "warnings_found": w}.get(a[1].split("::")[-1])
        if k == "app" and a[1].split("::")[-1] == "empty":
            n = self.amount(a[2][0], issues, e, w)
            return None if n is None else n == 0
        if k in ("eq", "lt", "le", "ne"):
            x, y = (self.size(t, issues, e, w, fatal, flag) for t in a[1:3])
            if x is not None and y is not None:
                return {"eq": x == y, "lt": x < y, "le": x <= y, "ne": x != y}[k]
        return None

    def size(self, t, issues, e, w, fatal, flag):
        if t[0] == "int":
            return t[1]
        if t[0] == "app" and t[1].split("::")[-1] == "size":
            return self.amount(t[2][0], issues, e, w)
        if t[0] == "op" and t[1] == "+":
            v = [self.size(x, issues, e, w, fatal, flag) for x in t[2]]
            return None if None in v else sum(v)
        v = self.truth(t, issues, e, w, fatal, flag)
        return None if v is None else int(v)

    def amount(self, t, issues, e, w):
        t = norm(t)
        if t[0] == "app" and t[2] and norm(t[2][0]) == issues:
            return {"errors": int(e), "warnings": int(w)}.get(t[1].split("::")[-1])
        return None

    # ------------------------------------------------------------ descriptions

    def descriptions(self):
        fs = [f for f in self.prog.functions.values() if self.describes(f) and component(f) == "cxx"]
        if not fs:
            raise AnalysisError("no function describes issues")
        for f in fs:
            par = next(n for n, _, t in f["params"] if flow.base_type(t) == ISSUES)
            A = self.analysis(f, describe=False)
            ps = self.paths(A, f)
            for k in KINDS:
                tag = f"{sig(f)} includes the message of each {k}"
                if ps is None:
                    self.c.ob("description", tag, None, where(f), "too many paths")
                    continue
                items = lambda t: norm(t)[0] == "app" and norm(t)[1] == ISSUES + "::" + k + "s" and norm(t)[2] == (("par", par),)
                item = lambda s: s[0] == "elem" and items(s[1]) or s[0] in ("at", "deref") and has(s, items)
                loops = lambda m: items(m[1]) or has(m[1], lambda s: items(s)) and not has(m[1], item)
                other = lambda m: not loops(m) and has(m[1], lambda s: s[0] == "app" and s[1].startswith(ISSUES + "::") and s[1].split("::")[-1] in (x + "s" for x in KINDS)) and not has(m[1], lambda s: s[0] == "elem")
                seen = feasible = 0
                ok, why = True, ""
                # the objects that are written are collected from the issues of both kinds
                named = lambda t: has(t, lambda s: s[0] == "mut" and s[1] in ("push_back", "emplace_back") and has(s[2][1:], lambda u: u[0] == "app" and u[1] == H + "Issue::id" and has(u, item)))
                collected = lambda p: [m[1] for m in p.marks if m[0] == "some" and not loops(m) and not other(m) and not has(m[1], lambda s: s[0] == "at")]
                rets = [p for p in ps if p.kind == "ret"]
                if any(named(t) for p in rets for t in collected(p)):
                    for p in rets:
                        if not all(any(m[0] == "some" and x(m) for m in p.marks) for x in (loops, other)) or any(m[0] != "some" and (loops(m) or other(m)) for m in p.marks):
                            continue
                        if any(b and a[0] == "app" and a[1].split("::")[-1] in ("contains", "empty", "count") or self.zero(a, b) for a, b in p.facts.items()):
                            continue
                        if any(not named(t) for t in collected(p)[:1]):
                            ok, why = False, f"a path of {sig(f)} leaves out objects that only have {k}s, when there are others"
                for p in ps:
                    if p.kind != "ret" or not any(m[0] == "some" and loops(m) for m in p.marks):
                        continue
                    seen += 1
                    if any(b and a[0] == "app" and a[1].split("::")[-1] == "contains" for a, b in p.facts.items()):
                        continue    # the first issue of an object
                    if any(m[0] != "some" and not other(m) for m in p.marks) or any(m[0] == "some" and other(m) for m in p.marks):
                        continue
                    # what is written is written for this item
                    if any(not loops(m) and not other(m) and not has(m[1], item) for m in p.marks):
                        continue
                    feasible += 1
                    v = A.as_value(p.st, p.value)
                    if not has(v, lambda s: s[0] == "app" and s[1] == H + "Issue::message" and any(item(norm(a)) or has(a, item) for a in s[2])):
                        ok, why = False, f"a path of {sig(f)} leaves out the message of an item of {k}s"
                if not feasible and ok:
                    looks = any(self.mentions(a, items) for p in ps for a in list(p.facts) + [m[1] for m in p.marks] + [A.as_value(p.st, p.value) if p.kind == "ret" else ()])
                    ok, why = (False, f"nothing that {sig(f)} writes is about an item of {k}s") if seen or not looks else (None, "it does not loop over them")
                self.c.ob("description", tag, ok, where(f), why)

    def zero(self, a, b):
        """Whether a fact says that a number is zero."""
        return a[0] == "eq" and b and ("int", 0) in a[1:]

    def mentions(self, t, items):
        """Whether a term is about the items of a collection, other than how many there are."""
        if not isinstance(t, tuple) or not t:
            return False
        if t[0] == "app" and t[1].split("::")[-1] in ("size", "empty"):
            return False
        if isinstance(t[0], str) and items(t):
            return True
        return any(self.mentions(x, items) for x in t)

    # ------------------------------------------------------------ reporting

    def reporting(self):
        """What a function reports through another one, and exceptions, end up in the issues it was given."""
        n = 0
        for k in sorted(self.reporters):
            f = self.prog.functions[k]
            par = next(x for x, _, t in f["params"] if flow.base_type(t) == ISSUES and "const" not in t)
            by_value = any(flow.base_type(t) == ISSUES and "&" not in t for _, _, t in f["params"])
            A = self.analysis(f)
            A.fork_exceptions = True
            ps = self.paths(A, f)
            n += 1
            if ps is None:
                self.c.ob("reporting", f"{sig(f)} reports to its caller", None, where(f), "too many paths")
                continue
            ok, why = (False, f"{sig(f)} reports to a copy") if by_value else (True, "")
            caught = 0
            for p in ps:
                for e in p.events:
                    g = self.prog.functions.get(e.key) or {}
                    if e.q.startswith(ISSUES + "::") and not g.get("const") and not g.get("ctor"):
                        if not self.mine(e.args[0], par):
                            ok, why = False, f"{sig(f)}:{e.line} adds an issue to other issues than its own"
                    if e.key in self.reporters:
                        for i, (_, _, t) in enumerate(g["params"]):
                            if flow.base_type(t) == ISSUES and not self.mine(e.args[i], par):
                                ok, why = False, f"{sig(f)}: issues that {short(e.q)} reports are not reported to its caller"
                if any(isinstance(x, tuple) and len(x) == 2 and x[0] == "caught" for x in p.st.store):
                    caught += 1
                    if p.kind == "ret" and not any(e.q == ISSUES + "::add_error" and self.mine(e.args[0], par) and has(e.args, lambda s: s[0] in ("caught", "thrown_by")) for e in p.events):
                        if not any(e.q == ISSUES + "::add_error" and self.mine(e.args[0], par) for e in p.events):
                            ok, why = False, f"{sig(f)} handles an exception without reporting an error"
                if p.kind == "ret":
                    end = A.read(p.st, ("lv", ("m", ("par", par)), ()))
                    for e in p.events:
                        if e.key in self.reporters and not has(end, lambda s: s[0] == "out" and s[2] == e.res) or e.q == ISSUES + "::add_error" and not has(end, lambda s: s[0] == "mut" and s[2] == e.args):
                            ok, why = False, f"{sig(f)}:{e.line}: what {short(e.q)} reports is not in the issues of its caller"
                    if not self.mine(end, par):
                        ok, why = False, f"{sig(f)} replaces the issues reported so far"
            self.c.ob("reporting", f"{sig(f)} reports to its caller", ok, where(f), why)
        self.c.count("functions_that_report", n)

    def mine(self, t, par):
        t = norm(t)
        while t[0] in ("out", "mut", "upd", "phi"):
            if t[0] == "out":
                t = norm(t[2][2][t[1]]) if t[2][0] == "app" and t[1] < len(t[2][2]) else ("?",)
            elif t[0] == "mut":
                t = norm(t[2][0])
            else:
                t = norm(t[1])
        return t == ("par", par)

    def entry(self):
        """Validating a file or its name validates the dataset in it."""
        fs = [f for f in self.prog.functions.values() if f["q"] == D + "validate" and "body" in f and component(f) == "cxx"
              and flow.base_type(f["params"][0][2]) in (H + "File",) or f["q"] == D + "validate" and "body" in f and "basic_string" in f["params"][0][2]]
        if len(fs) < 2:
            raise AnalysisError("validation of a file is not recognised")
        for f in fs:
            A = self.analysis(f, inline=[g["key"] for g in fs])
            ps = self.paths(A, f)
            par = f["params"][0][0]
            ok, why = True, ""
            n = 0
            may, caught = {}, set()
            for p in ps or ():
                handled = any(isinstance(x, tuple) and len(x) == 2 and x[0] == "caught" for x in p.st.store)
                hit = [e for e in p.events if e.key in self.reporters and e.q == D + "validate" and flow.base_type(self.prog.functions[e.key]["params"][0][2]) == D + "Dataset" and has(e.args[0], lambda s: s == ("par", par))]
                for e in p.events:
                    if e in hit or e.q.startswith(D + "Dataset::"):
                        may[e.q] = e.line
                caught |= {s[1] for v in p.st.store.values() for s in subterms(v) if len(s) == 2 and s[0] == "thrown_by"}
                if p.kind == "throw" and any(e in hit or e.q.startswith(D + "Dataset::") for e in p.events):
                    ok, why = False, f"an exception while validating leaves {sig(f)}"
                elif p.kind == "ret" and not handled:
                    n += 1
                    if not hit:
                        ok, why = False, f"a path of {sig(f)} does not validate the dataset"
            for q, line in may.items():
                if q not in caught:
                    ok, why = False, f"an exception thrown by {short(q)} leaves {sig(f)}"
            if ps is None or not n and ok:
                ok, why = None, "no path"
            self.c.ob("reporting", f"{sig(f)} validates the dataset and reports exceptions", ok, where(f), why)

    # ------------------------------------------------------------ Python

    def python(self):
        n = 0
        for b in pyb.bindings(self.prog):
            cls, name = pyb.bound_class(b), b["name"]
            if cls == ISSUES and name in ("errors_found", "warnings_found", "errors", "warnings"):
                n += 1
                ok, why = False, f"{name} is bound to something else"
                for kind, key, node in b["fns"][:1]:
                    f = self.prog.functions.get(key)
                    if kind == "fn":
                        ok = f is not None and f["q"] == ISSUES + "::" + name
                        why = why if not ok else ""
                    else:
                        ok, why = None, "a lambda"
                        g = self.prog.functions.get(key)
                        if g is not None:
                            A = self.analysis(g)
                            vs = [A.as_value(p.st, p.value) for p in A.run(g) if p.kind == "ret"]
                            ok = all(has(v, lambda s: s[0] == "app" and s[1] == ISSUES + "::" + name) for v in vs) and bool(vs)
                            why = "" if ok else f"{name} is bound to something else"
                self.c.ob("python", f"Issues.{name}", ok, where(b["fn"], b["line"]), why)
            if cls == "module" and name == "validate" and b["fns"] and b["fns"][0][0] == "lambda":
                g = self.prog.functions.get(b["fns"][0][1])
                if g is None:
                    continue
                n += 1
                A = self.analysis(g)
                ok, why = True, ""
                for p in A.run(g):
                    if p.kind == "ret":
                        issues = self.validated(p, g["params"][0][0])
                        if issues is None or norm(A.as_value(p.st, p.value)) != issues:
                            ok, why = False, "validate does not return the issues found"
                self.c.ob("python", "validate returns the issues found", ok, where(b["fn"], b["line"]), why)
        if n < 3:
            raise AnalysisError("bindings of issues are not recognised")


def run():
    v = V03()
    v.collection()
    v.assertions()
    v.descriptions()
    v.reporting()
    v.entry()
    v.python()
    return v.c.finish({"collection": 3, "assertion": 3, "description": 1, "reporting": 20, "python": 2})


if __name__ == "__main__":
    raise SystemExit(run())
