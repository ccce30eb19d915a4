"""Path analysis of small Python packages: symbolic values, branches both ways, loops over known lists item by item and over anything else once with the item unknown, functions and methods of the
package inlined. Nothing is executed."""
import ast
import os
import string

LIMIT = 600
COPIES = {"list", "tuple", "sorted", "str", "int"}
CONTINUE = "next"


class Undecided(Exception):
    pass


class State:
    __slots__ = ("env", "events", "facts")

    def __init__(self, env, events=(), facts=()):
        self.env, self.events, self.facts = env, events, facts

    def bind(self, name, v):
        return State({**self.env, name: v}, self.events, self.facts)

    def add(self, e):
        return State(self.env, self.events + (e,), self.facts)

    def note(self, test, v):
        return State(self.env, self.events, self.facts + ((test, v),))


def const(v):
    return ("const", v)


def cat(parts):
    out = []
    for p in parts:
        for x in (p[1] if p[0] == "cat" else (p,)):
            if x[0] == "const":
                x = const(str(x[1]))
                if out and out[-1][0] == "const":
                    out[-1] = const(out[-1][1] + x[1])
                    continue
            out.append(x)
    out = [x for x in out if x != const("")]
    if not out:
        return const("")
    return out[0] if len(out) == 1 and out[0][0] == "const" else ("cat", tuple(out))


def truth(v):
    if v[0] == "const":
        return bool(v[1])
    if v[0] in ("list", "tuple"):
        return bool(v[1])
    if v[0] == "cat":
        return True if any(x[0] == "const" for x in v[1]) else None
    return None


class Package:
    """status: what calls of external commands may answer (None: they are unknown calls)"""

    def __init__(self, root, status=None):
        self.root, self.status = root, status
        self.trees, self.functions, self.classes, self.names = {}, {}, {}, {}
        for d, _, fs in os.walk(root):
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    mod = tuple(os.path.relpath(p, root)[:-3].split(os.sep))
                    self.load(mod[:-1] if mod[-1] == "__init__" else mod, p, mod[-1] == "__init__")
        self.depth = 0
        self.steps = 0
        self.base = ()
        self.active = []
        self.closures = {}
        self.known = lambda v: None         # what is known about a value otherwise

    def load(self, mod, path, package):
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        names = self.names.setdefault(mod, {})
        self.trees[mod] = tree
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.level:
                base = mod[:len(mod) - n.level + (1 if package else 0)] + tuple((n.module or "").split(".") if n.module else ())
                for a in n.names:
                    names[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    names[a.asname or a.name.split(".")[0]] = ("name", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    names[a.asname or a.name] = ("name", f"{n.module}.{a.name}")
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                self.functions[mod + (n.name,)] = (mod, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[mod + (n.name,)] = {x.name: (mod, x) for x in n.body if isinstance(x, ast.FunctionDef)}
                for x in n.body:
                    if isinstance(x, ast.FunctionDef):
                        self.functions[mod + (n.name, x.name)] = (mod, x)

    # -------------------------------------------------------- names

    def lookup(self, mod, name):
        if mod + (name,) in self.functions:
            return ("fn", mod + (name,))
        if mod + (name,) in self.classes:
            return ("cls", mod + (name,))
        n = self.names.get(mod, {}).get(name)
        if n and n[0] == "import":
            return self.member(n[1], n[2], mod)
        return n or ("name", name)

    def member(self, base, name, mod=None):
        if base + (name,) in self.trees:
            return ("mod", base + (name,))
        if base + (name,) in self.functions:
            return ("fn", base + (name,))
        if base + (name,) in self.classes:
            return ("cls", base + (name,))
        n = self.names.get(base, {}).get(name)
        if n:
            return self.member(n[1], n[2]) if n[0] == "import" else n
        for k, v in self.names.get(base, {}).items():      # from .x import *
            if k == "*" and v[0] == "import":
                return self.member(v[1], name)
        return ("name", ".".join(base + (name,)))

    def method(self, mod, name):
        """A method of that name of the classes next to the module, or in the packages around it."""
        for n in range(len(mod), -1, -1):
            found = [f for c, ms in sorted(self.classes.items()) if c[:-2] == mod[:n] and name in ms for f in [c + (name,)]]
            if len(found) == 1:
                return found[0]
            if found:
                return None
        return None

    # -------------------------------------------------------- functions

    def call(self, key, args, kwargs, st):
        """[(kind, value, state)] of a function of the package"""
        mod, f = self.functions[key]
        return self.enter(key, mod, f, {}, args, kwargs, st)

    def enter(self, key, mod, f, env, args, kwargs, st):
        env = dict(env)
        a = f.args
        params = [p.arg for p in a.posonlyargs + a.args]
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            env.pop(p.arg, None)
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        if len(args) > len(params) or a.vararg or a.kwarg:
            raise Undecided(f"arguments of {f.name}")
        env.update(zip(params, args))
        env.update(kwargs)
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p not in env:
                d = defaults.get(p) or dict(zip([k.arg for k in a.kwonlyargs], a.kw_defaults)).get(p)
                env[p] = self.expr(mod, d, State({}))[0][0] if d is not None else ("par", p)
        if self.depth > 12:
            raise Undecided("recursion")
        self.depth += 1
        self.active.append(key)
        try:
            outs = self.block(mod, f.body, State(env, st.events, st.facts))
        finally:
            self.depth -= 1
            self.active.pop()
        res = [("raise" if k == "raise" else "ret", v if k in ("ret", "raise") else const(None), State(st.env, s.events, s.facts)) for k, v, s in outs]
        good = [r for r in res if r[0] == "ret"]
        if len(res) > 1 and len(good) > 1 and all(r[2].events == st.events for r in res):
            vals = []
            for r in good:
                if r[1] not in vals:
                    vals.append(r[1])
            v = vals[0] if len(vals) == 1 else ("call", ("fn", key), tuple(args), tuple(sorted(kwargs.items())))
            return [("ret", v, st)]
        return res

    def root_paths(self, key):
        self.steps, self.base = 0, key[:-1]
        return self.call(key, [], {}, State({}))

    # -------------------------------------------------------- statements

    def block(self, mod, body, st):
        live, out = [(CONTINUE, None, st)], []
        for s in body:
            nxt = []
            for _, _, x in live:
                for o in self.stmt(mod, s, x):
                    (nxt if o[0] == CONTINUE else out).append(o)
            live = nxt
            self.steps += len(live)
            if len(live) + len(out) > LIMIT or self.steps > 60000:
                raise Undecided("too many paths")
        return out + live

    def evals(self, mod, e, st, then):
        return [o for v, s in self.expr(mod, e, st) for o in ([("raise", v[1], s)] if v[0] == "raised" else then(v, s))]

    def assign(self, mod, t, v, st):
        if isinstance(t, ast.Name):
            return st.bind(t.id, v)
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                st = self.assign(mod, x, self.item(v, const(i)), st)
            return st
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            return st.bind(f"{t.value.id}.{t.attr}", v)
        return st

    def item(self, v, i):
        k = self.known(("item", v, i))
        if k is not None:
            return k
        if v[0] in ("list", "tuple") and i[0] == "const" and isinstance(i[1], int) and -len(v[1]) <= i[1] < len(v[1]):
            return v[1][i[1]]
        if v[0] == "dict":
            return dict(v[1]).get(i, ("item", v, i))
        return ("item", v, i)

    def stmt(self, mod, s, st):
        go = lambda x: [(CONTINUE, None, x)]
        if isinstance(s, ast.Expr):
            return self.evals(mod, s.value, st, lambda v, x: go(x))
        if isinstance(s, ast.Assign):
            def put(v, x):
                outs = [x]
                for t in s.targets:
                    if isinstance(t, ast.Subscript):
                        outs = [z.add(("store", b, v, s.lineno)) for y in outs for b, z in self.expr(mod, t.value, y) if b[0] != "raised"]
                    else:
                        outs = [self.assign(mod, t, v, y) for y in outs]
                return [o for y in outs for o in go(y)]
            return self.evals(mod, s.value, st, put)
        if isinstance(s, ast.AnnAssign):
            return self.evals(mod, s.value, st, lambda v, x: go(self.assign(mod, s.target, v, x))) if s.value else go(st)
        if isinstance(s, ast.AugAssign):
            return self.evals(mod, ast.BinOp(_load(s.target), s.op, s.value), st, lambda v, x: go(self.assign(mod, s.target, v, x)))
        if isinstance(s, ast.Return):
            return [("ret", const(None), st)] if s.value is None else self.evals(mod, s.value, st, lambda v, x: [("ret", v, x)])
        if isinstance(s, ast.Raise):
            return [("raise", ("name", "re-raise"), st)] if s.exc is None else self.evals(mod, s.exc, st, lambda v, x: [("raise", v, x)])
        if isinstance(s, ast.Assert):
            return self.evals(mod, s.test, st, lambda v, x: [("raise", ("name", "AssertionError"), x)] if truth(v) is False else go(x))
        if isinstance(s, ast.If):
            return self.branch(mod, s.test, st, lambda x: self.block(mod, s.body, x), lambda x: self.block(mod, s.orelse, x))
        if isinstance(s, (ast.For,)):
            return self.evals(mod, s.iter, st, lambda v, x: self.loop(mod, s, v, x))
        if isinstance(s, ast.While):
            st = self.forget(s.body, st)
            return self.branch(mod, s.test, st, lambda x: self.passes(self.block(mod, s.body, x)), go)
        if isinstance(s, ast.With):
            live = [(CONTINUE, None, st)]
            for i in s.items:
                nxt = []
                for k, v0, x in live:
                    nxt += [(k, v0, x)] if k != CONTINUE else self.evals(mod, i.context_expr, x, lambda v, y: go(self.assign(mod, i.optional_vars, v, y) if i.optional_vars else y))
                live = nxt
            return [o for k, v, x in live for o in (self.block(mod, s.body, x) if k == CONTINUE else [(k, v, x)])]
        if isinstance(s, ast.Try):
            out = []
            for k, v, x in self.block(mod, s.body, st):
                if k == "raise" and s.handlers:
                    took = False
                    for h in s.handlers:
                        kinds = [_last(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type else ["BaseException"]
                        raised = _name(v)
                        if set(kinds) & {"Exception", "BaseException", raised} or raised == "FileNotFoundError" and "OSError" in kinds or raised == "CalledProcessError" and "SubprocessError" in kinds:
                            out += [(k2, v2, x2) if k2 != CONTINUE else (CONTINUE, None, x2) for k2, v2, x2 in self.block(mod, h.body, x.bind(h.name, v) if h.name else x)]
                            took = True
                            break
                    if not took:
                        out.append((k, v, x))
                elif k == CONTINUE:
                    out += self.block(mod, s.orelse, x)
                else:
                    out.append((k, v, x))
            if s.finalbody:
                out = [(k2, v2, x2) if k2 != CONTINUE else (k, v, x2) for k, v, x in out for k2, v2, x2 in self.block(mod, s.finalbody, x)]
            return out
        if isinstance(s, (ast.Break, ast.Continue)):
            return [("break" if isinstance(s, ast.Break) else "cont", None, st)]
        if isinstance(s, ast.FunctionDef):
            self.closures[s.name, s.lineno] = (mod, s, st.env)
            return go(st.bind(s.name, ("closure", s.name, s.lineno)))
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Delete)):
            return go(st)
        raise Undecided(type(s).__name__)

    def passes(self, outs):
        return [(CONTINUE, None, x) if k in ("break", "cont") else (k, v, x) for k, v, x in outs]

    def loop(self, mod, s, v, st):
        items = list(v[1]) if v[0] in ("list", "tuple") else None
        if items is None:
            n = _strip(v)
            st = self.forget(s.body, st)
            if n[0] == "call" and n[1] == ("name", "enumerate"):
                each = ("tuple", (("index",), ("each", _strip(n[2][0]))))
            elif n[0] == "call" and n[1] == ("name", "zip"):
                each = ("tuple", tuple(("each", _strip(a)) for a in n[2]))
            else:
                each = self.each(n)
            items = [each]
        live, out = [(CONTINUE, None, st)], []
        for it in items:
            nxt = []
            for _, _, x in live:
                for k, w, y in self.block(mod, s.body, self.assign(mod, s.target, it, x)):
                    if k in (CONTINUE, "cont"):
                        nxt.append((CONTINUE, None, y))
                    elif k == "break":
                        out.append((CONTINUE, None, y))
                    else:
                        out.append((k, w, y))
            live = nxt
        return out + [o for _, _, x in live for o in self.block(mod, s.orelse, x)]

    def each(self, v):
        """An element of something that is iterated over"""
        v = _strip(v)
        if v[0] == "map":
            return v[1]
        if v[0] == "call" and v[1] in (("name", "itertools.product"),) and not v[3]:
            return ("tuple", tuple(self.each(a) for a in v[2]))
        return ("each", v)

    def forget(self, body, st):
        """Numbers that a loop changes have no known value in it."""
        names = {n.target.id for s in body for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        names |= {t.id for s in body for n in ast.walk(s) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        for n in names:
            v = st.env.get(n)
            if v is not None and (v[0] == "const" and isinstance(v[1], (int, float)) or v[0] == "bin"):
                st = st.bind(n, ("any", n))
        return st

    def branch(self, mod, test, st, yes, no):
        def on(v, x):
            t = truth(v)
            if t is None:
                neg = v[0] == "not"
                key = v[1] if neg else v
                known = [b for k, b in x.facts if k == key]
                if known:
                    t = known[-1] != neg
                else:
                    return yes(x.note(key, not neg)) + no(x.note(key, neg))
            return yes(x) if t else no(x)
        return self.evals(mod, test, st, on)

    # -------------------------------------------------------- expressions

    def many(self, mod, es, st):
        outs = [((), st)]
        for e in es:
            nxt = []
            for vs, x in outs:
                if vs and vs[-1][0] == "raised":
                    nxt.append((vs, x))
                else:
                    nxt += [(vs + (v,), y) for v, y in self.expr(mod, e, x)]
            outs = nxt
        return outs

    def expr(self, mod, e, st):
        """[(value, state)]; a value ("raised", what) tells that evaluation raises"""
        if isinstance(e, ast.Constant):
            return [(const(e.value), st)]
        if isinstance(e, ast.Name):
            return [(st.env[e.id] if e.id in st.env else self.lookup(mod, e.id), st)]
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and f"{e.value.id}.{e.attr}" in st.env:
                return [(st.env[f"{e.value.id}.{e.attr}"], st)]
            return [(v if v[0] == "raised" else self.attr(v, e.attr), x) for v, x in self.expr(mod, e.value, st)]
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            kind = "tuple" if isinstance(e, ast.Tuple) else "list"
            return [(self.up(vs) or (kind, vs), x) for vs, x in self.many(mod, e.elts, st)]
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys):
                raise Undecided("**")
            n = len(e.keys)
            return [(self.up(vs) or ("dict", tuple(zip(vs[:n], vs[n:]))), x) for vs, x in self.many(mod, e.keys + e.values, st)]
        if isinstance(e, ast.JoinedStr):
            return [(self.up(vs) or cat(vs), x) for vs, x in self.many(mod, e.values, st)]
        if isinstance(e, ast.FormattedValue):
            return [(v if v[0] in ("const", "cat") else ("cat", (v,)), x) for v, x in self.expr(mod, e.value, st)]
        if isinstance(e, ast.BinOp):
            return [(self.up(vs) or self.binop(type(e.op).__name__, *vs), x) for vs, x in self.many(mod, [e.left, e.right], st)]
        if isinstance(e, ast.UnaryOp):
            def un(v):
                if isinstance(e.op, ast.Not):
                    t = truth(v)
                    return const(not t) if t is not None else v[1] if v[0] == "not" else ("not", v)
                if isinstance(e.op, ast.USub) and v[0] == "const":
                    return const(-v[1])
                return ("un", type(e.op).__name__, v)
            return [(v if v[0] == "raised" else un(v), x) for v, x in self.expr(mod, e.operand, st)]
        if isinstance(e, ast.Compare):
            return [(self.up(vs) or self.compare([type(o).__name__ for o in e.ops], vs), x) for vs, x in self.many(mod, [e.left] + e.comparators, st)]
        if isinstance(e, ast.BoolOp):
            return self.boolop(mod, e.values, isinstance(e.op, ast.And), st)
        if isinstance(e, ast.IfExp):
            out = []
            for t, x in self.expr(mod, e.test, st):
                b = truth(t)
                if t[0] == "raised":
                    out.append((t, x))
                elif b is not None:
                    out += self.expr(mod, e.body if b else e.orelse, x)
                else:
                    out += [(self.up(vs) or ("if", t) + vs, y) for vs, y in self.many(mod, [e.body, e.orelse], x)]
            return out
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return [(v if v[0] == "raised" else ("slice", v, ast.dump(e.slice)), x) for v, x in self.expr(mod, e.value, st)]
            return [(self.up(vs) or self.item(*vs), x) for vs, x in self.many(mod, [e.value, e.slice], st)]
        if isinstance(e, ast.Call):
            return self.calls(mod, e, st)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and not any(g.ifs for g in e.generators):
            return [(v, State(st.env, x.events, x.facts)) for v, x in self.comprehension(mod, e.elt, e.generators, st)]
        return [(("opaque", ast.dump(e)), st)]

    def comprehension(self, mod, elt, gens, st):
        """A list if everything that is iterated over is known, a map otherwise"""
        if not gens:
            return [(v if v[0] == "raised" else ("list", (v,)), x) for v, x in self.expr(mod, elt, st)]
        g, out = gens[0], []
        for v, x in self.expr(mod, g.iter, st):
            if v[0] in ("list", "tuple"):
                live = [((), (), x)]
                for it in v[1]:
                    nxt = []
                    for vs, over, y in live:
                        for w, z in self.comprehension(mod, elt, gens[1:], self.assign(mod, g.target, it, y)):
                            nxt.append((vs + (w[1] if w[0] == "list" else (w,)), over, State(x.env, z.events, z.facts)))
                    live = nxt
                out += [(self.up(vs) or ("list", vs), y) for vs, _, y in live]
            else:
                for w, z in self.comprehension(mod, elt, gens[1:], self.assign(mod, g.target, self.each(v), x)):
                    z = State(x.env, z.events, z.facts)
                    out.append((w if w[0] == "raised" else ("map", w[1][0] if w[0] == "list" and len(w[1]) == 1 else w[1] if w[0] == "map" else w, _strip(v)), z))
        return out

    def up(self, vs):
        return vs[-1] if vs and vs[-1][0] == "raised" else None

    def attr(self, v, name):
        if v[0] == "mod":
            return self.member(v[1], name)
        if v[0] == "name":
            return ("name", f"{v[1]}.{name}")
        if v[0] == "process" and name == "returncode":
            return v[1]
        return ("attr", v, name)

    def boolop(self, mod, es, conj, st):
        out = []
        for v, x in self.expr(mod, es[0], st):
            t = truth(v)
            if v[0] == "raised" or len(es) == 1 or t is not None and t != conj:
                out.append((v, x))
            elif t is not None:
                out += self.boolop(mod, es[1:], conj, x)
            else:
                out += [(w if w[0] == "raised" else ("and" if conj else "or", v, w), y) for w, y in self.boolop(mod, es[1:], conj, x)]
        return out

    def binop(self, op, a, b):
        if op == "Add":
            if a[0] == "list" and b[0] == "list":
                return ("list", a[1] + b[1])
            if a[0] in ("cat", "const") and b[0] in ("cat", "const") and (a[0] == "cat" or isinstance(a[1], str)):
                return cat([a, b])
            if a[0] in ("cat",) or a[0] == "const" and isinstance(a[1], str) or b[0] == "cat" or b[0] == "const" and isinstance(b[1], str):
                return cat([a, b])
        if a[0] == b[0] == "const" and op in ("Add", "Sub", "Mult", "BitOr", "BitAnd"):
            try:
                return const({"Add": lambda: a[1] + b[1], "Sub": lambda: a[1] - b[1], "Mult": lambda: a[1] * b[1], "BitOr": lambda: a[1] | b[1], "BitAnd": lambda: a[1] & b[1]}[op]())
            except TypeError:
                pass
        return ("bin", op, a, b)

    def compare(self, ops, vs):
        if len(ops) > 1:
            return ("cmp", tuple(ops), vs)
        op, (a, b) = ops[0], vs
        if a[0] == b[0] == "const":
            f = {"Eq": lambda: a[1] == b[1], "NotEq": lambda: a[1] != b[1], "Lt": lambda: a[1] < b[1], "LtE": lambda: a[1] <= b[1], "Gt": lambda: a[1] > b[1], "GtE": lambda: a[1] >= b[1],
                 "Is": lambda: a[1] is b[1] or a[1] == b[1], "IsNot": lambda: a[1] is not b[1] and a[1] != b[1]}.get(op)
            try:
                if f:
                    return const(f())
            except TypeError:
                pass
        if b == const(None) and op in ("Is", "IsNot", "Eq", "NotEq") and a[0] in ("call", "cat", "list", "tuple", "dict", "each", "name"):
            return const(op in ("IsNot", "NotEq"))
        if op in ("In", "NotIn") and a[0] == "const" and b[0] in ("list", "tuple") and all(x[0] == "const" for x in b[1]):
            return const((a in b[1]) == (op == "In"))
        if op in ("NotEq", "IsNot", "NotIn"):
            return ("not", ("cmp", ({"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[op],), vs))
        return ("cmp", tuple(ops), vs)

    # -------------------------------------------------------- calls

    def calls(self, mod, e, st):
        out = []
        if any(k.arg is None for k in e.keywords) or any(isinstance(a, ast.Starred) for a in e.args):
            starred = True
        else:
            starred = False
        exprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        if isinstance(e.func, ast.Attribute):
            recv = e.func.value
            for vs, x in self.many(mod, [recv] + exprs, st):
                if self.up(vs):
                    out.append((self.up(vs), x))
                    continue
                if isinstance(recv, ast.Name) and f"{recv.id}.{e.func.attr}" in x.env:
                    f = x.env[f"{recv.id}.{e.func.attr}"]
                else:
                    f = self.attr(vs[0], e.func.attr)
                out += self.apply(mod, e, f, vs[0], vs[1:1 + len(e.args)], {k.arg: v for k, v in zip(e.keywords and [k for k in e.keywords], vs[1 + len(e.args):])}, x, recv, starred)
            return out
        for vs, x in self.many(mod, [e.func] + exprs, st):
            if self.up(vs):
                out.append((self.up(vs), x))
            else:
                out += self.apply(mod, e, vs[0], None, vs[1:1 + len(e.args)], {k.arg: v for k, v in zip(e.keywords, vs[1 + len(e.args):])}, x, None, starred)
        return out

    def apply(self, mod, e, f, recv, args, kwargs, st, target, starred):
        name = f[2] if f[0] == "attr" else f[1] if f[0] == "name" else None
        if f[0] == "fn" and not starred and f[1] not in self.active:
            return [(("raised", v) if k == "raise" else v, x) for k, v, x in self.call(f[1], args, kwargs, st)]
        if f[0] == "closure" and f not in self.active and not starred:
            m, node, env = self.closures[f[1:]]
            return [(("raised", v) if k == "raise" else v, x) for k, v, x in self.enter(f, m, node, {**env, **(st.env if st.env.get(f[1]) == f else {})}, args, kwargs, st)]
        if f[0] == "attr" and recv is not None and not starred:
            special = self.method_of_value(recv, name, args, kwargs, st, target)
            if special is not None:
                return special
            k = self.method(mod, name) or self.method(self.base, name)
            if k and k not in self.active:
                return [(("raised", v) if kk == "raise" else v, x) for kk, v, x in self.call(k, (recv,) + args, kwargs, st)]
        if f[0] == "name" and self.status is not None:
            s = self.external(e, name, kwargs, st)
            if s is not None:
                return s
        if name in ("sys.exit", "exit", "os._exit"):
            code = args[0] if args else const(0)
            return [(("raised", ("call", f, args, ())), st)] if truth(code) is not False else [(("raised", ("name", "success")), st)]
        if f[0] == "name" and name in COPIES and len(args) == 1 and not kwargs:
            v = args[0]
            return [(v if name in ("list", "tuple", "sorted") and v[0] in ("list", "tuple") or name == "int" and v[0] == "const" else cat([v]) if name == "str" and v[0] in ("const", "cat") else ("call", f, args, ()), st)]
        v = ("call", f, tuple(args), tuple(sorted((str(k), w) for k, w in kwargs.items())))
        return [(v, st.add(("call", f, tuple(args), tuple(sorted((str(k), w) for k, w in kwargs.items())), e.lineno)))]

    def method_of_value(self, recv, name, args, kwargs, st, target):
        back = lambda v: [(const(None), self.assign(None, target, v, st) if isinstance(target, (ast.Name, ast.Attribute)) else st)]
        if recv[0] == "list":
            if name == "append" and len(args) == 1:
                return back(("list", recv[1] + (args[0],)))
            if name == "extend" and len(args) == 1 and args[0][0] in ("list", "tuple"):
                return back(("list", recv[1] + args[0][1]))
            if name == "sort":
                return back(recv)
            if name == "insert" and len(args) == 2 and args[0] == const(0):
                return back(("list", (args[1],) + recv[1]))
        if name == "join" and len(args) == 1 and recv[0] == "const":
            if args[0][0] in ("list", "tuple"):
                parts = []
                for i, x in enumerate(args[0][1]):
                    parts += ([recv] if i else []) + [x if x[0] in ("const", "cat") else ("cat", (x,))]
                return [(cat(parts), st)]
            return [(("join", recv, _strip(args[0])), st)]
        if name == "format" and (recv[0] == "const" and isinstance(recv[1], str) or recv[0] == "cat"):
            parts, auto, pieces = [], 0, []
            for x in recv[1] if recv[0] == "cat" else (recv,):
                if x[0] == "const":
                    pieces += list(string.Formatter().parse(x[1]))
                else:
                    pieces.append((x, None, None, None))
            for text, field, spec, conv in pieces:
                if isinstance(text, tuple):
                    parts.append(("cat", (text,)))
                    continue
                parts.append(const(text))
                if field is None:
                    continue
                if spec or conv or "[" in field:
                    return None
                field, *attrs = field.split(".")
                if field == "":
                    field, auto = str(auto), auto + 1
                v = args[int(field)] if field.isdigit() and int(field) < len(args) else kwargs.get(field)
                if v is None:
                    return None
                for a in attrs:
                    v = self.attr(v, a)
                parts.append(v if v[0] in ("const", "cat") else ("cat", (v,)))
            return [(cat(parts), st)]
        if name in ("strip", "rstrip", "lstrip") and recv[0] == "const" and not args:
            return [(const(getattr(recv[1], name)()), st)]
        if recv[0] == "process" and name == "check_returncode":
            return [(const(None), st) if recv[1] == const(0) else (("raised", ("name", "CalledProcessError")), st)]
        return None

    def external(self, e, name, kwargs, st):
        if name not in ("subprocess.call", "subprocess.run", "subprocess.check_call", "subprocess.check_output", "os.system"):
            if name in ("subprocess.Popen", "os.popen", "os.spawnl", "os.spawnv", "os.execv"):
                raise Undecided(name)
            return None
        out = []
        for n in self.status:
            x = st.add(("run", n, e.lineno))
            if name in ("subprocess.check_call", "subprocess.check_output") or name == "subprocess.run" and kwargs.get("check") == const(True):
                out.append((("process", const(0)) if n == 0 and name == "subprocess.run" else const(0) if n == 0 else ("raised", ("name", "CalledProcessError")), x))
            elif name == "subprocess.run":
                out.append((("process", const(n)), x))
            else:
                out.append((const(n if name != "os.system" else n & 0xFFFF), x))
        return out


def _load(t):
    return ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else t


def _last(t):
    return t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else "?"


def _name(v):
    while v[0] == "call":
        v = v[1]
    return v[1].split(".")[-1] if v[0] == "name" else v[1][-1] if v[0] in ("cls", "fn") else "?"


def _strip(v):
    while v[0] == "call" and v[1] in (("name", "list"), ("name", "tuple"), ("name", "sorted")) and v[2]:
        v = v[2][0]
    return v


def terms(v):
    if isinstance(v, tuple) and v:
        yield v
        for x in v:
            yield from terms(x)


def show(v):
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == "const":
        return repr(v[1])
    if k in ("name", "par"):
        return v[1]
    if k in ("fn", "cls", "mod"):
        return ".".join(v[1])
    if k == "attr":
        return f"{show(v[1])}.{v[2]}"
    if k == "call":
        return f"{show(v[1])}({', '.join([show(a) for a in v[2]] + [f'{n}={show(a)}' for n, a in v[3]])})"
    if k == "cat":
        return "+".join(show(x) for x in v[1])
    if k in ("list", "tuple"):
        return "[" + ", ".join(show(x) for x in v[1]) + "]"
    return f"{k}({', '.join(show(x) for x in v[1:])})"
