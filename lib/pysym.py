"""A small symbolic evaluator for the Python sources of /repo: classes that read themselves from, and write themselves to, JSON.

Values:
  ("const", v)            a constant
  ("in", name)            an argument of the evaluated method
  ("key", v, k)           v[k] for a value that is not known further
  ("dict", ((k, v), …))   a dictionary
  ("obj", class, args)    an object made with these arguments (positional first, without keywords)
  ("json", v)             v.to_json()
  ("call", name, args)    a call that is not looked into
  ("attr", v, name)       an attribute of a value
Paths fork on conditions; each path keeps the outcome of the conditions it took.
"""
import ast, os

MAX_PATHS = 400


class Unknown(Exception):
    """The source uses something the evaluator does not cover."""


class Raised(Exception):
    def __init__(self, what, path):
        self.what, self.path = what, path


class Module:
    def __init__(self, project, name, file):
        self.project, self.name, self.file = project, name, file
        self.tree = ast.parse(open(file).read(), file)
        self.is_package = os.path.basename(file) == "__init__.py"
        self.defs = {}
        for n in self.tree.body:
            if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                self.defs[n.name] = n
        self.imports = {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.ImportFrom):
                base = self.base(n.level) if n.level else ""
                mod = ".".join(x for x in (base, n.module or "") if x)
                for a in n.names:
                    self.imports[a.asname or a.name] = (mod, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)

    def base(self, level):
        parts = self.name.split(".")
        if not self.is_package:
            parts = parts[:-1]
        return ".".join(parts[:len(parts) - (level - 1)])


class Project:
    def __init__(self, root, package):
        """All modules below directory root, as package."""
        self.modules = {}
        for d, _, fs in os.walk(root):
            for f in fs:
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                    name = package if rel == "__init__" else package + "." + (rel[:-9] if rel.endswith(".__init__") else rel)
                    self.modules[name] = Module(self, name, os.path.join(d, f))

    def resolve(self, module, name):
        """What a name of a module stands for: ("class"|"function", module, node), ("module", module) or ("ext", dotted)."""
        seen = set()
        while True:
            if (module.name, name) in seen:
                return ("ext", name)
            seen.add((module.name, name))
            if name in module.defs:
                n = module.defs[name]
                return ("class" if isinstance(n, ast.ClassDef) else "function", module, n)
            if name in module.imports:
                m, a = module.imports[name]
                if a is None:
                    return ("module", self.modules[m]) if m in self.modules else ("ext", m)
                sub = f"{m}.{a}"
                if m in self.modules:
                    owner = self.modules[m]
                    if a in owner.defs or (a in owner.imports and sub not in self.modules):
                        module, name = owner, a
                        continue
                    if "*" in owner.imports:
                        src = self.modules.get(owner.imports["*"][0])
                        if src is not None:
                            module, name = src, a
                            continue
                if sub in self.modules:
                    return ("module", self.modules[sub])
                return ("ext", sub)
            stars = [m for m, a in [module.imports.get("*", (None, None))] if m in self.modules]
            if stars:
                module = self.modules[stars[0]]
                continue
            return ("ext", name)

    def classes(self):
        for m in self.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    yield Class(self, m, n)


class Class:
    def __init__(self, project, module, node):
        self.project, self.module, self.node = project, module, node
        self.id = f"{module.name.split('.', 1)[-1]}.{node.name}"

    def __eq__(self, o):
        return isinstance(o, Class) and self.id == o.id

    def __hash__(self):
        return hash(self.id)

    def bases(self):
        out = []
        for b in self.node.bases:
            r = lookup(self.project, self.module, b)
            if r[0] == "class":
                out.append(Class(self.project, r[1], r[2]))
        return out

    def mro(self):
        out = [self]
        for b in self.bases():
            out += [x for x in b.mro() if x not in out]
        return out

    def find(self, name, after=None):
        """(class, function) that provides a method."""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            for n in c.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return c, n
        return None


def lookup(project, module, expr):
    """What a dotted name in a module stands for."""
    if isinstance(expr, ast.Name):
        return project.resolve(module, expr.id)
    if isinstance(expr, ast.Attribute):
        r = lookup(project, module, expr.value)
        if r[0] == "module":
            return project.resolve(r[1], expr.attr)
        if r[0] == "ext":
            return ("ext", f"{r[1]}.{expr.attr}")
    return ("ext", ast.unparse(expr))


def falsy(v):
    return v[0] == "const" and not v[1] or v in (("dict", ()), ("list", ()))


def known_truth(v):
    if v[0] == "const":
        return bool(v[1])
    if v[0] == "dict":
        return bool(v[1])
    if v[0] == "list":
        return bool(v[1])
    if v[0] in ("obj",):
        return True
    return None


class State:
    def __init__(self):
        self.attrs, self.env, self.conds, self.raised = {}, {}, {}, None

    def fork(self):
        s = State()
        s.attrs, s.env, s.conds, s.raised = dict(self.attrs), dict(self.env), dict(self.conds), self.raised
        return s


class Evaluator:
    """Evaluates methods of one object."""

    def __init__(self, project, cls, io):
        self.project, self.cls, self.io = project, cls, io     # io: the Model of what JSON of objects holds
        self.depth = 0

    # -- statements: each yields (state, outcome), outcome None | ("return", v) | ("raise", what)
    def block(self, stmts, st, frame):
        live = [(st, None)]
        for s in stmts:
            nxt = []
            for st1, out in live:
                if out is not None:
                    nxt.append((st1, out))
                else:
                    nxt += list(self.stmt(s, st1, frame))
            live = nxt
            if len(live) > MAX_PATHS:
                raise Unknown("too many paths")
        return live

    def stmt(self, s, st, frame):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return [(st, None)]
            return [(a, ("raise", v) if bad else None) for a, v, bad in self.ev(s.value, st, frame)]
        if isinstance(s, ast.Assign):
            out = []
            for a, v, bad in self.ev(s.value, st, frame):
                if bad:
                    out.append((a, ("raise", v)))
                    continue
                live = [a]
                for t in s.targets:
                    live = [y for x in live for y in self.assign(t, v, x, frame)]
                out += [(x, None) for x in live]
            return out
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return self.stmt(ast.copy_location(ast.Assign(targets=[s.target], value=s.value), s), st, frame)
        if isinstance(s, ast.If):
            out = []
            for a, t, bad in self.test(s.test, st, frame):
                if bad:
                    out.append((a, ("raise", t)))
                else:
                    out += self.block(s.body if t else s.orelse, a, frame)
            return out
        if isinstance(s, ast.Return):
            if s.value is None:
                return [(st, ("return", ("const", None)))]
            return [(a, ("raise", v) if bad else ("return", v)) for a, v, bad in self.ev(s.value, st, frame)]
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
            return [(st, None)]
        if isinstance(s, ast.Assert):
            # what follows an assertion is only reached when it holds
            out = []
            for a, t, bad in self.test(s.test, st, frame):
                out.append((a, None) if not bad and t else (a, ("raise", "assertion")))
            return out
        if isinstance(s, ast.Raise):
            return [(st, ("raise", "raise"))]
        if isinstance(s, ast.For):
            # loops only inspect: whatever they assign is not known afterwards
            a = st.fork()
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    a.env[frame["id"], n.id] = ("call", "loop", (("const", s.lineno),))
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == frame["self"]:
                    outs = self.ev(s.iter, st, frame)
                    a.attrs[n.attr] = ("call", f"loop over {ast.unparse(s)}"[:200], tuple(v for _, v, bad in outs if not bad))
            return [(a, None)]
        raise Unknown(f"statement {type(s).__name__}")

    def assign(self, t, v, st, frame):
        st = st.fork()
        if isinstance(t, ast.Name):
            st.env[frame["id"], t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == frame["self"]:
                st.attrs[t.attr] = v
                return [st]
            raise Unknown("assignment to an attribute of another object")
        if isinstance(t, ast.Subscript):
            out = []
            for a, k, bad in self.ev(t.slice, st, frame):
                if bad or k[0] != "const":
                    raise Unknown("assignment to an item")
                if not isinstance(t.value, ast.Name):
                    raise Unknown("assignment to an item")
                cur = a.env.get((frame["id"], t.value.id))
                if cur is None:
                    raise Unknown("assignment to an item")
                if cur[0] == "json":
                    alts = self.io.expand(cur)
                    if len(alts) != 1:
                        raise Unknown("assignment to an item of alternatives")
                    cur = alts[0]
                a = a.fork()
                if cur[0] != "dict":
                    if cur[0] not in ("call", "key", "in", "set"):
                        raise Unknown("assignment to an item of " + cur[0])
                    a.env[frame["id"], t.value.id] = ("set", cur, k[1], v)
                    out.append(a)
                    continue
                a.env[frame["id"], t.value.id] = ("dict", tuple((x, y) for x, y in cur[1] if x != k[1]) + ((k[1], v),))
                out.append(a)
            return out
        raise Unknown("assignment to " + type(t).__name__)

    # -- expressions: each yields (state, value, failed)
    def many(self, exprs, st, frame):
        live = [(st, ())]
        for e in exprs:
            nxt = []
            for a, vs in live:
                for b, v, bad in self.ev(e, a, frame):
                    if bad:
                        nxt.append((b, None, v))
                    else:
                        nxt.append((b, vs + (v,)))
            for x in nxt:
                if len(x) == 3:
                    yield x[0], x[2], True
            live = [x for x in nxt if len(x) == 2]
        for a, vs in live:
            yield a, vs, False

    def ev(self, e, st, frame):
        if isinstance(e, ast.Constant):
            return [(st, ("const", e.value), False)]
        if isinstance(e, ast.Name):
            if e.id == frame["self"]:
                return [(st, ("self",), False)]
            v = st.env.get((frame["id"], e.id))
            return [(st, v if v is not None else ("name", e.id), False)]
        if isinstance(e, ast.Attribute):
            return self.attribute(e, st, frame)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            whole = not (e.slice.lower or e.slice.upper or e.slice.step)
            return [(a, v if bad or whole else ("call", "item", (v, ("const", ast.unparse(e.slice)))), bad) for a, v, bad in self.ev(e.value, st, frame)]
        if isinstance(e, ast.Subscript):
            out = []
            for a, vs, bad in self.many([e.value, e.slice], st, frame):
                out += [(a, vs, True)] if bad else self.item(a, vs[0], vs[1])
            return out
        if isinstance(e, ast.Dict):
            if any(k is None or not isinstance(k, ast.Constant) for k in e.keys):
                if any(k is None for k in e.keys):
                    return self.merged(e, st, frame)
                raise Unknown("dictionary with names that are not known")
            return [(a, vs if bad else ("dict", tuple((k.value, v) for k, v in zip(e.keys, vs))), bad) for a, vs, bad in self.many(e.values, st, frame)]
        if isinstance(e, (ast.List, ast.Tuple)):
            return [(a, vs if bad else ("list", vs), bad) for a, vs, bad in self.many(e.elts, st, frame)]
        if isinstance(e, ast.IfExp):
            out = []
            for a, t, bad in self.test(e.test, st, frame):
                out += [(a, t, True)] if bad else self.ev(e.body if t else e.orelse, a, frame)
            return out
        if isinstance(e, ast.Call):
            return self.call(e, st, frame)
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            if isinstance(e, ast.BoolOp):
                # a or b, a and b as values
                out = []
                rest = e.values[1:]
                for a, v, bad in self.ev(e.values[0], st, frame):
                    if bad:
                        out.append((a, v, True))
                        continue
                    for b, t in self.truth(v, a):
                        stop = t if isinstance(e.op, ast.Or) else not t
                        if stop or not rest:
                            out.append((b, v, False))
                        else:
                            out += self.ev(rest[0] if len(rest) == 1 else ast.BoolOp(op=e.op, values=rest), b, frame)
                return out
            return [(a, t if bad else ("const", t), bad) for a, t, bad in self.test(e, st, frame)]
        if isinstance(e, ast.BinOp):
            return [(a, vs if bad else ("call", type(e.op).__name__, vs), bad) for a, vs, bad in self.many([e.left, e.right], st, frame)]
        if isinstance(e, ast.UnaryOp):
            return [(a, vs if bad else ("call", type(e.op).__name__, (vs,)), bad) for a, vs, bad in self.ev(e.operand, st, frame)]
        if isinstance(e, ast.JoinedStr):
            parts = [p.value for p in e.values if isinstance(p, ast.FormattedValue)]
            text = "".join("{}" if isinstance(p, ast.FormattedValue) else p.value for p in e.values)
            return [(a, vs if bad else ("call", "format", (("const", text),) + vs), bad) for a, vs, bad in self.many(parts, st, frame)]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            # a copy of a sequence or of a dictionary
            g = e.generators[0]
            if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == g.target.id:
                return [(a, v if bad else ("call", "list", (v,)), bad) for a, v, bad in self.ev(g.iter, st, frame)]
            outs = list(self.ev(g.iter, st, frame))
            return [(a, v if bad else ("call", ast.unparse(e), (v,)), bad) for a, v, bad in outs]
        raise Unknown(f"expression {type(e).__name__}")

    def merged(self, e, st, frame):
        live = [(st, (), False)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for a, items, bad in live:
                if bad:
                    nxt.append((a, items, True))
                    continue
                for b, x, bad2 in self.ev(v, a, frame):
                    if bad2:
                        nxt.append((b, x, True))
                        continue
                    if k is None:
                        alts = self.io.expand(x) if x[0] == "json" else [x]
                        for y in alts:
                            if y[0] != "dict":
                                raise Unknown("merging what is not a dictionary")
                            keys = {q for q, _ in y[1]}
                            nxt.append((b, tuple(i for i in items if i[0] not in keys) + y[1], False))
                    else:
                        if not isinstance(k, ast.Constant):
                            raise Unknown("dictionary with names that are not known")
                        nxt.append((b, tuple(i for i in items if i[0] != k.value) + ((k.value, x),), False))
            live = nxt
        return [(a, x if bad else ("dict", x), bad) for a, x, bad in live]

    def attribute(self, e, st, frame):
        if not isinstance(e.value, ast.Name) or e.value.id != frame["self"]:
            r = lookup(self.project, frame["module"], e)
            if r[0] in ("class", "function", "module"):
                return [(st, ("ref", ast.unparse(e)), False)]
            return [(a, v if bad else self.attr_of(v, e.attr), bad) for a, v, bad in self.ev(e.value, st, frame)]
        return self.own(e.attr, st)

    def attr_of(self, v, name):
        return ("attr", v, name)

    def own(self, name, st):
        """An attribute of the object itself."""
        found = self.cls.find(name)
        if found and any(isinstance(d, ast.Name) and d.id == "property" for d in found[1].decorator_list):
            c, fn = found
            simple = all(isinstance(s, (ast.Return, ast.If, ast.Assign, ast.Expr, ast.Assert)) for s in fn.body)
            if simple and self.depth < 6:
                try:
                    return self.method(c, fn, (), st)
                except Unknown:
                    pass
            return [(st, ("call", "self." + name, (("attrs", tuple(sorted(st.attrs.items()))),)), False)]
        if name in st.attrs:
            return [(st, st.attrs[name], False)]
        if found:
            return [(st, ("ref", "self." + name), False)]
        for c in self.cls.mro():
            for n in c.node.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    return self.ev(n.value, st, dict(id=0, self="", module=c.module))
        return [(st, f"attribute {name} is not set", True)]

    def item(self, st, v, k):
        if k[0] != "const":
            return [(st, ("call", "item", (v, k)), False)]
        if v[0] == "dict":
            d = dict(v[1])
            return [(st, d[k[1]], False)] if k[1] in d else [(st, f"{k[1]} is not there", True)]
        if v[0] == "json":
            out = []
            for alt in self.io.expand(v):
                if alt[0] != "dict":
                    out.append((st, ("key", alt, k[1]), False))
                else:
                    out += self.item(st, alt, k)
            uniq = []
            for x in out:
                if not any(x[1:] == y[1:] for y in uniq):
                    uniq.append(x)
            return [(s.fork() if len(uniq) > 1 else s, a, b) for s, a, b in uniq]
        while v[0] == "set":
            if v[2] == k[1]:
                return [(st, v[3], False)]
            v = v[1]
        return [(st, ("key", v, k[1]), False)]

    def has(self, st, v, k):
        """[(state, whether the name is there)]"""
        if v[0] == "dict":
            return [(st, k in dict(v[1]))]
        while v[0] == "set":
            if v[2] == k:
                return [(st, True)]
            v = v[1]
        if v[0] == "json":
            outs = {k in dict(a[1]) if a[0] == "dict" else None for a in self.io.expand(v)}
            if len(outs) == 1 and None not in outs:
                return [(st, outs.pop())]
        return self.choose(st, ("in", k, v))

    def choose(self, st, cond):
        if cond in st.conds:
            return [(st, st.conds[cond])]
        if cond[0] == "eq" and cond[2][0] == "const":
            # one value cannot equal two constants
            for c, t in st.conds.items():
                if t and c[0] == "eq" and c[1] == cond[1] and c[2][0] == "const" and c[2] != cond[2]:
                    return [(st, False)]
        a, b = st.fork(), st.fork()
        a.conds[cond], b.conds[cond] = True, False
        return [(a, True), (b, False)]

    def truth(self, v, st):
        t = known_truth(v)
        if t is not None:
            return [(st, t)]
        if v[0] == "json":
            outs = {known_truth(a) for a in self.io.expand(v)}
            if len(outs) == 1 and None not in outs:
                return [(st, outs.pop())]
        return self.choose(st, ("truth", v))

    def test(self, e, st, frame):
        """[(state, outcome, failed)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(a, t if bad else not t, bad) for a, t, bad in self.test(e.operand, st, frame)]
        if isinstance(e, ast.BoolOp):
            out, live = [], [(st, None)]
            for x in e.values:
                nxt = []
                for a, _ in live:
                    for b, t, bad in self.test(x, a, frame):
                        if bad:
                            out.append((b, t, True))
                        elif t == isinstance(e.op, ast.Or):
                            out.append((b, t, False))
                        else:
                            nxt.append((b, t))
                live = nxt
            return out + [(a, t, False) for a, t in live]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            out = []
            for a, vs, bad in self.many([e.left, e.comparators[0]], st, frame):
                if bad:
                    out.append((a, vs, True))
                    continue
                l, r = vs
                neg = isinstance(op, (ast.NotIn, ast.NotEq, ast.IsNot))
                if isinstance(op, (ast.In, ast.NotIn)):
                    if r[0] == "list" and l[0] != "const":
                        live, hits = [a], []
                        for x in r[1]:
                            nxt = []
                            for s in live:
                                for b, t in self.choose(s, ("eq", l, x)):
                                    (hits if t else nxt).append(b)
                            live = nxt
                        res = [(b, True) for b in hits] + [(b, False) for b in live]
                    elif r[0] == "list":
                        res = [(a, l in r[1])]
                    elif l[0] == "const":
                        res = self.has(a, r, l[1])
                    else:
                        res = self.choose(a, ("in?", l, r))
                elif isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                    if l[0] == "const" and r[0] != "const":
                        l, r = r, l
                    if l[0] == r[0] == "const":
                        res = [(a, l[1] == r[1])]
                    elif l[0] in ("obj", "dict", "list", "json") and r == ("const", None):
                        res = [(a, False)]
                    elif l == r:
                        res = [(a, True)]
                    else:
                        res = self.choose(a, ("eq", l, r))
                else:
                    res = self.choose(a, (type(op).__name__, l, r))
                out += [(b, t != neg, False) for b, t in res]
            return out
        if isinstance(e, ast.Compare):
            return [(a, t if bad else t, bad) for b, v, bad in self.many([e.left] + e.comparators, st, frame) for a, t in ([(b, v)] if bad else self.choose(b, ("cmp", ast.unparse(e), v)))]
        out = []
        for a, v, bad in self.ev(e, st, frame):
            if bad:
                out.append((a, v, True))
            else:
                out += [(b, t, False) for b, t in self.truth(v, a)]
        return out

    def call(self, e, st, frame):
        f = e.func
        if any(k.arg is None for k in e.keywords) or any(isinstance(a, ast.Starred) for a in e.args):
            raise Unknown("call with unpacked arguments")
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            found = self.cls.find(f.attr, after=frame["class"])
            if found is None:
                if f.attr == "__init__":
                    return [(st, ("const", None), False)]
                raise Unknown("super")
            return self.invoke(found[0], found[1], e, st, frame)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == frame["self"]:
            found = self.cls.find(f.attr)
            if found is not None:
                return self.invoke(found[0], found[1], e, st, frame)
        # Class.method(self, …)
        if isinstance(f, ast.Attribute) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == frame["self"]:
            r = lookup(self.project, frame["module"], f.value)
            if r[0] == "class":
                c = Class(self.project, r[1], r[2])
                found = c.find(f.attr)
                if found and c in self.cls.mro():
                    return self.invoke(found[0], found[1], ast.copy_location(ast.Call(func=f, args=e.args[1:], keywords=e.keywords), e), st, frame)
        if isinstance(f, ast.Name) and (frame["id"], f.id) in st.env:
            r = ("ext", f.id)
        else:
            r = lookup(self.project, frame["module"], f)
        args = list(e.args) + [k.value for k in e.keywords]
        out = []
        if r[0] == "class":
            c = Class(self.project, r[1], r[2])
            init = c.find("__init__")
            names = [a.arg for a in init[1].args.args][1:] if init else []
            for a, vs, bad in self.many(args, st, frame):
                if not bad and e.keywords:
                    pos = list(vs[:len(e.args)])
                    kw = {k.arg: v for k, v in zip(e.keywords, vs[len(e.args):])}
                    pos += [kw[n] for n in names[len(pos):] if n in kw]
                    vs = tuple(pos)
                out.append((a, vs if bad else self.io.normal(("obj", c.id, vs)), bad))
            return out
        if r[0] == "function" and self.depth < 6 and not e.keywords:
            fn = r[2]
            if len(fn.args.args) == len(e.args) and fn.name != "json_to_data":
                for a, vs, bad in self.many(args, st, frame):
                    if bad:
                        out.append((a, vs, True))
                        continue
                    try:
                        out += self.function(r[1], fn, vs, a)
                    except Unknown:
                        out.append((a, ("call", fn.name, vs), False))
                return out
        first = f
        while isinstance(first, ast.Attribute):
            first = first.value
        external = isinstance(first, ast.Name) and first.id in frame["module"].imports and (frame["id"], first.id) not in st.env
        if isinstance(f, ast.Attribute) and r[0] == "ext" and not external:
            for a, vs, bad in self.many([f.value] + args, st, frame):
                if bad:
                    out.append((a, vs, True))
                    continue
                v, rest = vs[0], vs[1:]
                if f.attr == "to_json" and not rest:
                    out.append((a, self.io.normal(("json", v)), False))
                elif f.attr == "get" and rest and rest[0][0] == "const" and (v[0] in ("in", "key", "dict", "json", "call")):
                    for b, t in self.has(a, v, rest[0][1]):
                        out += self.item(b, v, rest[0]) if t else [(b, rest[1] if len(rest) > 1 else ("const", None), False)]
                elif f.attr == "update" and isinstance(f.value, ast.Name):
                    b = a.fork()
                    x = rest[0] if rest else ("dict", tuple((k.arg, y) for k, y in zip(e.keywords, rest)))
                    if v[0] == "json":
                        alts = self.io.expand(v)
                        v = alts[0] if len(alts) == 1 else v
                    if x[0] == "json":
                        alts = self.io.expand(x)
                        x = alts[0] if len(alts) == 1 else x
                    if v[0] != "dict" or x[0] != "dict" or len(rest) != 1:
                        raise Unknown("update")
                    keys = {k for k, _ in x[1]}
                    b.env[frame["id"], f.value.id] = ("dict", tuple(i for i in v[1] if i[0] not in keys) + x[1])
                    out.append((b, ("const", None), False))
                elif f.attr in ("copy",) and not rest:
                    out.append((a, v, False))
                elif v[0] == "name":
                    out.append((a, ("call", f"{v[1]}.{f.attr}", rest), False))
                else:
                    out.append((a, ("call", f.attr, (v,) + rest), False))
            return out
        name = r[1] if r[0] == "ext" else ast.unparse(f)
        for a, vs, bad in self.many(args, st, frame):
            if bad:
                out.append((a, vs, True))
            elif name == "isinstance":
                kind = ast.unparse(args[1])
                is_dict = vs[0][0] in ("dict", "json")
                if is_dict and kind in ("str", "list", "tuple", "int", "dict"):
                    out.append((a, ("const", kind == "dict"), False))
                else:
                    out.append((a, ("call", "isinstance", (vs[0], ("const", kind))), False))
            elif name in ("dict", "copy.copy", "copy.deepcopy") and len(vs) == 1 and not e.keywords:
                out.append((a, vs[0], False))
            elif name == "dict" and not e.args:
                out.append((a, ("dict", tuple((k.arg, v) for k, v in zip(e.keywords, vs))), False))
            elif name == "getattr" and len(vs) >= 2 and vs[0] == ("self",) and vs[1][0] == "const":
                out += self.own(vs[1][1], a)
            else:
                out.append((a, self.io.normal(("call", name, vs)), False))
        return out

    def invoke(self, c, fn, e, st, frame):
        names = [a.arg for a in fn.args.args][1:]
        out = []
        for a, vs, bad in self.many(list(e.args) + [k.value for k in e.keywords], st, frame):
            if bad:
                out.append((a, vs, True))
                continue
            pos = list(vs[:len(e.args)])
            kw = {k.arg: v for k, v in zip(e.keywords, vs[len(e.args):])}
            pos += [kw[n] for n in names[len(pos):] if n in kw]
            if self.loops(fn):
                out.append((a, ("call", "self." + fn.name, tuple(pos) + (("attrs", tuple(sorted(a.attrs.items()))),)), False))
            else:
                out += self.method(c, fn, tuple(pos), a)
        return out

    def loops(self, fn):
        return any(isinstance(n, (ast.While, ast.For, ast.Try, ast.With)) for n in ast.walk(fn)) and not any(
            isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in ast.walk(fn))

    def method(self, c, fn, args, st):
        names = [a.arg for a in fn.args.args]
        return self.run_body(c, c.module, fn, names[1:], names[0] if names else "", args, st)

    def function(self, module, fn, args, st):
        return self.run_body(None, module, fn, [a.arg for a in fn.args.args], "", args, st)

    counter = 0

    def run_body(self, c, module, fn, names, self_name, args, st):
        if self.depth > 12:
            raise Unknown("recursion")
        Evaluator.counter += 1
        frame = dict(id=Evaluator.counter, self=self_name, module=module, **{"class": c})
        st = st.fork()
        for n, v in zip(names, args):
            st.env[frame["id"], n] = v
        defaults = fn.args.defaults
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if (frame["id"], n) not in st.env:
                st.env[frame["id"], n] = ("const", d.value) if isinstance(d, ast.Constant) else ("call", ast.unparse(d), ())
        self.depth += 1
        try:
            outs = self.block(fn.body, st, frame)
        finally:
            self.depth -= 1
        res = []
        for a, o in outs:
            if o is None:
                res.append((a, ("const", None), False))
            elif o[0] == "return":
                res.append((a, o[1], False))
            else:
                res.append((a, o[1], True))
        return res


class Model:
    """What objects of the classes of a project read and write."""

    def __init__(self, project):
        self.project = project
        self.classes = {c.id: c for c in project.classes()}
        self.active = []
        self.cache = {}

    def make(self, cls, args):
        """[(state, None)] or [(state, reason)] of constructing an object."""
        c = self.classes[cls]
        init = c.find("__init__")
        ev = Evaluator(self.project, c, self)
        if init is None:
            return [(State(), None)]
        return [(a, v if bad else None) for a, v, bad in ev.method(init[0], init[1], args, State())]

    def write(self, cls, st):
        """[(state, value, failed)] of to_json of an object."""
        c = self.classes[cls]
        fn = c.find("to_json")
        if fn is None:
            raise Unknown(f"{cls} has no to_json")
        return Evaluator(self.project, c, self).method(fn[0], fn[1], (), st)

    def normal(self, v):
        if v[0] == "obj" and v[2] and v[2][0][0] == "json":
            # what is read from what an object of the class wrote is that object, which is examined for the class itself
            x = v[2][0][1]
            if x[0] == "obj" and x[1] == v[1] and x[2][1:] == v[2][1:]:
                return x
        if v[0] == "call" and v[1] in ("tuple", "list") and len(v[2]) == 1:
            x = v[2][0]
            if x[0] == "call" and x[1] in ("tuple", "list"):
                x = x[2][0]
            return ("call", "tuple", (x,))
        return v

    def expand(self, v):
        """The dictionaries that the JSON of an object may be (a list of dict values)."""
        if v[0] != "json":
            return [v]
        if v in self.cache:
            return self.cache[v]
        x = v[1]
        if x[0] != "obj" or x[1] not in self.classes or x in self.active:
            return [("key", v, "?")]
        self.active.append(x)
        try:
            out = []
            for st, bad in self.make(x[1], x[2]):
                if bad:
                    continue
                for _, d, bad2 in self.write(x[1], st):
                    if not bad2 and d not in out:
                        out.append(d)
        finally:
            self.active.pop()
        self.cache[v] = out
        return out
