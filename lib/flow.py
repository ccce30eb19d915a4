"""Path-sensitive, interprocedural value-flow analysis of the extracted program.

The analysis is a dataflow over the structured control flow of one entry function.  Values are Herbrand
terms (value numbering): a parameter is an unknown term, a call of a function without a body - or of one
the rule treats as an observable operation ("opaque") - yields an uninterpreted term and is recorded as
an event; all other project functions are analysed in their callers' context.  Conditions are normalised
to atoms and remembered per path, no solver decides them.  Loops are summarised by none and one
iteration, in which the loop variable stands for an arbitrary element ("elem") or index ("ind") and
variables changed by the loop are unknown ("phi").
"""
import re
import sys
from lueir import AnalysisError

sys.setrecursionlimit(20000)

TRUE, FALSE = ("bool", True), ("bool", False)
NULL = ("null",)
ZERO = ("int", 0)
DISTINCT = re.compile(r"std::(unordered_)?(set|map)\b")


class TooComplex(AnalysisError):
    pass


class Event:
    __slots__ = ("q", "key", "args", "line", "fn", "stack", "loops", "res", "facts", "outs", "serial", "hasobj")

    def __init__(self, q, key, args, line, fn, stack, loops, res, facts, hasobj):
        self.q, self.key, self.args, self.line, self.fn = q, key, args, line, fn
        self.stack, self.loops, self.res, self.facts = stack, loops, res, facts
        self.hasobj = hasobj

    def __repr__(self):
        return f"{self.q}({', '.join(show(a) for a in self.args)})@{self.line}"


class State:
    __slots__ = ("store", "facts", "events", "loops", "eqc", "tmp", "marks")

    def __init__(self):
        self.store, self.facts, self.events, self.loops, self.eqc, self.tmp = {}, {}, (), (), {}, 0
        self.marks = ()     # what happened to loops: ("none" | "some" | "break", what it iterates over)

    def fork(self):
        s = State()
        s.store, s.facts, s.events, s.loops, s.eqc = dict(self.store), dict(self.facts), self.events, self.loops, dict(self.eqc)
        s.tmp, s.marks = self.tmp, self.marks
        return s

    def mark(self, kind, context):
        s = self.fork()
        s.marks += ((kind, context),)
        return s


class Path:
    """One path through an entry function."""

    def __init__(self, st, outcome):
        self.st, self.outcome = st, outcome
        self.events = []
        e = st.events
        while e:
            self.events.append(e[1])
            e = e[0]
        self.events.reverse()
        self.facts = st.facts
        self.marks = st.marks

    @property
    def kind(self):
        return self.outcome[0]

    @property
    def value(self):
        return self.outcome[1] if self.outcome[0] == "ret" else None


# ------------------------------------------------------------------ terms

def is_const(t):
    return t[0] in ("int", "str", "bool", "null", "enum", "float", "fn")


def neg(t):
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    if t[0] == "not":
        return t[1]
    return ("not", t)


def const_value(t):
    if t[0] in ("int", "bool"):
        return int(t[1])
    if t[0] == "null":
        return 0
    return None


SIZE_LIKE = ("size", "empty", "nr_", "count", "rank", "length")


def unsigned_like(t):
    return t[0] == "app" and t[1].split("::")[-1].startswith(SIZE_LIKE)


def mk_eq(a, b):
    if a == b:
        return TRUE
    if a[0] == "bool" and b[0] != "bool":
        a, b = b, a
    if b[0] == "bool":
        if a[0] in ("eq", "lt", "not"):
            return a if b[1] else neg(a)
        if a[0] == "bool":
            return FALSE
        if a[0] != "int":
            return a if b[1] else neg(a)
    if is_const(a) and is_const(b):
        ca, cb = const_value(a), const_value(b)
        if ca is not None and cb is not None:
            return TRUE if ca == cb else FALSE
        if a[0] == b[0]:
            return FALSE
        if a[0] == "enum" and b[0] == "int" or a[0] == "int" and b[0] == "enum":
            pass
        elif a[0] != b[0]:
            return FALSE
    # size(x) == 0  <->  empty(x)
    if is_const(a):
        a, b = b, a
    elif not is_const(b) and key_of(b) < key_of(a):
        a, b = b, a
    return ("eq", a, b)


_keys = {}


def key_of(t):
    k = _keys.get(t)
    if k is None:
        k = repr(t)
        _keys[t] = k
    return k


def mk_lt(a, b):
    if a == b:
        return FALSE
    ca, cb = const_value(a), const_value(b)
    if ca is not None and cb is not None:
        return TRUE if ca < cb else FALSE
    if ca == 0 and unsigned_like(b):
        return neg(mk_eq(b, ZERO))
    if cb == 1 and unsigned_like(a):
        return mk_eq(a, ZERO)
    if cb == 0 and unsigned_like(a):
        return FALSE
    return ("lt", a, b)


def linear(t, k, out):
    """Adds k*t to the linear combination `out`: term -> coefficient (None: the constant)."""
    c = const_value(t) if t[0] in ("int", "bool") else None
    if c is not None:
        out[None] = out.get(None, 0) + k * c
    elif t[0] == "op" and t[1] == "+":
        for x in t[2]:
            linear(x, k, out)
    elif t[0] == "op" and t[1] == "-" and len(t[2]) == 2:
        linear(t[2][0], k, out)
        linear(t[2][1], -k, out)
    elif t[0] == "op" and t[1] == "*" and t[2][0][0] == "int":
        rest = t[2][1:]
        linear(rest[0] if len(rest) == 1 else ("op", "*", rest), k * t[2][0][1], out)
    else:
        out[t] = out.get(t, 0) + k
    return out


def from_linear(d):
    def side(sign):
        parts = []
        for t, k in d.items():
            if k * sign <= 0:
                continue
            k = abs(k)
            if t is None:
                parts.append(("int", k))
            elif k == 1:
                parts.append(t)
            else:
                parts.append(("op", "*", (("int", k),) + (t[2] if t[0] == "op" and t[1] == "*" else (t,))))
        parts.sort(key=key_of)
        return parts

    def plus(parts):
        return ZERO if not parts else parts[0] if len(parts) == 1 else ("op", "+", tuple(parts))
    pos, negs = side(1), side(-1)
    if negs == [] or not pos and len(negs) == 1 and negs[0][0] == "int":
        return plus(pos) if not negs else ("int", -negs[0][1])
    return ("op", "-", (plus(pos), plus(negs)))


def mk_bin(op, a, b):
    if op == "==":
        return mk_eq(a, b)
    if op == "!=":
        return neg(mk_eq(a, b))
    if op == "<":
        return mk_lt(a, b)
    if op == ">":
        return mk_lt(b, a)
    if op == "<=":
        return neg(mk_lt(b, a))
    if op == ">=":
        return neg(mk_lt(a, b))
    ca, cb = const_value(a), const_value(b)
    if ca is not None and cb is not None:
        try:
            if op == "+":
                return ("int", ca + cb)
            if op == "-":
                return ("int", ca - cb)
            if op == "*":
                return ("int", ca * cb)
            if op == "/" and cb:
                return ("int", ca // cb)
            if op == "%" and cb:
                return ("int", ca % cb)
            if op == "|":
                return ("int", ca | cb)
            if op == "&":
                return ("int", ca & cb)
            if op == "<<":
                return ("int", ca << cb)
        except OverflowError:
            pass
    if op in ("+", "-") and cb == 0:
        return a
    if op == "+" and ca == 0:
        return b
    if op in ("+", "-") and not any(x[0] == "str" or x[0] == "op" and x[1] == "+" and any(y[0] == "str" for y in x[2]) for x in (a, b)):
        return from_linear(linear(a, 1, linear(b, 1 if op == "+" else -1, {})))
    if op == "*" and cb == 1:
        return a
    if op == "*" and ca == 1:
        return b
    if op == "-" and a == b:
        return ZERO
    if op in ("+", "*"):
        # flatten and sort
        parts = []
        for t in (a, b):
            if t[0] == "op" and t[1] == op:
                parts += list(t[2])
            else:
                parts.append(t)
        if op == "+" and any(p[0] == "str" for p in parts):
            return ("op", op, tuple(parts))
        if op == "*":
            k = 1
            for x in parts:
                if x[0] == "int":
                    k *= x[1]
            parts = [x for x in parts if x[0] != "int"]
            if k == 0 or not parts:
                return ("int", k)
            parts.sort(key=key_of)
            if k == 1:
                return parts[0] if len(parts) == 1 else ("op", "*", tuple(parts))
            return ("op", op, (("int", k),) + tuple(parts))
        parts.sort(key=key_of)
        return ("op", op, tuple(parts))
    return ("op", op, (a, b))


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if depth > 6:
        return "..."
    d = depth + 1
    if k in ("int", "bool", "float"):
        return str(t[1]).lower() if k == "bool" else str(t[1])
    if k == "str":
        return repr(t[1])
    if k == "null":
        return "nullptr"
    if k in ("enum", "glob", "par", "fn"):
        return str(t[1]).split("::")[-1] if k != "par" else str(t[1])
    if k == "this":
        return "this"
    if k == "fld":
        return f"{show(t[1], d)}.{t[2]}"
    if k == "app":
        return f"{t[1].split('::')[-1]}({', '.join(show(a, d) for a in t[2])})" + (f"#{t[3]}" if len(t) > 3 else "")
    if k == "new":
        return f"{t[1].split('::')[-1] if '<' not in t[1] else t[1]}{{{', '.join(show(a, d) for a in t[3])}}}"
    if k == "init":
        return "{" + ", ".join(show(a, d) for a in t[2]) + "}"
    if k == "eq":
        return f"{show(t[1], d)}=={show(t[2], d)}"
    if k == "lt":
        return f"{show(t[1], d)}<{show(t[2], d)}"
    if k == "not":
        return f"!({show(t[1], d)})"
    if k == "op":
        return "(" + f" {t[1]} ".join(show(a, d) for a in t[2]) + ")"
    if k == "elem":
        return f"each({show(t[1], d)})"
    return f"{k}({', '.join(show(a, d) if isinstance(a, tuple) else str(a) for a in t[1:])})"


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            yield x
            for y in x:
                if isinstance(y, tuple):
                    stack.append(y)


# ------------------------------------------------------------------ names treated as identity etc.

IDENTITY = {
    "std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::move_if_noexcept", "std::addressof",
    "std::to_underlying", "std::launder",
}
DEREF = {"operator*", "operator->", "value", "get"}
NONMUTATING = {
    "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "at", "front", "back", "get", "value",
    "operator[]", "operator*", "operator->", "find", "c_str", "size", "empty", "str", "has_value", "operator()",
    "operator bool", "string", "native", "path",
}
SMART = ("std::unique_ptr", "std::shared_ptr", "std::optional", "std::reference_wrapper", "std::__shared_ptr_access", "std::__shared_ptr")
STRINGISH = ("std::basic_string<", "std::filesystem::path", "std::basic_string_view<", "std::filesystem::__cxx11::path")


def template_args(t):
    """Arguments of the outermost template of a type"""
    if "<" not in t:
        return []
    body = t[t.index("<") + 1:t.rindex(">")]
    out, depth, cur = [], 0, ""
    for ch in body:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def get_index(key):
    """The index among the template arguments of std::get"""
    m = re.match(r"std::get<(\d+)(UL)?[,>]", key or "")
    return int(m.group(1)) if m else None


def tuple_index(info, key=None):
    """Which element of a tuple std::get returns"""
    ps = info.get("params") or []
    if get_index(key) is not None:
        return get_index(key)
    if len(ps) != 1 or not base_type(ps[0]).startswith(("std::tuple", "std::pair")):
        return None
    items = template_args(base_type(ps[0]))
    ret = info.get("ret", "")
    same = [i for i, x in enumerate(items) if base_type(x) == base_type(ret)]
    return same[0] if len(same) == 1 else None


def base_type(t):
    t = t.strip()
    for pre in ("const ", "volatile "):
        if t.startswith(pre):
            t = t[len(pre):]
    while t.endswith(("&", "*", " const")):
        t = t[:-6] if t.endswith(" const") else t[:-1]
        t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    return t


def is_ref(t):
    return t.rstrip().endswith("&")


def nonconst_ref(t):
    t = t.rstrip()
    return t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and not t[:-1].rstrip().endswith("const")


def nonconst_ptr(t):
    t = t.rstrip()
    if t.endswith("__restrict"):
        t = t[:-10].rstrip()
    if t.endswith("const"):
        t = t[:-5].rstrip()
    return (t.endswith("*") or "(**)" in t) and not t.startswith("const ")


# algorithms that write through the iterator passed as this argument
WRITES_THROUGH = {"std::" + n: i for i, ns in ((0, "sort stable_sort partial_sort nth_element reverse rotate shuffle fill fill_n iota generate generate_n replace replace_if unique remove remove_if partition"),
                                               (2, "copy copy_n copy_if partial_sum adjacent_difference inclusive_scan exclusive_scan move")) for n in ns.split()}


READS_RANGE = set("transform copy copy_n copy_if find find_if find_if_not count count_if equal for_each all_of any_of none_of min_element max_element minmax_element is_sorted adjacent_find "
                  "binary_search lower_bound upper_bound includes mismatch search contains starts_with ends_with fold_left lexicographical_compare max min".split())


def targs_in(q, key):
    """Template arguments of the function itself that a key mentions"""
    if not key.startswith(q + "<"):
        return ""
    depth = 0
    for i in range(len(q), len(key)):
        depth += (key[i] == "<") - (key[i] == ">")
        if depth == 0:
            return key[len(q):i + 1]
    return ""


def conjuncts(cond):
    while cond[0] == "cast":
        cond = cond[2]
    return conjuncts(cond[2]) + conjuncts(cond[3]) if cond[0] == "bin" and cond[1] == "&&" else [cond]


class Analysis:
    def __init__(self, prog, opaque=None, inline=None, max_depth=12, max_paths=30000, zero_iterations=True,
                 fork_exceptions=True, max_steps=3000000, ignore_asserts=True, pure=None, qualify=False):
        self.prog = prog
        self.qualify = qualify      # keep the template arguments of called functions in terms
        self.opaque = opaque or (lambda q, key: False)
        self.inline = inline
        self.max_depth, self.max_paths, self.max_steps = max_depth, max_paths, max_steps
        self.zero = zero_iterations
        self.fork_exceptions = fork_exceptions
        self.ignore_asserts = ignore_asserts
        self.pure = pure or (lambda q, key: False)
        self.frame_no = 0
        self.suppress = 0
        self.lazy = set()
        self.steps = 0
        self.glob_cache = {}
        self.visited = set()
        self.events_total = 0
        self.try_depth = 0
        self.class_outputs = ()     # classes of which opaque functions in the repository update arguments passed by reference
        self.keeps = ()     # functions that do not write through their pointer arguments
        self.strict_catch = False   # unknown exceptions may be of a type that no typed handler but std::exception handles
        self.unroll = None          # (iterations, test of the bound of a loop): loops that are analysed by their first iterations
        self.streams = False        # output streams accumulate what is written to them
        self.unknown = {}

    # -------------------------------------------------------------- entry
    def run(self, fn, args=None, this=("this",), facts=None):
        """All paths of function record `fn`."""
        self.steps = 0
        st = State()
        if facts:
            for t, v in facts:
                st = self.assume(st, t, v)
        fr = self.new_frame(fn, ())
        fr["this"] = ("lv", ("m", this), ())
        for i, (name, vid, ty) in enumerate(fn["params"]):
            root = ("v", fr["id"], vid)
            if args is not None and i < len(args) and args[i] is not None:
                val = args[i]
            else:
                val = ("par", name if name else f"#{i}")
            if is_ref(ty):
                st.store[root] = ("ref", ("lv", ("m", val), ()))
            else:
                st.store[root] = val
        paths = []
        for s, out in self.run_body(fn, fr, st):
            paths.append(Path(s, out))
        return paths

    def new_frame(self, fn, stack):
        self.frame_no += 1
        return {"id": self.frame_no, "fn": fn, "stack": stack + (fn.get("key", "?"),), "this": None}

    def run_body(self, fn, fr, st):
        self.visited.add(fn["key"])
        results = [(st, None)]
        if fn.get("ctor"):
            for kind, name, init in fn.get("inits", []):
                nxt = []
                for s, o in results:
                    if o is not None:
                        nxt.append((s, o))
                        continue
                    for s2, v, x in self.ev(init, s, fr):
                        if x:
                            nxt.append((s2, x))
                            continue
                        if kind == "f":
                            lv = fr["this"]
                            self.write(s2, ("lv", lv[1], lv[2] + (("f", name),)), v)
                        else:
                            lv = fr["this"]
                            base = self.read(s2, lv)
                            merged = self.base_fields(base, v)
                            if merged is not base:
                                self.write(s2, lv, merged)
                        nxt.append((s2, None))
                results = nxt
        out = []
        for s, o in results:
            if o is not None:
                out.append((s, o))
                continue
            if "body" in fn:
                for s2, o2 in self.ex(fn["body"], s, fr):
                    if o2 is None:
                        o2 = ("ret", ("void",))
                    elif o2[0] in ("break", "cont"):
                        o2 = ("ret", ("void",))
                    out.append((s2, o2))
            else:
                out.append((s, ("ret", ("void",))))
        if len(out) > self.max_paths:
            raise TooComplex(f"more than {self.max_paths} paths in {fn['q']}")
        return out

    def base_fields(self, obj, base):
        """Object value `obj` whose base part was initialised to `base`."""
        if base[0] in ("new", "upd", "init"):
            return ("upd", obj, ("b",), base)
        return obj

    def tick(self, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooComplex("analysis budget exceeded")

    # -------------------------------------------------------------- store
    def read(self, st, lv):
        root, sels = lv[1], lv[2]
        v = st.store.get(root)
        if v is None:
            v = root[1] if root[0] == "m" else ("undef",) + root
        if v[0] == "ref":
            return self.read(st, ("lv", v[1][1], v[1][2] + sels))
        for s in sels:
            v = self.select(st, v, s)
        return v

    def select(self, st, v, sel):
        if v[0] == "upd":
            if v[2] == sel:
                return v[3]
            if v[2][0] == "b":
                r = self.select(st, v[3], sel)
                if r[0] != "fld" or r[1] != v[3]:
                    return r
                return self.select(st, v[1], sel)
            if v[2][0] == "f" and sel[0] == "f":
                return self.select(st, v[1], sel)
            if v[2][0] == "i" and sel[0] == "i":
                if const_value(v[2][1]) is not None and const_value(sel[1]) is not None:
                    return self.select(st, v[1], sel)
                return ("at", v, sel[1])
            if sel[0] != v[2][0]:
                return self.select(st, v[1], sel)
        if sel[0] == "f":
            if v[0] == "new":
                r = self.field_of_new(st, v, sel[1])
                if r is not None:
                    return r
            if v[0] == "init":
                cls = self.prog.classes.get(base_type(v[1]))
                if cls:
                    names = [f[0] for f in cls["fields"]]
                    if sel[1] in names and names.index(sel[1]) < len(v[2]):
                        return v[2][names.index(sel[1])]
            if sel[1][:1] == "<" and v[0] == "new" and len(v[3]) > int(sel[1][1:-1]) and base_type(v[1]).startswith(("std::tuple", "std::pair")):
                return v[3][int(sel[1][1:-1])]
            if v[0] == "tuple" and (sel[1] in ("first", "second") or sel[1][:1] == "<"):
                i = {"first": 0, "second": 1}[sel[1]] if sel[1] in ("first", "second") else int(sel[1][1:-1])
                if i < len(v[1]):
                    return v[1][i]
            return ("fld", v, sel[1])
        if sel[0] == "i":
            i = const_value(sel[1])
            if v[0] == "tuple" and i is not None and i < len(v[1]):
                return v[1][i]
            if v[0] == "init" and i is not None and 0 <= i < len(v[2]):
                return v[2][i]
            if v[0] == "new" and len(v[3]) == 1 and v[3][0][0] == "init" and i is not None and 0 <= i < len(v[3][0][2]):
                return v[3][0][2][i]
            if sel[1][0] == "ind" and sel[1][1] == ZERO and self.is_size_of(sel[1][2], v):
                return ("elem", v)
            return ("at", v, sel[1])
        return ("sel", v, sel)

    def is_size_of(self, n, v):
        return n[0] == "app" and n[1].split("::")[-1] == "size" and n[2][0] == v

    def field_of_new(self, st, v, name):
        _, cls, ckey, args = v[:4]
        fn = self.prog.functions.get(ckey)
        if fn is None or "inits" not in fn:
            return None
        if fn.get("copymove") and args:
            return self.select(st, args[0], ("f", name))
        if (id(v), name) in self.lazy:
            return None
        self.lazy.add((id(v), name))
        try:
            return self.field_of_new_(fn, cls, v, args, name, st)
        finally:
            self.lazy.discard((id(v), name))

    def field_of_new_(self, fn, cls, v, args, name, st):
        for kind, fname, init in fn["inits"]:
            if kind == "f" and fname != name:
                continue
            fr = self.new_frame(fn, ("lazy",))
            self.suppress += 1
            try:
                s = State()
                s.store[("t", "lazy", fr["id"])] = v
                fr["this"] = ("lv", ("t", "lazy", fr["id"]), ())
                for i, (pn, vid, ty) in enumerate(fn["params"]):
                    s.store[("v", fr["id"], vid)] = args[i] if i < len(args) else ("undef", pn)
                res = [(a, b, x) for a, b, x in self.ev(init, s, fr) if not x]
            except TooComplex:
                return None
            finally:
                self.suppress -= 1
            if len(res) != 1:
                if kind == "f":
                    return None
                continue
            if kind == "f":
                return res[0][1]
            r = self.select(st, res[0][1], ("f", name))
            if r[0] != "fld" or r[2] != name:
                return r
            if kind == "d":
                return r
        return None

    def write(self, st, lv, val):
        root, sels = lv[1], lv[2]
        v = st.store.get(root)
        if v is None:
            v = root[1] if root[0] == "m" else ("undef",) + root
        if v[0] == "ref":
            return self.write(st, ("lv", v[1][1], v[1][2] + sels), val)
        st.store[root] = self.update(st, v, sels, val)

    def update(self, st, v, sels, val):
        if not sels:
            return val
        sel = sels[0]
        inner = self.select(st, v, sel) if len(sels) > 1 else None
        new = self.update(st, inner, sels[1:], val) if len(sels) > 1 else val
        if v[0] == "init" and sel[0] == "i" and const_value(sel[1]) is not None and 0 <= const_value(sel[1]) < len(v[2]):
            items = list(v[2])
            items[const_value(sel[1])] = new
            return ("init", v[1], tuple(items))
        # drop an older update of the same place
        if v[0] == "upd" and v[2] == sel:
            v = v[1]
        return ("upd", v, sel, new)

    def var_lv(self, st, fr, vid):
        root = ("v", fr["id"], vid)
        v = st.store.get(root)
        if v is not None and v[0] == "ref":
            return v[1]
        return ("lv", root, ())

    # -------------------------------------------------------------- conditions
    def decide(self, st, t):
        """True / False / None"""
        if t[0] == "bool":
            return t[1]
        if t[0] == "not":
            r = self.decide(st, t[1])
            return None if r is None else not r
        if t[0] == "int":
            return t[1] != 0
        if t[0] == "null":
            return False
        if t in st.facts:
            return st.facts[t]
        if t[0] == "eq":
            c = st.eqc.get(t[1])
            if c is not None and is_const(t[2]):
                r = mk_eq(c, t[2])
                if r[0] == "bool":
                    return r[1]
            if t[2] == ZERO and st.facts.get(("lt", t[1], ZERO)) is True:
                return False
            if st.facts.get(("lt", t[1], t[2])) or st.facts.get(("lt", t[2], t[1])):
                return False
        if t[0] == "lt":
            if st.facts.get(("lt", t[2], t[1])) is True:
                return False
            e = mk_eq(t[1], t[2])
            if st.facts.get(e) is True:
                return False
            # constants known through equality
            a = st.eqc.get(t[1], t[1])
            b = st.eqc.get(t[2], t[2])
            ca, cb = const_value(a), const_value(b)
            if ca is not None and cb is not None:
                return ca < cb
            # interval facts against integer constants
            if cb is not None:
                for c in range(cb, cb + 3):
                    if st.facts.get(("lt", ("int", c), t[1])) is True:
                        return False
                if st.facts.get(("lt", t[1], ("int", cb - 1))) is True:
                    return True
            if ca is not None:
                if st.facts.get(("lt", t[2], ("int", ca))) is True:
                    return False
        return None

    def assume(self, st, t, val):
        s = st.fork()
        while t[0] == "not":
            t, val = t[1], not val
        s.facts[t] = val
        if t[0] == "eq" and val and is_const(t[2]):
            s.eqc[t[1]] = t[2]
        return s

    def branch(self, st, t):
        d = self.decide(st, t)
        if d is not None:
            return [(st, d)]
        return [(self.assume(st, t, True), True), (self.assume(st, t, False), False)]

    def cond(self, e, st, fr):
        """[(state, bool, exc)]"""
        k = e[0]
        if k == "bin" and e[1] in ("&&", "||"):
            out = []
            stop = e[1] == "||"
            for s, b, x in self.cond(e[2], st, fr):
                if x or b == stop:
                    out.append((s, b, x))
                else:
                    out += self.cond(e[3], s, fr)
            return out
        if k == "un" and e[1] == "!":
            return [(s, (not b), x) for s, b, x in self.cond(e[2], st, fr)]
        if k == "cast" and e[1] == "bool":
            return self.cond(e[2], st, fr)
        if k == "cond":
            out = []
            for s, b, x in self.cond(e[1], st, fr):
                if x:
                    out.append((s, b, x))
                else:
                    out += self.cond(e[2] if b else e[3], s, fr)
            return out
        out = []
        for s, v, x in self.ev(e, st, fr):
            if x:
                out.append((s, False, x))
                continue
            for s2, b in self.branch(s, self.truth(v)):
                out.append((s2, b, None))
        return out

    def truth(self, v):
        return v

    # -------------------------------------------------------------- expressions
    def seq(self, es, st, fr, modes=None):
        """Evaluates expressions in order: [(state, [values], exc)]; mode 'l' asks for an lvalue."""
        res = [(st, [], None)]
        for i, e in enumerate(es):
            nxt = []
            mode = modes[i] if modes and i < len(modes) else "v"
            for s, vs, x in res:
                if x:
                    nxt.append((s, vs, x))
                    continue
                if mode == "o":
                    evs = [(s, fr["this"], None)]
                else:
                    evs = self.lv(e, s, fr) if mode == "l" else self.ev(e, s, fr)
                for s2, v, x2 in evs:
                    nxt.append((s2, vs + [v], x2))
            res = nxt
        return res

    def ev(self, e, st, fr):
        """[(state, value, exc)]"""
        self.tick(st)
        if e is None:
            return [(st, ("void",), None)]
        k = e[0]
        m = getattr(self, "ev_" + {"un": "un", "?": "unk"}.get(k, k), None)
        if m is None:
            raise AnalysisError(f"unsupported expression {k} in {fr['fn']['q']}")
        return m(e, st, fr)

    def ev_int(self, e, st, fr):
        return [(st, ("int", int(e[1])), None)]

    def ev_float(self, e, st, fr):
        return [(st, ("float", e[1]), None)]

    def ev_str(self, e, st, fr):
        return [(st, ("str", e[1]), None)]

    def ev_bool(self, e, st, fr):
        return [(st, ("bool", bool(e[1])), None)]

    def ev_null(self, e, st, fr):
        return [(st, NULL, None)]

    def ev_zero(self, e, st, fr):
        t = e[1]
        if t == "bool":
            return [(st, FALSE, None)]
        if t.endswith("*"):
            return [(st, NULL, None)]
        m = re.match(r"(?:const )?(int|long|unsigned int|unsigned long|double|float) ?\[(\d+)\]$", t)
        if m and int(m.group(2)) <= 8:
            return [(st, ("init", t, (ZERO,) * int(m.group(2))), None)]
        return [(st, ZERO, None)]

    def ev_sizeof(self, e, st, fr):
        return [(st, ("app", "sizeof", (("str", e[2]),)), None)]

    def ev_enum(self, e, st, fr):
        return [(st, ("enum", e[1]), None)]

    def ev_fn(self, e, st, fr):
        return [(st, ("fn", e[1], e[2]), None)]

    def ev_fieldptr(self, e, st, fr):
        return [(st, ("fieldptr", e[1]), None)]

    def ev_typeid(self, e, st, fr):
        return [(st, ("app", "typeid", (("str", e[1]),)), None)]

    def ev_defarg(self, e, st, fr):
        return self.ev(e[1], st, fr)

    def ev_unk(self, e, st, fr):
        self.unknown[e[1]] = self.unknown.get(e[1], 0) + 1
        out = []
        for s, vs, x in self.seq(e[2], st, fr):
            out.append((s, ("unk", e[1], tuple(vs)), x))
        return out

    def ev_this(self, e, st, fr):
        return [(st, ("addr", fr["this"]), None)]

    def ev_var(self, e, st, fr):
        return [(st, self.read(st, self.var_lv(st, fr, e[2])), None)]

    def ev_glob(self, e, st, fr):
        return [(st, self.global_value(e[1]), None)]

    def global_value(self, name):
        if name in self.glob_cache:
            return self.glob_cache[name]
        self.glob_cache[name] = ("glob", name)
        g = self.prog.globals.get(name)
        if g and "init" in g and g["init"] is not None and "const" in g["type"]:
            fr = {"id": -1, "fn": {"q": "global " + name, "key": "g", "params": []}, "stack": (), "this": ("lv", ("m", ("this",)), ())}
            self.suppress += 1
            try:
                res = [r for r in self.ev(g["init"], State(), fr) if not r[2]]
                if len(res) == 1:
                    v = res[0][1]
                    if v[0] in ("str", "int", "enum", "bool", "float", "init", "new", "glob", "lambda"):
                        self.glob_cache[name] = v
            finally:
                self.suppress -= 1
        return self.glob_cache[name]

    def ev_tobool(self, e, st, fr):
        out = []
        for s, v, x in self.ev(e[2], st, fr):
            if x:
                out.append((s, v, x))
            elif e[1] == "p":
                if v[0] in ("addr", "lambda", "fn", "new", "str"):
                    out.append((s, TRUE, None))
                else:
                    out.append((s, neg(mk_eq(v, NULL)), None))
            else:
                if v[0] in ("eq", "lt", "not", "bool"):
                    out.append((s, v, None))
                else:
                    out.append((s, neg(mk_eq(v, ZERO)), None))
        return out

    def ev_cast(self, e, st, fr):
        out = []
        for s, v, x in self.ev(e[2], st, fr):
            if x:
                out.append((s, v, x))
                continue
            if e[1] == "bool" and v[0] not in ("eq", "lt", "not", "bool", "app", "fld"):
                v = neg(mk_eq(v, ZERO))
            out.append((s, v, x))
        return out

    def ev_stmtexpr(self, e, st, fr):
        return [(s, ("void",), o if o and o[0] in ("throw", "abort") else None) for s, o in self.ex(e[1], st, fr)]

    def ev_throw(self, e, st, fr):
        out = []
        for s, v, x in (self.ev(e[1], st, fr) if e[1] is not None else [(st, ("rethrow",), None)]):
            out.append((s, ("void",), x or ("throw", e[2], v, e[3], fr["fn"]["key"])))
        return out

    def ev_mem(self, e, st, fr):
        out = []
        for s, lv, x in self.lv(e, st, fr):
            out.append((s, self.as_value(s, lv) if not x else lv, x))
        return out

    def as_value(self, s, v):
        return self.read(s, v) if v[0] == "lv" else v

    def ev_idx(self, e, st, fr):
        return [(s, self.as_value(s, lv), x) for s, lv, x in self.lv(e, st, fr)]

    def ev_un(self, e, st, fr):
        op = e[1]
        if op == "!":
            return [(s, ("bool", b), x) for s, b, x in self.cond(e, st, fr)] if self.needs_fork(e[2]) else \
                [(s, neg(v) if not x else v, x) for s, v, x in self.ev(e[2], st, fr)]
        if op == "*":
            return [(s, self.as_value(s, lv), x) for s, lv, x in self.lv(e, st, fr)]
        if op == "&":
            out = []
            for s, lv, x in self.lv(e[2], st, fr):
                if not x and lv[0] != "lv":
                    lv = ("lv", ("m", lv), ())
                out.append((s, ("addr", lv), x))
            return out
        if op in ("++", "--", "p++", "p--"):
            out = []
            for s, lv, x in self.lv(e[2], st, fr):
                if x:
                    out.append((s, lv, x))
                    continue
                s = s.fork()
                old = self.as_value(s, lv)
                new = mk_bin("+" if "+" in op else "-", old, ("int", 1))
                if lv[0] == "lv":
                    self.write(s, lv, new)
                out.append((s, old if op[0] == "p" else new, None))
            return out
        out = []
        for s, v, x in self.ev(e[2], st, fr):
            if x:
                out.append((s, v, x))
            elif op == "-":
                c = const_value(v)
                out.append((s, ("int", -c) if c is not None else ("op", "neg", (v,)), None))
            elif op in ("+", "__extension__"):
                out.append((s, v, None))
            else:
                out.append((s, ("op", op, (v,)), None))
        return out

    def needs_fork(self, e):
        return e[0] == "bin" and e[1] in ("&&", "||")

    def ev_bin(self, e, st, fr):
        op = e[1]
        if op in ("&&", "||"):
            return [(s, ("bool", b), x) for s, b, x in self.cond(e, st, fr)]
        if op == ",":
            out = []
            for s, v, x in self.ev(e[2], st, fr):
                out += [(s, v, x)] if x else self.ev(e[3], s, fr)
            return out
        out = []
        for s, vs, x in self.seq([e[2], e[3]], st, fr):
            out.append((s, self.mk_bin(op, vs[0], vs[1]) if not x else ("void",), x))
        return out

    def mk_bin(self, op, a, b):
        # pointers to elements and iterators
        if op in ("==", "!=", "<", ">", "<=", ">=") and a[0] == "addr" and b == NULL or a == NULL and b[0] == "addr":
            return FALSE if op == "==" else TRUE
        return mk_bin(op, a, b)

    def ev_assign(self, e, st, fr):
        op = e[1]
        out = []
        for s, vs, x in self.seq([e[3], e[2]], st, fr, ["v", "l"]):
            if x:
                out.append((s, ("void",), x))
                continue
            val, lv = vs
            s = s.fork()
            if op != "=":
                val = mk_bin(op[:-1], self.as_value(s, lv), val)
            if lv[0] == "lv":
                self.write(s, lv, val)
            out.append((s, val, None))
        return out

    def ev_cond(self, e, st, fr):
        if self.ignore_asserts and e[3] and e[3][0] == "call" and e[3][5] == "__assert_fail":
            return [(st, ("void",), None)]
        out = []
        for s, b, x in self.cond(e[1], st, fr):
            if x:
                out.append((s, ("void",), x))
            else:
                out += self.ev(e[2] if b else e[3], s, fr)
        return out

    def ev_init(self, e, st, fr):
        out = []
        for s, vs, x in self.seq(e[2], st, fr):
            if x:
                out.append((s, ("void",), x))
                continue
            # T{call()} with elided copy shows up as a one-element list
            if len(vs) == 1 and not e[1].endswith("]") and not e[1].startswith("std::initializer_list"):
                cls = self.prog.classes.get(base_type(e[1]))
                if cls is None or not cls["fields"]:
                    out.append((s, vs[0], None))
                    continue
                if self.static_type(e[2][0]) == base_type(e[1]):
                    out.append((s, vs[0], None))
                    continue
            out.append((s, ("init", base_type(e[1]), tuple(vs)), None))
        return out

    def static_type(self, e):
        if e is None:
            return None
        if e[0] == "call":
            return base_type(e[6]) if len(e) > 6 else None
        if e[0] == "ctor":
            return base_type(e[2])
        if e[0] in ("init", "cast"):
            return base_type(e[1])
        return None

    def ev_new(self, e, st, fr):
        if e[2] is None:
            return [(st, ("app", "new", (("str", e[1]),)), None)]
        out = []
        for s, v, x in self.ev(e[2], st, fr):
            out.append((s, ("addr", ("lv", ("m", v), ())) if not x else v, x))
        return out

    def ev_delete(self, e, st, fr):
        return [(s, ("void",), x) for s, v, x in self.ev(e[1], st, fr)]

    def ev_inherited(self, e, st, fr):
        fn = fr["fn"]
        args = tuple(self.read(st, self.var_lv(st, fr, vid)) for _, vid, _ in fn["params"])
        return self.construct(e[1], e[2], [a for a in args], st, fr, 0)

    def ev_lambda(self, e, st, fr):
        caps = []
        res = [(st, [], None)]
        for name, vid, byref, init in e[3]:
            nxt = []
            for s, cs, x in res:
                if x:
                    nxt.append((s, cs, x))
                    continue
                if vid == 0:
                    nxt.append((s, cs + [(0, ("addr", fr["this"]))], None))
                elif byref:
                    for s2, lv, x2 in self.lv(init, s, fr):
                        nxt.append((s2, cs + [(vid, ("ref", lv) if lv[0] == "lv" else lv)], x2))
                else:
                    for s2, v, x2 in self.ev(init, s, fr):
                        nxt.append((s2, cs + [(vid, v)], x2))
            res = nxt
        name = e[1]
        if e[2] in self.prog.functions and len(self.prog.by_name.get(name + "::operator()", ())) > 1:
            name = e[2].split("::operator()")[0]         # one of the instances of a lambda in a template
        return [(s, ("lambda", name, tuple(cs)), x) for s, cs, x in res]

    # -------------------------------------------------------------- lvalues
    def lv(self, e, st, fr):
        """[(state, lvalue or value, exc)]"""
        self.tick(st)
        k = e[0] if e is not None else None
        if k == "var":
            return [(st, self.var_lv(st, fr, e[2]), None)]
        if k == "defarg":
            return self.lv(e[1], st, fr)
        if k == "mem":
            out = []
            if e[1] is None:
                return [(st, ("unk", "mem", ()), None)]
            if e[4]:  # arrow
                for s, v, x in self.ev(e[1], st, fr):
                    if x:
                        out.append((s, v, x))
                        continue
                    t = self.deref(v)
                    out.append((s, self.sub(t, ("f", e[2]), s), None))
                return out
            for s, b, x in self.lv(e[1], st, fr):
                out.append((s, self.sub(b, ("f", e[2]), s) if not x else b, x))
            return out
        if k == "idx":
            out = []
            for s, b, x in self.lv(e[1], st, fr):
                if x:
                    out.append((s, b, x))
                    continue
                for s2, i, x2 in self.ev(e[2], s, fr):
                    if x2:
                        out.append((s2, i, x2))
                        continue
                    out.append((s2, self.sub(self.array_base(s2, b), ("i", i), s2), None))
            return out
        if k == "un" and e[1] == "*":
            out = []
            for s, v, x in self.ev(e[2], st, fr):
                out.append((s, self.deref(v) if not x else v, x))
            return out
        if k == "un" and e[1] in ("++", "--"):
            out = []
            for s, v, x in self.ev(e, st, fr):
                out += [(s, v, x)] if x else self.lv(e[2], s, fr)
            return out
        if k == "assign":
            out = []
            for s, v, x in self.ev(e, st, fr):
                out += [(s, v, x)] if x else self.lv(e[2], s, fr)
            return out
        if k == "cond":
            out = []
            for s, b, x in self.cond(e[1], st, fr):
                out += [(s, ("void",), x)] if x else self.lv(e[2] if b else e[3], s, fr)
            return out
        if k == "cast":
            return self.lv(e[2], st, fr)
        if k == "call":
            return self.ev_call(e, st, fr, want_lv=True)
        if k == "bin" and e[1] == ",":
            out = []
            for s, v, x in self.ev(e[2], st, fr):
                out += [(s, v, x)] if x else self.lv(e[3], s, fr)
            return out
        return self.ev(e, st, fr)

    def array_base(self, st, b):
        """lvalue of the elements a pointer/array expression denotes"""
        v = self.as_value(st, b)
        if v[0] == "app" and v[1].split("::")[-1] in ("data", "c_str") and len(v[2]) == 1:
            return v[2][0]
        if v[0] == "addr":
            return v[1]
        return b

    def sub(self, b, sel, st):
        if b[0] == "lv":
            return ("lv", b[1], b[2] + (sel,))
        return self.select(st, b, sel)

    def deref(self, v):
        if v[0] == "addr":
            return v[1]
        if v[0] in ("iter",):
            return v
        if v[0] == "ind" and v[1][0] == "app" and v[1][1].split("::")[-1] in ("begin", "cbegin") :
            return ("elem", v[1][2][0])
        if v[0] == "app" and v[1].split("::")[-1] in ("begin", "cbegin") and len(v[2]) == 1:
            return ("at", v[2][0], ZERO)
        if v[0] == "deref_of":
            return v[1]
        return ("lv", ("m", ("deref", v)), ())

    # -------------------------------------------------------------- calls
    def ev_ctor(self, e, st, fr):
        key, ty, args = e[1], base_type(e[2]), e[3]
        copymove = e[5]
        if copymove and len(args) == 1 and not self.opaque_ctor(key, ty):
            return self.ev(args[0], st, fr)
        out = []
        for s, vs, x in self.seq(args, st, fr):
            if x:
                out.append((s, ("void",), x))
                continue
            out += self.construct(key, ty, vs, s, fr, e[4], list_init=e[6], nargs_explicit=sum(1 for a in args if a[0] != "defarg"))
        return out

    def opaque_ctor(self, key, ty):
        return False

    def construct(self, key, ty, vs, st, fr, line, list_init=False, nargs_explicit=None):
        n = len(vs) if nargs_explicit is None else nargs_explicit
        info = self.prog.callees.get(key, {})
        q = info.get("q", key.split("(")[0])
        if self.opaque(q, key):
            st = st.fork()
            val = ("new", ty, key, tuple(vs[:n] if n < len(vs) and not self.prog.functions.get(key) else vs))
            if ty.startswith(("std::unique_ptr<", "std::shared_ptr<")) and n:
                val = vs[0]
            self.event(st, fr, q, key, tuple(vs), line, val, False)
            return self.maybe_throws(st, val, q, line) if self.strict_catch else [(st, val, None)]
        if ty.startswith(STRINGISH):
            if n == 0:
                return [(st, ("str", ""), None)]
            if n == 1:
                return [(st, vs[0], None)]
        if ty.startswith(("std::function<", "std::reference_wrapper<")) and n == 1:
            return [(st, vs[0], None)]
        if ty.startswith(("std::unique_ptr<", "std::shared_ptr<")):
            return [(st, vs[0] if n else NULL, None)]
        if ty.startswith("std::optional<"):
            if n == 0 or vs[0] == ("glob", "std::nullopt"):
                return [(st, ("nullopt",), None)]
            if n == 1:
                return [(st, ("some", vs[0]) if vs[0][0] not in ("some", "nullopt") else vs[0], None)]
        if ty.startswith(("std::tuple<", "std::pair<")) and n > 1:
            return [(st, ("tuple", tuple(vs)), None)]
        if ty.startswith("std::vector<") and n == 1 and vs[0][0] == "init":
            return [(st, ("init", ty, vs[0][2]), None)]
        if ty.startswith("std::vector<") and n == 0:
            return [(st, ("init", ty, ()), None)]
        fn = self.prog.functions.get(key)
        val = ("new", ty, key, tuple(vs[:n] if n < len(vs) and not fn else vs))
        if fn is not None and fn.get("implicit") and "(std::initializer_list<" in key and vs and vs[0][0] == "init":
            return [(st, ("init", ty, vs[0][2]), None)]
        if fn is None:
            # inherited constructor of vector-like classes: Shape{...}
            if n == 1 and vs[0][0] == "init" and vs[0][1].startswith("std::initializer_list"):
                return [(st, ("init", ty, vs[0][2]), None)]
            return [(st, val, None)]
        if not self.may_inline(fn, fr):
            return [(st, val, None)]
        if fn.get("defaulted") or ("body" not in fn):
            if not fn.get("inits"):
                return [(st, val, None)]
        # effects of the constructor
        trivial = fn.get("body") in (None, ["{", []])
        sub = self.new_frame(fn, fr["stack"])
        st = st.fork()
        st.tmp += 1
        root = ("t", self.frame_no, st.tmp)
        st.store[root] = val
        sub["this"] = ("lv", root, ())
        self.bind(st, sub, fn, vs)
        out = []
        for s, o in self.run_body(fn, sub, st):
            if o[0] in ("throw", "abort"):
                out.append((s, ("void",), o))
                continue
            final = s.store.pop(root, val)
            self.drop_frame(s, sub)
            if trivial or not self.body_writes(fn):
                final = val
            out.append((s, final, None))
        return out

    def body_writes(self, fn):
        """Does the constructor body change a member?"""
        w = fn.get("_writes")
        if w is None:
            w = False

            def scan(x):
                nonlocal w
                if isinstance(x, list) and x:
                    if x[0] == "assign" or (x[0] == "un" and x[1] in ("++", "--", "p++", "p--")):
                        t = x[2]
                        while isinstance(t, list) and t and t[0] in ("idx", "cast"):
                            t = t[1] if t[0] == "idx" else t[2]
                        if isinstance(t, list) and t and t[0] == "mem":
                            w = True
                    if x[0] == "call" and isinstance(x[2], list) and x[2] and x[2][0] == "mem" and "const" not in x[1].rsplit(")", 1)[-1]:
                        w = True
                    for y in x:
                        scan(y)
            scan(fn.get("body"))
            fn["_writes"] = w
        return w

    def drop_frame(self, st, fr):
        pass

    def bind(self, st, sub, fn, vs):
        for i, (name, vid, ty) in enumerate(fn["params"]):
            v = vs[i] if i < len(vs) else ("undef", name)
            root = ("v", sub["id"], vid)
            if v[0] == "lv":
                st.store[root] = ("ref", v) if is_ref(ty) else self.read(st, v)
            else:
                st.store[root] = v

    def may_inline(self, fn, fr):
        if fn["key"] in fr["stack"] or len(fr["stack"]) > self.max_depth:
            return False
        if self.inline is not None and not self.inline(fn):
            return False
        return True

    def event(self, st, fr, q, key, args, line, res, hasobj):
        if self.suppress:
            return
        self.events_total += 1
        ev = Event(q, key, args, line, fr["fn"]["key"], fr["stack"], st.loops, res, dict(st.facts), hasobj)
        # what pointers among the arguments point to, at this moment
        ev.outs = {i: self.read(st, a[1]) for i, a in enumerate(args) if a[0] == "addr" and a[1][0] == "lv"}
        st.events = (st.events, ev)

    def result(self, st, q, args, serial=True):
        t = ("app", q, args)
        if serial and not self.suppress:
            n = 0
            e = st.events
            while e:
                ev = e[1]
                if ev.q == q and ev.args == args:
                    n += 1
                e = e[0]
            if n:
                t = ("app", q, args, n)
        return t

    def ev_icall(self, e, st, fr):
        out = []
        for s, vs, x in self.seq([e[1]] + e[2], st, fr):
            if x:
                out.append((s, ("void",), x))
                continue
            f = vs[0]
            out += self.call_value(f, vs[1:], s, fr, e[3])
        return out

    def call_value(self, f, args, st, fr, line, prefer=None):
        """Calls a function value: pointer, lambda, std::function."""
        if f[0] == "fn":
            return self.apply(f[2], f[1], None, None, args, st, fr, line)
        if f[0] == "lambda":
            fn = self.prog.functions.get(prefer) if prefer else None
            if fn is None:
                cands = [g for g in self.prog.by_name.get(f[1] + "::operator()", []) if "body" in g] or \
                        [g for k, g in self.prog.functions.items() if k.startswith(f[1] + "::operator()(") and "body" in g]
                fn = cands[0] if cands else None
            if fn is None:
                return self.unknown_call(f, args, st, fr, line)
            return self.enter_lambda(fn, f, args, st, fr)
        if f[0] == "addr":
            return self.call_value(self.read(st, f[1]), args, st, fr, line, prefer)
        return self.unknown_call(f, args, st, fr, line)

    def unknown_call(self, f, args, st, fr, line):
        av = (f,) + tuple(self.as_value(st, a) for a in args)
        st = st.fork()
        res = self.result(st, "call", av)
        self.event(st, fr, "call", "call", av, line, res, False)
        return self.maybe_throws(st, res, "call", line)

    def enter_lambda(self, fn, f, args, st, fr):
        if not self.may_inline(fn, fr):
            return [(st, ("app", "call", (f,) + tuple(self.as_value(st, a) for a in args)), None)]
        sub = self.new_frame(fn, fr["stack"])
        st = st.fork()
        sub["this"] = fr["this"]
        for vid, v in f[2]:
            if vid == 0:
                sub["this"] = v[1]
            else:
                st.store[("v", sub["id"], vid)] = v
        self.bind(st, sub, fn, args)
        return self.finish(fn, sub, st, want_lv=False)

    def finish(self, fn, sub, st, want_lv):
        out = []
        for s, o in self.run_body(fn, sub, st):
            if o[0] == "ret":
                v = o[1]
                if v[0] == "lv" and not want_lv:
                    v = self.read(s, v)
                out.append((s, v, None))
            else:
                out.append((s, ("void",), o))
        return out

    def ev_call(self, e, st, fr, want_lv=False):
        key, obj, args, line, q, rty = e[1], e[2], e[3], e[4], e[5], (e[6] if len(e) > 6 else "")
        last = q.split("::")[-1]
        info = self.prog.callees.get(key, {})
        ptypes = info.get("params", [])
        modes = []
        exprs = []
        is_method = obj is not None
        if is_method:
            exprs.append(obj)
            modes.append("o" if obj[0] == "this" else "l")
        for i, a in enumerate(args):
            exprs.append(a)
            ty = ptypes[i] if i < len(ptypes) else ""
            modes.append("l" if is_ref(ty) else "v")
        out = []
        for s, vs, x in self.seq(exprs, st, fr, modes):
            if x:
                out.append((s, ("void",), x))
                continue
            o = vs[0] if is_method else None
            rest = vs[1:] if is_method else vs
            for s2, v, x2 in self.apply(key, q, obj, o, rest, s, fr, line, want_lv=want_lv, arg_exprs=args, info=info, rty=rty):
                if not want_lv and v[0] == "lv":
                    v = self.read(s2, v)
                out.append((s2, v, x2))
        return out

    def apply(self, key, q, obj_expr, o, args, st, fr, line, want_lv=False, arg_exprs=None, info=None, rty=""):
        info = info if info is not None else self.prog.callees.get(key, {})
        last = q.split("::")[-1]
        val = lambda a: self.as_value(st, a)
        if q == "__assert_fail" or info.get("noreturn"):
            return [(st, ("void",), ("abort",))]
        # function objects
        if last == "operator()" and o is not None and info.get("cls", "").startswith("std::function<"):
            return self.call_value(val(o), args, st, fr, line)
        if last == "operator()" and o is not None:
            ov = val(o)
            if ov[0] in ("lambda", "fn") or (ov[0] == "addr" and not self.prog.functions.get(key)):
                return self.call_value(ov, args, st, fr, line, prefer=key)
        name = q
        if self.qualify and (self.pure(q, key) or self.opaque(q, key)):
            name += self.prog.functions[key].get("targs", "") if key in self.prog.functions else targs_in(q, key)
        if self.pure(q, key):
            return [(st, ("app", name, tuple(([val(o)] if o is not None else []) + [val(a) for a in args])), None)]
        if self.opaque(q, key):
            st = st.fork()
            av = tuple(([val(o)] if o is not None else []) + [val(a) for a in args])
            res = self.result(st, q, av)
            res = (res[0], name) + res[2:]
            self.event(st, fr, q, key, av, line, res, o is not None)
            self.outputs(st, q, av, args, info, arg_exprs, fr, res, scalars_only=info.get("inrepo", False))
            if o is not None and o[0] == "lv" and last == "operator=" and len(args) == 1 and q.startswith("pybind11::"):
                self.write(st, o, val(args[0]))
                return self.maybe_throws(st, val(o), q, line)
            if o is not None and o[0] == "lv" and info.get("cls") in self.class_outputs and not info.get("const", True):
                self.write(st, o, ("mut", last, av))
            return self.maybe_throws(st, res, q, line)
        fn = self.prog.functions.get(key)
        if fn is not None and ("body" in fn) and self.may_inline(fn, fr):
            sub = self.new_frame(fn, fr["stack"])
            st = st.fork()
            if o is not None:
                if o[0] != "lv":
                    st.tmp += 1
                    root = ("t", self.frame_no, st.tmp)
                    st.store[root] = o
                    o = ("lv", root, ())
                sub["this"] = o
            else:
                sub["this"] = fr["this"]
            self.bind(st, sub, fn, args)
            return self.finish(fn, sub, st, want_lv=is_ref(fn["ret"]))
        if fn is not None and fn.get("defaulted") and last == "operator==" and o is not None and len(args) == 1:
            return self.defaulted_equal(fn, val(o), val(args[0]), st)
        if fn is not None and fn.get("defaulted") and last == "operator=" and o is not None and o[0] == "lv" and len(args) == 1:
            st = st.fork()
            self.write(st, o, val(args[0]))
            return [(st, o, None)]
        if self.streams and last == "operator<<" and q.startswith("std::"):
            target, items = (o, args) if o is not None else (args[0], args[1:])
            if target[0] == "lv":
                st = st.fork()
                self.write(st, target, ("mut", "<<", (val(target),) + tuple(val(a) for a in items)))
                return [(st, target, None)]
        if q == "std::get" and len(args) == 1 and o is None and get_index(key) is not None and base_type((info.get("params") or [""])[0]).startswith("std::array"):
            i = ("i", ("int", get_index(key)))
            if args[0][0] == "lv" and want_lv:
                return [(st, self.sub(args[0], i, st), None)]
            return [(st, self.select(st, val(args[0]), i), None)]
        b = self.builtin(q, last, o, args, st, fr, line, dict(info, key=key), want_lv, arg_exprs)
        if b is not None:
            return b
        # external function
        av = tuple(([val(o)] if o is not None else []) + [val(a) for a in args])
        st = st.fork()
        res = ("app", q, av)
        self.outputs(st, q, av, args, info, arg_exprs, fr, res)
        if o is not None and o[0] == "lv" and not info.get("const", True) and not info.get("static") and last not in NONMUTATING \
                and not (info.get("inrepo")):
            self.write(st, o, ("mut", last, av))
        return self.maybe_throws(st, res, q, line) if info.get("inrepo") else [(st, res, None)]

    def defaulted_equal(self, fn, a, b, st):
        return [(st, mk_eq(a, b), None)]

    def maybe_throws(self, st, res, q, line):
        out = [(st, res, None)]
        if self.try_depth and self.fork_exceptions and not self.suppress:
            out.append((st.fork(), ("void",), ("throw", "implicit", ("thrown_by", q), line, q)))
        return out

    def outputs(self, st, q, av, args, info, arg_exprs, fr, res, scalars_only=False):
        """Unknown values for what a function without body writes through its arguments."""
        ptypes = info.get("params", [])
        if q in self.keeps:
            return
        for i, a in enumerate(args):
            ty = ptypes[i] if i < len(ptypes) else ""
            if nonconst_ref(ty) and a[0] == "lv":
                if i == 0 and q.startswith("std::ranges::__") and q[15:].split("_fn::")[0] in READS_RANGE:
                    continue
                if scalars_only and base_type(ty) not in self.class_outputs and not base_type(ty) in ("int", "long", "unsigned long", "unsigned long long", "double", "float", "bool", "unsigned int"):
                    continue
                if q.startswith("std::") and q.split("::")[-1] in ("begin", "end", "get", "data", "size", "rbegin", "rend", "ref", "addressof", "operator<<", "visit"):
                    continue
                self.write(st, a, ("out", i, res))
            elif nonconst_ptr(ty):
                v = self.as_value(st, a)
                if v[0] == "addr" and v[1][0] == "lv":
                    self.write(st, v[1], ("out", i, res))
                elif arg_exprs is not None and i < len(arg_exprs):
                    x = arg_exprs[i]
                    while x and x[0] in ("cast",):
                        x = x[2]
                    if x and x[0] == "call" and x[5].split("::")[-1] in ("data", "get") and x[2] is not None:
                        for s2, l, xx in self.lv(x[2], st, fr):
                            if l[0] == "lv" and (l[1][0] in ("v", "t") or l[1] == ("m", ("this",)) and l[2]):
                                self.write(st, l, ("out", i, res))
                            break
                    elif x and x[0] == "un" and x[1] == "&":
                        pass
            elif (q in WRITES_THROUGH and i == WRITES_THROUGH[q] or i == 1 and q.startswith("std::ranges::__") and q[15:].split("_fn::")[0] in ("transform", "copy", "copy_if")) and arg_exprs is not None and i < len(arg_exprs):
                x = arg_exprs[i]
                while x and x[0] in ("cast",):
                    x = x[2]
                # the start of the range may be moved: begin + n, next(begin, n)
                while x and (x[0] == "call" and x[5].split("::")[-1] in ("operator+", "operator-", "next") and (x[2] is not None or x[3]) or x[0] == "ctor" and len(x[3] or ()) == 1 and "iterator" in x[2]):
                    x = x[3][0] if x[0] == "ctor" or x[2] is None else x[2]
                    while x and x[0] in ("cast",):
                        x = x[2]
                if x and x[0] == "call" and x[5].split("::")[-1] in ("begin", "data", "rbegin"):
                    x = x[2] if x[2] is not None else x[3][0] if isinstance(x[3], (list, tuple)) and x[3] else None
                    for s2, l, xx in self.lv(x, st, fr) if x else ():
                        if l[0] == "lv" and l[1][0] in ("v", "t"):
                            self.write(st, l, ("out", i, res))
                        break

    def builtin(self, q, last, o, args, st, fr, line, info, want_lv, arg_exprs):
        val = lambda a: self.as_value(st, a)
        n = len(args)
        if q in IDENTITY and n == 1:
            return [(st, args[0], None)]
        if q.startswith("std::ranges::__") and q[15:].split("_fn::")[0] in ("for_each", "any_of", "all_of", "none_of"):
            # a range and a function, or a pair of iterators and a function, possibly with a projection
            f = next((i for i, a in enumerate(args) if val(a)[0] in ("lambda", "fn")), None)
            if f in (1, 2):
                q, o, args = "std::" + q[15:].split("_fn::")[0], None, list(args[:f + 1])
                if f == 1:
                    args = [("app", "begin", (val(args[0]),)), ("app", "end", (val(args[0]),)), args[1]]
                n = len(args)
        if q == "std::get" and n == 1 and o is None:
            i = tuple_index(info, info.get("key"))
            if i is None:
                return None
            if args[0][0] == "lv" and want_lv:
                return [(st, ("lv", args[0][1], args[0][2] + (("f", f"<{i}>"),)), None)]
            return [(st, self.select(st, val(args[0]), ("f", f"<{i}>")), None)]
        if q in ("std::make_unique", "std::make_shared"):
            ret = info.get("ret", "")
            t = ret[ret.index("<") + 1:].split(", std::default_delete")[0] if "<" in ret else "?"
            if t.endswith(">") and t.count("<") < t.count(">"):
                t = t[:-1]
            return self.make_object(t, [val(a) for a in args], st, fr, line)
        if q in ("std::make_tuple", "std::make_pair", "std::tie", "std::forward_as_tuple"):
            return [(st, ("tuple", tuple(val(a) for a in args)), None)]
        if o is not None:
            cls = info.get("cls", "")
            if cls.startswith(SMART):
                if last in ("operator*", "operator->", "value", "get") and n == 0:
                    v = val(o)
                    if v[0] == "some":
                        return [(st, v[1], None)] if last in ("operator*", "value") else [(st, ("addr", ("lv", ("m", v[1]), ())), None)]
                    if cls.startswith("std::optional") or cls.startswith("std::reference_wrapper"):
                        t = ("deref", v) if not cls.startswith("std::reference_wrapper") else v
                        if last in ("operator*", "value", "get"):
                            return [(st, ("lv", ("m", t), ()) if want_lv else t, None)]
                        return [(st, ("addr", ("lv", ("m", t), ())), None)]
                    if last == "operator*":
                        t = self.deref(v)
                        return [(st, t if want_lv else self.as_value(st, t), None)]
                    return [(st, v, None)]
                if last in ("operator bool", "has_value", "operator!"):
                    v = val(o)
                    if v[0] in ("some", "new", "addr"):
                        r = TRUE
                    elif v[0] == "nullopt" or v == NULL:
                        r = FALSE
                    elif cls.startswith("std::optional"):
                        r = ("app", "has_value", (v,))
                    else:
                        r = neg(mk_eq(v, NULL))
                    return [(st, neg(r) if last == "operator!" else r, None)]
                if last == "operator=" and n == 1 and o[0] == "lv":
                    st = st.fork()
                    v = val(args[0])
                    if cls.startswith("std::optional") and v[0] not in ("some", "nullopt"):
                        v = ("nullopt",) if v == ("glob", "std::nullopt") else ("some", v)
                    self.write(st, o, v)
                    return [(st, o, None)]
                if last == "reset" and o[0] == "lv":
                    st = st.fork()
                    self.write(st, o, val(args[0]) if args else NULL)
                    return [(st, ("void",), None)]
                if last == "emplace" and o[0] == "lv":
                    st = st.fork()
                    t = cls[cls.index("<") + 1:-1]
                    out = []
                    for s, v, x in self.make_object(t, [val(a) for a in args], st, fr, line, raw=True):
                        if not x:
                            self.write(s, o, ("some", v))
                        out.append((s, v, x))
                    return out
            if last == "operator[]" or last == "at":
                if n == 1:
                    i = val(args[0])
                    t = self.sub(o, ("i", i), st)
                    return [(st, t if want_lv or t[0] != "lv" else self.read(st, t), None)]
            if last in ("front", "back") and n == 0 and cls.startswith("std::"):
                i = ZERO if last == "front" else ("last",)
                t = self.sub(o, ("i", i), st)
                return [(st, t if want_lv or t[0] != "lv" else self.read(st, t), None)]
            if last in ("begin", "cbegin", "end", "cend", "data", "c_str", "size", "empty", "length") and n == 0:
                v = val(o)
                name = {"cbegin": "begin", "cend": "end", "length": "size"}.get(last, last)
                if name == "empty":
                    return [(st, self.empty(v), None)]
                if name == "size":
                    return [(st, self.size(v), None)]
                if name == "c_str" or (name == "data" and v[0] == "str"):
                    return [(st, v, None)]
                if name == "data" and o[0] == "lv" and not info.get("const", True):
                    return [(st, ("app", "data", (v,)), None)]
                return [(st, ("app", name, (v,)), None)]
            if last in ("string", "native", "generic_string", "str") and "path" in cls and n == 0:
                return [(st, val(o), None)]
            if last == "operator=" and n == 1 and o[0] == "lv" and not info.get("inrepo"):
                st = st.fork()
                self.write(st, o, val(args[0]))
                return [(st, o, None)]
            if last == "operator*" and n == 0 and not info.get("inrepo"):
                t = self.deref(val(o))
                return [(st, t if want_lv or t[0] != "lv" else self.read(st, t), None)]
            if last == "operator->" and n == 0 and not info.get("inrepo"):
                t = self.deref(val(o))
                return [(st, ("addr", t) if t[0] == "lv" else ("addr", ("lv", ("m", t), ())), None)]
            if last in ("operator++", "operator--", "operator+=", "operator-=") and o[0] == "lv" and not info.get("inrepo"):
                st = st.fork()
                old = val(o)
                d = ("int", 1) if n == 0 or last in ("operator++", "operator--") else val(args[0])
                new = mk_bin("+" if "+" in last else "-", old, d)
                self.write(st, o, new)
                return [(st, o if not (n == 1 and last in ("operator++", "operator--")) else old, None)]
            if last in ("operator+", "operator-") and n == 1 and "iterator" in info.get("cls", ""):
                return [(st, mk_bin(last[-1], val(o), val(args[0])), None)]
            if last in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and n == 1 and not info.get("inrepo"):
                return [(st, self.mk_bin(last[8:], val(o), val(args[0])), None)]
            if last in ("push_back", "emplace_back") and n == 1 and o[0] == "lv" and not info.get("inrepo"):
                v = val(o)
                st = st.fork()
                if v[0] == "new" and v[1].startswith("std::vector") and not v[3]:
                    v = ("init", v[1], ())
                if v[0] == "init" and len(v[2]) < 40:
                    self.write(st, o, ("init", v[1], v[2] + (val(args[0]),)))
                else:
                    self.write(st, o, ("mut", "push_back", (v, val(args[0]))))
                return [(st, ("void",), None)]
        else:
            if q in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::size", "std::empty", "std::data", "std::ranges::begin", "std::ranges::end") and n == 1:
                name = {"cbegin": "begin", "cend": "end"}.get(last, last)
                v = val(args[0])
                if name == "empty":
                    return [(st, self.empty(v), None)]
                if name == "size":
                    return [(st, self.size(v), None)]
                return [(st, ("app", name, (v,)), None)]
            if q.startswith(("std::", "__gnu_cxx::")) and last in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and n == 2:
                a, b = val(args[0]), val(args[1])
                if b == ("glob", "std::nullopt"):
                    h = TRUE if a[0] == "some" else FALSE if a[0] == "nullopt" else ("app", "has_value", (a,))
                    return [(st, neg(h) if last == "operator==" else h, None)]
                if a[0] == "some" and b[0] == "some":
                    a, b = a[1], b[1]
                return [(st, self.mk_bin(last[8:], a, b), None)]
            if q == "std::operator+" and n == 2:
                a, b = val(args[0]), val(args[1])
                if a[0] == "str" and b[0] == "str":
                    return [(st, ("str", a[1] + b[1]), None)]
                return [(st, mk_bin("+", a, b) if not (a[0] == "str" or b[0] == "str") else ("cat", self.cat(a) + self.cat(b)), None)]
            if last in ("operator+", "operator-") and n == 2 and "iterator" in q + (info.get("params") or [""])[0]:
                return [(st, mk_bin(last[-1], val(args[0]), val(args[1])), None)]
            if q in ("std::for_each", "std::ranges::for_each", "std::ranges::__for_each_fn::operator()"):
                return self.algorithm(args, st, fr, line)
            if q in ("std::all_of", "std::any_of", "std::none_of", "std::find_if", "std::transform", "std::count_if", "std::copy", "std::accumulate"):
                if args and val(args[-1])[0] in ("lambda", "fn"):
                    f = val(args[-1])
                    rng = val(args[0])
                    if rng[0] == "app" and rng[1] == "begin":
                        rng = rng[2][0]
                    if q in ("std::all_of", "std::any_of", "std::none_of"):
                        return self.quantifier(q, rng, f, st, fr, line)
                    return None
        return None

    def cat(self, t):
        return t[1] if t[0] == "cat" else (t,)

    def size(self, v):
        if v[0] == "init":
            return ("int", len(v[2]))
        if v[0] == "str":
            return ("int", len(v[1]))
        if v[0] == "upd" and v[2][0] == "i":
            return self.size(v[1])
        if v[0] == "new" and len(v) > 3 and v[3] and self.prog.functions.get(v[2], {"implicit": 1}).get("implicit"):
            a = v[3]
            sig = v[2].split("(", 1)[-1]
            if sig.startswith(("unsigned long,", "size_type,", "unsigned long)", "size_type)")):
                return a[0]
            if len(a) > 1 and a[0][0] == "app" and a[1][0] == "app" and (a[0][1], a[1][1]) in (("begin", "end"), ("cbegin", "cend")) and a[0][2] == a[1][2] and not DISTINCT.match(v[1]):
                return self.size(a[0][2][0])
        return ("app", "size", (v,))

    def empty(self, v):
        return mk_eq(self.size(v), ZERO)

    def quantifier(self, q, rng, f, st, fr, line):
        """all_of/any_of/none_of: the predicate's paths on an arbitrary element."""
        out = []
        empty_value = q != "std::any_of"
        if rng[0] == "init" and len(rng[2]) <= 8:
            # known elements: one after the other
            todo = [(st, 0)]
            while todo:
                s, i = todo.pop()
                if i == len(rng[2]):
                    out.append((s, ("bool", empty_value), None))
                    continue
                for s2, v, x in self.call_value(f, [rng[2][i]], s, fr, line):
                    if x:
                        out.append((s2, v, x))
                        continue
                    for s3, b in self.branch(s2, v):
                        if b == (q != "std::all_of"):
                            out.append((s3, ("bool", q == "std::any_of"), None))
                        else:
                            todo.append((s3, i + 1))
            return out
        if self.zero:
            out.append((st.mark("none", rng), ("bool", empty_value), None))
        s = st.mark("some", rng)
        s.loops = s.loops + (rng,)
        for s2, v, x in self.call_value(f, [("elem", rng)], s, fr, line):
            s2 = s2.fork()
            s2.loops = st.loops
            if x:
                out.append((s2, v, x))
                continue
            for s3, b in self.branch(s2, v):
                if q == "std::any_of":
                    out.append((s3, ("bool", b), None))
                elif q == "std::all_of":
                    out.append((s3, ("bool", b), None))
                else:
                    out.append((s3, ("bool", not b), None))
        return out

    def algorithm(self, args, st, fr, line):
        vals = [self.as_value(st, a) for a in args]
        f = vals[-1]
        rng = vals[0]
        if rng[0] == "app" and rng[1] == "begin":
            rng = rng[2][0]
        out = []
        if self.zero:
            out.append((st.mark("none", rng), ("void",), None))
        s = st.mark("some", rng)
        s.loops = s.loops + (rng,)
        for s2, v, x in self.call_value(f, [("elem", rng)], s, fr, line):
            s2 = s2.fork()
            s2.loops = st.loops
            out.append((s2, v, x))
        return out

    def make_object(self, t, vs, st, fr, line, raw=False):
        """An object of type t constructed from values by a forwarding library function."""
        ctors = [f for k, f in self.prog.functions.items() if f.get("ctor") and f.get("cls") == t and len(f["params"]) == len(vs)]
        ctors = [f for f in ctors if not f.get("copymove")] or ctors
        wrap = (lambda v: v) if raw else (lambda v: ("addr", ("lv", ("m", v), ())))
        if vs and len(vs) == 1 and vs[0][0] in ("new", "init") and vs[0][1] == t:
            return [(st, wrap(vs[0]), None)]
        if len(ctors) >= 1:
            out = []
            for s, v, x in self.construct(ctors[0]["key"], t, vs, st, fr, line):
                out.append((s, wrap(v) if not x else v, x))
            return out
        return [(st, wrap(("new", t, "", tuple(vs))), None)]

    # -------------------------------------------------------------- statements
    def ex(self, s, st, fr):
        """[(state, outcome or None)]"""
        self.tick(st)
        if s is None:
            return [(st, None)]
        k = s[0]
        if k == "{":
            return self.ex_seq(s[1], st, fr)
        if k == "expr":
            return [(a, x) for a, v, x in (self.lv(s[1], st, fr) if s[1] and s[1][0] == "call" else self.ev(s[1], st, fr))]
        if k == "decl":
            res = [(st, None)]
            for d in s[1]:
                nxt = []
                for a, o in res:
                    nxt += [(a, o)] if o else self.declare(d, a, fr)
                res = nxt
            return res
        if k == "ret":
            if s[1] is None:
                return [(st, ("ret", ("void",)))]
            out = []
            ref = is_ref(fr["fn"].get("ret", ""))
            for a, v, x in (self.lv(s[1], st, fr) if ref else self.ev(s[1], st, fr)):
                out.append((a, x if x else ("ret", v)))
            return out
        if k == "if":
            out = []
            for a, o in self.pre(s[1], s[2], st, fr):
                if o:
                    out.append((a, o))
                    continue
                for b, c, x in self.cond(s[3], a, fr):
                    if x:
                        out.append((b, x))
                    elif c:
                        out += self.ex(s[4], b, fr)
                    else:
                        out += self.ex(s[5], b, fr)
            return self.cap(out, fr)
        if k == "switch":
            return self.ex_switch(s, st, fr)
        if k == "range":
            return self.ex_range(s, st, fr)
        if k == "for":
            return self.ex_for(s, st, fr)
        if k == "while":
            return self.ex_while(s[2], s[3], None, st, fr, condvar=s[1])
        if k == "do":
            out = []
            for a, o in self.ex(s[2], self.havoc_state([s[2]], st, fr), fr):
                out.append((a, None if o and o[0] in ("break", "cont") else o))
            return out
        if k == "try":
            return self.ex_try(s, st, fr)
        if k == "break":
            return [(st, ("break",))]
        if k == "cont":
            return [(st, ("cont",))]
        raise AnalysisError(f"unsupported statement {k} in {fr['fn']['q']}")

    def cap(self, out, fr):
        if len(out) > self.max_paths:
            raise TooComplex(f"more than {self.max_paths} paths in {fr['fn']['q']}")
        return out

    def pre(self, init, condvar, st, fr):
        res = [(st, None)]
        for part in (init, condvar):
            if part is None:
                continue
            nxt = []
            for a, o in res:
                nxt += [(a, o)] if o else self.ex(part, a, fr)
            res = nxt
        return res

    def ex_seq(self, stmts, st, fr):
        res = [(st, None)]
        done = []
        for s in stmts:
            nxt = []
            for a, o in res:
                if o:
                    done.append((a, o))
                else:
                    nxt += self.ex(s, a, fr)
            res = [(a, o) for a, o in nxt if o is None]
            done += [(a, o) for a, o in nxt if o is not None]
            if not res:
                break
        return self.cap(done + res, fr)

    def declare(self, d, st, fr):
        if d[0] == "v":
            _, name, vid, ty, init, line, static = d
            root = ("v", fr["id"], vid)
            if init is None:
                st = st.fork()
                st.store[root] = ("undef", name)
                return [(st, None)]
            out = []
            if is_ref(ty):
                for a, v, x in self.lv(init, st, fr):
                    a = a.fork()
                    a.store[root] = ("ref", v) if v[0] == "lv" else v
                    out.append((a, x))
            else:
                for a, v, x in self.ev(init, st, fr):
                    a = a.fork()
                    a.store[root] = v
                    out.append((a, x))
            return out
        # structured binding
        _, binds, vid, ty, init, line = d
        out = []
        for a, v, x in self.ev(init, st, fr):
            a = a.fork()
            if not x:
                self.destructure(a, fr, binds, v)
            out.append((a, x))
        return out

    def destructure(self, st, fr, binds, v):
        for i, (name, vid) in enumerate(binds):
            if v[0] == "tuple" and i < len(v[1]):
                t = v[1][i]
            elif v[0] == "init" and i < len(v[2]):
                t = v[2][i]
            else:
                t = ("at", v, ("int", i))
            st.store[("v", fr["id"], vid)] = t

    def ex_switch(self, s, st, fr):
        out = []
        for a, o in self.pre(s[1], s[2], st, fr):
            if o:
                out.append((a, o))
                continue
            for b, v, x in self.ev(s[3], a, fr):
                if x:
                    out.append((b, x))
                    continue
                groups = s[4]
                labels = [[l for l in g[0] if l[0] == "case"] for g in groups]
                default = next((i for i, g in enumerate(groups) if any(l[0] == "default" for l in g[0])), None)
                cur = b
                live = True
                for i, g in enumerate(groups):
                    if not live:
                        break
                    for l in labels[i]:
                        lv = self.ev(l[1], cur, fr)[0][1]
                        atom = mk_eq(v, lv)
                        d = self.decide(cur, atom)
                        if d is True or d is None:
                            taken = cur if d is True else self.assume(cur, atom, True)
                            out += self.run_groups(groups, i, taken, fr)
                            if d is True:
                                live = False
                                break
                        if d is None:
                            cur = self.assume(cur, atom, False)
                if live:
                    if self.exhausted(v, s[6], cur):
                        if default is None:
                            continue
                        # a default label behind all enumerators: still reachable for invalid values
                    if default is not None:
                        out += self.run_groups(groups, default, cur, fr)
                    else:
                        out.append((cur, None))
        return self.cap(out, fr)

    def exhausted(self, v, ty, st):
        en = self.prog.enums.get(base_type(ty))
        if not en:
            return False
        return all(st.facts.get(mk_eq(v, ("enum", c[1]))) is False for c in en["values"])

    def run_groups(self, groups, i, st, fr):
        res = [(st, None)]
        out = []
        for g in groups[i:]:
            nxt = []
            for a, o in res:
                for b, p in self.ex_seq(g[1], a, fr):
                    if p is None:
                        nxt.append((b, None))
                    elif p[0] == "break":
                        out.append((b, None))
                    else:
                        out.append((b, p))
            res = nxt
            if not res:
                break
        return out + res

    # ---- loops
    def modified(self, body):
        """Variables a statement may change."""
        key = id(body)
        r = getattr(self, "_mod", None)
        if r is None:
            r = self._mod = {}
        if key in r:
            return r[key]
        mods = set()
        decl = set()

        def target(x):
            while isinstance(x, list) and x:
                if x[0] == "var":
                    mods.add(x[2])
                    return
                if x[0] == "mem" or x[0] == "idx":
                    x = x[1]
                elif x[0] in ("cast", "un"):
                    x = x[2]
                elif x[0] == "call" and x[2] is not None:
                    x = x[2]
                else:
                    return

        def scan(x):
            if isinstance(x, list) and x:
                k = x[0]
                if k == "assign":
                    target(x[2])
                elif k == "un" and x[1] in ("++", "--", "p++", "p--"):
                    target(x[2])
                elif k == "call" and x[2] is not None and isinstance(x[2], list):
                    info = self.prog.callees.get(x[1], {})
                    last = x[5].split("::")[-1]
                    if not info.get("const", True) and not info.get("static") and last not in NONMUTATING and not info.get("inrepo"):
                        target(x[2])
                if k == "v" and len(x) > 3 and isinstance(x[2], int):
                    decl.add(x[2])
                for y in x:
                    scan(y)
        scan(body)
        r[key] = mods - decl
        return r[key]

    def havoc_state(self, body, st, fr, skip=()):
        """The state after any number of iterations of a loop with these parts."""
        s = st.fork()
        for vid in self.modified_in(body):
            if vid in skip:
                continue
            lv = self.var_lv(s, fr, vid)
            if lv[1] in s.store or lv[1][0] == "m":
                old = self.read(s, lv)
                if old[0] == "undef":
                    continue
                self.write(s, lv, ("phi", old))
        return s

    def loop_body(self, body, st, fr, context):
        """One iteration with arbitrary loop state; [(state, outcome)] after the loop."""
        s = st.mark("some", context)
        outer = s.loops
        s.loops = outer + (context,)
        out = []
        for a, o in self.ex(body, s, fr):
            a = a.fork() if o is None or o[0] == "cont" else a.mark("break", context)
            a.loops = outer
            if o is None or o[0] in ("break", "cont"):
                out.append((a, None))
            else:
                out.append((a, o))
        return out

    def ex_range(self, s, st, fr):
        out = []
        var = s[1]
        ref = var[0] == "v" and is_ref(var[3])
        for a, lv, x in self.lv(s[2], st, fr):
            if x:
                out.append((a, x))
                continue
            rng = self.as_value(a, lv)
            if rng[0] == "init" and 0 < len(rng[2]) <= 12 and not self.modified(s[3]):
                # known elements: one iteration each
                res = [(a, None)]
                for item in rng[2]:
                    nxt = []
                    for b, o in res:
                        if o:
                            nxt.append((b, o))
                            continue
                        b = self.bind_loop(var, item, b, fr)
                        nxt += self.loop_body(s[3], b, fr, rng)
                    res = nxt
                out += res
                continue
            if rng[0] == "init" and not rng[2]:
                out.append((a, None))
                continue
            size = ("app", "size", (rng,))
            if self.unroll and self.unroll[1](size):
                states = [a]
                for k in range(self.unroll[0] + 1):
                    after = []
                    for b in states:
                        for c, t in self.branch(b, ("lt", ("int", k), size)):
                            if not t:
                                out.append((c, None))
                            elif k < self.unroll[0]:
                                c = self.bind_loop(var, ("at", rng, ("int", k)), c, fr)
                                for d, o in self.ex(s[3], c, fr):
                                    (after.append(d) if o is None or o[0] == "cont" else out.append((d, None if o[0] == "break" else o)))
                    states = [x for x, _ in self.cap([(x, None) for x in after], fr)]
                continue
            if self.zero:
                out.append((a.mark("none", rng), None))
            b = self.havoc_state([s[3]], a, fr)
            b = self.bind_loop(var, ("elem", rng), b, fr)
            out += self.loop_body(s[3], b, fr, rng)
        return self.cap(out, fr)

    def bind_loop(self, var, item, st, fr):
        st = st.fork()
        if var[0] == "v":
            st.store[("v", fr["id"], var[2])] = item
        else:
            self.destructure(st, fr, var[1], item)
        return st

    def ex_for(self, s, st, fr):
        out = []
        _, init, cond, inc, body, line = s
        for a, o in self.pre(init, None, st, fr):
            if o:
                out.append((a, o))
                continue
            out += self.loop(cond, inc, body, a, fr)
        return self.cap(out, fr)

    def inductions(self, cond, inc, body):
        """Variables changed by one step per iteration, by the increment or by a statement of the body itself: {variable: step expression}"""
        def parts(x):
            while x and x[0] == "cast":
                x = x[2]
            return parts(x[2]) + parts(x[3]) if x and x[0] == "bin" and x[1] == "," else [x] if x else []

        def step(x):
            while x[0] == "cast":
                x = x[2]
            if x[0] == "un" and x[1] in ("++", "p++"):
                t, e = x[2], ["int", "1"]
            elif x[0] == "assign" and x[1] == "+=":
                t, e = x[2], x[3]
            elif x[0] == "call" and x[5].split("::")[-1] == "operator++" and x[2]:
                t, e = x[2], ["int", "1"]
            elif x[0] == "assign" and x[1] == "=" and x[3][0] in ("bin", "cast"):
                t, e = x[2], x[3]
                while e[0] == "cast":
                    e = e[2]
                if e[0] != "bin" or e[1] != "+":
                    return None
                same = [i for i in (2, 3) if unwrapped(e[i])[:1] == ["var"] and t[0] == "var" and unwrapped(e[i])[2] == t[2]]
                if len(same) != 1:
                    return None
                e = e[5 - same[0]]
            else:
                return None
            return (t[2], e) if t[0] == "var" else None

        def unwrapped(x):
            while x[0] == "cast":
                x = x[2]
            return x

        def mentions(x, vids):
            return isinstance(x, list) and (x[:1] == ["var"] and len(x) > 2 and x[2] in vids or any(mentions(y, vids) for y in x))

        stmts = body[1] if body and body[0] == "{" else [body]
        here = [("inc", x) for x in parts(inc)] + [("body", x[1]) for x in stmts if isinstance(x, list) and x and x[0] == "expr" and isinstance(x[1], list)]
        all_mods = self.modified_in([inc, body, cond])
        out = {}
        for where, x in here:
            r = step(x)
            if r is None or r[0] in out and out.update({r[0]: None}) is None:
                continue
            rest = [y for w, y in here if y is not x] + [y for y in stmts if not (isinstance(y, list) and y and y[0] == "expr")] + [cond]
            ok = r[0] not in self.modified_in(rest) and not mentions(r[1], all_mods) and not (where == "body" and self.continues(body))
            out[r[0]] = (where, r[1]) if ok else None
        return {k: v for k, v in out.items() if v}

    def modified_in(self, parts):
        """Variables that statements may change, also those declared by them."""
        out = set()
        for x in parts:
            if x:
                out |= self.modified(x)
        return out

    def continues(self, x):
        return isinstance(x, list) and (x[:1] == ["cont"] or x[:1] == ["continue"] or any(self.continues(y) for y in x))

    def loop(self, cond, inc, body, a, fr, condvar=None):
        """A loop with a condition, analysed as no iteration and as one iteration at an arbitrary position."""
        out = []
        steps = self.inductions(cond, inc, body)
        incs = self.modified(inc) if inc else set()
        b = a.fork()
        context = ("loop",)
        units = {v for v, (_, e) in steps.items() if e == ["int", "1"]}
        bound = self.loop_bound(cond, units | incs, a, fr) if cond is not None and (units or incs) else None
        position = None
        early = False       # the loop may end before the bound is reached
        if bound is None and cond is not None and units:
            bound = next((x for x in (self.loop_bound(c, units, a, fr) for c in conjuncts(cond)) if x), None)
            early = bound is not None
        skip = []
        if bound and bound[0] in units:
            lv = self.var_lv(b, fr, bound[0])
            start = self.read(b, lv)
            t = position = ("ind", start, bound[1])
            if start[0] == "app" and start[1] == "begin":
                context = start[2][0]
                position = None
            elif start == ZERO and bound[1][0] == "app" and bound[1][1] == "size":
                context = bound[1][2][0]
            else:
                context = t
            if early:
                context = ("loop",)
            self.write(b, lv, t)
            skip.append(bound[0])
        else:
            bound = None
        if self.unroll and (self.unroll[1](bound[1]) if bound else self.unroll[1](None)) and cond is not None and condvar is None:
            return self.unrolled(cond, inc, body, a, fr)
        for vid in set(steps) | incs:
            if vid in skip or vid not in steps and vid in self.modified(body):
                continue
            lv = self.var_lv(b, fr, vid)
            old = self.read(b, lv)
            if old[0] == "undef":
                continue
            t = None
            if position is not None and vid in steps:
                d = self.invariant(steps[vid][1], a, fr)
                if d is not None:
                    t = mk_bin("+", old, mk_bin("*", d, mk_bin("-", position, position[1])))
            self.write(b, lv, t or ("phi", old))
            skip.append(vid)
        if self.zero:
            out.append((a.mark("none", context), None))
        b = self.havoc_state([inc, body], b, fr, skip=skip)
        out += self.loop_body(body, b, fr, context)
        return out

    def unrolled(self, cond, inc, body, a, fr):
        """The first iterations of a loop, one after the other; longer runs are left out."""
        out, states = [], [a]
        for k in range(self.unroll[0] + 1):
            after = []
            for s in states:
                for c, t, x in self.cond(cond, s, fr):
                    if x:
                        out.append((c, x))
                    elif not t:
                        out.append((c, None))
                    elif k < self.unroll[0]:
                        for d, o in self.ex(body, c, fr):
                            if o and o[0] == "break":
                                out.append((d, None))
                            elif o and o[0] != "cont":
                                out.append((d, o))
                            elif inc is None:
                                after.append(d)
                            else:
                                for g, _, y in self.ev(inc, d, fr):
                                    (out.append((g, y)) if y else after.append(g))
            states = self.cap([(s, None) for s in after], fr)
            states = [s for s, _ in states]
        return out

    def invariant(self, e, st, fr):
        self.suppress += 1
        try:
            res = [v for _, v, x in self.ev(e, st, fr) if not x]
        finally:
            self.suppress -= 1
        return self.as_value(st, res[0]) if len(res) == 1 else None

    def unit_step(self, inc, vid):
        def scan(x):
            if isinstance(x, list) and x:
                if x[0] == "un" and x[1] in ("++", "p++") and x[2][0] == "var" and x[2][2] == vid:
                    return True
                if x[0] == "assign" and x[1] == "+=" and x[2][0] == "var" and x[2][2] == vid and x[3] == ["int", "1"]:
                    return True
                if x[0] == "call" and x[5].split("::")[-1] == "operator++" and x[2] and x[2][0] == "var" and x[2][2] == vid:
                    return True
                if x[0] == "bin" and x[1] == ",":
                    return scan(x[2]) or scan(x[3])
                if x[0] == "cast":
                    return scan(x[2])
            return False
        return scan(inc)

    def loop_bound(self, cond, incs, st, fr):
        c = cond
        while c[0] == "cast":
            c = c[2]
        extra = 0
        if c[0] == "bin" and c[1] in ("<", "!=", "<=", ">", ">="):
            l, r = (c[2], c[3]) if c[1] in ("<", "!=", "<=") else (c[3], c[2])
            extra = 1 if c[1] in ("<=", ">=") else 0
        elif c[0] == "call" and c[5].split("::")[-1] in ("operator!=", "operator<"):
            if c[2] is not None:
                l, r = c[2], c[3][0]
            else:
                l, r = c[3][0], c[3][1]
        else:
            return None
        while l[0] == "cast":
            l = l[2]
        if l[0] == "bin" and l[1] in ("+", "-") and l[3][0] == "int":       # i + 1 < n
            extra -= int(l[3][1]) if l[1] == "+" else -int(l[3][1])
            l = l[2]
        while l[0] == "cast":
            l = l[2]
        if l[0] != "var" or l[2] not in incs:
            return None
        self.suppress += 1
        try:
            res = [v for _, v, x in self.ev(r, st, fr) if not x]
        finally:
            self.suppress -= 1
        if len(res) != 1:
            return None
        n = res[0]
        if extra:
            n = mk_bin("+" if extra > 0 else "-", self.as_value(st, n), ("int", abs(extra)))
        return (l[2], n)

    def ex_while(self, cond, body, inc, st, fr, condvar=None):
        out = []
        if condvar is None and inc is None:
            units = {v for v, (_, e) in self.inductions(cond, None, body).items() if e == ["int", "1"]}
            bound = self.loop_bound(cond, units, st, fr) if units else None
            if bound:
                return self.cap(self.loop(cond, None, body, st, fr), fr)
        if self.zero:
            out.append((st.mark("none", ("loop",)), None))
        b = self.havoc_state([cond, body], st, fr)
        s = b.mark("some", ("loop",))
        outer = s.loops
        s.loops = outer + (("loop",),)
        starts = self.pre(None, condvar, s, fr)
        for a, o in starts:
            if o:
                out.append((a, o))
                continue
            for c, t, x in self.cond(cond, a, fr):
                if x:
                    out.append((c, x))
                    continue
                if not t:
                    continue
                for d, p in self.ex(body, c, fr):
                    d = d.fork() if p is None or p[0] == "cont" else d.mark("break", ("loop",))
                    d.loops = outer
                    out.append((d, None if p and p[0] in ("break", "cont") else p))
        return self.cap(out, fr)

    def ex_try(self, s, st, fr):
        self.try_depth += 1
        try:
            body = self.ex(s[1], st, fr)
        finally:
            self.try_depth -= 1
        out = []
        for a, o in body:
            if o and o[0] == "throw":
                handled = False
                for ty, var, block in s[2]:
                    if self.catches(ty, o):
                        b = a.fork()
                        b.loops = st.loops
                        if var:
                            b.store[("v", fr["id"], var[1])] = ("caught", o[1], o[2])
                        b.store[("caught", fr["id"])] = o
                        for c, p in self.ex(block, b, fr):
                            if p and p[0] == "throw" and p[2] == ("rethrow",):
                                p = o
                            out.append((c, p))
                        if not self.strict_catch or o[1] != "implicit" or ty == "..." or base_type(ty) == "std::exception":
                            handled = True
                        if ty == "..." or o[1] != "implicit" or handled and self.strict_catch:
                            break
                if not handled:
                    out.append((a, o))
            else:
                out.append((a, o))
        return self.cap(out, fr)

    STD_EXC = {
        "std::runtime_error": {"std::exception"}, "std::out_of_range": {"std::logic_error", "std::exception"},
        "std::invalid_argument": {"std::logic_error", "std::exception"}, "std::logic_error": {"std::exception"},
        "std::exception": set(), "std::bad_alloc": {"std::exception"}, "std::length_error": {"std::logic_error", "std::exception"},
        "std::domain_error": {"std::logic_error", "std::exception"}, "std::range_error": {"std::runtime_error", "std::exception"},
    }

    def catches(self, ty, o):
        if ty == "...":
            return True
        t = base_type(ty)
        if o[1] == "implicit":
            return True
        thrown = base_type(o[1])
        return t == thrown or t in self.STD_EXC.get(thrown, {"std::exception"})
