"""Data-model functions analysed one at a time: calls of other creating and opening functions stay events."""
import flow, lueir
from common import *

H = "lue::hdf5::"
D = "lue::data_model::"
PRIM = {H + x for x in (
    "create_group create_dataset Attributes::write Attributes::read Attributes::exists Attributes::attribute Attributes::add Attributes::datatype Attributes::remove "
    "group_exists dataset_exists file_exists link_exists link_is_soft_link Group::contains_group Group::contains_soft_link Group::contains_dataset "
    "Group::create_soft_link Group::group_names create_file create_in_memory_file create_dataspace create_datatype create_string_datatype file_datatype memory_datatype chunk_shape "
    "encode_datatype decode_datatype PrimaryDataObject::attribute Dataset::write Dataset::read Dataset::fill Dataset::resize remove_file "
    "Dataspace::nr_elements Dataset::shape Group::parent Identifier::name SoftLink::path create_soft_link create_hard_link create_external_link "
    "native_datatype_as_string standard_datatype_as_string Datatype::size Datatype::is_string Datatype::operator== Datatype::operator!= Identifier::operator== Identifier::operator!="
).split()}
PURE = PURE_HDF5 | {H + x for x in (
    "Attributes::read Attributes::exists group_exists dataset_exists file_exists link_exists Group::contains_group Group::contains_soft_link Group::contains_dataset Group::group_names "
    "create_dataspace file_datatype memory_datatype chunk_shape encode_datatype decode_datatype Dataset::shape Group::parent Identifier::name SoftLink::path native_datatype_as_string "
    "standard_datatype_as_string Datatype::size Datatype::is_string Datatype::operator== Datatype::operator!= Identifier::operator== Identifier::operator!= create_string_datatype").split()}
TOUCH = {"H5Gopen2", "H5Dopen2", "H5Aopen", "H5Fopen", "H5Fcreate", "H5Gcreate2", "H5Dcreate2", "H5Lget_val", "H5Lget_info2", "H5Oopen"}


def chain(prog, cls):
    """A class and the classes it derives from."""
    out, todo = [], [cls]
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.append(c)
        todo += [b for b in (prog.classes.get(c) or {}).get("bases", ())]
    return out


def family(f):
    q = f["q"]
    return q.rsplit("::", 1)[0] if f.get("cls") else None


class Model:
    def __init__(self, *components):
        self.prog = lueir.load(*(components or ("hdf5", "cxx")))
        self.touch = reaching(self.prog, TOUCH | PRIM)
        self.objects = {c for c in self.prog.classes if c.startswith(D) and set(chain(self.prog, c)) & {H + "PrimaryDataObject", H + "Group", H + "Dataset", H + "File"}}
        self.openers = {k: f for k, f in self.prog.functions.items() if f.get("ctor") and f.get("cls") in self.objects and component(f) in ("cxx", "hl") and k in self.touch
                        and not f.get("copymove") and "/test/" not in f["file"]}
        self.creators = {k: f for k, f in self.prog.functions.items() if f["q"].split("::")[-1].startswith("create") and f["q"].startswith("lue::data_model::")
                         and component(f) in ("cxx", "hl") and "/test/" not in f["file"] and "body" in f and not f.get("cls")}

    def analysis(self, f, more=lambda q, k: False, inline=lambda f: True, deep=(), impure=()):
        own = set(chain(self.prog, f["cls"])) if f.get("cls") else set()

        def opaque(q, k):
            if k == f["key"]:
                return False
            if h5_call(q) or q in PRIM or more(q, k):
                return True
            if k in self.openers:
                return self.openers[k]["cls"] not in own and self.openers[k]["cls"] not in deep
            return k in self.creators
        return flow.Analysis(self.prog, opaque=opaque, pure=lambda q, k: q in PURE and q not in impure, inline=inline)

    def run(self, f, **kw):
        A = self.analysis(f, **kw)
        return A, [p for p in A.run(f) if p.kind == "ret"]

    # ------------------------------------------------------------ what is created and opened where

    def layout(self, f, create):
        """{(kind, place): on every path} of what a function creates (create) or opens, in called functions too; places start at its parameters."""
        memo = self.__dict__.setdefault("_layout", {})
        key = f["key"], create
        if key in memo:
            return memo[key]
        memo[key] = {}
        A, ps = self.run(f, impure={H + "Attributes::read"})
        per = []
        self.doubles = getattr(self, "doubles", [])
        for p in ps:
            items = {}
            for e in p.events:
                new = self.items(e, create)
                for (kind, place), always in new.items():
                    if place and place[0] == "this" and f.get("ctor"):
                        place = (self.base_place(f) or ("this",)) + place[1:]
                    space = "attribute" if kind == "attribute" else "member"
                    if create and place is not None and always and any(k2 != "attribute" and space == "member" and q2 == place for (k2, q2) in items):
                        self.doubles.append((f, e, place))
                    items[kind, place] = items.get((kind, place), False) or always
            per.append(items)
        out = {}
        for i in {x for items in per for x in items}:
            out[i] = all(items.get(i, False) for items in per)
        memo[key] = out
        return out

    def items(self, e, create):
        a = e.args
        last = e.q.split("::")[-1]
        if e.q in (H + "create_group", H + "create_dataset", H + "Group::create_soft_link", H + "Attributes::write") and create:
            kind = {"create_group": "group", "create_dataset": "array", "create_soft_link": "link", "write": "attribute"}[last]
            i = 2 if last == "create_soft_link" and len(a) > 2 else 1
            p = self.place(a[0])
            return {(kind, p + (name_of(a[i]),) if p else None): True}
        if e.q in ("H5Gopen2", "H5Dopen2") and not create:
            p = self.place(a[0])
            return {("group" if e.q == "H5Gopen2" else "array", p + (name_of(a[1]),) if p else None): True}
        if e.q in (H + "Attributes::read", H + "Attributes::attribute") and not create:
            p = self.place(a[0])
            return {("attribute", p + (name_of(a[1]),) if p else None): True}
        g = self.prog.functions.get(e.key)
        if g is None or (e.key not in self.creators if create else e.key not in self.openers):
            return {}
        out = {}
        for (kind, place), always in self.layout(g, create).items():
            out[kind, self.substitute(place, g, a)] = always
        return out

    # ------------------------------------------------------------ places in a file

    def place(self, t, depth=0):
        """Normal form of the place an object term denotes: a tuple of path elements that starts at a parameter or at 'this'; None when it is unknown."""
        if depth > 40 or not isinstance(t, tuple) or not t:
            return None
        k = t[0]
        if k == "this":
            return ("this",)
        if k == "par":
            return (t,)
        if k == "cast":
            return self.place(t[-1], depth + 1)
        if k == "addr":
            return self.place(t[1], depth + 1)
        if k == "fld":
            p = self.place(t[1], depth + 1)
            if t[2] in ("_id", "_attributes", "b()"):
                return p
            return p + ("." + t[2],) if p else None
        if k == "upd":
            if t[2][0] == "b":
                p = self.place(t[3], depth + 1)
                if p is not None:
                    return p
            return self.place(t[1], depth + 1)
        if k == "new":
            return self.place_new(t, depth)
        if k == "app":
            q, a = t[1], t[2]
            last = q.split("::")[-1]
            if last in ("id", "attributes", "operator long", "move", "forward", "value", "deref", "get") and len(a) == 1:
                return self.place(a[0], depth + 1)
            if q in ("H5Gopen2", "H5Dopen2", "H5Gcreate2", "H5Dcreate2", H + "create_group", H + "create_dataset"):
                p = self.place(a[0], depth + 1)
                return p + (name_of(a[1]),) if p else None
            if q in (H + "create_file", H + "create_in_memory_file", "H5Fopen", "H5Fcreate"):
                return (name_of(a[0]),)
            if q.startswith(D) and last.startswith("create"):
                return self.place_created(q, a, depth)
        if k == "out" and len(t) > 2:
            return self.place(t[2][2][0], depth + 1) if t[2][0] == "app" and t[2][2] else None
        return None

    def place_new(self, t, depth):
        cls, ckey, args = t[1], t[2], t[3]
        f = self.prog.functions.get(ckey)
        if not args:
            return None
        if f is not None and f.get("copymove"):
            return self.place(args[0], depth + 1)
        if cls in (H + "Group", H + "Dataset") and len(args) >= 2 and f is not None and "basic_string" in f["params"][1][2]:
            p = self.place(args[0], depth + 1)
            return p + (name_of(args[1]),) if p else None
        if cls.startswith(H):
            return self.place(args[0], depth + 1)
        if f is not None and f["key"] in self.openers:
            return self.substitute(self.base_place(f), f, args, depth)
        return self.place(args[0], depth + 1) if cls in self.objects else None

    def place_created(self, q, args, depth):
        got = set()
        for f in self.creators.values():
            if f["q"] == q and len(f["params"]) >= len(args):
                got.add(self.substitute(self.base_place(f), f, args, depth))
        return got.pop() if len(got) == 1 else None

    def base_place(self, f):
        """Where the object that a creating or opening function yields is, relative to the function's parameters."""
        memo = self.__dict__.setdefault("_base", {})
        if f["key"] not in memo:
            memo[f["key"]] = None
            got = set()
            A, ps = self.run(f)
            for p in ps:
                v = A.read(p.st, ("lv", ("m", ("this",)), ())) if f.get("ctor") else A.as_value(p.st, p.value)
                got.add(self.place(v))
            if got == {("this",)}:
                # the base object is taken over from a parameter
                names = []
                for kind, _, init in f.get("inits", ()):
                    if kind in ("b", "d"):
                        scan(init, lambda n: names.append(n[1]) if n[0] == "var" else None)
                got = {(("par", n),) for n in names if any(n == x for x, _, t in f["params"])}
            memo[f["key"]] = got.pop() if len(got) == 1 else None
        return memo[f["key"]]

    def substitute(self, place, f, args, depth=0):
        """Rewrites a place over the parameters of `f` into one over the arguments of a call."""
        if place is None:
            return None
        m = {("par", n): a for (n, _, _), a in zip(f["params"], args)}
        if place[0] not in m:
            return None
        head = self.place(m[place[0]], depth + 1)
        if head is None:
            return None
        out = list(head)
        for x in place[1:]:
            out.append(name_of(substitute_term(x, m)) if isinstance(x, tuple) else x)
        return tuple(out)


def substitute_term(t, m):
    if t in m:
        return m[t]
    return tuple(substitute_term(x, m) if isinstance(x, tuple) else x for x in t)


def name_of(t):
    """Normal form of an object's name: text when constant, else a term."""
    while t[0] == "cast" or t[0] == "app" and t[1] in ("c_str", "data"):
        t = t[-1] if t[0] == "cast" else t[2][0]
    if t[0] == "str":
        return t[1]
    if t[0] in ("app", "fld", "elem") and any(len(x) > 1 and x[0] == "app" and x[1] == H + "Group::group_names" for x in flow.subterms(t)):
        return "*"
    return t


def show_place(p):
    return "?" if p is None else "/".join(x if isinstance(x, str) else flow.show(x) for x in p)
