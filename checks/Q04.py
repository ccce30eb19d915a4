"""Q04: what the scalability tools read from a result dataset is what they have put there under that name; measured values come from the benchmark result's entry of their name; derived quantities are
computed by the formulas of their names; the columns of exported tables and the coordinates of plots belong together. Decided by path analysis of the Python package (lib/pypaths.py), once for each kind
of experiment and for one and for more than one measurement per setting."""
import os
import re
from fractions import Fraction

import pypaths as P
from check import Check
from lueir import REPO
from checks.Q03 import KINDS, ROOT, role, where

# the layout of benchmark results (Q01 decides that it is what the benchmarks write)
LAYOUT = {("start",), ("duration",), ("unit",), ("description",), ("environment", "nr_workers"), ("environment", "max_tree_depth"), ("environment", "count"), ("task", "array_shape"), ("task", "partition_shape"),
          ("timings",), ("timings", "*", "start"), ("timings", "*", "duration")}
SETTINGS = {"name": ("experiment", "program_name"), "system_name": ("cluster", "name"), "command": ("experiment", "command_pathname"), "arguments": ("experiment", "command_arguments"),
            "kind": ("experiment", "name"), "scenario_name": ("benchmark", "scenario_name"), "description": ("experiment", "description"), "worker_type": ("benchmark", "worker", "type"),
            "array_shape": ("experiment", "array", "shape"), "partition_shape": ("experiment", "partition", "shape")}
SHAPES = {("array", "array", "shape"): "array_shape", ("partition", "partition", "shape"): "partition_shape"}
LINEAR = {"mean", "std", "median", "max", "min", "sum"}      # f(a x) = a f(x) for a > 0
LISTS = {"phenomena": 0, "universes": 0, "property_sets": 1, "collection_property_sets": 1, "properties": 2}
MEMBERS = ({"pathname", "filename", "universes", "phenomena", "add_phenomenon", "add_universe", "lue_version", "hdf5_version", "id"},
           {"property_sets", "collection_property_sets", "add_property_set", "add_collection_property_set", "object_id"},
           {"properties", "add_property", "time_domain", "object_tracker", "space_domain", "has_time_domain", "has_space_domain"})
ADDS = {"add_phenomenon": 0, "add_property_set": 1, "add_collection_property_set": 1, "add_property": 2}


def dotted(f):
    return f[1].split(".")[-1] if f[0] == "name" else ""


def text(t):
    """A name, with a star for what is formatted into it"""
    if t[0] == "const" and isinstance(t[1], str):
        return t[1]
    if t[0] == "cat":
        return "".join(x[1] if x[0] == "const" else "*" for x in t[1])
    return None


class Names:
    """Paths of phenomena, property sets and properties that terms stand for"""

    def __init__(self):
        self.memo, self.odd = {}, False

    def path(self, t):
        if not isinstance(t, tuple) or not t:
            return None
        k = id(t)
        if k not in self.memo:
            self.memo[k] = (self.path_(t), t)
        return self.memo[k][0]

    def path_(self, t):
        if t[0] == "call" and dotted(t[1]) in ("open_dataset", "create_dataset") and t[1][0] == "name":
            return ()
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ADDS:
            p = self.path(t[1][1])
            name = dict(t[3]).get("name") if not t[2] else t[2][0]
            return p + (text(name) or "*",) if p is not None and len(p) == ADDS[t[1][2]] and name else None
        if t[0] == "call" and t[1] == ("name", "getattr") and len(t[2]) == 2:
            p = self.path(t[2][0])
            return p + (text(t[2][1]) or "*",) if p is not None and len(p) < 3 else None
        if t[0] == "attr":
            p = self.path(t[1])
            if p is None or len(p) >= 3 or t[2] in MEMBERS[len(p)]:
                return None
            return p + (t[2],)
        if t[0] == "item" and isinstance(t[1], tuple) and t[1][0] == "attr" and t[1][2] in LISTS:
            p = self.path(t[1][1])
            return p + (text(t[2]) or "*",) if p is not None and len(p) == LISTS[t[1][2]] else None
        return None

    def reads(self, t, seen):
        """Paths that occur in a term, save the names under which something is added"""
        out, todo = set(), [t]
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or not x or id(x) in seen:
                continue
            seen[id(x)] = x
            p = self.path(x)
            if p and x[0] != "call":
                out.add(p)
            todo += list(x)
        return out

    def mentions(self, t, last):
        return any(p[-1] == last for p in self.reads(t, {}))


def evaluate(kind, several, root):
    pkg, names = P.Package(root), Names()
    pkg.early = set()

    def known(v):
        x, i = v[1], v[2]
        if not isinstance(x, tuple) or not x or i[0] != "const":
            return None
        if x[0] == "attr" and x[2] == "shape" and i[1] in (1, -1) and names.mentions(x, "duration") or i[1] in (0, -1) and x[0] == "slice" and x[1][0] == "attr" and x[1][2] in ("array_shape", "shape") and names.mentions(x, "duration"):
            pkg.early |= names.reads(x, {})
            return P.const(3 if several else 1)
        if i[1] == 0 and x[0] == "slice" and x[1][0] == "attr" and x[1][2] == "value" and (names.path(x[1][1]) or ("",))[-1] == "kind":
            pkg.early |= names.reads(x, {})
            return P.const(kind)
        return None
    pkg.known = known
    return pkg, names


def main(c):
    root = os.path.join(REPO, ROOT)
    n = P.Package(root)
    c.analysed["translation_units"] = c.analysed["python_modules"] = len(n.trees)
    c.analysed["python_functions"] = len(n.functions)
    for kind in KINDS:
        for several in (False, True):
            scenario(c, root, kind, several)


def scenario(c, root, kind, several):
    here = f"{kind}, {'several measurements' if several else 'one measurement'}"
    pkg, names = evaluate(kind, several, root)
    runs = {}
    for key in (("experiment", kind, "generate_script", "generate_script"), ("experiment", kind, "import_results", "import_results"), ("experiment", kind, "postprocess_results", "postprocess_results"),
                ("query", "export", "export_duration"), ("query", "summarize", "summarize_experiment")):
        pkg.early = set()
        try:
            runs[key] = ([s for k, _, s in pkg.root_paths(key) if k == "ret"], set(pkg.early))
        except P.Undecided as e:
            c.ob("read", f"{here}: {key[-1]}", None, where(pkg, key), str(e))
    written, certain = {}, True
    for key, (states, _) in runs.items():
        if key[2] not in ("generate_script", "import_results"):
            continue
        for st in states:
            for p, v, e in writes(names, st):
                if None in p or any(x is None for x in p):
                    certain = False
                else:
                    written.setdefault(p, []).append((v, key, e))
    if not all(any(k[2] == x for k in runs) for x in ("generate_script", "import_results")) or not written:
        certain = False
        c.ob("read", f"{here}: names", None, "", "what is written is not known")
    # what is read
    for key, (states, early) in runs.items():
        reads, seen, unsure = set(early), {}, False
        for st in states:
            for e in st.events:
                reads |= names.reads(e[1:-1], seen)
            for t, _ in st.facts:
                reads |= names.reads(t, seen)
                unsure |= names.mentions(t, "duration") or names.mentions(t, "kind")
        c.count("reads", len(reads))
        for p in sorted(reads):
            c.ob("read", f"{here}: {key[-1]} reads {'.'.join(p)}", True if any(same(p, w) for w in prefixes(written)) else None if not certain or unsure or "*" in p else False, where(pkg, key), "is not written by the import")
        if key[-1] in ("export_duration", "postprocess_results"):
            for st in states:
                tables(c, names, st, f"{here}: {key[-1]}", lambda line, k=key: where(pkg, k))
    measured(c, pkg, names, here, written)
    if certain:
        stored(c, pkg, names, here, kind, several, written)


def prefixes(written):
    return {p[:n] for p in written for n in (1, 2, 3)}


def same(a, b):
    """Whether two paths stand for the same, given that formatted parts stand for anything"""
    def like(x, y):
        return re.fullmatch(re.escape(y).replace(r"\*", ".+"), x) is not None
    return len(a) == len(b) and all(x == y or like(x, y) or like(y, x) for x, y in zip(a, b))


# ------------------------------------------------------------ what is written

def writes(names, st):
    """(path, value, event) of a run"""
    for e in st.events:
        if e[0] == "call":
            if e[1][0] == "name" and e[1][1].split(".")[-1] in ("dumps", "dump") and e[2]:
                yield from document(e[2][0], e)
            p = names.path(("call",) + e[1:4])
            if p:
                yield p, None, e
        elif e[0] == "store":
            b = e[1]
            if b[0] == "call" and b[1][0] == "attr" and b[1][2] == "expand":
                b = b[1][1]
            if b[0] == "attr" and b[2] == "value":
                p = names.path(b[1])
                if p and len(p) == 3:
                    yield p, e[2], e


def get(d, k):
    return dict(d[1]).get(P.const(k)) if d is not None and d[0] == "dict" else None


def document(t, e):
    """Properties of a document that is imported into a dataset"""
    phenomena = get(get(t, "dataset"), "phenomena")
    if phenomena is None:
        return
    for ph in phenomena[1] if phenomena[0] == "list" else ():
        for sets in ("property_sets", "collection_property_sets"):
            s = get(ph, sets)
            for ps in s[1] if s is not None and s[0] == "list" else ():
                properties = get(ps, "properties")
                base = (text(get(ph, "name") or ("",)), text(get(ps, "name") or ("",)))
                if properties is None or properties[0] != "list":
                    yield base + (None,), None, e
                    continue
                for pr in properties[1]:
                    yield base + (text(get(pr, "name") or ("",)),), get(pr, "value"), e


# ------------------------------------------------------------ values that were measured, and settings

def unwrap(t):
    """Without what changes the representation only"""
    while True:
        if t[0] == "call" and not t[3] and len(t[2]) == 1 and t[1][0] == "name" and t[1][1].split(".")[-1] in ("list", "tuple", "array", "asarray", "float64", "str", "int", "float"):
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("astype", "reshape", "copy", "ravel", "flatten", "tolist"):
            t = t[1][1]
        elif t[0] in ("list", "tuple") and len(t[1]) == 1:
            t = t[1][0]
        elif t[0] == "slice" and t[2] == "Slice()":
            t = t[1]
        elif t[0] == "map" and t[1] in (("each", t[2]), ("cat", (("each", t[2]),))):
            t = t[2]
        else:
            return t


def keys(t):
    """Names of the entries of a benchmark result that a term stands for"""
    t = unwrap(t)
    if t[0] == "call" and dotted(t[1]) in ("loads", "load") and t[1][0] == "name":
        return ()
    if t[0] == "call" and t[1][0] == "fn" and t[1][1][-1] == "json_to_data":
        return ()
    if t[0] == "map":
        k = keys(t[1])
        return k if k and "*" in k else None
    if t[0] == "each":
        k = keys(t[1])
        return k + ("*",) if k else None
    if t[0] == "item" and t[2][0] == "const" and isinstance(t[2][1], str):
        k = keys(t[1])
        return k + (t[2][1],) if k is not None else None
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and t[2] and t[2][0][0] == "const":
        k = keys(t[1][1])
        return k + (t[2][0][1],) if k is not None else None
    return None


def chain(t):
    t = unwrap(t)
    if t[0] == "role":
        return (t[1],)
    if t[0] == "attr":
        k = chain(t[1])
        return k + (t[2],) if k else None
    return None


def measured(c, pkg, names, here, written):
    for p, vs in sorted(written.items()):
        for v, key, e in vs:
            if v is None or e[0] != "call":
                continue
            k = keys(v)
            if p[1] == "measurement":
                ok = None if k is None else k in LAYOUT and (k[-1] == p[2])
                c.ob("measured", f"{here}: {p[2]}", ok, where(pkg, key), f"is {'.'.join(k) if k else P.show(v)[:100]} of the benchmark result")
            elif p[2] in SETTINGS:
                r = chain(role(v))
                ok = None if r is None or r[0] not in ("experiment", "benchmark", "cluster") else r == SETTINGS[p[2]]
                c.ob("measured", f"{here}: {p[2]} of the benchmark", ok, where(pkg, key), f"is {'.'.join(r) if r else P.show(role(v))[:100]}")


# ------------------------------------------------------------ quantities that are derived

def norm(names, t):
    """(coefficient, {what: exponent}) of a product"""
    t = unwrap(t)
    if t[0] == "const" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return Fraction(t[1]), {}
    if t[0] == "bin" and t[1] in ("Mult", "Div"):
        a, b = norm(names, t[2]), norm(names, t[3])
        s = 1 if t[1] == "Mult" else -1
        f = dict(a[1])
        for k, n in b[1].items():
            f[k] = f.get(k, 0) + s * n
        return (a[0] * b[0] if s > 0 else a[0] / b[0] if b[0] else Fraction(0)), {k: n for k, n in f.items() if n}
    if t[0] == "call" and t[1][0] == "name" and t[1][1].split(".")[-1] in ("multiply", "divide", "true_divide") and len(t[2]) == 2 and not t[3]:
        return norm(names, ("bin", "Mult" if t[1][1].endswith("multiply") else "Div") + t[2])
    s = statistic(names, t)
    if s and s[1] in (P.const(1), P.const(-1)):
        n, f = norm(names, s[2]), "mean" if s[0] == "average" else s[0]
        if f in LINEAR:
            return over(f, n)
        return Fraction(1), {(f, n[0], frozenset(n[1].items())): 1}
    return Fraction(1), {atom(names, t): 1}


def over(f, n):
    """A statistic of a product over the measurements of a setting: what is the same for all of them comes out"""
    inner = {k: e for k, e in n[1].items() if k != ("t1",) and k != ("stored", "nr_workers")}
    outer = {k: e for k, e in n[1].items() if k not in inner}
    return n[0], {**outer, (f, Fraction(1), frozenset(inner.items())): 1}


def unknown(n):
    return any(k[0] == "other" or len(k) == 3 and any(x[0] == "other" for x, _ in k[2]) for k in n[1])


def atom(names, t):
    if t[0] == "attr" and t[2] == "value":
        p = names.path(t[1])
        if p and len(p) == 3:
            return ("stored", p[2])
    if t[0] == "item":
        if isinstance(t[2], tuple) and t[2] and t[2][0] == "opaque" and "newaxis" in t[2][1]:
            return atom(names, unwrap(t[1]))
        b = atom(names, unwrap(t[1]))
        if b[0] == "stored" and b[1] == "duration":
            i = t[2]
            if i[0] == "const":
                return ("position", i[1])
            if names.mentions(i, "nr_workers"):
                one = any(x[0] == "cmp" and x[1] == ("Eq",) and P.const(1) in x[2] for x in P.terms(i) if len(x) == 3)
                low = any(x[0] == "name" and x[1].split(".")[-1] == "argmin" or x[0] == "attr" and x[2] == "argmin" for x in P.terms(i) if len(x) > 1)
                return ("t1",) if one or low else ("other", P.show(t)[:80])
    return ("other", P.show(t)[:80])


def statistic(names, t):
    """(mean or std, of what) over the measurements of a setting"""
    t = unwrap(t)
    if t[0] == "slice":
        t = unwrap(t[1])
    if t[0] != "call":
        return None
    if t[1][0] == "name" and t[1][1].split(".")[-1] in ("mean", "std", "average", "median", "var", "sum", "max", "min") and t[2]:
        f, arg, rest = t[1][1].split(".")[-1], t[2][0], t[2][1:]
    elif t[1][0] == "attr" and t[1][2] in ("mean", "std", "var", "sum", "max", "min"):
        f, arg, rest = t[1][2], t[1][1], t[2]
    else:
        return None
    axis = rest[0] if rest else dict(t[3]).get("axis")
    if set(dict(t[3])) - {"axis", "dtype"}:
        return None
    return f, axis, arg


def stored(c, pkg, names, here, kind, several, written):
    D, T1, W = ("stored", "duration"), ("t1",), ("stored", "nr_workers")
    formulas = {"duration": (Fraction(1), {D: 1}), "relative_speed_up": (Fraction(1), {T1: 1, D: -1}),
                "relative_efficiency": (Fraction(100), {T1: 1, D: -1, **({W: -1} if kind == "strong_scalability" else {})})}
    for p, vs in sorted(written.items()):
        name = p[2] if len(p) == 3 else ""
        base = name[:-2] if name.endswith("_*") else name
        plain = base[5:] if base.startswith("mean_") else base[4:] if base.startswith("std_") else base
        if p in SHAPES:
            for v, key, e in vs:
                if e[0] == "store":
                    last = {q[-1] for q, _ in parts(names, v)}
                    c.ob("stored", f"{here}: {'.'.join(p)}", last == {SHAPES[p]} if last else None, where(pkg, key), f"is made of {' and '.join(sorted(last))}")
        if p[1:2] == ("measurement",) or plain not in formulas or len(p) < 3:
            continue
        vals = [x for x in vs if x[2][0] == "store"]
        if not vals:
            c.ob("stored", f"{here}: {name}", None, where(pkg, vs[0][1]), "no value is stored")
        for v, key, e in vals:
            at, what = where(pkg, key, None), f"{here}: {name}"
            want = formulas[plain] if plain == base else over(base.split("_")[0], formulas[plain])
            axis = (statistic(names, v) or (None, P.const(1)))[1]
            if axis is None or axis[0] == "const" and axis[1] not in (1, -1):
                c.ob("stored", what, False, at, f"is taken over axis {P.show(axis) if axis else 'all'}")
                continue
            n = norm(names, unwrap(v)[1] if unwrap(v)[0] == "slice" else v)
            c.ob("stored", what, None if unknown(n) else n == want, at, f"is {product(n)}, not {product(want)}")


def product(n):
    return " * ".join([str(n[0])] + [f"{factor(k)}^{e}" for k, e in sorted(n[1].items(), key=str)])


def factor(k):
    return f"{k[0]}({product((k[1], dict(k[2])))})" if len(k) == 3 else " ".join(str(x) for x in k)


# ------------------------------------------------------------ tables and plots

def parts(names, t, order=()):
    """[(property, how its elements were put in order)] of the values in a term"""
    if not isinstance(t, tuple) or not t:
        return []
    if t[0] == "attr" and t[2] == "value":
        p = names.path(t[1])
        if p and len(p) == 3:
            return [(p, order)]
    if t[0] == "item":
        if isinstance(t[2], tuple) and t[2][0] == "call" and t[2][1][0] == "attr" and t[2][1][2] == "argsort" and not t[2][2]:
            t = t[:2] + (("call", ("name", "numpy.argsort"), (t[2][1][1],), t[2][3]),)
        plain = t[2][0] in ("const", "index", "any") or t[2][0] == "each" and t[2][1][0] == "call" and t[2][1][1] == ("name", "range")
        return parts(names, t[1], order if plain or t[2][0] == "opaque" else order + (t[2],))
    if t[0] == "slice":
        return parts(names, t[1], order if t[2] == "Slice()" else order + (("slice", t[2]),))
    if t[0] == "call" and t[1] == ("name", "len"):
        return []
    if t[0] == "call" and t[1][0] == "name" and t[1][1].split(".")[-1] in ("take",) and len(t[2]) == 2:
        return parts(names, t[2][0], order + (t[2][1],))
    if t[0] == "call" and t[1][0] == "name" and t[1][1].split(".")[-1] in ("sort", "sorted") and len(t[2]) == 1 and not t[3]:
        return parts(names, t[2][0], order + (("call", ("name", "numpy.argsort"), t[2], ()),))
    if t[0] == "call" and t[1][0] == "name" and t[1][1].split(".")[-1] in ("sort", "sorted", "unique", "flip"):
        return [(p, o + (("by", t[1][1]),)) for a in t[2] for p, o in parts(names, a, order)]
    return [x for y in t for x in parts(names, y, order)]


def tables(c, names, st, here, at):
    rows = []
    for e in st.events:
        if e[0] == "call" and e[1][0] == "attr" and e[1][2] in ("writerow", "writerows") and len(e[2]) == 1:
            a = e[2][0]
            rows += [(x[1], e) for x in ((a,) if e[1][2] == "writerow" else a[1] if a[0] in ("list", "tuple") else (a[1],) if a[0] == "map" else ()) if isinstance(x, tuple) and x and x[0] in ("list", "tuple")]
    header = None
    for cells, e in rows:
        if cells and all(x[0] == "const" and isinstance(x[1], str) for x in cells):
            header = [x[1] for x in cells]
            continue
        if header is None:
            c.ob("column", f"{here}: header", None, at(e[-1]), "rows come before the names of the columns")
            continue
        if len(header) != len(cells):
            c.ob("column", f"{here}: number of columns", False, at(e[-1]), f"{len(cells)} values under {len(header)} names")
            continue
        found = []
        for h, x in zip(header, cells):
            ps = parts(names, x)
            found.append(ps)
            last = {p[-1][:-2] if p[-1].endswith("_*") else p[-1].rstrip("0123456789").rstrip("_") if p[-1][-1:].isdigit() else p[-1] for p, _ in ps}
            size = any(y[0] == "call" and (dotted(y[1]) == "prod" or y[1][0] == "attr" and y[1][2] == "prod") for y in P.terms(x) if len(y) == 4 and isinstance(y[1], tuple) and y[1])
            want = "partition_shape" if h == "partition_size" else h
            ok = None if not last else last <= {want, "shape"} and size == (h == "partition_size")
            c.ob("column", f"{here}: {h}", ok, at(e[-1]), f"is {'the product of ' if size else ''}{' and '.join(sorted(last))}")
        aligned(c, f"{here}: columns of the table", found, at(e[-1]))
    number = 0
    for e in st.events:
        if e[0] == "call" and e[1][0] == "attr" and e[1][2] in ("plot", "errorbar", "scatter", "bar"):
            kw = dict(e[3])
            data = list(e[2][:2]) + [kw[k] for k in ("x", "y", "yerr") if k in kw]
            found = [parts(names, x) for x in data]
            number += 1
            aligned(c, f"{here}: coordinates of plot {number}", found, at(e[-1]))
            if "yerr" in kw and len(data) >= 3:
                y, err = ({p[-1] for p, _ in f} for f in found[-2:])
                ok = None if len(y) != 1 or len(err) != 1 else min(err) == "std_" + min(y)[5:] if min(y).startswith("mean_") else False
                c.ob("column", f"{here}: error bars of plot {number}", ok, at(e[-1]), f"show {', '.join(sorted(err))} for {', '.join(sorted(y))}")


def aligned(c, what, found, at):
    orders = {o for ps in found for _, o in ps}
    if not any(found):
        return
    unsure = any(isinstance(x, tuple) and x and x[0] in ("slice", "any", "opaque") for o in orders for i in o for x in P.terms(i)) and len(orders) > 1 and all(orders)
    c.ob("aligned", what, True if len(orders) == 1 else None if unsure else False, at,
         "; ".join(sorted(f"{p[-1]} {'in order of ' + P.show(o[-1])[:60] if o else 'as stored'}" for ps in found for p, o in ps))[:250])


def run():
    c = Check("Q04", "names under which the scalability tools read results against those under which they are written, for each kind of experiment and number of measurements; origin of measured values; "
              "formulas of derived quantities; columns of tables and coordinates of plots: the property of their name, in one and the same order",
              ["numpy, csv and matplotlib act as documented", "the layout of benchmark results is that of Q01", "names are those of the model's accessors (M-checks, B-checks)"])
    main(c)
    return c.finish({"read": 60, "measured": 20, "stored": 10, "column": 10, "aligned": 8})
