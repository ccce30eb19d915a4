"""H05: the tables that relate C++ types, in-memory types, on-disk types and names are consistent and complete."""
import re
import flow, lueir, types_ as ty
from check import Check, where, sig
from common import *

EQ = "lue::hdf5::Datatype::operator=="


def eq_fact(p, positive=True):
    """Types the parameter was found equal (different) to on a path."""
    out = []
    for t, v in p.facts.items():
        if v is positive and t[0] == "app" and t[1] in (EQ, "operator=="):
            for x in t[2]:
                d = ty.hdf5_of(x)
                if d:
                    out.append(d)
        if v is positive and t[0] == "lt" and t[1] == flow.ZERO and t[2][0] == "app" and t[2][1] == "H5Tequal":
            for x in t[2][2]:
                d = ty.hdf5_of(x)
                if d:
                    out.append(d)
    return out


def is_text(p):
    return any(v and t[0] == "app" and t[1].endswith("is_string") for t, v in p.facts.items())


def run():
    c = Check("H05", "every table that maps a C++ type, an in-memory type, an on-disk type or a name to another of these maps it to one of the same kind and width, covers all ten "
              "numeric types and text, and is one to one; types outside the tables are refused",
              ["HDF5 reference manual: kinds and widths of the predefined types; LP64 widths of the C++ types"])
    prog = lueir.load("hdf5")
    c.program(prog)
    keep = ("Datatype::operator==", "Datatype::operator!=", "Datatype::is_string", "Datatype::is_native", "Datatype::is_standard")
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q) or q.endswith(keep), pure=lambda q, k: q in PURE_HDF5 or q.endswith(keep))
    globals_(c, prog, A)
    translations(c, prog, A)
    typed(c, prog, A)
    predicates(c, prog, A)
    equality(c, prog)
    text(c, prog)
    return c.finish({"constant": 20, "translation": 20, "name": 20, "typed": 40, "predicate": 6, "comparison": 2, "text": 2})


def constant_name(n):
    m = re.match(r"(native|std|ieee)_(u?)(int|float)(8|16|32|64)(_le|_be)?$", n)
    if not m:
        return None
    kind = "f" if m[3] == "float" else "u" if m[2] else "i"
    return kind, int(m[4]), "native" if m[1] == "native" else (m[5] or "_le")[1:].upper()


def globals_(c, prog, A):
    for g, info in prog.globals.items():
        if not g.startswith("lue::hdf5::"):
            continue
        want = constant_name(g.split("::")[-1])
        if not want:
            continue
        v = A.global_value(g)
        got = ty.hdf5_of(v) if v else None
        c.ob("constant", g, None if got is None else got == want, lueir.rel(info["file"]), f"{g} denotes {got and ty.words(got)}")


keep_ = ("is_string", "is_native", "is_standard")


def translations(c, prog, A):
    for name, source, target in (("memory_datatype", "LE", "native"), ("file_datatype", "native", "LE")):
        for f in prog.functions.values():
            if f["q"] != "lue::hdf5::" + name or "body" not in f:
                continue
            seen = {}
            unclear = 0
            for p in A.run(f):
                if p.kind != "ret":
                    continue
                src = eq_fact(p)
                v = ty.hdf5_of(p.value)
                if len(src) == 1:
                    s = src[0]
                    seen[s[:2]] = True
                    ok = None if v is None else (v == (s[0], s[1], target) and s[2] == source)
                    c.ob("translation", f"{name} of {ty.words(s)}", ok, where(f), f"yields {v and ty.words(v)}")
                elif not src and is_text(p):
                    seen[("s", 0)] = True
                    par = ("par", f["params"][0][0])
                    other = [t for t in p.facts if contains(t, par) and not (t[0] == "app" and t[1] in (EQ, "operator==") or t[0] in ("lt", "eq") and "H5Tequal" in str(t) or t[0] == "app" and t[1].endswith(keep_))]
                    ok = True if contains(p.value, par) else None if other else False
                    c.ob("translation", f"{name} of text", ok, where(f), f"yields {show(p.value)}, whatever the size of the text")
                elif not src and p.facts and v is not None:
                    c.ob("translation", f"{name} of an unsupported type", False, where(f), f"yields {ty.words(v)} instead of an error")
                else:
                    unclear += 1
                    c.ob("translation", f"{name}", None, where(f), f"returns {show(p.value)}")
            for t in ty.NUMERIC + [("s", 0)]:
                if t not in seen:
                    c.ob("translation", f"{name} supports {ty.words(t)}", None if unclear else False, where(f), "no path returns a result for this type")
    # names
    for name, order in (("native_datatype_as_string", "native"), ("standard_datatype_as_string", "LE")):
        for f in prog.functions.values():
            if f["q"] != "lue::hdf5::" + name or "body" not in f:
                continue
            names = {}
            for p in A.run(f):
                if p.kind != "ret":
                    continue
                src = eq_fact(p)
                v = p.value
                if len(src) == 1 and v[0] == "str":
                    s = src[0]
                    d = ty.HDF5.get(v[1] + "_g")
                    ok = s[2] == order and (d == s if d else (None if v[1] else False))
                    if v[1] in names and names[v[1]] != s:
                        ok = False
                    names[v[1]] = s
                    c.ob("name", f"{name} of {ty.words(s)}", ok, where(f), f"the name is '{v[1]}'")
                elif is_text(p) and not src:
                    c.ob("name", f"{name} of text", (v[0] == "str" and v[1] not in names and v[1] != "") if v[0] == "str" else None, where(f), f"the name is {show(v)}")
                    names.setdefault(v[1], ("s", 0))
                else:
                    c.ob("name", f"{name}", False if v[0] == "str" and v[1] else None if v[0] != "str" else True, where(f), f"an unsupported type is named {show(v)}")


def typed(c, prog, A):
    for f in prog.functions.values():
        q = f["q"]
        if not q.startswith("lue::hdf5::") or "body" not in f or f["params"]:
            continue
        last = q.split("::")[-1]
        if last in ("native_datatype", "std_datatype_le", "ieee_datatype_le", "std_datatype"):
            t = ty.cxx(f.get("targs", "").strip("<>") if not f.get("targs", "").startswith("<std::") else f["targs"][1:-1])
            order = "native" if last == "native_datatype" else "LE"
        elif last in ("type_id", "name", "nr_bytes") and "DatatypeTraits<" in (f.get("cls") or ""):
            arg = f["cls"].split("DatatypeTraits<", 1)[1]
            t = ty.cxx(arg.rsplit(", void>", 1)[0])
            order = "native" if "NativeDatatypeTraits" in f["cls"] else "LE"
        else:
            continue
        if t is None:
            continue
        inst = f"{(f.get('cls') or '').replace('lue::hdf5::', '')}{'::' if f.get('cls') else ''}{last} for {ty.words(t)}"
        for p in A.run(f):
            if p.kind != "ret":
                continue
            v = p.value
            if v[0] == "lv":
                v = A.as_value(p.st, v)
            if last == "name":
                d = ty.HDF5.get(v[1] + "_g") if v[0] == "str" else None
                ok = None if v[0] != "str" else (d == (t[0], t[1], order) if d else t[0] == "s" and bool(v[1]))
            elif last == "nr_bytes":
                ok = v == ("int", t[1] // 8) if v[0] == "int" else None
            elif t[0] == "s":
                ok = (True if any(len(x) > 1 and x[0] == "glob" and x[1] == "H5T_C_S1_g" for x in flow.subterms(v)) else None)
            else:
                d = ty.hdf5_of(v)
                ok = None if d is None else d == (t[0], t[1], order)
            c.ob("typed", inst, ok, where(f), f"yields {show(v)}")


PRED = {"is_native_unsigned_integral": ("u", "native"), "is_native_signed_integral": ("i", "native"), "is_native_floating_point": ("f", "native"),
        "is_std_unsigned_integral_le": ("u", "LE"), "is_std_signed_integral_le": ("i", "LE"), "is_ieee_floating_point_le": ("f", "LE")}


def predicates(c, prog, A):
    for f in prog.functions.values():
        last = f["q"].split("::")[-1]
        if not f["q"].startswith("lue::hdf5::") or "body" not in f:
            continue
        if last in PRED:
            kind, order = PRED[last]
            want = {(k, w, order) for k, w in ty.NUMERIC if k == kind}
            got, shape_ok = set(), False
            for p in A.run(f):
                if p.kind != "ret":
                    continue
                for t in [p.value] + [t for t, v in p.facts.items()]:
                    for x in flow.subterms(t):
                        if len(x) > 1 and x[0] == "glob" and x[1] in ty.HDF5:
                            got.add(ty.HDF5[x[1]])
                if p.value[0] == "not" and p.value[1][0] == "eq" or p.value[0] in ("bool", "app", "anyof"):
                    shape_ok = True
            c.ob("predicate", last, (got == want) if got else None, where(f), f"tests for {sorted(ty.words(g) for g in got)}")
            if any(p.kind == "ret" and p.value[0] == "eq" and p.value[1][0] == "app" and p.value[1][1] == "end" for p in A.run(f)):
                c.ob("predicate", last + " polarity", False, where(f), "holds when the type is not found")
            for p in A.run(f):
                v = p.value if p.kind == "ret" else ("?",)
                v = v[1] if v[0] == "not" else v
                if v[0] == "eq" and any(isinstance(x, tuple) and x[0] == "app" and x[1].split("::")[-1] in ("begin", "cbegin") for x in v[1:3]):
                    c.ob("predicate", last + " polarity", False, where(f), "compares with the first type of the table")
        elif f["q"] in ("lue::hdf5::Datatype::is_native", "lue::hdf5::Datatype::is_standard"):
            want = {q for q, (k, o) in PRED.items() if (o == "native") == (last == "is_native")}
            B = flow.Analysis(prog, opaque=lambda q, k: q.split("::")[-1] in PRED, pure=lambda q, k: q.split("::")[-1] in PRED)
            bad = []
            used = set()
            for p in B.run(f):
                if p.kind != "ret":
                    continue
                asked = {t[1].split("::")[-1]: v for t, v in p.facts.items() if t[0] == "app" and t[1].split("::")[-1] in PRED}
                if p.value[0] == "app" and p.value[1].split("::")[-1] in PRED:
                    asked[p.value[1].split("::")[-1]] = "result"
                used |= set(asked)
                yes = [k for k, v in asked.items() if v is True]
                if p.value == flow.TRUE and not yes or p.value == flow.FALSE and yes:
                    bad.append(show(p.value))
            c.ob("predicate", sig(f), None if not used else used == want and not bad, where(f), f"asks {sorted(used)}")


def equality(c, prog):
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: q == "H5Tequal")
    for f in prog.functions.values():
        if f["q"] in ("lue::hdf5::Datatype::operator==", "lue::hdf5::Datatype::operator!=") and "body" in f:
            o = ("par", f["params"][0][0])
            for p in A.run(f):
                if p.kind != "ret":
                    continue
                v, flip = p.value, f["q"].endswith("!=")
                if v[0] == "not":
                    v, flip = v[1], not flip
                r = None
                for x in flow.subterms(v if v[0] != "bool" else ("x",) + tuple(p.facts)):
                    if len(x) > 1 and x[0] == "app" and x[1] == "H5Tequal":
                        r = x
                if r is None:
                    c.ob("comparison", sig(f), None, where(f), show(p.value))
                    continue
                both = contains(r, ("this",)) and contains(r, o)
                if v[0] == "bool":
                    eqv = decided(p.facts, flow.mk_lt(flow.ZERO, r))
                    ok = None if eqv is None else (eqv == v[1]) != flip
                else:
                    ok = (v in (flow.mk_lt(flow.ZERO, r), flow.mk_eq(r, ("int", 1)))) != flip if v[0] in ("lt", "eq") else None
                    if v[0] == "eq" and v != flow.mk_eq(r, ("int", 1)):
                        ok = (v == flow.mk_eq(r, flow.ZERO)) == flip
                c.ob("comparison", sig(f), ok and both if ok is not None else None, where(f), f"is {show(p.value)}")


def text(c, prog):
    """Text types are UTF-8, null-terminated C strings of the requested (or of variable) length."""
    A = flow.Analysis(prog, opaque=lambda q, k: h5_call(q), pure=lambda q, k: q in PURE_HDF5)
    for f in prog.functions.values():
        if f["q"] not in ("lue::hdf5::create_string_datatype", "lue::hdf5::create_datatype") or "body" not in f or len(f["params"]) > 1:
            continue
        for p in A.run(f):
            if p.kind != "ret":
                continue
            cp = [e for e in p.events if e.q == "H5Tcopy"]
            cs = [e for e in p.events if e.q == "H5Tset_cset"]
            sz = [e for e in p.events if e.q == "H5Tset_size"]
            ok = bool(cp) and ty.hdf5_of(cp[-1].args[0]) == ("s", 0, "text") and contains(p.value, cp[-1].res)
            c.ob("text", sig(f) + " base", ok, where(f), f"copies {[show(e.args[0]) for e in cp]}")
            c.ob("text", sig(f) + " encoding", bool(cs) and cs[-1].args[0] == cp[-1].res and str(cs[-1].args[1]).find("UTF8") >= 0, where(f),
                 f"sets {[show(e.args[1]) for e in cs]}")
            if f["params"]:
                want = ("par", f["params"][0][0])
                ok = bool(sz) and sz[-1].args[1] == want
            else:
                n = sz[-1].args[1] if sz else None
                while n and n[0] == "cast":
                    n = n[-1]
                ok = bool(sz) and (n[0] == "int" and n[1] in (-1, 2 ** 64 - 1) or None)
            c.ob("text", sig(f) + " length", ok, where(f), f"sets the length to {[show(e.args[1]) for e in sz]}")
