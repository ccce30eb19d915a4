"""What the Python extension module exposes, from the extracted pybind11 binding code."""
import lueir
from common import scan, component


def functions_of(node):
    """Keys of the functions an argument expression denotes (lambda, function, member function, cast of these)."""
    out = []

    def visit(x):
        if x[0] == "lambda":
            out.append(("lambda", x[2], x))
        elif x[0] == "fn" and len(x) > 2:
            out.append(("fn", x[2], x))
    scan([node], visit)
    return out


def bindings(prog):
    """[{cls, name, kind, fns: [(kind, key, node)], args: [...], fn, line}] for every def* call on a class or module."""
    out = []
    seen = set()
    for k, f in prog.functions.items():
        if component(f) != "python" or "body" not in f:
            continue

        def visit(x, f=f):
            if x[0] != "call" or len(x) < 6 or not isinstance(x[5], str) or not x[5].startswith("pybind11::"):
                return
            last = x[5].split("::")[-1]
            if not last.startswith("def") or last == "def_submodule":
                return
            if id(x) in seen:
                return
            seen.add(id(x))
            args = x[3]
            name = args[0][1] if args and args[0][0] == "str" else None
            ctor = None
            if last == "def" and name is None and args:
                ctor = True
            cls = x[6] if len(x) > 6 else ""
            out.append({"cls": cls, "name": name or ("__init__" if ctor else None), "kind": last, "args": args,
                        "fns": functions_of(args[1]) if len(args) > 1 and name else functions_of(args[0]) if args else [],
                        "more": [functions_of(a) for a in args[2:]],
                        "fn": f, "line": x[4], "key": x[1]})
        scan(f.get("body"), visit)
    return out


def bound_class(b):
    """lue class a binding belongs to, or 'module'."""
    c = b["cls"]
    if "class_<" in c:
        inner = c.split("class_<", 1)[1]
        d = 0
        for i, ch in enumerate(inner):
            if ch == "<":
                d += 1
            elif ch == ">":
                if d == 0:
                    return inner[:i]
                d -= 1
            elif ch == "," and d == 0:
                return inner[:i]
        return inner
    if "enum_<" in c:
        return c.split("enum_<", 1)[1].rstrip(">")
    return "module"


def enum_values(prog):
    """[(enum type, name, value node, fn, line)] of every py::enum_::value call."""
    out = []
    for k, f in prog.functions.items():
        if component(f) != "python" or "body" not in f:
            continue

        def visit(x, f=f):
            if x[0] == "call" and len(x) > 5 and x[5] == "pybind11::enum_::value":
                ty = x[6].split("enum_<", 1)[1].rsplit(">", 1)[0]
                a = x[3]
                out.append((ty, a[0][1] if a[0][0] == "str" else None, a[1], f, x[4]))
        scan(f.get("body"), visit)
    return out
