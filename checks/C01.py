"""C01: what a header declares and defines is the same in all units that include it."""
import glob, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import lueir
from check import Check, where
from G01 import name

COMPONENTS = ("hdf5", "cxx", "hl", "gdal", "py", "pytop", "qa", "pyqa")
INCLUDES = ("data_model/hdf5/include", "data_model/cxx/include", "data_model/hl/include", "data_model/gdal/include", "data_model/python/include",
            "quality_assurance/cxx/include", "quality_assurance/python/include", "python/include", "shared/include")
SETTINGS_OF = {"shared": "data_model/cxx"}


def expand(path, flags):
    """Text of each header of the repository as a unit sees it."""
    fl = [x for x in flags if not x.startswith("-std=")]
    gcc = lueir.gcc_dir()
    r = subprocess.run([f"{lueir.LLVM}/bin/clang++", "-E", "-std=c++23", *([f"--gcc-install-dir={gcc}"] if gcc else []), "-Wno-everything", *fl, "-x", "c++", path],
                       capture_output=True, text=True)
    if r.returncode:
        return None
    out, current = {}, None
    for line in r.stdout.split("\n"):
        m = re.match(r'# \d+ "([^"]*)"', line)
        if m:
            current = m[1]
            continue
        if current and line.strip():
            text = re.sub(r"__attribute__\s*\(\((?:[^()]|\([^()]*\))*\)\)", "", line)
            out.setdefault(os.path.normpath(current), []).append(" ".join(text.split()))
    return {f: " ".join(x for x in lines if x) for f, lines in out.items() if mine(f)}


def mine(f):
    return (f.startswith(lueir.SRC) or f.startswith(lueir.generated_root())) and not f.endswith(".cpp")


def difference(a, b):
    a, b = a.split(" "), b.split(" ")
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    cut = lambda t: " ".join(t[max(0, i - 4):i + 8])[:120]
    return f"... {cut(a)} ... and ... {cut(b)} ..."


RELEASED = ["-DNDEBUG", "-O2", "-fopenmp"]


def layouts(path, flags, classes):
    """Layout of each of the classes, as a unit that includes the header sees it."""
    gcc = lueir.gcc_dir()
    unit = f'#include "{path}"\n' + "".join(f"static_assert(sizeof({x}) > 0);\n" for x in classes)
    r = subprocess.run([f"{lueir.LLVM}/bin/clang++", "-fsyntax-only", "-std=c++23", *([f"--gcc-install-dir={gcc}"] if gcc else []), "-Wno-everything", *[x for x in flags if not x.startswith("-std=")],
                        "-Xclang", "-fdump-record-layouts", "-x", "c++", "-"], input=unit, capture_output=True, text=True)
    out = {}
    for block in r.stdout.split("*** Dumping AST Record Layout")[1:]:
        lines = block.strip("\n").split("\n")
        m = re.match(r"\s*0 \| (?:class|struct|union) (lue::\S.*?)(?: \(empty\))?$", lines[0])
        if m:
            out[m[1]] = "\n".join(x for x in lines if "|" in x)
    return out


def settings(c, headers, prog):
    """What a header declares does not depend on whether the program that includes it is a release or uses threads: assertions aside, same text, or at least classes with the same layout."""
    own = os.path.join(lueir.VERIF, "build", "plain_assert")
    os.makedirs(own, exist_ok=True)
    for h in ("cassert", "assert.h"):
        text = "#undef assert\n#define assert(...) ((void)0)\n"
        if not os.path.exists(os.path.join(own, h)) or open(os.path.join(own, h)).read() != text:
            with open(os.path.join(own, h + f".{os.getpid()}"), "w") as o:
                o.write(text)
            os.replace(o.name, os.path.join(own, h))

    classes = {}
    for q, k in prog.classes.items():
        if k.get("file") and "(" not in q and q.startswith("lue::"):
            classes.setdefault(os.path.normpath(os.path.join(lueir.REPO, k["file"])), []).append(q)

    def both(x):
        h, flags = x
        if not re.search(r"^\s*#\s*(?:el)?if", open(h, errors="replace").read(), re.M):
            return h, True, ""
        a, b = (expand(h, ["-I", own, *flags, *more]) for more in ([], RELEASED))
        if a is None or b is None:
            return h, None if a is None else False, "cannot be preprocessed in a release"
        a, b = a.get(os.path.normpath(h), ""), b.get(os.path.normpath(h), "")
        if a == b:
            return h, True, ""
        a2, b2 = (layouts(h, [*flags, *more], classes.get(os.path.normpath(h), ())) for more in ([], RELEASED))
        for cls in sorted(set(a2) & set(b2)):
            if a2[cls] != b2[cls]:
                return h, False, f"{cls} is laid out differently in programs built with {' '.join(RELEASED)}"
        return h, None, f"depends on {' '.join(RELEASED)}: {difference(a, b)}"
    with ThreadPoolExecutor(max_workers=8) as pool:
        for h, ok, why in pool.map(both, [x for x in headers if "/test/" not in x[0]]):
            c.ob("same when released", lueir.rel(h), ok, lueir.rel(h), why)


def run():
    c = Check("C01", "all translation units are preprocessed with the settings of their component, and each header also by itself: a header must give the same tokens wherever it is included; "
              "and the type-checked definition of each function in a header must be the same (overloads and values chosen included) in all units",
              ["attributes (symbol visibility) are not part of the meaning"])
    units = [(u, lueir.flags_for(u)) for u in lueir.units(COMPONENTS)]
    if len(units) < 30:
        raise lueir.AnalysisError("anchor not found: translation units")
    headers = []
    for root in INCLUDES:
        part = root.rsplit("/", 1)[0]
        flags = lueir.flags_for(os.path.join(lueir.SRC, SETTINGS_OF.get(part, part), "source", "unit.cpp"))
        headers += [(h, flags) for h in sorted(glob.glob(os.path.join(lueir.SRC, root, "**", "*.hpp"), recursive=True))]
    with ThreadPoolExecutor(max_workers=8) as pool:
        seen = list(pool.map(lambda uf: expand(*uf), units + headers))
    c.count("translation units preprocessed", sum(x is not None for x in seen[:len(units)]))
    c.count("headers preprocessed by themselves", sum(x is not None for x in seen[len(units):]))
    texts = {}
    for (u, _), found in zip(units + headers, seen):
        if found is None and not u.endswith(".hpp"):
            raise lueir.AnalysisError(f"cannot preprocess {u}")
        for h, text in (found or {}).items():
            if text:
                texts.setdefault(h, {}).setdefault(text, []).append(u)
    for h, variants in sorted(texts.items()):
        ok, why = True, ""
        if len(variants) > 1:
            (a, ua), (b, ub) = list(variants.items())[:2]
            # A header meant to be included more than once gives its text as many times
            again = lambda t: re.fullmatch(r"(.+?)(?: \1)+", t)
            ok = None if again(a) or again(b) else False
            why = f"{len(variants)} different contents: {difference(a, b)} as seen by {lueir.rel(ua[0])} and {lueir.rel(ub[0])}"
        c.ob("same text", lueir.rel(h), ok, lueir.rel(h), why)

    prog = lueir.load("hdf5", "cxx", "hl", "gdal", "py", "pytop", "qa", "templates", "gdal templates")
    c.program(prog)
    settings(c, headers, prog)
    bad = {}
    for f, a, b in prog.conflicts():
        bad[f["key"]] = (a, b)
    for k, vs in sorted(prog.variants.items()):
        if len(vs) > 1:
            f = vs[0][1]
            x = bad.get(k)
            c.ob("same definition", name(f), x is None, where(f), f"differs between {lueir.rel(x[0])} and {lueir.rel(x[1])}" if x else "")
    return c.finish({"same text": 60, "same definition": 100, "same when released": 30})
