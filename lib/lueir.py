"""Front end: builds the extractor, type-checks /repo's current sources with it and loads the result.

Every run works on /repo's current working tree.  Parsed units are cached in /verif/build by a hash of
everything that goes into them (extractor, flags, the unit itself, all project and generated headers).
"""
import glob, hashlib, json, os, shlex, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LUE_REPO", "/repo")
SRC = os.path.join(REPO, "source") + "/"
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"

COMPONENTS = {  # name -> source directory of non-test translation units
    "hdf5": "data_model/hdf5/source",
    "cxx": "data_model/cxx/source",
    "hl": "data_model/hl/source",
    "gdal": "data_model/gdal/source",
    "py": "data_model/python/source",
    "pytop": "python/source",
    "qa": "quality_assurance/cxx/source",
    "pyqa": "quality_assurance/python/source",
}


class AnalysisError(Exception):
    """The analysis cannot be carried out (never a verdict about the code)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def extractor():
    src = os.path.join(VERIF, "extract", "lue_extract.cpp")
    digest = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, f"lue_extract-{digest}")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = shlex.split(sh([f"{LLVM}/bin/llvm-config", "--cxxflags"]).stdout)
    flags = [f for f in flags if not f.startswith("-std=")]
    tmp = exe + f".tmp{os.getpid()}"
    r = sh([f"{LLVM}/bin/clang++", "-O1", *flags, "-std=c++20", "-fno-rtti", src, "-o", tmp,
            f"{LLVM}/lib/libclang-cpp.so.18.1", f"{LLVM}/lib/libLLVM-18.so"])
    if r.returncode != 0:
        raise AnalysisError("cannot build the extractor:\n" + r.stdout[-3000:])
    os.replace(tmp, exe)
    return exe


INSTANTIATE = {"templates": (os.path.join(VERIF, "spec/instantiate.cpp"), "cxx"), "gdal templates": (os.path.join(VERIF, "spec/instantiate_gdal.cpp"), "gdal"),
               "hl templates": (os.path.join(VERIF, "spec/instantiate_hl.cpp"), "hl")}

GEN_COMPONENTS = ("shared", "data_model/cxx", "data_model/hdf5", "data_model/hl", "data_model/gdal", "python")


def generated_root():
    """Directory with the headers the build generates; copies are kept in spec/generated."""
    d = os.path.join(REPO, "_build/source")
    if all(os.path.isdir(os.path.join(d, c, "include")) for c in GEN_COMPONENTS):
        return d
    return os.path.join(VERIF, "spec/generated")


def flags_for(path):
    """Settings with which the build compiles the units of the component (recorded from its compilation database)."""
    saved = json.load(open(os.path.join(VERIF, "spec/generated/flags.json")))
    rel = os.path.relpath(path, REPO)
    for name, (file, comp) in INSTANTIATE.items():  # uses of the header-only parts that nothing but the tests instantiates
        if path == file:
            rel = f"source/data_model/{comp}/source/instantiate.cpp"
    for comp, fl in sorted(saved.items(), key=lambda kv: -len(kv[0])):
        if rel.startswith(comp + "/"):
            return [f.replace("@REPO@", REPO).replace("@GEN@", generated_root()) for f in fl]
    raise AnalysisError(f"no compilation flags for {path}")


def gcc_dir():
    for v in ("13", "14", "12"):
        d = f"/usr/lib/gcc/x86_64-linux-gnu/{v}"
        if os.path.isdir(d) and os.path.isdir(f"/usr/include/c++/{v}"):
            return d
    return None


_header_hash = None


def header_hash():
    global _header_hash
    if _header_hash is None:
        h = hashlib.sha256()
        roots = [os.path.join(SRC, d) for d in ("shared", "data_model", "python", "quality_assurance")]
        roots += [os.path.join(generated_root(), c, "include") for c in GEN_COMPONENTS]
        for root in roots:
            for base, dirs, files in sorted(os.walk(root)):
                dirs.sort()
                if "/test" in base:
                    continue
                for f in sorted(files):
                    if f.endswith((".hpp", ".h", ".hxx")):
                        p = os.path.join(base, f)
                        h.update(p.encode())
                        h.update(open(p, "rb").read())
        _header_hash = h.hexdigest()
    return _header_hash


def units(components):
    result = []
    for c in components:
        d = os.path.join(SRC, COMPONENTS[c])
        files = sorted(glob.glob(os.path.join(d, "**", "*.cpp"), recursive=True))
        result += files
    return result


def parse(files):
    exe = extractor()
    gd = gcc_dir()
    extra = ["-std=c++23", "-resource-dir=" + glob.glob(f"{LLVM}/lib/clang/18*")[0]]
    if gd:
        extra.append("--gcc-install-dir=" + gd)
    extra.append("-Wno-everything")
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)

    def one(f):
        fl = [x for x in flags_for(f) if not x.startswith("-std=")] + extra
        h = hashlib.sha256()
        h.update(os.path.basename(exe).encode())
        h.update(" ".join(fl).encode())
        h.update(header_hash().encode())
        h.update(f.encode())
        h.update(open(f, "rb").read())
        out = os.path.join(cache, h.hexdigest()[:32] + ".json")
        if not os.path.exists(out):
            tmp = out + f".tmp{os.getpid()}.{abs(hash(f))}"
            r = sh([exe, SRC, tmp, f, "--", *fl])
            if r.returncode != 0 or not os.path.exists(tmp):
                raise AnalysisError(f"cannot type-check {f}:\n" + r.stdout[-3000:])
            os.replace(tmp, out)
        return out

    with ThreadPoolExecutor(max_workers=8) as pool:
        return list(pool.map(one, files))


class Program:
    """Union of the extracted units."""

    def __init__(self):
        self.functions, self.classes, self.globals, self.enums, self.callees = {}, {}, {}, {}, {}
        self.by_name, self.variants = {}, {}
        self.files = []

    def load(self, path, unit):
        text = open(path).read()
        if "boost::optional" in text:
            text = text.replace("boost::optional", "std::optional").replace("boost::none", "std::nullopt")
        d = json.loads(text)
        self.files.append(unit)
        for k, v in d["functions"].items():
            old = self.functions.get(k)
            if old is None or ("body" not in old and "body" in v):
                v["key"] = k
                v["unit"] = unit
                self.functions[k] = v
            if "body" in v and not v["file"].endswith(".cpp") and "(anonymous)" not in k:
                self.variants.setdefault(k, []).append((unit, v))
        for name in ("classes", "enums"):
            getattr(self, name).update(d[name])
        for k, v in d["globals"].items():
            if v and (self.globals.get(k) is None or "init" in v):
                self.globals[k] = v
        for k, v in d["callees"].items():
            self.callees.setdefault(k, v)

    def index(self):
        self.by_name = {}
        for k, f in self.functions.items():
            self.by_name.setdefault(f["q"], []).append(f)

    def conflicts(self):
        """Functions defined in a header of which units see different definitions: [(function, unit, other unit)]"""
        def text(v):
            ids = {}

            def walk(x):
                if isinstance(x, list):
                    if len(x) > 2 and x[0] in ("var", "v") and isinstance(x[2], int):
                        return [x[0], x[1], "#" + str(ids.setdefault(x[2], len(ids)))] + [walk(y) for y in x[3:]]
                    return [walk(y) for y in x]
                if isinstance(x, dict):
                    return {k: walk(y) for k, y in x.items()}
                return x

            params = [[n, "#" + str(ids.setdefault(i, len(ids))), *more] for n, i, *more in v.get("params", [])]
            return params, walk(v.get("inits")), walk(v["body"])

        out = []
        for k, vs in self.variants.items():
            if len(vs) > 1:
                first = text(vs[0][1])
                out += [(vs[0][1], vs[0][0], u) for u, v in vs[1:] if v["file"] == vs[0][1]["file"] and text(v) != first][:1]
        return out

    def named(self, q, arity=None, pred=None, required=True):
        r = [f for f in self.by_name.get(q, []) if "body" in f or f.get("inits")]
        if arity is not None:
            r = [f for f in r if len(f["params"]) == arity]
        if pred:
            r = [f for f in r if pred(f)]
        if required and not r:
            raise AnalysisError(f"anchor not found: function {q}" + (f"/{arity}" if arity is not None else ""))
        return r

    def one(self, q, arity=None, pred=None):
        r = self.named(q, arity, pred)
        if len(r) != 1:
            raise AnalysisError(f"anchor ambiguous: {q}: " + "; ".join(f["key"] for f in r))
        return r[0]


def load(*components):
    t = time.time()
    files = units([c for c in components if c not in INSTANTIATE])
    files += [INSTANTIATE[c][0] for c in components if c in INSTANTIATE]
    if not files:
        raise AnalysisError("no translation units in " + ", ".join(components))
    paths = parse(files)
    p = Program()
    for path, f in zip(paths, files):
        p.load(path, f)
    p.index()
    p.parse_s = time.time() - t
    return p


def rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + "/") else path
