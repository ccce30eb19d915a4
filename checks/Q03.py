"""Q03: a command that the scalability tools start and that fails makes them fail; generated scripts stop at the first command that fails, pass the settings of the benchmark on to the command under
their own names, whichever scheduler is used, and have its results written where the import looks for them. Decided by path analysis of the Python package (lib/pypaths.py)."""
import os
import re

import pypaths as P
from check import Check
from lueir import REPO

ROOT = "source/quality_assurance/scalability/command/scalability"
KINDS = ("partition_shape", "weak_scalability", "strong_scalability")
ROLES = {"Cluster": "cluster", "Benchmark": "benchmark", "Experiment": "experiment"}
EXTERNAL = re.compile(r"\b(subprocess\.\w+|os\.(system|popen|spawn\w+|exec\w+))\s*\(")


def main(c):
    root = os.path.join(REPO, ROOT)
    pkg = P.Package(root)
    c.analysed["translation_units"] = c.analysed["python_modules"] = len(pkg.trees)
    c.analysed["python_functions"] = len(pkg.functions)
    statuses(c, root)
    for kind in KINDS:
        scripts(c, pkg, kind)


def where(pkg, key, line=None):
    mod, f = pkg.functions[key]
    return f"{ROOT}/{'/'.join(mod)}.py:{line or f.lineno}"


# ------------------------------------------------------------ commands that are started

def callers(pkg):
    """Functions that start commands, directly or through others of the package"""
    import ast
    uses = {}
    for key, (mod, f) in pkg.functions.items():
        refs = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                refs.add(pkg.lookup(mod, n.id))
            elif isinstance(n, ast.Attribute):
                chain, x = [], n
                while isinstance(x, ast.Attribute):
                    chain.insert(0, x.attr)
                    x = x.value
                if isinstance(x, ast.Name):
                    v = pkg.lookup(mod, x.id)
                    for a in chain:
                        v = pkg.attr(v, a)
                    refs.add(v)
        uses[key] = refs
    direct = {k for k, refs in uses.items() if any(r[0] == "name" and (r[1] == "os.system" or r[1].startswith(("subprocess.", "os.popen", "os.spawn", "os.exec"))) for r in refs)}
    reach, todo = set(direct), list(direct)
    while todo:
        x = todo.pop()
        for k, refs in uses.items():
            if k not in reach and ("fn", x) in refs:
                reach.add(k)
                todo.append(k)
    return direct, reach


def statuses(c, root):
    pkg = P.Package(root, status=(0, 1, -9))
    direct, reach = callers(pkg)
    c.analysed["functions_starting_commands"] = len(reach)
    for key in sorted(reach):
        name = ".".join(key)
        try:
            paths = pkg.root_paths(key)
        except P.Undecided as e:
            c.ob("status", name, None, where(pkg, key), str(e))
            continue
        ok, why = True, ""
        for kind, v, st in paths:
            runs = [e for e in st.events if e[0] == "run"]
            bad = [e for e in runs if e[1] != 0]
            if bad and (kind == "ret" or v == ("name", "success")):
                if v[0] == "const" and isinstance(v[1], int) and v[1] not in (0, None, False) or v == ("const", False) and key in direct:
                    continue          # hands the status on to its callers, which are looked at as well
                ok, why = False, f"carries on after a command answers {bad[0][1]} (line {bad[0][2]})"
            if runs and not bad and kind == "raise" and "Error executing" in P.show(v):
                ok, why = False, "raises although the command succeeded"
        c.ob("status", name, ok, where(pkg, key), why)


# ------------------------------------------------------------ scripts

def role(t):
    """Terms in which settings are named by what they are, however they were obtained"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "attr" and isinstance(t[1], tuple) and t[1][0] == "call" and t[1][1][0] == "cls" and t[1][1][1][-1] == "Configuration":
        return ("role", t[2])
    if t[0] == "call" and isinstance(t[1], tuple) and t[1][0] == "cls" and t[1][1][-1] in ROLES:
        return ("role", ROLES[t[1][1][-1]])
    return tuple(role(x) for x in t)


def pieces(t):
    return t[1] if t[0] == "cat" else (t,)


def script(events):
    """Texts written to the script"""
    out = []
    for e in events:
        if e[0] == "call" and e[1][0] == "attr" and e[1][2] in ("write", "write_text") and len(e[2]) == 1:
            src = role(e[1][1])
            if any(x == ("role", "script_pathname") for x in P.terms(src)):
                out.append((role(e[2][0]), e[-1]))
    return out


SETTINGS = {"count", "nr_workers", "array_shape", "partition_shape", "result"}


def options(parts):
    """[{option: term}] for every command line, in order of appearance; '' is the command itself"""
    out, cur, name = [], None, None
    for i, x in enumerate(parts):
        if x[0] == "const":
            for m in re.finditer(r"--lue:(\w+)=[\"']?", x[1]):
                if cur is not None and m.group(1) not in cur:
                    rest = x[1][m.end():]
                    cur[m.group(1)] = parts[i + 1] if not rest and i + 1 < len(parts) else ("const", rest)
        elif x[0] == "attr" and x[2] == "command_pathname":
            cur = {"": x, "before": parts[i - 1] if i else ("const", "")}
            out.append(cur)
        elif x[0] == "attr" and x[2] == "command_arguments" and cur is not None:
            cur.setdefault("arguments", x)
    return out


def scripts(c, pkg, kind):
    gen, imp = ("experiment", kind, "generate_script", "generate_script"), ("experiment", kind, "import_results", "import_results")
    written, commands = set(), []
    try:
        paths = [(k, v, s) for k, v, s in pkg.root_paths(gen) if k == "ret"]
    except P.Undecided as e:
        for r in ("stops", "setting", "same", "found"):
            c.ob(r, kind, None, where(pkg, gen), str(e))
        return
    seen = 0
    for _, _, st in paths:
        for text, line in script(st.events):
            seen += 1
            parts = pieces(text)
            ok, why = stops(parts)
            c.ob("stops", f"{kind}: script {seen}", ok, where(pkg, gen), why)
            hidden = any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "format" or x[0] in ("bin", "opaque") and x[1] == "Mod" for x in P.terms(text) if len(x) > 1 and isinstance(x[1], (tuple, str)) and x[1])
            for o in options(parts):
                commands.append({**o, "hidden": hidden})
    c.count("scripts", seen)
    if not commands:
        c.ob("setting", kind, None, where(pkg, gen), "no command lines found")
    for i, o in enumerate(commands):
        settings(c, kind, i, o, where(pkg, gen))
        if "result" in o:
            written.add(o["result"])
    # the same command, however it is started
    for name in ("", "arguments", "count", "nr_workers", "array_shape", "result"):
        vals = {o.get(name) for o in commands}
        ok = len(vals) == 1 and None not in vals
        if not ok and unknown(vals):
            ok = None
        c.ob("same", f"{kind}: {name or 'command'}", ok or (None if ok is None or None in vals and any(o["hidden"] for o in commands) else False), where(pkg, gen), f"is {' or '.join(sorted(P.show(v)[:120] if v else 'missing' for v in vals))}")
    try:
        reads = set()
        for k, v, st in pkg.root_paths(imp):
            for e in st.events:
                if e[0] == "call" and e[2] and (e[1] == ("name", "open") or e[1][0] == "cls") or e[0] == "call" and e[1][0] == "name" and e[1][1].split(".")[-1] in ("exists", "Path"):
                    for t in P.terms(role(e[2][0])):
                        if t[0] == "call" and t[1] == ("name", "os.path.join") and t == role(e[2][0]) and any(x[0] == "const" and isinstance(x[1], str) and x[1].endswith(".json") for x in P.terms(t) if len(x) == 2):
                            reads.add(t)
                            break
    except P.Undecided as e:
        c.ob("found", kind, None, where(pkg, imp), str(e))
        return
    c.ob("found", kind, True if reads == written and reads else None if not reads or not written or unknown(reads ^ written) else False, where(pkg, imp),
         f"reads {' and '.join(sorted(P.show(t) for t in reads - written))[:300]}, the commands write {' and '.join(sorted(P.show(t) for t in written - reads))[:300]}")


def settings(c, kind, i, o, at):
    """Each option gets the setting of its name."""
    def is_(term, *names):
        return any(isinstance(x, tuple) and x and (x[0] == "attr" and x[2] in names or x[0] in ("fn",) and x[1][-1] in names) for x in P.terms(term))
    want = {"count": lambda t: t == ("attr", ("role", "benchmark"), "count"),
            "nr_workers": lambda t: is_(t, "worker") and not is_(t, "array", "partition", "count"),
            "array_shape": lambda t: is_(t, "array") and not is_(t, "partition"),
            "partition_shape": lambda t: is_(t, "partition"),
            "result": lambda t: t[0] == "call" and is_(t, "program_name")}
    for name in sorted(SETTINGS):
        t = o.get(name)
        c.ob("setting", f"{kind}: --lue:{name} of command {i}", want[name](t) if t is not None else None if o["hidden"] else False, at, "is not passed" if t is None else f"is {P.show(t)[:150]}")


def unknown(vals):
    """Whether a value depends on something a loop changes"""
    return any(isinstance(x, tuple) and x and (x[0] in ("any", "index", "opaque", "slice") or x[0] == "item" and len(x) > 2 and not (isinstance(x[2], tuple) and x[2][0] == "const"))
               for v in vals if v for x in P.terms(v))


def stops(parts):
    """Whether the shell stops at the first command that fails"""
    head = ""
    for x in parts:
        if x[0] != "const":
            break
        head += x[1]
    lines, found = head.split("\n"), None
    for i, l in enumerate(lines):
        l = l.strip()
        if i == 0 and l.startswith("#!"):
            if re.search(r"sh\s+-\w*e", l):
                found = True
            continue
        if re.match(r"set\s+(-\w*e\w*|.*-o\s+errexit)(\s|$)", l):
            found = True
            break
        if l and not l.startswith("#"):
            break
    if not found:
        return False, "commands come before the shell is told to stop at failures, or it is not told so"
    for x in parts:
        if x[0] == "const" and isinstance(x[1], str):
            m = re.search(r"\|\||(^|\n)\s*set \+\w*e|;\s*true\b|(?<!&)&\s*(\n|$)", x[1])
            if m:
                return False, f"failures are hidden by '{m.group(0).strip()}'"
        elif x[0] == "join" and x[1] not in (("const", "\n"), ("const", " "), ("const", "x"), ("const", ",")):
            return None, f"commands joined by {P.show(x[1])}"
    return True, ""


def run():
    c = Check("Q03", "paths of the functions that start commands, for each answer of the command: those on which it fails end in an error; texts of the generated scripts: stop at failures, pass each "
              "setting under its name, the same for each scheduler; the files read by the import are those written by the commands",
              ["the shell and the scheduler act as documented", "settings read back from the dataset are those that were written (Q02)"])
    main(c)
    return c.finish({"status": 3, "stops": 3, "setting": 20, "same": 10, "found": 2})
