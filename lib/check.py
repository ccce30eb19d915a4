"""Obligations, known findings, evidence and exit codes shared by all checks."""
import json, os, re, sys, time, traceback
import lueir
from lueir import AnalysisError, VERIF

FINDINGS = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.obs = []          # (rule, instance, ok, where, detail)
        self.counts = {}
        self.assumptions = list(assumptions)
        self.analysed = {}
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.notes = []

    # ok: True discharged, False violated, None undecided
    def ob(self, rule, instance, ok, where="", detail=""):
        self.obs.append((rule, instance, ok, where, detail))
        return ok

    def note(self, text):
        self.notes.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def program(self, prog):
        self.analysed["translation_units"] = len(prog.files)
        self.analysed["functions_in_program"] = len(prog.functions)
        self.parse_s = getattr(prog, "parse_s", 0)

    def finish(self, minimum):
        """minimum: {rule: smallest number of obligations that makes sense}"""
        if os.environ.get("LUE_DEBUG"):
            for o in self.obs:
                if not o[2]:
                    print(o)
        per = {}
        for r, i, ok, w, d in self.obs:
            per.setdefault(r, [0, 0, 0])
            per[r][0 if ok else 1 if ok is False else 2] += 1
        violated = any(o[2] is False for o in self.obs)
        for r, n in minimum.items():
            total = sum(per.get(r, [0, 0, 0]))
            if total < n:
                raise AnalysisError(f"rule {r}: {total} instances found, at least {n} expected: the analysis lost its anchors")
            if not violated and total >= 5 and per.get(r, [0, 0, 0])[2] > 0.8 * total:
                raise AnalysisError(f"rule {r}: {per[r][2]} of {total} instances cannot be decided")
        if not violated and sum(x[2] for x in per.values()) > len(self.obs) / 2:
            raise AnalysisError("most instances cannot be decided")
        known = load_findings(self.pid)
        violations = []
        seen = set()
        for r, i, ok, w, d in self.obs:
            if ok is not False:
                continue
            inst = f"{r}: {i}"
            if inst in seen:
                continue
            seen.add(inst)
            if inst in known:
                print(f"KNOWN-FINDING: property={self.pid} {inst} -- {known[inst]}")
                continue
            violations.append((r, i, w, d))
        undecided = [(r, i, w, d) for r, i, ok, w, d in self.obs if ok is None]
        print(f"[{self.pid}] rule: {self.rule}")
        for k, v in {**self.analysed, **self.counts}.items():
            print(f"[{self.pid}] {k}: {v}")
        for r, (a, b, c) in sorted(per.items()):
            print(f"[{self.pid}] {r}: {a + b + c} obligations, {a} discharged, {b} violated, {c} undecided")
        for r, i, w, d in undecided[:20]:
            print(f"[{self.pid}] UNDECIDED {r}: {i} at {w}: {d}")
        self.evidence(per, violations, undecided)
        if violations:
            report = os.path.join(VERIF, "evidence", f"{self.pid}.violations.txt")
            with open(report, "w") as f:
                for r, i, w, d in violations:
                    f.write(f"{r}: {i}\n  at {w}\n  {d}\n\n")
            for r, i, w, d in violations:
                print(f"[{self.pid}] VIOLATED {r}: {i}\n    at {w}\n    {d}")
            print(f"VIOLATION property={self.pid} replay={report}")
            return 1
        print(f"[{self.pid}] ok")
        return 0

    def evidence(self, per, violations, undecided):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        samples = []
        seen = {}
        for r, i, ok, w, d in self.obs:
            if seen.get(r, 0) < 3:
                seen[r] = seen.get(r, 0) + 1
                samples.append(f"{r}: {i} [{w}] -> {'discharged' if ok else 'violated' if ok is False else 'undecided'}")
        distinct = len({(r, i) for r, i, *_ in self.obs})
        e = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": f"Static analysis of /repo's current sources. Rule: {self.rule} "
                               f"This run type-checked {self.analysed.get('translation_units', 0)} units and decided "
                               f"{sum(a + b for a, b, c in per.values())} obligations at {distinct} distinct program constructs.",
                "rules": {r: {"obligations": a + b + c, "discharged": a, "violated": b, "undecided": c} for r, (a, b, c) in per.items()},
                "obligations_total": len(self.obs),
                "distinct_constructs": distinct,
                "analysed": {**self.analysed, **self.counts},
                "samples": samples,
                "undecided": [f"{r}: {i} at {w}: {d}" for r, i, w, d in undecided],
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(violations),
        }
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(e, f, indent=1)


def load_findings(pid):
    if not os.path.exists(FINDINGS):
        return {}
    d = json.load(open(FINDINGS))
    return {k["instance"]: k["what"] for k in d.get("findings", []) if k["property"] == pid}


def main(pid, run):
    try:
        sys.exit(run())
    except AnalysisError as e:
        print(f"[{pid}] ANALYSIS BROKEN: {e}")
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"[{pid}] ANALYSIS BROKEN: internal error")
        sys.exit(2)


def where(fn, line=None):
    return f"{lueir.rel(fn['file'])}:{line or fn['line']} ({fn['q']})"


def short(q):
    return q.replace("lue::data_model::", "").replace("lue::hdf5::", "hdf5::")


def sig(fn):
    """Readable, line-independent name of a function."""
    def t(x):
        x = re.sub(r"std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string", x)
        x = re.sub(r"lue::(data_model|hdf5)::", "", x)
        return x.replace("const ", "").replace(" &", "").strip()
    return f"{short(fn['q'])}({', '.join(t(p[2]) for p in fn['params'])})"
