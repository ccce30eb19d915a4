"""G01: the failure of every fallible call of GDAL is excluded on every path that returns normally."""
import os
import flow, lueir
from check import Check, where, sig
from common import *
import gdal as gd


ITERATIONS = 3 if os.environ.get("VERIF_TIER") == "thorough" else 2


def run():
    c = Check("G01", "on every path of every function of the GDAL component that returns normally, the failure value (a null pointer, CE_Failure) of every call of GDAL "
              "is excluded by a branch of that path, or is the result of a function whose callers are followed too; results that can be null are not dereferenced before "
              "they are tested; and functions documented to return an empty result do so instead of raising",
              ["GDAL documentation: null pointers and CE_Failure denote failure, CE_Fatal does not return",
               "failures that GDAL reports from within GDALClose (flushing caches) cannot be raised by the deleter that calls it"] +
              [f"not considered: {q} ({w})" for q, w in sorted({**gd.NO_REPORT, **gd.NEVER_NULL}.items()) if w])
    prog = lueir.load("gdal", "gdal templates")
    c.program(prog)
    names = {cl["q"] for k, cl in prog.callees.items() if gd.gdal_call(cl["q"]) and gd.kind_of(cl["q"], cl.get("ret") or "")}
    reach = reaching(prog, names)
    other = {k for k, f in prog.functions.items() if component(f) != "gdal" and k not in reach}
    fns = {k: f for k, f in prog.functions.items() if "body" in f and component(f) == "gdal" and "/test/" not in f["file"]}
    alone = {k for k in reach if k in fns and not gd.carries_failure(fns[k].get("ret") or "") and not fns[k].get("ctor") and "::lambda@" not in k}

    results = {}

    def ob(rule, inst, ok, at, why=""):
        old = results.get((rule, inst, at, fn["key"]))
        if old is None or old[0] is True:
            results[rule, inst, at, fn["key"]] = (ok, why)

    for k, fn in sorted(fns.items()):
        if k not in reach or fn["q"].split("::")[-1].startswith("~") or "::lambda@" in fn["q"]:
            continue
        A = flow.Analysis(prog, opaque=lambda q, k2: gd.gdal_call(q) or k2 in other or k2 in alone and k2 != k,
                          pure=lambda q, k2: k2 in other)
        try:
            paths = A.run(fn)
            if any(e.loops and gd.kind(prog, e) for p in paths for e in p.events):
                # a later iteration may overwrite the result of an earlier one
                A.unroll = (ITERATIONS, lambda bound: True)
                paths = paths + A.run(fn)
        except lueir.AnalysisError as e:
            c.ob("checked result", name(fn), None, where(fn), str(e))
            continue
        c.count("functions analysed")
        last = fn["q"].split("::")[-1]
        ret = fn.get("ret") or ""
        inner = "(anonymous)" in fn["q"] or "::detail::" in fn["q"]
        for p in paths:
            if p.kind == "abort":
                continue
            c.count("paths analysed")
            value = A.as_value(p.st, p.value) if p.kind == "ret" else None
            calls = [(e, gd.kind(prog, e)) for e in p.events]
            for e, how in calls:
                if how is None:
                    continue
                site = prog.functions.get(e.fn) or fn
                at = f"{lueir.rel(site['file'])}:{e.line}"
                inst = f"{e.q} in {name(site)}"
                if how == "pointer":
                    early = [x for x in p.events if any(contains(a, ("deref", e.res)) for a in x.args) and not gd.failure_excluded(x.facts, e.res, how)]
                    if early:
                        ob("tested before use", inst, False, at, f"{name(fn)} uses the result without having excluded that it is null")
                    elif any(any(contains(a, ("deref", e.res)) for a in x.args) for x in p.events):
                        ob("tested before use", inst, True, at)
                if p.kind != "ret":
                    if last.startswith("try_") and how == "pointer" and gd.failure_seen(p.facts, e.res):
                        ob("empty result", inst, False, at, f"{name(fn)} raises although it is to return an empty result when GDAL fails")
                    continue
                ok = gd.failure_excluded(p.facts, e.res, how)
                why = f"a path of {name(fn)} returns normally although {e.q} may have failed"
                if not ok and contains(value, e.res) and gd.carries_failure(ret):
                    if how == "pointer":
                        if value == e.res and (last.startswith("try_") or inner):
                            ob("empty result", inst, True, at) if not inner else None
                            continue
                    elif passes_on(value, e.res):
                        ob("result passed on", inst, True, at)
                        continue
                    else:
                        why = f"the result of {name(fn)} does not tell whether {e.q} failed"
                if not ok and inner and gd.carries_failure(ret) and how == "status" and value is not None and value[0] in ("bool", "int", "enum"):
                    continue        # one value per outcome: decided where the function is called
                if not ok and how == "pointer" and described(value) and any(h == "pointer" and gd.failure_seen(p.facts, x.res) for x, h in calls):
                    ok = True
                if not ok and ret == "bool" and how == "status" and value in (flow.FALSE, flow.TRUE):
                    # the outcome decides the result
                    seen_fail = any(t[0] == "eq" and e.res in t[1:] and not v and gd.value_of(t[2] if t[1] == e.res else t[1]) == 0 for t, v in p.facts.items())
                    if seen_fail and value == flow.FALSE:
                        ok = True
                ob("checked result", inst, ok, at, why)
    for (rule, inst, at, _), (ok, why) in results.items():
        c.ob(rule, inst, ok, at, why)
    return c.finish({"checked result": 8, "empty result": 1, "tested before use": 2})


def passes_on(value, r):
    """The value says whether the call failed: the status itself or a comparison that is true exactly without failure."""
    if value == r:
        return True
    if value[0] == "eq" and r in value[1:]:
        o = gd.value_of(value[2] if value[1] == r else value[1])
        return o == 0
    if value[0] == "lt" and value[1] == r:
        o = gd.value_of(value[2])
        return o is not None and 0 < o <= 3
    if value[0] == "not" and value[1][0] == "lt" and value[1][2] == r:
        o = gd.value_of(value[1][1])
        return o is not None and 0 <= o <= 2
    return False


def described(value):
    """A collection that is not empty."""
    return value is not None and (value[0] == "mut" and value[1] in ("emplace_back", "push_back", "insert", "emplace") or value[0] == "init" and bool(value[2])
                                  or value[0] in ("new", "upd") and any(x[0] == "mut" and x[1] in ("emplace_back", "push_back") for x in terms(value)))


def name(fn):
    return sig(fn).replace("lue::gdal::", "") + (fn["targs"] if fn.get("targs") else "")
