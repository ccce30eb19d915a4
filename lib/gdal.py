"""The GDAL component: calls of GDAL, their failure values, and analyses of the component's functions."""
import flow, lueir
from common import *

G = "lue::gdal::"
CPL = {"CE_None": 0, "CE_Debug": 1, "CE_Warning": 2, "CE_Failure": 3, "CE_Fatal": 4}
NEVER_NULL = {"GetGDALDriverManager": "creates the manager when it is missing"}
NO_REPORT = {"GDALClose": "called by the deleter of a dataset pointer, which cannot report",
             "CPLPushErrorHandler": "", "CPLPopErrorHandler": ""}


def gdal_call(q):
    return q.startswith(("GDAL", "CPL", "VSI", "OGR", "OSR", "GetGDAL")) and not q.startswith(G)


def returns(prog, e):
    c = prog.callees.get(e.key)
    return (c or {}).get("ret", "")


def kind(prog, e):
    """How a call of GDAL reports failure: 'status', 'pointer' or None."""
    return kind_of(e.q, returns(prog, e))


def kind_of(q, ret):
    if q in NO_REPORT or q in NEVER_NULL:
        return None
    t = ret.replace("const ", "").strip()
    if t == "CPLErr" or t == "OGRErr":
        return "status"
    if t.endswith("*") and ("GDAL" in t or t == "void *" or "OGR" in t):
        return "pointer"
    return None


def value_of(t):
    if t[0] == "enum":
        return CPL.get(t[1].split("::")[-1])
    if t[0] == "int":
        return t[1]
    return None


def failure_excluded(facts, r, how):
    if how == "pointer":
        for t, v in facts.items():
            if t[0] == "eq" and r in t[1:]:
                o = t[2] if t[1] == r else t[1]
                if o[0] in ("nullptr", "null") or o == flow.ZERO:
                    return not v
        return False
    for t, v in facts.items():
        if t[0] == "eq" and r in t[1:]:
            o = value_of(t[2] if t[1] == r else t[1])
            if o is None:
                continue
            if v and o < CPL["CE_Failure"] or not v and o == CPL["CE_Failure"]:
                return True
        if t[0] == "lt" and r in t[1:]:
            a, b = value_of(t[1]), value_of(t[2])
            if t[1] == r and b is not None and v and b <= CPL["CE_Failure"]:
                return True
            if t[2] == r and a is not None and not v and a <= CPL["CE_Failure"] - 1:
                return True
    return False


def failure_seen(facts, r):
    """The path has found that the pointer is null."""
    for t, v in facts.items():
        if t[0] == "eq" and r in t[1:] and (t[2] if t[1] == r else t[1])[0] in ("nullptr", "null"):
            return bool(v)
    return False


def carries_failure(ret):
    """May the result of a function say that a call of GDAL failed?"""
    r = ret.replace("const ", "").strip()
    return r in ("CPLErr", "bool", "int", "OGRErr") or r.endswith("*") or "shared_ptr<GDAL" in r or "unique_ptr<GDAL" in r or "optional" in r or "tuple" in r
