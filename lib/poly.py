"""Integer polynomials over terms."""
import flow


def poly(t, leaf=None):
    """{monomial (sorted tuple of atoms): coefficient}; `leaf` may expand an atom into another term."""
    if leaf:
        u = leaf(t)
        if u is not None and u != t:
            return poly(u, leaf)
    k = t[0]
    if k == "int":
        return {(): t[1]} if t[1] else {}
    if k == "cast":
        return poly(t[-1], leaf)
    if k == "op" and t[1] in ("+", "-", "*") and len(t[2]) >= 1:
        a = [poly(x, leaf) for x in t[2]]
        if t[1] == "-" and len(a) == 1:
            return scale(a[0], -1)
        r = a[0]
        for b in a[1:]:
            r = add(r, b) if t[1] == "+" else add(r, scale(b, -1)) if t[1] == "-" else mul(r, b)
        return r
    return {(t,): 1}


def add(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if not r[m]:
            del r[m]
    return r


def scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            r = add(r, {tuple(sorted(m + n, key=repr)): c * d})
    return r


def sub(a, b):
    return add(a, scale(b, -1))


def constant(p):
    """The value of a polynomial without atoms, else None."""
    return p.get((), 0) if all(m == () for m in p) else None


def bounds(facts, d, leaf=None):
    """The smallest and largest value the facts leave for the polynomial d (None: not bounded)."""
    lo = hi = None
    for t, v in facts.items():
        if t[0] not in ("lt", "le", "eq"):
            continue
        p = sub(poly(t[1], leaf), poly(t[2], leaf))       # p < 0, p <= 0, p == 0 or the opposite
        for s in (1, -1):
            c = constant(sub(p, scale(d, s)))
            if c is None:
                continue
            # p = s * d + c
            if t[0] == "eq":
                if v:
                    lo = hi = -c if s == 1 else c
                continue
            strict = t[0] == "lt"
            # v: s*d + c < 0 (or <= 0); not v: s*d + c >= 0 (or > 0)
            if v:
                top = -c - 1 if strict else -c      # s*d <= top
                if s == 1:
                    hi = top if hi is None else min(hi, top)
                else:
                    lo = -top if lo is None else max(lo, -top)
            else:
                low = -c if strict else -c + 1      # s*d >= low
                if s == 1:
                    lo = low if lo is None else max(lo, low)
                else:
                    hi = -low if hi is None else min(hi, -low)
    return lo, hi
