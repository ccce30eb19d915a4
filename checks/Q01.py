"""Q01: recorded timings are complete, consistent and written or refused."""
import flow, lueir
from check import Check, where
from common import *

QA = "lue::qa::"
SECONDS = {"hour": (3600, 1), "minute": (60, 1), "second": (1, 1), "millisecond": (1, 1000), "microsecond": (1, 10 ** 6), "nanosecond": (1, 10 ** 9)}
CALENDAR = ("localtime", "localtime_r", "gmtime", "gmtime_r", "strftime")
WRAPPERS = ("std::as_const", "std::views::all", "std::move", "std::forward", "std::span", "std::ranges::ref_view")


class Json:
    """The classes of JSON values."""
    def __contains__(self, t):
        return bool(t) and t.startswith("nlohmann::basic_json")


def last(q):
    return "operator" + q.split("operator")[1].split("<")[0].strip() if "operator" in q else q.split("<")[0].split("::")[-1]


def is_json(t):
    return t[0] == "new" and t[1].startswith("nlohmann::basic_json")


def strip(t):
    """What a value of a JSON type was made from."""
    while t and is_json(t) and len(t[3]) == 1 and t[3][0] != ("null",):
        t = t[3][0]
    return t


def member(t):
    return t if t and t[0] == "app" and last(t[1]) in ("operator[]", "at") and len(t[2]) == 2 and t[2][1][0] == "str" else None


class Tree:
    """The JSON values that are built on a path."""
    def __init__(self, p):
        self.assigned, self.pushed = {}, []
        for e in p.events:
            if not e.q.startswith("nlohmann::"):
                continue
            n = last(e.q)
            if n == "operator=" and len(e.args) == 2:
                self.assigned.setdefault(e.args[0], []).append(e)
            elif n in ("emplace_back", "push_back", "insert", "emplace", "swap", "erase", "clear", "update", "merge_patch", "operator+="):
                self.pushed.append(e)

    def object(self, t):
        """{name: [event of the assignment]} of an object, or None."""
        out = {}
        while True:
            if t[0] == "mut" and t[1] in ("operator[]", "at"):
                base, key = t[2][0], t[2][1]
                if key[0] != "str":
                    return None
                hits = [e for a, es in self.assigned.items() if member(a) and a[2] == t[2] for e in es]
                out.setdefault(key[1], [])
                if not out[key[1]]:
                    out[key[1]] += hits
                t = base
            elif t[0] == "mut" and t[1] == "operator=":
                t = t[2][0]
            elif is_json(t) and t[3] in ((), (("null",),)) or t[0] == "app" and last(t[1]) == "object" or is_json(t) and t[3] and t[3][0][0] == "init" and not t[3][0][2]:
                return out
            elif is_json(t) and len(t[3]) == 1 and (t[3][0][0] in ("mut", "app") or is_json(t[3][0])):
                t = t[3][0]
            else:
                return None


def watch_of(t):
    """The object an expression of members belongs to and the names of the members."""
    path = []
    while t[0] == "fld":
        path.append(t[2])
        t = t[1]
    return t, tuple(reversed(path))


def member_of(A, st, obj, path):
    for f in path:
        obj = A.select(st, obj, ("f", f))
    return obj


def duration(t):
    """(object, members that hold the stop, members that hold the start, ratio) of a duration in some unit."""
    t = strip(t)
    if not (t[0] == "app" and t[1].split("<")[0] == "std::chrono::duration::count" and len(t[2]) == 1):
        return None
    d = t[2][0]
    ratio = None
    while True:
        if d[0] == "app" and d[1].startswith("std::chrono::duration_cast<") and len(d[2]) == 1:
            r = d[1].split("std::ratio<", 1)
            if ratio is not None or len(r) < 2:
                return None
            a, b = r[1].split(">", 1)[0].split(",")
            ratio = (int(a), int(b))
            d = d[2][0]
        else:
            break
    if ratio is None:
        ratio = (1, 10 ** 9)
    if not (d[0] == "app" and d[1].split("<")[0] == "std::chrono::operator-" and len(d[2]) == 2):
        return None
    (a, stop), (b, start) = watch_of(d[2][0]), watch_of(d[2][1])
    return (a, stop, start, ratio) if a == b else None


def system_start(t, p):
    """(object, members) of the moment that is formatted, or None."""
    found = set()
    todo, seen = [t], set()
    while todo:
        t = todo.pop()
        for e in p.events:
            if e.res is not None and e.res not in seen and last(e.q) in CALENDAR and contains(t, e.res):
                seen.add(e.res)
                todo += list(e.outs.values()) + list(e.args)
        found |= {x[2][0] for x in subterms(t) if x and x[0] == "app" and x[1].split("<")[0].endswith("::to_time_t")}
    if len(found) != 1:
        return None
    return watch_of(found.pop())


def text_of_moment(c, p, e, name, at):
    """The text of a moment has all of its parts and fits in the buffer it is written to."""
    for x in p.events:
        if last(x.q) != "strftime" or x.res is None or not contains(e.args[1], x.res):
            continue
        size, form = x.args[1], x.args[2]
        if form[0] == "str":
            f = form[1].replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S").replace("%R", "%H:%M")
            missing = [w for w in ("%Y", "%m", "%d", "%H", "%M", "%S", "%z") if w not in f]
            c.ob("moment", f"{name} tells the moment to the second, with its time zone", not missing, at, f"the format {form[1]} lacks {' '.join(missing)}")
            n = len(f) + f.count("%Y") * 2 + f.count("%z") * 3 + 1
            room = [int(y[1].rsplit(", ", 1)[1].rstrip(">UL")) for y in subterms(x.args[0]) if y and y[0] == "new" and y[1].startswith("std::array<char, ")]
            ok = None if size[0] != "int" or len(room) != 1 or "%" in f.translate({}) and any(w not in "YmdHMSz" for w in f.split("%")[1:] for w in w[:1]) else n <= size[1] <= room[0]
            c.ob("moment", f"{name} fits in the buffer it is written to", ok, at, f"{n} characters are needed, {show(size)} may be written and there is room for {room}")


def run():
    c = Check("Q01", "a saved experiment has, under fixed names, its start, duration and unit and the start and duration of each run in order, all durations in the unit that is named; a duration is the time between the last start and stop; saving raises an error unless everything was written",
              ["steady_clock and system_clock are read correctly by the standard library", "nlohmann::json keeps what it is given and dump() writes all of it", "an ofstream reports a failing write through its state"])
    prog = lueir.load("qa", "pyqa")
    c.program(prog)
    fns = {}
    for f in prog.functions.values():
        if f["q"].startswith(QA) and "body" in f and not f.get("implicit"):
            fns.setdefault(f["q"], []).append(f)

    def get(q):
        fs = [f for f in fns.get(QA + q, []) if not f.get("copymove")]
        if len(fs) != 1:
            raise AnalysisError(f"{len(fs)} functions {q}")
        return fs[0]

    def analysis(**kw):
        A = flow.Analysis(prog, opaque=lambda q, k: q.startswith("nlohmann::") or last(q) in CALENDAR, qualify=True, pure=lambda q, k: q == "std::chrono::duration_cast", **kw)
        A.class_outputs = Json()
        return A

    def final(A, p):
        return A.read(p.st, ("lv", ("m", ("this",)), ()))

    # ------------------------------------------------------------ saving
    save = get("save_results")
    params = {n: ("par", n) for n, _, _ in save["params"]}
    A = analysis()
    A.streams = True
    ps = A.run(save)
    texts = []
    for p in ps:
        if p.kind == "throw":
            c.ob("saved", f"an error is raised, {how(p)}", True, where(save, save["line"]), "")
            continue
        stream, written, opened, tested = saving(A, p, params)
        ok = True if opened else False if opened is False else None
        c.ob("saved", "an experiment is only saved to a file that was opened", ok, where(save, save["line"]), "a file that cannot be opened is not noticed")
        c.ob("saved", "what is written to the file is known to be written", tested, where(save, save["line"]),
             "the state of the stream is not looked at after the results were written and flushed, so results are lost silently when the file cannot be written")
        texts += [(p, t) for t in written]
        c.ob("saved", "the experiment is written to the file once", len(written) == 1 if written is not None else None, where(save, save["line"]), f"{len(written or ())} texts are written")

    # ------------------------------------------------------------ what is written
    made = []
    for p, t in texts:
        d = strip(t)
        if d[0] == "app" and last(d[1]) == "dump":
            made.append((d[2][0], p))
    exp = next((v for n, v in params.items() if any(ty.startswith("const lue::qa::") or "Experiment" in ty for m, _, ty in save["params"] if m == n)), None)
    watches, starts = set(), set()
    for root, p in made:
        tree = Tree(p)
        top = tree.object(root)
        at = where(save, save["line"])

        def one(obj, name, pname):
            """Value of a member, or None when it is not known; reports a member that is missing."""
            if obj is None:
                c.ob("recorded", pname, None, at, "the object that is written is not known")
                return None
            if name not in obj:
                c.ob("recorded", pname, False, at, f"{pname} is not written")
                return None
            vs = {e.args[1] for e in obj[name]}
            es = obj[name]
            if len(vs) != 1:
                c.ob("recorded", pname, None, at, f"{len(vs)} values of {pname}")
                return None
            if any(len(e.facts) > 0 and conditional(e, p) for e in es):
                c.ob("recorded", pname, False, where_event(prog, es[0], at), f"{pname} is not always written")
                return None
            return es[0]

        def start_and_duration(obj, prefix, owner):
            e = one(obj, "start", f"{prefix}start")
            if e:
                s = system_start(e.args[1], p)
                ok = None if s is None else s[0] == owner
                if ok:
                    starts.add(s[1])
                c.ob("recorded", f"{prefix}start", ok, where_event(prog, e, at), f"{prefix}start is the start of {show(s[0]) if s else 'something unknown'}")
                text_of_moment(c, p, e, f"{prefix}start", where_event(prog, e, at))
            e = one(obj, "duration", f"{prefix}duration")
            if e:
                d = duration(e.args[1])
                ok = None if d is None else d[0] == owner
                if d is None and known_other(e.args[1]):
                    ok = False
                if ok:
                    watches.add((d[1], d[2]))
                c.ob("recorded", f"{prefix}duration", ok, where_event(prog, e, at), f"{prefix}duration is the duration of {show(d[0]) if d else show(strip(e.args[1]))[:80]}")
                if d:
                    u = strip(unit.args[1]) if unit else None
                    ok = None if not u or u[0] != "str" else u[1] in SECONDS and scale(SECONDS[u[1]]) == scale(d[3])
                    c.ob("unit", f"{prefix}duration is in the unit that is recorded", ok, where_event(prog, e, at), f"{prefix}duration is in units of {d[3][0]}/{d[3][1]} s but the unit that is recorded is {u[1] if u else '?'}")

        unit = one(top, "unit", "unit")
        if unit:
            c.ob("recorded", "unit", True, at, "")
        start_and_duration(top, "", exp)
        for group, members in (("environment", {"nr_workers": "nr_workers"}), ("task", {"array_shape": "array_shape", "partition_shape": "partition_shape"})):
            e = one(top, group, group)
            if not e:
                continue
            obj = tree.object(strip(e.args[1]) if not is_json(e.args[1]) or len(e.args[1][3]) == 1 else e.args[1])
            for name, accessor in members.items():
                x = one(obj, name, f"{group}.{name}")
                if not x:
                    continue
                want = returned(prog, fns, analysis, accessor)
                v = strip(x.args[1])
                o, path = watch_of(v)
                ok = None if want is None else o == exp and path == want
                c.ob("recorded", f"{group}.{name}", ok, where_event(prog, x, at), f"{group}.{name} is {show(v)[:80]}")
        e = one(top, "timings", "timings")
        if e:
            runs(c, p, prog, fns, analysis, tree, e, exp, start_and_duration, at)
    c.count("texts", len(made))
    if ps and not made:
        c.ob("recorded", "what is saved", None, where(save, save["line"]), "the text that is written is not known")

    # ------------------------------------------------------------ the watch
    for cls in ("Run", "Stopwatch"):
        start, stop = get(cls + "::start"), get(cls + "::stop")
        offset = 0 if cls == "Run" else 1
        for kind, fn in (("start", start), ("stop", stop)):
            A = analysis()
            for p in A.run(fn):
                if p.kind != "ret":
                    c.ob("watch", f"{cls}.{kind} completes", False, where(fn, fn["line"]), f"{kind} raises an error")
                    continue
                this = final(A, p)
                at = where(fn, fn["line"])
                for a, b in sorted(watches):
                    va, vb = (member_of(A, p.st, this, x[offset:]) for x in (a, b))
                    clock = lambda v: v[1] if v[0] == "app" and v[1].endswith("clock::now") else None
                    if kind == "start":
                        c.ob("watch", f"{cls}.start: the measured time starts now", read_clock(vb, "steady_clock"), at, f"the start of the measured time becomes {show(vb)[:80]}")
                    else:
                        c.ob("watch", f"{cls}.stop: the measured time stops now", read_clock(va, "steady_clock"), at, f"the stop of the measured time becomes {show(va)[:80]}")
                        keep = member_of(A, p.st, ("this",), b[offset:])
                        c.ob("watch", f"{cls}.stop keeps the start", vb == keep, at, f"the start becomes {show(vb)[:80]}")
                for s in sorted(starts):
                    v = member_of(A, p.st, this, s[offset:])
                    if kind == "start":
                        c.ob("watch", f"{cls}.start: the moment of the start is now", read_clock(v, "system_clock"), at, f"the moment of the start becomes {show(v)[:80]}")
                    else:
                        c.ob("watch", f"{cls}.stop keeps the moment of the start", v == member_of(A, p.st, ("this",), s[offset:]), at, f"the moment of the start becomes {show(v)[:80]}")
    # what is measured may be an experiment too: its own functions do not hide those of the run
    for cls in ("Experiment", "ArrayExperiment"):
        for n in ("start", "stop", "duration", "start_time_point"):
            hidden = fns.get(f"{QA}{cls}::{n}", [])
            c.ob("watch", f"{cls}.{n} is that of the run", None if hidden else True, where(hidden[0], hidden[0]["line"]) if hidden else "", f"{cls} has its own {n}")

    # ------------------------------------------------------------ the settings
    for accessor, params in (("nr_workers", 0), ("array_shape", 1), ("partition_shape", 2)):
        settings(c, prog, fns, analysis, accessor, params)
    add, field = get("Experiment::add"), returned(prog, fns, analysis, "runs")
    A = analysis()
    for p in A.run(add):
        v = member_of(A, p.st, final(A, p), field) if p.kind == "ret" and field else None
        old = member_of(A, p.st, ("this",), field) if field else None
        par = ("par", add["params"][0][0])
        ok = None
        if p.kind != "ret":
            ok = False
        elif v is not None:
            if v[0] == "mut":
                ok = v[1] in ("push_back", "emplace_back") and v[2] == (old, par)
                if not ok and v[1] not in ("push_back", "emplace_back"):
                    ok = None if v[1] == "insert" and any(x[:2] == ("app", "end") or x and x[0] == "app" and x[1].split("<")[0].endswith("end") and "begin" not in x[1] for x in v[2][1:]) else False
            elif v == old:
                ok = False
        c.ob("runs", "a run that is added is kept behind the runs that were added before", ok, where(add, add["line"]), f"the runs become {show(v)[:100] if v else '?'}")
    bindings(c, prog, fns)
    return c.finish({"saved": 3, "recorded": 4, "unit": 1, "watch": 6, "settings": 2, "runs": 1, "bound": 3})


def how(p):
    for t, v in p.facts.items():
        if "operator!" in str(t) or "is_open" in str(t):
            return "when the file cannot be opened"
    return "otherwise"


def scale(r):
    return r[0] * 10 ** 12 // r[1]


def read_clock(v, clock):
    if v[0] == "app" and v[1].split("<")[0].endswith("clock::now"):
        return v[1].split("<")[0].endswith(clock + "::now")
    return False if v[0] in ("fld", "this", "par", "int", "new") else None


def known_other(t):
    """The value has nothing to do with a duration."""
    t = strip(t)
    return t[0] in ("int", "str", "float", "bool", "par", "enum") or t[0] == "fld"


def conditional(e, p):
    return any(not ("operator!" in str(t) or "is_open" in str(t) or "good" in str(t) or "operator bool" in str(t) or "fail" in str(t) or "strftime" in str(t)) for t in e.facts)


def where_event(prog, e, default):
    fn = prog.functions.get(e.fn) if isinstance(e.fn, str) else e.fn
    return where(fn, e.line) if isinstance(fn, dict) else default


def stream_ops(t):
    """(the stream before anything was written, texts in the order they are written)"""
    out = []
    while t[0] == "mut":
        if t[1] == "<<" or t[1] == "write":
            out.append(t[2][1])
        t = t[2][0]
    return t, out[::-1]


def saving(A, p, params):
    """(stream, texts, whether the stream is known to be open, whether its state is tested after the last write)"""
    streams = set()
    for v in p.st.store.values():
        for x in subterms(v) if isinstance(v, tuple) else ():
            if x and x[0] == "mut" and x[1] == "<<":
                streams.add(x)
    streams = {s for s in streams if not any(s != t and contains(t, s) for t in streams)}
    bases = {stream_ops(s)[0] for s in streams}
    path = [v for n, v in params.items() if "basic_string" in str(v) or True]
    bases = {b for b in bases if b[0] == "new" and "ofstream" in b[1]}
    if len(bases) != 1:
        return None, [], None, None
    base = bases.pop()
    writes = max((stream_ops(s)[1] for s in streams if stream_ops(s)[0] == base), key=len)
    tests = {}
    for t, v in p.facts.items():
        good = stream_state(t, v)
        if good is None:
            continue
        s = t[2][0] if t[0] == "app" else t
        if stream_ops(s)[0] == base:
            tests[len(stream_ops(s)[1]), flushed(s)] = good
    named = contains(base, ("par", save_path(params))) if save_path(params) else None
    opened = any(good for (n, _), good in tests.items() if n == 0) or any(good for good in tests.values())
    after = [good for (n, fl), good in tests.items() if n == len(writes)]
    done = [good for (n, fl), good in tests.items() if n == len(writes) and fl]
    raises = any(x and x[0] == "mut" and x[1] == "exceptions" for s in streams for x in subterms(s))
    if raises:
        return base, writes, True, None
    # a stream whose state is good without having been flushed may still lose what it has in its buffer
    return base, writes, opened, bool(done)


def save_path(params):
    return next((n for n in params if "path" in n or "name" in n), None)


def flushed(s):
    return any(x and x[0] == "mut" and (x[1] in ("close", "flush") or x[1] == "<<" and "flush" in str(x[2][1])[:40] + "endl" * ("endl" in str(x[2][1])[:60])) for x in subterms(s))


def stream_state(t, v):
    """Whether a fact about a stream says that it is good."""
    if t[0] != "app" or not t[2]:
        return None
    n = last(t[1])
    if n in ("operator!", "fail", "bad"):
        return not v
    if n in ("is_open", "good") or t[1].split("::")[-1].startswith("operator bool"):
        return bool(v)
    return None


def returned(prog, fns, analysis, accessor):
    """Members of the object an accessor returns."""
    fs = [f for q, l in fns.items() for f in l if q.split("::")[-1] == accessor and f.get("cls") and not f["params"]]
    if len(fs) != 1:
        return None
    A = analysis()
    ps = [p for p in A.run(fs[0]) if p.kind == "ret"]
    vs = {watch_of(A.as_value(p.st, p.value)) for p in ps}
    if len(vs) != 1:
        return None
    o, path = vs.pop()
    return path if o == ("this",) else None


def settings(c, prog, fns, analysis, accessor, index):
    path = returned(prog, fns, analysis, accessor)
    fs = [f for q, l in fns.items() for f in l if q.split("::")[-1] == accessor and f.get("cls")]
    at = where(fs[0], fs[0]["line"]) if fs else ""
    if path is None or len(fs) != 1:
        c.ob("settings", f"{accessor} is what the experiment was made with", None, at, "the accessor does not return a member")
        return
    ctors = [f for q, l in fns.items() for f in l if f.get("ctor") and not f.get("copymove") and f.get("cls") == QA + "ArrayExperiment" and len(f["params"]) == 3]
    for f in ctors:
        A = analysis()
        for p in A.run(f):
            if p.kind != "ret":
                continue
            this = A.read(p.st, ("lv", ("m", ("this",)), ()))
            v = this
            for m in path:
                v = A.select(p.st, v, ("f", m))
            if v[0] == "fld":
                # constructed by the class the experiment derives from
                for x in subterms(this):
                    if x and x[0] == "new" and x[1] == QA + "Experiment":
                        base = prog.functions.get(x[2])
                        if base is None:
                            continue
                        for q in A.run(base):
                            w = A.read(q.st, ("lv", ("m", ("this",)), ()))
                            for m in path:
                                w = A.select(q.st, w, ("f", m))
                            if w[0] == "par":
                                v = x[3][[n for n, _, _ in base["params"]].index(w[1])]
                            else:
                                v = w
            want = ("par", f["params"][index][0])
            ok = v == want if v[0] in ("par", "int", "new", "fld", "op", "tuple") else None
            c.ob("settings", f"{accessor} is what the experiment was made with", ok, where(f, f["line"]), f"{accessor} is {show(v)[:80]}")


def runs(c, p, prog, fns, analysis, tree, e, exp, start_and_duration, at):
    """Each run gives one element of the array, in order."""
    arr = strip(e.args[1])
    at = where_event(prog, e, at)
    path = returned(prog, fns, analysis, "runs")
    pushes = [x for x in tree.pushed if last(x.q) in ("emplace_back", "push_back", "operator+=")]
    others = [x for x in tree.pushed if x not in pushes]
    if others:
        c.ob("recorded", "timings has one element per run", None, where_event(prog, others[0], at), f"elements change by {last(others[0].q)}")
    mine = [x for x in pushes if x.loops]
    plain = [x for x in pushes if not x.loops]
    if plain:
        c.ob("recorded", "timings has one element per run", False, where_event(prog, plain[0], at), "an element is added that is not of a run")
        return
    if not mine and any(m[0] == "none" for m in p.marks):
        return
    if not mine:
        c.ob("recorded", "timings has one element per run", False, at, "no elements are added")
        return
    if len(mine) > 1:
        same = len({(x.args[-1], x.loops) for x in mine}) == 1
        if not same:
            c.ob("recorded", "timings has one element per run", False, where_event(prog, mine[1], at), "more than one element is added per run")
            return
    x = mine[0]
    if len(x.loops) != 1:
        c.ob("recorded", "timings has one element per run", None, where_event(prog, x, at), "nested loops")
        return
    rng = x.loops[-1]
    seen = rng
    while seen[0] == "app" and seen[1].split("<")[0] in WRAPPERS and len(seen[2]) == 1:
        seen = seen[2][0]
    o, p2 = watch_of(seen)
    ind = indexed(seen, exp, path)
    ok = True if (o == exp and p2 == path) or ind else None
    if not ok and path and (partial(seen) or ind is False):
        ok = False
    c.ob("recorded", "timings has one element per run, in order", ok, where_event(prog, x, at), f"the elements are made for {show(rng)[:100]}")
    cond = [t for t in x.facts if conditional(x, None) and contains_element(t, seen)]
    c.ob("recorded", "each run is recorded", not cond, where_event(prog, x, at), f"a run is only recorded when {show(cond[0])[:80]}" if cond else "")
    # what was appended starts as an empty array
    obj = x.args[-1]
    obj = tree.object(strip(obj) if is_json(obj) and len(obj[3]) == 1 and obj[3][0] != ("null",) else obj)
    if ok:
        owners = {y for v in [a.args[1] for es in (obj or {}).values() for a in es] for y in elements(v, seen, exp, path)}
        if len(owners) == 1:
            start_and_duration(obj, "timings.", owners.pop())
        elif obj is None:
            c.ob("recorded", "timings.start", None, at, "the element that is added is not known")
        else:
            for n in ("start", "duration"):
                for ev in obj.get(n, ()):
                    el = set(elements(ev.args[1], seen, exp, path))
                    c.ob("recorded", f"timings.{n}", True if len(el) == 1 and len(owners) == 1 else False if not el or len(owners) > 1 else None, where_event(prog, ev, at), f"timings.{n} is not that of the run")
                if n not in obj:
                    c.ob("recorded", f"timings.{n}", False, at, f"timings.{n} is not written")


def elements(t, rng, exp, path):
    out = set()
    for y in subterms(t):
        if y and y[0] in ("each", "elem") and y[1] == rng:
            out.add(y)
        elif y and y[0] == "deref" and isinstance(y[1], tuple) and y[1] and y[1][0] in ("each", "elem") and y[1][1] == rng:
            out.add(y)
        elif y and y[0] == "at" and watch_of(y[1]) == (exp, path):
            out.add(y)
    return {y for y in out if not any(z != y and contains(z, y) for z in out)}


def contains_element(t, rng):
    return any(y and y[0] in ("each", "elem") and y[1] == rng or y and y[0] == "at" for y in subterms(t))


def indexed(rng, exp, path):
    """An index that takes all positions of the runs: True; some of them: False; otherwise None."""
    if rng[0] != "ind":
        return None
    n = rng[2]
    size = lambda t: t[0] == "app" and t[1].split("<")[0].split("::")[-1] in ("size", "ssize") and watch_of(t[2][0]) == (exp, path)
    if size(n):
        return rng[1] == ("int", 0)
    return False if any(y and y[0] == "app" and size(y) for y in subterms(n) if y and y[0] == "app" and y[2]) else None


def partial(t):
    return any(y and y[0] == "app" and any(w in y[1] for w in ("reverse", "take", "drop", "filter", "rbegin", "subrange")) for y in subterms(t))


def bindings(c, prog, fns):
    """What Python offers of the classes is what its name says."""
    for f in prog.functions.values():
        if "quality_assurance/python" not in f["file"] or "body" not in f:
            continue
        A = flow.Analysis(prog, opaque=lambda q, k: q.startswith("pybind11::"), pure=lambda q, k: False, qualify=True)
        try:
            ps = [p for p in A.run(f) if p.kind == "ret"]
        except flow.TooComplex:
            continue
        for p in ps[:1]:
            for e in p.events:
                n = last(e.q)
                if not (n == "def" or n.startswith("def_property")) or len(e.args) < 3 or e.args[1][0] != "str":
                    continue
                target = [x[1] for x in subterms(e.args[2]) if x and x[0] in ("fn", "addr", "glob") and isinstance(x[1], str)] + [x for x in (e.args[2][1],) if e.args[2][0] in ("fn", "glob") and isinstance(x, str)]
                qs = {t.split("(")[0].split("<")[0] for t in target}
                name = e.args[1][1]
                if not qs:
                    continue
                ok = all(t.split("::")[-1] == name for t in qs)
                c.ob("bound", f"{name} is {name} of the library", ok, where(f, e.line), f"{name} calls {', '.join(sorted(qs))}")
