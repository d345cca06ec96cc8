"""C22: profiling and timing wrappers do not change what they wrap."""
import contextlib
import cProfile
import csv
import io
import os
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from .. import env, harness

PROPERTY = "C22"
RULE = (
    "histories of calls (values, mutable arguments, keywords, exceptions of every kind, recursion, mutual recursion, generators, "
    "methods, calls between wrapped functions) on functions wrapped by one to three profiling decorators with random options, "
    "compared with the same calls on the bare functions; what is printed and which files appear; hit counts written to report "
    "files; non-trivial: recursion, nesting, an exception, stacked wrappers or a report file"
)
ASSUMPTIONS = [
    "a call inside another profiled call may be left out of the reports of the inner wrapper (one profiler can be active)",
    "times are not judged",
]
EXC = {"ValueError": ValueError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError, "StopIteration": StopIteration, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "AssertionError": AssertionError}


class Bag:
    """the functions under test, calling each other through the (possibly wrapped) attributes"""

    def __init__(self):
        self.log = []

    def make(self, wrap):
        bag = self

        def work(x, *args, k=0, **kw):
            """Doc of work."""
            bag.log.append(("work", x, args, k, sorted(kw.items())))
            total = k
            for a in args:
                total += a
            return [x, total, kw]

        def boom(name, depth):
            """Doc of boom."""
            bag.log.append(("boom", name, depth))
            if depth > 0:
                return bag.boom(name, depth - 1)
            raise EXC[name](name, depth)

        def fact(n):
            """Doc of fact."""
            bag.log.append(("fact", n))
            return 1 if n < 2 else n * bag.fact(n - 1)

        def even(n):
            bag.log.append(("even", n))
            return True if n == 0 else bag.odd(n - 1)

        def odd(n):
            bag.log.append(("odd", n))
            return False if n == 0 else bag.even(n - 1)

        def same(obj):
            """Doc of same."""
            return obj

        def push(lst, v):
            lst.append(v)

        def gen(n):
            """Doc of gen."""
            for i in range(n):
                bag.log.append(("gen", i))
                yield i * i

        def safe(name, depth):
            """an exception handled inside a wrapped function"""
            try:
                bag.boom(name, depth)
            except BaseException as e:  # noqa: BLE001
                return ("handled", type(e).__name__, e.args, bag.fact(3))

        for f in (work, boom, fact, even, odd, same, push, gen, safe):
            setattr(self, f.__name__, wrap(f))
            setattr(self, "bare_" + f.__name__, f)
        return self


def call(bag, c):
    """outcome of one call, as plain data"""
    name, args, kw = c
    args = [list(a) if isinstance(a, list) else a for a in args]
    f = getattr(bag, name)
    try:
        if name == "gen":
            r = list(f(*args, **kw))
        elif name == "same":
            obj = object()
            r = f(obj) is obj
        else:
            r = f(*args, **kw)
        return ("value", r, args)
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, harness.Violation):
            raise
        return ("raised", type(e).__name__, [str(a) for a in e.args], args)


def decorator(pm, d):
    kind = d["kind"]
    if kind == "cProfiler":
        return pm.cProfiler(**d["kw"])
    if kind == "lProfiler":
        return pm.lProfiler(**d["kw"])
    return getattr(pm, kind)


def clean():
    """end whatever profiler an earlier (failed) case left running"""
    sys.setprofile(None)
    sys.settrace(None)
    mon = sys.monitoring
    for tool in (mon.PROFILER_ID, 3, 4):
        if mon.get_tool(tool) is not None:
            with contextlib.suppress(ValueError):
                mon.set_events(tool, 0)
                mon.free_tool_id(tool)


@contextlib.contextmanager
def folder():
    """run in an empty scratch folder which receives every report"""
    d = tempfile.mkdtemp(dir=env.scratch())
    cwd, path0 = os.getcwd(), sys.path[0]
    os.chdir(d)
    sys.path[0] = d
    clean()
    try:
        yield d
    finally:
        sys.path[0] = path0
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def a_deco(draw):
    kind = draw(st.sampled_from(["cProfiler", "lProfiler", "profile", "timeit"]))
    kw = {}
    if kind in ("cProfiler", "lProfiler"):
        for k in ("print_output", "save_output"):
            if draw(st.integers(0, 3)):
                kw[k] = draw(st.booleans())
        if kind == "cProfiler" and draw(st.booleans()):
            kw["sort_stats"] = draw(st.sampled_from(["tottime", "cumtime", "ncalls", "filename"]))
    return {"kind": kind, "kw": kw}


@st.composite
def a_call(draw):
    i = st.integers(0, 6)
    name = draw(st.sampled_from(["work", "work", "boom", "fact", "even", "same", "push", "gen", "safe"]))
    if name == "work":
        return [name, [draw(i)] + draw(st.lists(i, max_size=3)), draw(st.dictionaries(st.sampled_from(["k", "func", "args", "n", "self"]), i, max_size=3))]
    if name in ("boom", "safe"):
        return [name, [draw(st.sampled_from(sorted(EXC))), draw(st.integers(0, 3))], {}]
    if name == "push":
        return [name, [draw(st.lists(i, max_size=3)), draw(i)], {}]
    if name == "same":
        return [name, [], {}]
    return [name, [], {"n": draw(i)}] if draw(st.booleans()) else [name, [draw(i)], {}]


@st.composite
def case(draw):
    return {"decos": draw(st.lists(a_deco(), min_size=1, max_size=3)), "calls": draw(st.lists(a_call(), min_size=1, max_size=6))}


def run(s, rec):
    rf = env.load()
    pm = rf.utils.profme
    decos = s["decos"]

    def wrap(f):
        for d in decos:
            f = decorator(pm, d)(f)
        return f

    a, b = Bag().make(lambda f: f), Bag().make(wrap)
    for n in ("work", "fact", "gen", "even"):
        w, f = getattr(b, n), getattr(a, n)
        harness.same((w.__name__, w.__doc__), (f.__name__, f.__doc__), f"name and documentation of {n} wrapped by {decos}")
    saves = any(d["kw"].get("save_output") for d in decos)
    with folder() as d:
        for i, c in enumerate(s["calls"]):
            want = call(a, c)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                got = call(b, c)
            what = f"call {i} {c} through {[x['kind'] for x in decos]}"
            harness.same(got, want, what)
            harness.same(b.log, a.log, what + ": calls received")
            p = cProfile.Profile()
            try:
                p.enable()
                p.disable()
            except ValueError as e:
                raise harness.Violation(f"{what}: a profiler was left running ({e})") from None
            harness.require(sys.getprofile() is None and sys.gettrace() is None, what + ": a profiler or tracer was left running")
            files = sorted(os.listdir(d))
            if not saves:
                harness.same(files, [], what + ": files written although not asked for")
            if len(decos) == 1:
                x = decos[0]
                text = out.getvalue()
                if x["kind"] in ("cProfiler", "lProfiler"):
                    if not x["kw"].get("print_output", True):
                        harness.same(text, "", what + ": printed although print_output=False")
                    elif got[0] == "value":
                        harness.require(len(text.strip()) > 0, what + ": printed nothing")
                    if x["kw"].get("save_output") and got[0] == "value":
                        harness.require(any(f.startswith(x["kind"]) and c[0] in f and f.endswith(".csv") for f in files), f"{what}: report file missing ({files})")
                elif x["kind"] == "timeit" and got[0] == "value":
                    harness.require(c[0] in text and "sec" in text, f"{what}: printed {text[:100]!r}")
            rec.label(c[0], want[0])
            rec.nontrivial_if(c[0] in ("boom", "fact", "even", "safe") or len(decos) > 1 or saves)
    rec.label("+".join(x["kind"] for x in decos[:2]) + ("+" if len(decos) > 2 else ""))


# --------------------------------------------------------------------- reports


def helper(x):
    return x + 1


def loops(n, m):
    total = 0
    for _ in range(n):
        total = helper(total)  # one, two, "three"
        for _ in range(m):
            total += len([1, 2, 3])
    return total


def run_report(s, rec):
    pm = env.load().utils.profme
    n, m = s["n"], s["m"]
    rec.nontrivial_if(n > 0)
    with folder() as d:
        f = pm.cProfiler(print_output=s["print"], save_output=True, **s["sort"])(loops)
        for _ in range(s["times"]):  # every report is about one call
            got = f(n, m)
            harness.same(got, loops(n, m), "value")
        files = os.listdir(d)
        harness.same(len(files), 1, "number of cProfiler reports")
        rows = [r for r in csv.reader(open(os.path.join(d, files[0]))) if any(r)]
        cols = rows[0]
        harness.require("ncalls" in cols, f"cProfiler report header {cols}")
        for fn, want in (("(loops)", 1), ("(helper)", n), ("builtins.len", n * m)):
            hit = [r for r in rows[1:] if fn in r[-1]]
            got = int(hit[0][cols.index("ncalls")].split("/")[0]) if hit else 0
            harness.same(got, want, f"calls of {fn} in the cProfiler report")
            if hit:
                harness.same(len(hit[0]), len(cols), f"columns of {fn} in the cProfiler report {hit[0]}")
        harness.same(cols, ["ncalls", "tottime", "percall", "cumtime", "percall", "filename:lineno(function)"], "cProfiler report header")
        by = s["sort"].get("sort_stats", "tottime")
        v = [float(r[cols.index(by)].split("/")[0]) for r in rows[1:]]
        harness.require(v == sorted(v, reverse=True), lambda: f"cProfiler report sorted by {by}: {v}")
        os.remove(os.path.join(d, files[0]))
        f = pm.lProfiler(print_output=s["print"], save_output=True)(loops)
        for _ in range(s["times"]):
            got = f(n, m)
            harness.same(got, loops(n, m), "value")
        files = os.listdir(d)
        harness.same(len(files), 1, "number of lProfiler reports")
        rows = list(csv.reader(open(os.path.join(d, files[0]))))
        cols = rows[0]
        harness.same(cols[:2] + cols[-1:], ["Line #", "Hits", "Line Contents"], "lProfiler report header")
        first = loops.__code__.co_firstlineno
        src = open(__file__).read().split("\n")
        for off, want in ((1, 1), (2, n + 1), (3, n), (4, n * (m + 1)), (5, n * m), (6, 1)):
            hit = [r for r in rows[1:] if r and r[0] == str(first + off)]
            harness.require(len(hit) == 1, lambda: f"line {off} of the function in the lProfiler report: {rows[1:]}")
            got = int(hit[0][1] or 0)
            harness.same(got, want, f"hits of line {off} ({src[first + off - 1].strip()}) for n={n}, m={m}")
            harness.same(hit[0][-1], src[first + off - 1].strip(), f"contents of line {off}")


report_case = st.fixed_dictionaries({
    "n": st.integers(0, 40), "m": st.integers(0, 30), "times": st.integers(1, 2), "print": st.booleans(),
    "sort": st.sampled_from([{}, {"sort_stats": "ncalls"}, {"sort_stats": "cumtime"}]),
})

SUBS = [
    harness.Sub("calls", case(), run, quick=500, thorough=12000),
    harness.Sub("report", report_case, run_report, quick=120, thorough=2500),
]
PINNED = {}
