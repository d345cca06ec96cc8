"""C21: array helpers keep content and order."""
import numpy as np
from hypothesis import strategies as st

from .. import env, gridq, harness

PROPERTY = "C21"
RULE = (
    "collections of ids or (i,j,k) points (empty, single, repeated, large values) in every container form, every target format, "
    "membership of values that are and are not there in every spelling, pairs of collections, square matrices; the answer is "
    "what Python lists, sets and tuples say; non-trivial: at least two elements"
)
ASSUMPTIONS = [
    "inputs as documented: flat collections of ids or of points of length 3; intersection of points only",
    "a list given where a tuple is asked for (or the reverse) is not judged for issametype",
]
ids = st.lists(st.one_of(st.integers(0, 30), st.integers(0, 10**6)), max_size=12)
point = st.tuples(*[st.integers(0, 6)] * 3).map(list)
points = st.lists(point, max_size=10)
FORMS = ["list", "tuple", "set", "array", "listarray"]
FMTS = ["list", "tuple", "set", "array"]


def elems(data, pts):
    return [tuple(p) for p in data] if pts else list(data)


def form(data, how, pts):
    e = elems(data, pts)
    if how == "list":
        return e
    if how == "tuple":
        return tuple(e)
    if how == "set":
        return set(e)
    if how == "array":
        return np.array(e, dtype=int).reshape((-1, 3) if pts else (-1,))
    return [list(x) for x in e] if pts else [np.int64(x) for x in e]  # list of lists / of numpy integers


def norm(x):
    return gridq.plain(x)


def run_reformat(s, rec):
    h = env.load().utils.helpers
    pts = s["pts"]
    want = elems(s["data"], pts)
    x = form(s["data"], s["form"], pts)
    keep = norm(x)
    got = h.reformat(x, s["fmt"])
    harness.same(norm(x), keep, "the argument of reformat")
    isset = "set" in (s["form"], s["fmt"])
    kind = {"list": list, "tuple": tuple, "set": set, "array": np.ndarray}[s["fmt"]]
    harness.require(isinstance(got, kind), f"reformat {s['form']} to {s['fmt']}: returned {type(got).__name__}")
    rec.label(s["form"] + " to " + s["fmt"])
    rec.nontrivial_if(len(want) > 1)
    if s["fmt"] == "array":
        harness.same(got.size, (3 if pts else 1) * (len(set(want)) if s["form"] == "set" else len(want)), f"size of the array from {s['form']}")
    elif pts:
        harness.require(all(isinstance(a, tuple) for a in got), f"reformat {s['form']} to {s['fmt']}: points must be tuples, got {str(got)[:120]}")
    g = norm(got)
    g = [tuple(a) if pts else a for a in g]
    if isset:
        harness.same(sorted(g), sorted(set(want)), f"reformat {s['form']} to {s['fmt']}")
    else:
        harness.same(g, want, f"reformat {s['form']} to {s['fmt']}")
    harness.same(bool(h.ispoints(form(s["data"], "array" if s["form"] == "set" else s["form"], pts))), pts and len(want) > 0, f"ispoints of {s['form']}") if want else None
    # the layouts of grid arrays: cells along one to three axes (and points along one more)
    n = len(want)
    for sh in ((n, 1), (1, n, 1), (n, 1, 1, 1)):
        a = np.array(want, dtype=float).reshape(sh[:-1] + ((3,) if pts else (1,)))
        harness.same(bool(h.ispoints(a)), pts, f"ispoints of an array of shape {a.shape}")


def run_dict(s, rec):
    h = env.load().utils.helpers
    d = {k: elems(v, s["pts"]) for k, v in zip("xyz", s["parts"])}
    keep = norm(d)
    flat = sum(d.values(), [])
    rec.nontrivial_if(len(flat) > 1)
    harness.same(norm(h.reformat(d, "dict")), keep, "reformat dict to dict")
    for fmt in FMTS:
        got = norm(h.reformat(d, fmt))
        got = [tuple(a) if s["pts"] else a for a in got]
        if fmt == "set":
            harness.same(sorted(got), sorted(set(flat)), "reformat dict to set")
        else:
            harness.same(got, flat, f"reformat dict to {fmt}")
        harness.same(norm(d), keep, "the dictionary given to reformat")
    for bad in ("", "dicts", "Array", "df"):
        harness.expect_raises(lambda: h.reformat(d, bad), (ValueError,), f"reformat to {bad!r}")
    harness.expect_raises(lambda: h.reformat(flat, "dict"), (ValueError,), "reformat of a list to dict")


def run_isin(s, rec):
    h = env.load().utils.helpers
    pts = s["pts"]
    e = elems(s["data"], pts)
    if not e and s["form"] == "array" and not pts:
        return
    x = form(s["data"], s["form"] if not (pts and s["form"] == "listarray") else "list", pts)
    probes = [s["probe"]] + s["data"][:3] + s["data"][-2:]
    for p in probes:
        t = tuple(p) if pts else p
        want = t in set(e)
        for q in ([t, list(p), np.array(p)] if pts else [t, np.int64(t)]):
            harness.same(bool(h.isin(q, x)), want, f"isin({q!r}, {s['form']} of {e[:6]})")
        rec.label("inside" if want else "outside")
    rec.nontrivial_if(len(e) > 1)


def run_inter(s, rec):
    h = env.load().utils.helpers

    def uniq(v):
        out = []
        for p in v:
            if tuple(p) not in out:
                out.append(tuple(p))
        return out

    a, b = uniq(s["a"]), uniq(s["b"])
    want = [p for p in a if p in b]
    ax, bx = (np.array(v, dtype=int).reshape(-1, 3) for v in (a, b))
    rec.nontrivial_if(len(want) > 0 and len(want) < max(len(a), len(b)))
    rec.label("some in common" if want else "nothing in common")
    other = [p for p in b if p in a]
    for fmt in ("array", "list", "tuple"):
        got = h.intersection(ax, bx, fmt)
        if fmt == "array":
            harness.require(isinstance(got, np.ndarray), "intersection: not an array")
        else:
            harness.require(isinstance(got, {"list": list, "tuple": tuple}[fmt]), f"intersection fmt={fmt}: {type(got).__name__}")
        g = [tuple(int(v) for v in p) for p in got]
        harness.require(g == want or g == other, lambda g=g: f"intersection fmt={fmt} of {a} and {b}: got {g}, expected {want}")
    harness.same(norm(ax), [list(p) for p in a], "first argument of intersection")
    for bad in ("", "sets", "dict"):
        harness.expect_raises(lambda: h.intersection(ax, bx, bad), (ValueError,), f"intersection to {bad!r}")


def run_same(s, rec):
    h = env.load().utils.helpers
    x = form(s["data"], s["form"], s["pts"])
    kind = {"list": "list", "tuple": "tuple", "set": "set", "array": "array", "listarray": "list"}[s["form"]]
    got = h.issametype(x, s["fmt"])
    rec.nontrivial_if(len(s["data"]) > 1)
    if kind == s["fmt"]:
        harness.require(got is x, f"issametype({s['form']}, {s['fmt']}): got {got!r}")
    elif {kind, s["fmt"]} != {"list", "tuple"}:
        harness.require(got is False, f"issametype({s['form']}, {s['fmt']}): got {got!r}")


def run_diag(s, rec):
    h = env.load().utils.helpers
    n = s["n"]
    a = np.array([s["v"][(i * 7 + 3) % len(s["v"])] + i for i in range(n * n)], dtype=float).reshape(n, n)
    keep = a.copy()
    got = h.remove_diag(a)
    want = np.array([[a[i, j] for j in range(n) if j != i] for i in range(n)]).reshape(n, n - 1)
    harness.close(got, want, "remove_diag", rtol=0)
    harness.close(a, keep, "argument of remove_diag", rtol=0)
    rec.nontrivial_if(n > 1)


@st.composite
def coll(draw, extra):
    pts = draw(st.booleans())
    d = draw(points if pts else ids)
    if draw(st.integers(0, 39)) == 0:
        n, k = draw(st.integers(200, 1200)), draw(st.integers(1, 9))
        d = [[i * k % 13, i % 11, i // 40] if pts else (i * k) % (n + 7) for i in range(n)] + d
    s = {"pts": pts, "data": d}
    for k, v in extra.items():
        s[k] = draw(v)
    if extra.get("probe") is not None:
        s["probe"] = draw(point if pts else st.integers(0, 35))
    return s


@st.composite
def dict_case(draw):
    pts = draw(st.booleans())
    return {"pts": pts, "parts": [draw(st.lists(point if pts else st.integers(0, 99), max_size=3)) for _ in range(draw(st.integers(0, 3)))]}


@st.composite
def inter_case(draw):
    a = draw(points)
    b = draw(points)
    if draw(st.integers(0, 39)) == 0:
        n, k = draw(st.integers(100, 300)), draw(st.integers(2, 9))
        a = [[i % 7, i % 11, i // 40] for i in range(n)] + a
        b = [[i * k % 7, i * k % 11, i * k // 40] for i in range(n)]
    b = b + [p for p in a if draw(st.booleans())]
    return {"a": a, "b": draw(st.permutations(b))}


@st.composite
def bulk_case(draw):
    """all functions on hundreds of elements, most of them shared"""
    n = draw(st.integers(200, 900))
    sx, sy = draw(st.integers(3, 13)), draw(st.integers(3, 13))
    return {"n": n, "sx": sx, "sy": sy, "drop": draw(st.lists(st.integers(0, n - 1), max_size=4)), "turn": draw(st.booleans()), "fmt": draw(st.sampled_from(FMTS)), "form": draw(st.sampled_from(FORMS))}


def run_bulk(s, rec):
    pts = [[i % s["sx"], i // s["sx"] % s["sy"], i // (s["sx"] * s["sy"])] for i in range(s["n"])]
    part = [p for i, p in enumerate(pts) if i not in set(s["drop"])]
    if s["turn"]:
        part = part[::-1]
    run_inter({"a": pts, "b": part}, rec)
    run_inter({"a": part, "b": pts}, rec)
    for data, p in ((pts, True), (list(range(s["n"])), False), ([7 * i % (s["n"] + 1) for i in range(s["n"])], False)):
        run_reformat({"pts": p, "data": data, "form": s["form"], "fmt": s["fmt"]}, rec)
        run_isin({"pts": p, "data": data, "form": s["form"], "probe": data[-1]}, rec)
        parts = [data[: s["n"] // 2], data[s["n"] // 2 :], data[:5]]
        run_dict({"pts": p, "parts": parts}, rec)
        run_same({"pts": p, "data": data, "form": s["form"], "fmt": s["fmt"]}, rec)
    m = s["n"] // 8
    run_diag({"n": m, "v": [1, 5, -3, m]}, rec)


SUBS = [
    harness.Sub("reformat", coll({"form": st.sampled_from(FORMS), "fmt": st.sampled_from(FMTS)}), run_reformat, quick=2000, thorough=60000),
    harness.Sub("dict", dict_case(), run_dict, quick=400, thorough=10000),
    harness.Sub("isin", coll({"form": st.sampled_from(FORMS), "probe": st.none()}), run_isin, quick=1200, thorough=40000),
    harness.Sub("intersection", inter_case(), run_inter, quick=1000, thorough=40000),
    harness.Sub("issametype", coll({"form": st.sampled_from(FORMS), "fmt": st.sampled_from(FMTS)}), run_same, quick=400, thorough=10000),
    harness.Sub("remove_diag", st.fixed_dictionaries({"n": st.integers(1, 8), "v": st.lists(st.integers(-9, 9), min_size=1, max_size=9)}), run_diag, quick=200, thorough=5000),
    harness.Sub("hundreds", bulk_case(), run_bulk, quick=30, thorough=600),
]
PINNED = {}
