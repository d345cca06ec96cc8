"""C02: boundary cells and internal cells partition every cell array."""
import numpy as np
from hypothesis import strategies as st

from .. import env, gen, gridq, harness, ref
from .c01 import small_grid

PROPERTY = "C02"
RULE = (
    "random grids with 1 to 3 flow directions (both unify modes); ids, random values and coordinates, flat or shaped, "
    "are split with every option and compared with the numbering model; non-trivial: at least two flow directions "
    "(edges/corners exist) or one-sided removal"
)


@st.composite
def case(draw, big=False):
    s = draw(gen.huge_grid(sizes=(1500, 34000, 70000), D=[1, 2, 3], props=(), units=False) if big == "huge" else gen.big_grid(D=[1, 2, 3], props=(), units=False) if big else small_grid(D=[1, 2, 3], cells=70))
    s["seed"] = draw(st.integers(0, 10**6))
    s["shaped"] = draw(st.booleans())
    s["fmt"] = draw(st.sampled_from(["tuple", "list", "set", "array"]))
    s["remove"] = draw(st.sampled_from(["both", "left", "right"]))
    s["points"] = draw(st.booleans())
    s["explicit"] = draw(st.booleans())
    s["dtype"] = draw(st.sampled_from(["float", "int"]))
    s["repeat"] = draw(st.integers(0, 2)) == 0
    return s


def container(got, fmt, what):
    want = {"tuple": tuple, "list": list, "set": set, "array": np.ndarray}[fmt]
    harness.require(isinstance(got, want), f"{what}: got a {type(got).__name__}, asked for {fmt}")


def run(s, rec):
    rf = env.load()
    r = ref.Grid(s)
    g = gen.build_grid(s, rf)
    rec.label(f"{r.fdir} unify={r.unify}")
    rec.nontrivial_if(r.D >= 2 or s["remove"] != "both")
    fmt = s["fmt"]
    bound, inside = r.bound, r.inside
    # reported boundaries
    b = g.get_boundaries("id", fmt)
    container(b, fmt, "get_boundaries('id')")
    harness.same(sorted(int(x) for x in b), bound, "boundary ids")
    if fmt != "set":
        harness.same([int(x) for x in b], bound, "boundary ids in natural order")
    if fmt != "set" or True:
        c = g.get_boundaries("coords", fmt)
        container(c, fmt, "get_boundaries('coords')")
        got = [tuple(int(v) for v in x) for x in c]
        harness.same(sorted(got), sorted(r.coords[i] for i in bound), "boundary coordinates")
        if fmt != "set":
            harness.same(got, [tuple(r.coords[i]) for i in bound], "boundary coordinates in natural order")
    # any per-cell array
    rng = np.random.default_rng(s["seed"])
    vals = rng.permutation(r.N * 3)[: r.N] + 1
    if s["repeat"]:
        vals = vals % 5
    if s["dtype"] == "float":
        vals = vals / 7.0
    if s["points"]:
        arr = np.stack([vals, vals * 2, vals + 0.5], axis=1)
        full = tuple(r.fshape(True)) + (3,)
    else:
        arr = vals
        full = tuple(r.fshape(True))
    data = arr.reshape(full) if s["shaped"] else arr
    if s["points"] and not s["explicit"] and r.N == 3:
        s = dict(s, explicit=True)
    # a value array whose last extent is 3 looks like points; say what it is then
    pts = s["points"]
    points_arg = pts if (s["explicit"] or (not pts and data.ndim > 1 and data.shape[-1] == 3)) else None
    keep = data.copy()
    # extraction
    ex = g.extract_boundaries(data, points_arg, "array")
    harness.require(np.array_equal(data, keep), "extract_boundaries changed its input")
    if pts:
        got = [tuple(x) for x in np.asarray(ex, dtype=float).tolist()]
        want = [tuple(x) for x in np.asarray(arr[bound], dtype=float).tolist()]
        harness.same(sorted(got), sorted(want), "extracted boundary points")
        harness.same(got, want, "extracted boundary points in natural order")
    else:
        harness.close(np.sort(ex), np.sort(arr[bound]), "extracted boundary values", rtol=0)
        harness.close(ex, arr[bound], "extracted boundary values in natural order", rtol=0)
    # removal
    out = g.remove_boundaries(data, points_arg, s["remove"])
    harness.require(np.array_equal(data, keep), "remove_boundaries changed its input")
    lo = 0 if s["remove"] == "right" else 1
    cells = []
    for c, xyz in enumerate(r.coords):
        ok = all(
            (xyz[a] >= lo) and (xyz[a] <= r.nb[a] - 1 - (0 if s["remove"] == "left" else 1)) for a in r.flow
        )
        if ok:
            cells.append(c)
    if s["remove"] == "both":
        harness.same(cells, inside, "harness")
    want = arr[cells]
    if s["shaped"]:
        cut = {"both": 2, "left": 1, "right": 1}[s["remove"]]
        sh = tuple(
            v for v in (
                (r.nb[a] - cut if a in r.flow else r.nb[a]) if (r.unify or r.D == 3 or a in r.flow) else None
                for a in (2, 1, 0)
            ) if v is not None
        )
        want = want.reshape(sh + ((3,) if pts else ()))
    harness.close(out, want, f"remove_boundaries(remove={s['remove']})", rtol=0)
    # dictionaries of arrays
    given = {"a": data.copy(), "b": data.copy() * 2}
    d = g.remove_boundaries(given, points_arg, s["remove"])
    harness.same(sorted(d), ["a", "b"], "remove_boundaries of a dictionary: keys")
    for key, m in (("a", 1), ("b", 2)):
        harness.close(d[key], want * m, f"remove_boundaries(remove={s['remove']}) of dict entry {key}", rtol=0)
        harness.require(np.array_equal(given[key], keep * m), f"remove_boundaries changed the dictionary it was given (entry {key})")
    # internal ids and boundary ids together are all ids, once
    allid = sorted([int(x) for x in g.get_cells_id(False, False, "list")] + [int(x) for x in g.get_boundaries("id", "list")])
    harness.same(allid, list(range(r.N)), "internal + boundary ids")


@st.composite
def bad(draw):
    s = draw(small_grid(D=[1, 2, 3], cells=30))
    s["extra"] = draw(st.integers(1, 5))
    s["what"] = draw(st.sampled_from(["size", "by", "remove", "list", "fmt"]))
    return s


def run_bad(s, rec):
    rf = env.load()
    r = ref.Grid(s)
    g = gen.build_grid(s, rf)
    rec.label(s["what"])
    rec.nontrivial_if(r.D >= 2)
    if s["what"] == "size":
        a = np.arange(r.N + s["extra"], dtype=float)
        harness.expect_raises(lambda: g.remove_boundaries(a, False), (ValueError,), "array of the wrong size")
        harness.expect_raises(lambda: g.extract_boundaries(a, False), (ValueError,), "array of the wrong size")
    elif s["what"] == "by":
        harness.expect_raises(lambda: g.get_boundaries("name"), (ValueError,), "by='name'")
    elif s["what"] == "remove":
        harness.expect_raises(lambda: g.remove_boundaries(np.arange(r.N), False, "up"), (ValueError,), "remove='up'")
    elif s["what"] == "fmt":
        harness.expect_raises(lambda: g.get_boundaries("id", "frame"), (ValueError,), "fmt='frame'")
    else:
        harness.expect_raises(lambda: g.extract_boundaries(list(range(r.N))), (ValueError,), "list input")
    harness.same(sorted(int(x) for x in g.get_boundaries("id", "list")), r.bound, "boundaries after a rejected call")


SUBS = [
    harness.Sub("split", case(), run, quick=1500, thorough=40000),
    harness.Sub("hundreds", case(big=True), run, quick=160, thorough=2500, shards=8),
    harness.Sub("thousands", case(big="huge"), run, quick=24, thorough=400, shards=8),
    harness.Sub("rejected", bad(), run_bad, quick=200, thorough=3000),
]
