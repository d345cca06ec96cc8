"""C04: geometry of cells."""
import numpy as np
from hypothesis import strategies as st

from .. import env, gen, gridq, harness, ref

PROPERTY = "C04"
RULE = (
    "random grids, 0 to 3 flow directions, scalar or per-cell sizes per direction, all accessors in bulk, per cell and "
    "interleaved between two grids; non-trivial: irregular sizes, or different sizes per axis with >= 2 directions"
)
ASSUMPTIONS = ["per-cell sizes are given with boundary cells, as the constructor requires"]


def g_st(cells=50, dmax=(6, 5, 4)):
    return gen.grid(D=[0, 1, 2, 3], dmax=dmax, cells=cells, props=(), units=False)


def nontrivial(s, r):
    irr = any(isinstance(d, list) and len(set(d)) > 1 for d in s["d"])
    return irr or (r.D >= 2 and len({str(d) for d in s["d"]}) > 1)


@st.composite
def bulk(draw, big=False):
    s = draw(gen.big_grid(D=[1, 2, 3], props=(), units=False) if big else g_st(cells=70))
    s["cells"] = draw(st.lists(st.integers(0, ref.Grid(s).N - 1), min_size=1, max_size=6, unique=True))
    s["form"] = draw(st.sampled_from(["list", "array", "tuple"]))
    return s


def build(s, rf):
    conv = {"list": list, "array": np.array, "tuple": tuple}[s.get("form", "list")]
    a = [conv(v) if isinstance(v, list) else v for v in s["d"]]
    return rf.grids.RegularCartesian(*s["n"], *a, unify=s["unify"])


def run_bulk(s, rec):
    rf = env.load()
    r = ref.Grid(s)
    g = build(s, rf)
    rec.label(f"D{r.D} unify={r.unify}")
    rec.nontrivial_if(nontrivial(s, r))
    gridq.check(gridq.geometry(r), g)
    gridq.check(gridq.geometry_cells(r, s["cells"]), g)
    # the internal sub-grid and the boundary shell make up the total volume
    ids = r.inside
    inner = float(np.sum(np.asarray(g.get_cells_V(False, False, False))))
    harness.close(inner, r.V[ids].sum(), "internal volume", rtol=1e-10)
    # cells with a common face stack without gap
    cen = harness.as_float(g.get_cells_center(True, False, False), "centers")
    for c in s["cells"]:
        for a in r.flow:
            for x in r.faces(c, a):
                gap = abs(cen[x][a] - cen[c][a])
                harness.close(gap, (r.d[a][x] + r.d[a][c]) / 2, f"centre distance {c}-{x}", rtol=1e-9, atol=1e-9 * r.d1[a].sum())


@st.composite
def huge(draw):
    s = draw(gen.huge_grid(sizes=(1500, 6000, 34000), D=[1, 2, 3], props=(), units=False))
    s["cells"] = draw(gen.far_cells(ref.Grid(s).N))
    return s


@st.composite
def inter(draw):
    a, b = draw(g_st(cells=30, dmax=(5, 4, 3))), draw(g_st(cells=30, dmax=(5, 4, 3)))
    ops = draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 500), st.integers(0, 500)), min_size=2, max_size=20))
    return {"a": a, "b": b, "ops": [list(o) for o in ops]}


def run_inter(s, rec):
    rf = env.load()
    rs = [ref.Grid(s["a"]), ref.Grid(s["b"])]
    gs = [gen.build_grid(s["a"], rf), gen.build_grid(s["b"], rf)]
    qs = [gridq.geometry(r) for r in rs]
    rec.nontrivial_if(len({o[0] for o in s["ops"]}) == 2 and (nontrivial(s["a"], rs[0]) or nontrivial(s["b"], rs[1])))
    for w, i, c in s["ops"]:
        cell = gridq.geometry_cells(rs[w], [c % rs[w].N])
        gridq.check([qs[w][i % len(qs[w])], cell[(i + c) % len(cell)]], gs[w])


@st.composite
def bad(draw):
    s = draw(gen.grid(D=[1, 2, 3], cells=30, props=(), units=False))
    r = ref.Grid(s)
    s["ax"] = draw(st.sampled_from(r.flow))
    s["delta"] = draw(st.sampled_from([-2, -1, 1, 3]))
    return s


def run_bad(s, rec):
    rf = env.load()
    r = ref.Grid(s)
    d = [v if not isinstance(v, list) else list(v) for v in s["d"]]
    m = r.nb[s["ax"]] + s["delta"]
    rec.nontrivial_if(True)
    if m < 1:
        return
    d[s["ax"]] = [1.0] * m
    harness.expect_raises(lambda: rf.grids.RegularCartesian(*s["n"], *d), (AssertionError, ValueError), f"{m} sizes for {r.nb[s['ax']]} cells")
    n = list(s["n"])
    n[s["ax"]] = 0
    harness.expect_raises(lambda: rf.grids.RegularCartesian(*n, 1, 1, 1), (AssertionError, ValueError), "zero cells")
    g = build(s, rf)
    harness.expect_raises(lambda: g.get_cells_d("w"), (ValueError,), "direction 'w'")
    harness.expect_raises(lambda: g.get_cells_A("w"), (ValueError,), "direction 'w'")
    harness.expect_raises(lambda: g.get_cell_V(), (ValueError,), "volume of nothing")


SUBS = [
    harness.Sub("bulk", bulk(), run_bulk, quick=500, thorough=10000),
    harness.Sub("hundreds", bulk(big=True), run_bulk, quick=160, thorough=2500, shards=8),
    harness.Sub("thousands", huge(), run_bulk, quick=24, thorough=400, shards=8),
    harness.Sub("interleaved", inter(), run_inter, quick=400, thorough=8000),
    harness.Sub("rejected", bad(), run_bad, quick=200, thorough=2000),
]
