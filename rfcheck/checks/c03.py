"""C03: neighbours and boundaries are the face-sharing relation."""
from hypothesis import strategies as st

from .. import env, gen, gridq, harness, ref
from .c01 import small_grid

PROPERTY = "C03"
RULE = (
    "random grids with 1 to 3 flow directions; every cell (small grids) or sampled cells, by id and by coordinates, in "
    "random order and interleaved between two grids; non-trivial: at least two flow directions or interleaving"
)


@st.composite
def full(draw):
    return draw(small_grid(D=[1, 2, 3], cells=18, dmax=(9, 5, 3)))


def symmetric(g, r, rec):
    ins = r.inside
    nb = {c: {int(x) for x in g.get_cell_neighbors(id=c, boundary=True, fmt="set")} for c in ins}
    for c in ins:
        harness.require(c not in nb[c], f"cell {c} is its own neighbour")
        for x in nb[c]:
            if x in nb:
                harness.require(c in nb[x], f"{x} is a neighbour of {c} but not the other way round")
            else:
                back = {int(v) for v in g.get_cell_neighbors(id=x, boundary=False, fmt="set")}
                harness.require(c in back, f"boundary cell {x} does not see internal cell {c}")


def run_full(s, rec):
    rf = env.load()
    r = ref.Grid(s)
    g = gen.build_grid(s, rf)
    rec.label(f"{r.fdir} unify={r.unify}")
    rec.nontrivial_if(r.D >= 2)
    gridq.check(gridq.topology_cells(r, range(r.N)), g)
    symmetric(g, r, rec)


@st.composite
def some(draw):
    s = draw(small_grid(D=[1, 2, 3], cells=400, dmax=(60, 14, 7)))
    N = ref.Grid(s).N
    s["cells"] = draw(st.lists(st.integers(0, N - 1), min_size=2, max_size=10))
    return s


@st.composite
def huge(draw):
    s = draw(gen.huge_grid(D=[1, 2, 3], props=(), units=False))
    s["cells"] = draw(gen.far_cells(ref.Grid(s).N))
    return s


def run_some(s, rec):
    rf = env.load()
    r = ref.Grid(s)
    g = gen.build_grid(s, rf)
    rec.nontrivial_if(r.D >= 2)
    gridq.check(gridq.topology_cells(r, s["cells"]), g)


@st.composite
def inter(draw):
    a, b = draw(small_grid(D=[1, 2, 3], cells=30, dmax=(5, 4, 3))), draw(small_grid(D=[1, 2, 3], cells=30, dmax=(5, 4, 3)))
    ops = draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 500), st.integers(0, 50)), min_size=2, max_size=25))
    return {"a": a, "b": b, "ops": [list(o) for o in ops]}


def run_inter(s, rec):
    rf = env.load()
    rs = [ref.Grid(s["a"]), ref.Grid(s["b"])]
    gs = [gen.build_grid(s["a"], rf), gen.build_grid(s["b"], rf)]
    rec.nontrivial_if(len({o[0] for o in s["ops"]}) == 2 and rs[0].nb != rs[1].nb)
    for w, c, i in s["ops"]:
        items = gridq.topology_cells(rs[w], [c % rs[w].N])
        gridq.check([items[i % len(items)]], gs[w])


@st.composite
def bad(draw):
    s = draw(small_grid(D=[1, 2, 3], cells=30))
    r = ref.Grid(s)
    s["b"] = draw(st.sampled_from(r.bound))
    return s


def run_bad(s, rec):
    rf = env.load()
    r = ref.Grid(s)
    g = gen.build_grid(s, rf)
    b = s["b"]
    rec.nontrivial_if(r.D >= 2)
    A = (AssertionError, ValueError)
    harness.expect_raises(lambda: g.get_cell_neighbors(id=b, boundary=True), A, "neighbours of a boundary cell with boundary=True")
    harness.expect_raises(lambda: g.get_cell_neighbors(coords=r.coords[b], boundary=True), A, "neighbours of a boundary cell with boundary=True (coords)")
    harness.expect_raises(lambda: g.get_cell_boundaries(id=b), A, "boundaries of a boundary cell")
    harness.expect_raises(lambda: g.get_cell_boundaries(coords=r.coords[b]), A, "boundaries of a boundary cell (coords)")
    harness.expect_raises(lambda: g.get_cell_neighbors(), A, "neighbours of nothing")
    harness.expect_raises(lambda: g.get_cell_boundaries(), A, "boundaries of nothing")


SUBS = [
    harness.Sub("all-cells", full(), run_full, quick=250, thorough=6000),
    harness.Sub("large", some(), run_some, quick=200, thorough=4000),
    harness.Sub("thousands", huge(), run_some, quick=24, thorough=400, shards=8),
    harness.Sub("interleaved", inter(), run_inter, quick=200, thorough=4000),
    harness.Sub("rejected", bad(), run_bad, quick=150, thorough=1500),
]
