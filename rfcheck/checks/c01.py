"""C01: cell numbering, shapes and id <-> coordinates."""
from hypothesis import strategies as st

from .. import env, gen, gridq, harness, ref

PROPERTY = "C01"
RULE = (
    "random Cartesian grids (0 to 3 flow directions, any axis, both unify modes) queried for every shape/numbering/"
    "coordinate accessor, in bulk, cell by cell and interleaved between two grids in random order; non-trivial: "
    "at least 2 flow directions, or unequal extents, or the interleaved grids differ in flow directions"
)
ASSUMPTIONS = ["numbering convention x fastest, then y, then z, boundary cells included (documentation, natural order)"]


def small_grid(D=None, cells=60, dmax=(7, 5, 4)):
    return gen.grid(D=D, dmax=dmax, cells=cells, props=(), irregular=False, units=False)


@st.composite
def bulk(draw, big=False):
    s = draw(gen.big_grid(D=[1, 2, 3], props=(), units=False) if big else small_grid(cells=80))
    N = ref.Grid(s).N
    s["cells"] = draw(st.lists(st.integers(0, N - 1), min_size=1, max_size=6, unique=True))
    return s


def run_bulk(s, rec):
    rf = env.load()
    r = ref.Grid(s)
    g = gen.build_grid(s, rf)
    rec.label(f"D{r.D} {r.fdir} unify={r.unify}")
    rec.nontrivial_if(r.D >= 2 or r.D == 1 and r.N > 4)
    gridq.check(gridq.numbering(r), g)
    gridq.check(gridq.numbering_cells(r, s["cells"]), g)


@st.composite
def huge(draw):
    s = draw(gen.huge_grid(D=[1, 2, 3], props=(), units=False))
    s["cells"] = draw(gen.far_cells(ref.Grid(s).N))
    return s


@st.composite
def inter(draw):
    a, b = draw(small_grid(cells=40, dmax=(5, 4, 3))), draw(small_grid(cells=40, dmax=(5, 4, 3)))
    ops = draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 500), st.integers(0, 500)), min_size=2, max_size=25))
    return {"a": a, "b": b, "ops": [list(o) for o in ops]}


def run_inter(s, rec):
    rf = env.load()
    rs = [ref.Grid(s["a"]), ref.Grid(s["b"])]
    gs = [gen.build_grid(s["a"], rf), gen.build_grid(s["b"], rf)]
    qs = [gridq.numbering(r) for r in rs]
    rec.nontrivial_if(rs[0].fdir != rs[1].fdir and len({o[0] for o in s["ops"]}) == 2)
    rec.label("different directions" if rs[0].fdir != rs[1].fdir else "same directions")
    for w, i, c in s["ops"]:
        items = [qs[w][i % len(qs[w])]] + gridq.numbering_cells(rs[w], [c % rs[w].N])
        gridq.check(items, gs[w])


SUBS = [
    harness.Sub("bulk", bulk(), run_bulk, quick=600, thorough=12000),
    harness.Sub("hundreds", bulk(big=True), run_bulk, quick=160, thorough=2500, shards=8),
    harness.Sub("thousands", huge(), run_bulk, quick=24, thorough=400, shards=8),
    harness.Sub("interleaved", inter(), run_inter, quick=400, thorough=8000),
]
PINNED = {}


def _icoords():
    rf = env.load()
    g = rf.grids.RegularCartesian(4, 3, 1, 10, 10, 10, kx=1, ky=1, phi=0.1, unify=False)
    harness.same(tuple(int(i) for i in g.get_cell_icoords((0, 4, 0))), (4, 0), "icoords of a boundary cell")


PINNED["icoords-boundary-unify"] = _icoords
