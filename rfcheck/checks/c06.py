"""C06: transmissibility is the series-flow factor between face neighbours only."""
import numpy as np
from hypothesis import strategies as st

from .. import env, gen, gridq, harness, ref

PROPERTY = "C06"
RULE = (
    "random grids (1 to 3 flow directions, irregular sizes, directional and heterogeneous permeability, all unit systems) "
    "and fluids; every pair of cells through matrices (dense/sparse, with/without boundary cells, bulk/cell by cell), "
    "diagonals and single-cell lookups; non-trivial: at least two flow directions, or heterogeneous permeability, or "
    "irregular sizes"
)
ASSUMPTIONS = ["relative tolerance 1e-10; conversion factors as documented"]


@st.composite
def case(draw, big=False):
    s = draw(gen.huge_grid(sizes=(1100, 1400), D=[1, 2, 3]) if big == "huge" else gen.big_grid(D=[1, 2, 3]) if big else gen.grid(D=[1, 2, 3], dmax=(8, 5, 4), cells=40))
    if draw(st.integers(0, 4)) == 0:
        # differs in boundary cells only
        r = ref.Grid(s)
        ax = draw(st.sampled_from(r.flow))
        s["edge"] = {"ax": ax, "v": draw(gen.nice)}
    s["mu"] = draw(st.sampled_from([1.0, 0.5, 3.2]))
    s["B"] = draw(st.sampled_from([1.0, 1.3, 0.8]))
    s["cells"] = draw(st.lists(st.integers(0, 10**4), min_size=1, max_size=5))
    s["first"] = draw(st.integers(0, 2))
    return s


def build(s, rf):
    r = ref.Grid(s)
    ks = gridq.kfields(s, r)
    spec = dict(s)
    if "edge" in s:
        a = s["edge"]["ax"]
        k = np.full(r.N, ks[a][r.inside[0]])
        k[r.bound] = s["edge"]["v"]
        ks[a] = k
        spec["k" + "xyz"[a]] = [float(v) for v in k]
    return r, ks, gen.build_grid(spec, rf)


def run(s, rec):
    rf = env.load()
    r, ks, g = build(s, rf)
    hetero = any(len(set(ks[a])) > 1 for a in r.flow)
    irr = any(len(set(r.d1[a])) > 1 for a in r.flow)
    rec.label(f"D{r.D}", "heterogeneous" if hetero else "uniform k", "irregular" if irr else "regular")
    rec.nontrivial_if(r.D >= 2 or hetero or irr)
    cells = sorted({c % r.N for c in s["cells"]})
    m = rf.models.BlackOil(g, rf.fluids.SinglePhase(mu=s["mu"], B=s["B"], unit=g.unit), pi=100, unit=g.unit)
    muB = s["mu"] * s["B"]

    def single():
        gridq.check(gridq.trans_cells(r, cells, ks), g)
        ins = set(r.inside)
        for c in cells:
            for b in (False, True):
                if b and c not in ins:
                    continue
                want = {x: r.G(c, x, a, ks[a]) / muB for a in r.flow for x in r.faces(c, a) if b or x in ins}
                for got, conv in ((m.get_cell_trans(c, None, b), lambda x: x), (m.get_cell_trans(None, r.coords[c], b), lambda x: r.coords[x])):
                    got = {(tuple(int(i) for i in k) if isinstance(k, tuple) else int(k)): float(v) for k, v in got.items()}
                    w = {conv(k): v for k, v in want.items()}
                    harness.same(sorted(got), sorted(w), f"cells with transmissibility to {c} (boundary={b})")
                    harness.close([got[k] for k in w], list(w.values()), f"transmissibility of cell {c}", rtol=1e-10)

    def matrices():
        for b in (False, True):
            G = gridq.G_matrix(r, ks, b)
            for sp in (False, True):
                for _ in range(2):
                    harness.close(g.get_cells_G(b, sp), G, f"G matrix boundary={b} sparse={sp}", rtol=1e-10)
                    harness.close(m.get_cells_trans(b, sp, True), G / muB, f"T matrix boundary={b} sparse={sp}", rtol=1e-10)
                loop = harness.as_float(m.get_cells_trans(b, sp, False), "T matrix cell by cell")
                want = G / muB
                if b:
                    # listed finding trans-loop-boundary: only couplings between
                    # internal cells are filled
                    part = np.zeros_like(want)
                    ix = np.ix_(r.inside, r.inside)
                    part[ix] = want[ix]
                    harness.same(loop.shape, want.shape, "shape of T matrix cell by cell")
                    if not np.allclose(loop, want, rtol=1e-10, atol=0):
                        harness.close(loop, part, f"T matrix cell by cell boundary={b} sparse={sp}", rtol=1e-10)
                else:
                    harness.close(loop, want, f"T matrix cell by cell boundary={b} sparse={sp}", rtol=1e-10)

    def diagonals():
        nb = {False: r.n, True: r.nb}
        for b in (False, True):
            G = gridq.G_matrix(r, ks, b)
            n = [nb[b][a] for a in r.flow]
            off = [1] + ([n[0]] if r.D > 1 else []) + ([n[0] * n[1]] if r.D > 2 else [])
            for i, o in enumerate(off):
                harness.close(m.get_cells_trans_diag(b, i + 1), np.diag(G, o) / muB, f"T diagonal {i + 1} boundary={b}", rtol=1e-10)

    todo = [single, matrices, diagonals]
    for i in range(3):
        todo[(i + s["first"]) % 3]()


@st.composite
def inter(draw):
    gs = [draw(gen.grid(D=[1, 2, 3], dmax=(5, 4, 3), cells=24)) for _ in range(2)]
    return {"g": gs, "ops": [list(x) for x in draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 2), st.integers(0, 999)), min_size=2, max_size=12))]}


def run_inter(s, rec):
    rf = env.load()
    rs = [ref.Grid(x) for x in s["g"]]
    gs = [gen.build_grid(x, rf) for x in s["g"]]
    kk = [gridq.kfields(x, r) for x, r in zip(s["g"], rs)]
    rec.nontrivial_if(len({o[0] for o in s["ops"]}) == 2)
    for w, op, c in s["ops"]:
        r, g, ks = rs[w], gs[w], kk[w]
        if op == 0:
            gridq.check(gridq.trans_cells(r, [c % r.N], ks), g)
        else:
            b = bool(c % 2)
            harness.close(g.get_cells_G(b, op == 1), gridq.G_matrix(r, ks, b), f"G matrix of grid {w} boundary={b}", rtol=1e-10)


SUBS = [
    harness.Sub("pairs", case(), run, quick=700, thorough=16000),
    harness.Sub("hundreds", case(big=True), run, quick=160, thorough=2500, shards=8),
    harness.Sub("thousands", case(big="huge"), run, quick=24, thorough=120, shards=8),
    harness.Sub("interleaved", inter(), run_inter, quick=300, thorough=6000),
]


def _loop():
    rf = env.load()
    g = rf.grids.RegularCartesian(2, 1, 1, 10, 10, 10, kx=5, phi=0.1)
    m = rf.models.BlackOil(g, rf.fluids.SinglePhase(mu=1, B=1), pi=1)
    harness.close(m.get_cells_trans(True, False, False), harness.as_float(m.get_cells_trans(True, False, True), "T"), "T cell by cell with boundary cells", rtol=1e-10)


KNOWN = {"trans-loop-boundary": _loop}


def _layers():
    rf = env.load()
    g = rf.grids.RegularCartesian(2, 2, 2, 10, 10, 10, kx=5, ky=5, kz=5, phi=0.1)
    M = harness.as_float(g.get_cells_G(False, False), "G")
    harness.close(M[2:4, 4:6], [[0, 0], [0, 0]], "last row of a layer and first row of the next one")


def _edge():
    rf = env.load()
    g = rf.grids.RegularCartesian(2, 1, 1, 10, 10, 10, kx=[5, 1, 1, 1], phi=0.1)
    v = list(g.get_cell_G(id=1, boundary=True).values())[0]
    d = 2 * 0.001127 / (10 / 100 / 5 + 10 / 100)
    harness.close(v, d, "transmissibility to a boundary cell of other permeability", rtol=1e-10)


PINNED = {"layers": _layers, "boundary-permeability": _edge}
