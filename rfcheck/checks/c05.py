"""C05: grid properties read back what was last written."""
import numpy as np
from hypothesis import strategies as st

from .. import env, gen, gridq, harness, ref

PROPERTY = "C05"
RULE = (
    "histories of up to 14 writes (all cells from scalar/list/array, one cell by id or coordinates, via set_prop or "
    "set_props, unit changes, rejected writes) and reads of every kind on two live grids; non-trivial: a cell-wise write "
    "after a read, or writes on both grids"
)
ASSUMPTIONS = [
    "is_isotropic is only judged when the internal cells differ or when all cells (boundary cells included) are equal; "
    "the documentation does not say whether boundary cells count"
]
NAMES = ["kx", "ky", "kz", "phi", "z"]
VAL = {"phi": st.integers(1, 60).map(lambda v: v / 100), "z": st.integers(-300, 900).map(float)}
KVAL = gen.nice


@st.composite
def case(draw, big=False):
    far = st.one_of(st.integers(0, 10**4), st.integers(30000, 36000)) if big == "huge" else st.integers(0, 10**4)
    gs = []
    for _ in range(2):
        g = draw(gen.huge_grid(sizes=(1500, 5000, 34000), D=[1, 2, 3], props=()) if big == "huge" else gen.big_grid(D=[1, 2, 3], props=()) if big else gen.grid(D=[0, 1, 2, 3], dmax=(5, 3, 2), cells=18, props=()))
        for nm in NAMES:
            if draw(st.integers(0, 5)) > 0:
                g[nm] = draw(gen.field(VAL.get(nm, KVAL)))
        if draw(st.booleans()):
            g["comp"] = draw(st.sampled_from([0, 1e-6, 2e-5]))
        gs.append(g)
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        w = draw(st.integers(0, 1))
        kind = draw(st.sampled_from(["all", "all", "cell", "cell", "cell", "read", "read", "read", "read", "unit", "bad", "comp", "cellvalue", "mutate"]))
        nm = draw(st.sampled_from(NAMES))
        o = {"g": w, "op": kind}
        if kind in ("all", "cell"):
            o.update(name=nm, how=draw(st.sampled_from(["prop", "props"])))
            if kind == "all":
                o["v"] = draw(gen.field(VAL.get(nm, KVAL)))
                o["form"] = draw(st.sampled_from(["list", "array", "shared", "ints", "intarray"]))
            else:
                o["v"] = draw(VAL.get(nm, KVAL))
                o["c"] = draw(far)
                o["by"] = draw(st.sampled_from(["id", "coords", "npid"]))
        elif kind == "read":
            o["c"] = draw(st.lists(far, min_size=1, max_size=3))
        elif kind == "unit":
            o["unit"] = draw(st.sampled_from(["field", "metric", "lab"]))
        elif kind == "bad":
            o["bad"] = draw(st.sampled_from(["name", "length", "undefined", "comp", "outside", "unit", "read"]))
            o["name"] = nm
        elif kind == "comp":
            o["v"] = draw(st.sampled_from([0, 1e-6, 3e-5]))
            o["how"] = draw(st.sampled_from(["props", "comp"]))
        elif kind == "mutate":
            o["c"] = draw(far)
        else:
            o["c"] = draw(far)
            o["v"] = draw(KVAL)
        ops.append(o)
    return {"grids": gs, "ops": ops}


class M:
    """dictionary model of one grid"""

    def __init__(self, spec):
        self.r = ref.Grid(spec)
        self.p = {n: ref.expand(spec[n], self.r.N) for n in NAMES if n in spec}
        if "z" not in self.p:
            self.p["z"] = np.zeros(self.r.N)
        self.comp = spec.get("comp", 0)
        self.unit = spec.get("unit", "field")
        self.r.spec = {"unit": self.unit}


def check_all(m, g, cells, what):
    r = m.r
    for nm in NAMES:
        if nm not in m.p:
            harness.expect_raises(lambda nm=nm: g.get_prop(nm), (ValueError,), f"{what}: reading {nm} which was never set")
            continue
        for b in (True, False):
            ids = np.arange(r.N) if b else np.array(r.inside)
            for fs in (True, False):
                want = m.p[nm][ids].reshape(r.fshape(b)) if fs else m.p[nm][ids]
                harness.close(g.get_prop(nm, b, fs), want, f"{what}: {nm} boundary={b} fshape={fs}", rtol=0)
                if nm[0] == "k":
                    harness.close(g.get_cells_k(nm[1], b, fs), want, f"{what}: cells_k {nm} boundary={b} fshape={fs}", rtol=0)
            harness.same([float(x) for x in g.get_prop(nm, b, False, "list")], [float(x) for x in m.p[nm][ids]], f"{what}: {nm} as list")
        harness.close(getattr(g, nm), m.p[nm], f"{what}: attribute {nm}", rtol=0)
        if nm[0] == "k":
            harness.close(g.k[nm[1]], m.p[nm], f"{what}: k[{nm[1]}]", rtol=0)
            for c in cells:
                harness.close(g.get_cell_k(nm[1], id=c), m.p[nm][c], f"{what}: {nm} of cell {c}", rtol=0)
                harness.close(getattr(g, "get_cell_" + nm)(id=c), m.p[nm][c], f"{what}: {nm} of cell {c}", rtol=0)
                if r.D or r.unify:
                    harness.close(g.get_cell_k(nm[1], coords=r.coords[c]), m.p[nm][c], f"{what}: {nm} of cell {r.coords[c]}", rtol=0)
    harness.close(g.comp, m.comp, f"{what}: comp", rtol=0)
    harness.same(g.comp_type, "compressible" if m.comp > 0 else "incompressible", f"{what}: comp_type")
    if "phi" in m.p:
        hom = len(set(m.p["phi"][r.inside])) == 1
        harness.same(bool(g.is_homogeneous), hom, f"{what}: is_homogeneous")
        harness.same(bool(g.is_heterogeneous), not hom, f"{what}: is_heterogeneous")
    ks = [m.p[n] for n in NAMES[:3] if n in m.p]
    if ks:
        allsame = all(len(set(k)) == 1 for k in ks)
        insame = all(len(set(k[r.inside])) == 1 for k in ks)
        if allsame or not insame:
            harness.same(bool(g.is_isotropic), allsame, f"{what}: is_isotropic")
            harness.same(bool(g.is_anisotropic), not allsame, f"{what}: is_anisotropic")
    if r.D and all("k" + ref.AX[a] in m.p for a in r.flow):
        kk = [m.p.get("k" + ax) for ax in "xyz"]
        gridq.check(gridq.trans_cells(r, cells, kk), g)
        for b in (True, False) if r.N <= 2000 else ():
            harness.close(g.get_cells_G(b, False), gridq.G_matrix(r, kk, b), f"{what}: G matrix boundary={b}", rtol=1e-10)


def run(s, rec):
    rf = env.load()
    ms = [M(x) for x in s["grids"]]
    gs = [gen.build_grid(x, rf) for x in s["grids"]]
    read, nt, written = set(), False, set()
    shared = {}
    given = []
    for i, o in enumerate(s["ops"]):
        w = o["g"]
        m, g, r = ms[w], gs[w], ms[w].r
        what = f"op {i} (grid {w})"
        if o["op"] == "read":
            check_all(m, g, [c % r.N for c in o["c"]], what)
            read.add(w)
        elif o["op"] in ("all", "cell"):
            nm = o["name"]
            if o["op"] == "all":
                v = ref.expand(o["v"], r.N)
                if isinstance(o["v"], dict):
                    arg = v.copy()
                    if o["form"] == "list":
                        arg = [float(x) for x in v]
                    elif o["form"] in ("ints", "intarray") and (v == v.astype(int)).all():
                        arg = v.astype(int) if o["form"] == "intarray" else [int(x) for x in v]
                    elif o["form"] == "shared" and r.N in shared:
                        arg = shared[r.N]
                        v = arg.copy()
                        if nm == "phi" or nm[0] == "k" and (v <= 0).any():
                            arg = v = v % 0.5 + 0.01
                    else:
                        shared[r.N] = arg
                    if isinstance(arg, np.ndarray):
                        given.append((i, arg, arg.copy()))
                else:
                    arg = o["v"]
                kw = {}
                m.p[nm] = v.copy()
            else:
                c = o["c"] % r.N
                arg = o["v"]
                kw = {"coords": r.coords[c]} if o["by"] == "coords" else {"id": np.int64(c) if o["by"] == "npid" else c}
                if nm not in m.p:
                    harness.expect_raises(lambda: g.set_prop(nm, arg, **kw), (ValueError,), f"{what}: cell value of {nm} which is not defined")
                    continue
                m.p[nm][c] = o["v"]
                nt |= w in read
                rec.label("cell write after read" if w in read else "cell write")
            if o["how"] == "prop":
                g.set_prop(nm, arg, **kw)
            else:
                g.set_props(**{nm: arg}, **kw)
            written.add(w)
            for j, a, b in given:
                harness.close(a, b, f"{what}: the array given in op {j}", rtol=0)
        elif o["op"] == "mutate" and given:
            # the caller reuses an array that was given earlier
            j, a, b = given[o["c"] % len(given)]
            a[o["c"] % a.size] += 1.5
            given = [(j, a, a.copy()) for j, a, _ in given]
        elif o["op"] == "unit":
            g.set_units(o["unit"])
            m.unit = o["unit"]
            r.spec = {"unit": m.unit}
        elif o["op"] == "comp":
            if o["how"] == "props":
                g.set_props(comp=o["v"])
            else:
                g.set_comp(o["v"])
            m.comp = o["v"]
        elif o["op"] == "bad":
            E = (ValueError, AssertionError)
            nm = o["name"]
            if o["bad"] == "name":
                harness.expect_raises(lambda: g.set_prop("K", 3.0), E, "unknown property")
            elif o["bad"] == "length":
                harness.expect_raises(lambda: g.set_prop(nm, [1.0] * (r.N + 1 + (r.N == 1))), E, f"{what}: wrong number of values") if r.N > 1 else None
            elif o["bad"] == "comp":
                harness.expect_raises(lambda: g.set_comp(-1e-6), E, "negative compressibility")
            elif o["bad"] == "unit":
                harness.expect_raises(lambda: g.set_units("imperial"), E, "unknown unit system")
            elif o["bad"] == "read":
                harness.expect_raises(lambda: g.get_cells_k("w"), E, "unknown direction")
                harness.expect_raises(lambda: g.get_cell_k("x"), E, "no cell given")
                harness.expect_raises(lambda: g.get_prop("none"), E, "unknown property")
        elif o["op"] == "cellvalue" and (r.D or r.unify):
            c = o["c"] % r.N
            for kw in ({"id": c}, {"coords": r.coords[c]}):
                a = np.zeros(r.fshape(True))
                g.set_cell_value(a, o["v"], **kw)
                want = np.zeros(r.N)
                want[c] = o["v"]
                harness.close(a.reshape(-1), want, f"{what}: set_cell_value", rtol=0)
    rec.nontrivial_if(nt or len(written) == 2)
    for w in (0, 1):
        check_all(ms[w], gs[w], [0, ms[w].r.N // 2, ms[w].r.N - 1], f"end (grid {w})")


SUBS = [
    harness.Sub("history", case(), run, quick=1400, thorough=24000),
    harness.Sub("hundreds", case(big=True), run, quick=160, thorough=2000, shards=8),
    harness.Sub("thousands", case(big="huge"), run, quick=24, thorough=300, shards=8),
]


def _sel():
    rf = env.load()
    g = rf.grids.RegularCartesian(3, 1, 1, 10, 10, 10, kx=5, phi=0.1)
    g.get_cell_k("x", id=2), g.get_cells_G(False, False), g.is_isotropic
    g.set_prop("kx", 7.0, id=2)
    harness.close(g.get_cells_k("x", True, False), [5, 5, 7, 5, 5], "kx after a cell write")
    harness.close(g.get_cell_k("x", id=2), 7, "kx of the written cell")
    harness.require(not g.is_isotropic, "is_isotropic is stale")


PINNED = {"cell-write": _sel}
