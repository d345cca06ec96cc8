"""Hypothesis strategies producing plain JSON-able specs."""
import numpy as np
from hypothesis import strategies as st

nice = st.one_of(
    st.integers(1, 400),  # given as Python integers
    st.integers(1, 400).map(float),
    st.integers(1, 4000).map(lambda v: v / 8),
    st.floats(0.25, 500, allow_nan=False, allow_infinity=False),
)


# magnitudes far from the usual ones, drawn for about one problem in five
wide_k = st.sampled_from([1e-3, 0.02, 0.5, 30.0, 5000.0, 1e4])
wide_mult = st.lists(st.sampled_from([0.001, 0.1, 1, 7, 1000]), min_size=2, max_size=9)
wide_d = st.sampled_from([0.01, 0.5, 20.0, 3000.0, 2e4])
is_wide = st.integers(0, 4).map(lambda v: v == 4)


def n_strategy(dmax=(6, 5, 4), D=None, cells=60, big=False):
    """(nx, ny, nz): choose the number of flow directions first, so that every
    dimensionality and every flow direction is generated evenly."""

    @st.composite
    def f(draw):
        dd = draw(st.sampled_from(D if D is not None else [0, 1, 2, 3]))
        axes = draw(st.sampled_from({0: [()], 1: [(0,), (1,), (2,)], 2: [(0, 1), (0, 2), (1, 2)], 3: [(0, 1, 2)]}[dd]))
        top = {0: 1, 1: dmax[0], 2: dmax[1], 3: dmax[2]}[dd]
        n = [1, 1, 1]
        for a in axes:
            n[a] = draw(st.integers(max(2, top // 4 if big else 2), top))
        while n[0] * n[1] * n[2] > cells:
            n[n.index(max(n))] -= 1
        return n

    return f()


def nb_of(n):
    return [v + 2 if v > 1 else v for v in n]


def size_list(m, vals=nice):
    some = st.lists(vals, min_size=m, max_size=m)
    # sizes that differ by less than anyone would call a difference
    near = st.tuples(vals, st.lists(st.integers(0, 9), min_size=m, max_size=m), st.sampled_from([16, 20])).map(lambda t: [float(t[0] * (1 + k * 2.0 ** -t[2])) for k in t[1]])
    return st.one_of(some, some, some, near)


def field(vals=nice, hetero=True):
    """scalar, or a heterogeneous pattern"""
    pat = st.fixed_dictionaries({"base": vals, "mult": st.lists(st.integers(1, 40), min_size=2, max_size=9)})
    near = st.tuples(vals, st.sampled_from([2.0**-13, 2.0**-18, 2.0**-22]), st.lists(st.integers(0, 40), min_size=2, max_size=9)).map(
        lambda t: {"base": float(t[0] * t[1]), "mult": t[2], "plus": float(t[0])}
    )
    return st.one_of(vals, vals, pat, pat, near) if hetero else vals


@st.composite
def grid(draw, D=None, dmax=(6, 5, 4), cells=60, props=("kx", "ky", "kz", "phi"), irregular=True, hetero=True, units=True, unify=None, big=False):
    n = draw(n_strategy(dmax, D, cells, big))
    nb = nb_of(n)
    d = []
    for a in range(3):
        if n[a] > 1 and irregular and draw(st.booleans()):
            d.append(draw(size_list(nb[a])))
        else:
            d.append(draw(nice))
    s = {"n": n, "d": d}
    s["unify"] = draw(st.booleans()) if unify is None else unify
    if units:
        s["unit"] = draw(st.sampled_from(["field", "metric", "lab"]))
    wide = bool(props) and draw(is_wide)
    for p in props:
        if wide and p in ("kx", "ky", "kz") and draw(st.booleans()):
            s[p] = draw(wide_k)
            if hetero and draw(st.booleans()):
                s[p] = {"base": s[p], "mult": draw(wide_mult)}
        elif p == "phi":
            s[p] = draw(field(st.integers(1, 40).map(lambda v: v / 100), False))
            if hetero and draw(st.booleans()):
                s[p] = {"base": 0.01, "mult": draw(st.lists(st.integers(1, 50), min_size=2, max_size=7))}
        elif p == "z":
            s[p] = draw(field(st.integers(0, 200).map(float), hetero))
        else:
            s[p] = draw(field(nice, hetero))
    return s


@st.composite
def big_grid(draw, dmax=(400, 22, 8), cells=480, **kw):
    """Grids of hundreds of cells; the sizes along an axis follow a short pattern."""
    g = dict(draw(grid(dmax=dmax, cells=cells, irregular=False, big=True, **kw)))
    nb = nb_of(g["n"])
    g["d"] = list(g["d"])
    for a in range(3):
        if g["n"][a] > 1 and draw(st.booleans()):
            pat = draw(st.lists(nice, min_size=2, max_size=5))
            g["d"][a] = [pat[i % len(pat)] for i in range(nb[a])]
    return g


@st.composite
def huge_grid(draw, sizes=(1500, 34000, 70000), **kw):
    """Grids of about that many cells (ids need more digits and bits), of sizes that follow a short pattern."""
    g = dict(draw(grid(dmax=(2, 2, 2), irregular=False, **kw)))
    axes = [a for a in range(3) if g["n"][a] > 1]
    left = draw(st.sampled_from(sizes))
    g["n"], g["d"] = list(g["n"]), list(g["d"])
    for i, a in enumerate(axes):
        even = round(left ** (1 / (len(axes) - i)))
        g["n"][a] = left if i == len(axes) - 1 else draw(st.integers(max(2, even // 3), even * 2))
        left = max(2, left // g["n"][a] + 1)
    nb = nb_of(g["n"])
    for a in axes:
        if draw(st.booleans()):
            pat = draw(st.lists(nice, min_size=2, max_size=5))
            g["d"][a] = [pat[i % len(pat)] for i in range(nb[a])]
    return g


def far_cells(N):
    """cells anywhere, some of them the last ones"""
    return st.lists(st.one_of(st.integers(0, N - 1), st.integers(max(0, N - 300), N - 1)), min_size=2, max_size=6, unique=True)


def build_grid(spec, rf, arrays=False, **kw):
    """The real grid of a spec (arrays: sequences are arrays and tuples instead of lists and arrays)."""
    from . import ref

    N = 1
    for v in nb_of(spec["n"]):
        N *= v
    a = {}
    for p in ("kx", "ky", "kz", "phi", "z"):
        if p in spec:
            f = spec[p]
            a[p] = ref.expand(f, N) if isinstance(f, (dict, list)) else f
            if isinstance(f, dict) and all(isinstance(v, int) for v in [f["base"], f.get("plus", 0)] + f["mult"]):
                a[p] = a[p].astype(int)  # whole numbers are given as such
            if arrays and p in a and isinstance(f, (dict, list)):
                a[p] = tuple(a[p]) if p in ("kx", "z") else list(a[p])
    if "comp" in spec:
        a["comp"] = spec["comp"]
    a["unit"] = spec.get("unit", "field")
    a["unify"] = spec.get("unify", True)
    a.update(kw)
    nx, ny, nz = spec["n"]
    dx, dy, dz = [list(v) if isinstance(v, list) else v for v in spec["d"]]
    if arrays:
        nx, ny, nz = [as_np(v) for v in spec["n"]]
        dx, dy, dz = [np.array(v) if isinstance(v, list) else as_np(v) for v in (dx, dy, dz)]
    return rf.grids.RegularCartesian(nx, ny, nz, dx, dy, dz, **a)


def interior_ids(n):
    from . import ref

    return ref.Grid({"n": list(n), "d": [1.0, 1.0, 1.0]}).inside


def boundary_face_ids(n):
    """boundary cells that share a face with an interior cell"""
    from . import ref

    g = ref.Grid({"n": list(n), "d": [1.0, 1.0, 1.0]})
    ins = set(g.inside)
    return [b for b in g.bound if any(m in ins for a in g.flow for m in g.faces(b, a))]


@st.composite
def flow(draw, D=None, wells=True, bounds=True, comp=None, gravity=False, dmax=(7, 4, 3), cells=30, units=True, hetero=True, irregular=True, steps=(1, 5), kinds=("pressure", "rate", "gradient"), well_kinds=("q", "pwf", "both"), big=False, nopi=True):
    """A complete flow problem with a unique, reasonably conditioned solution (big: hundreds of cells, or that many)."""
    kw = dict(D=D or [1, 2, 3], props=("kx", "ky", "kz", "phi"), units=units, hetero=hetero)
    big_kw = {} if big is True else {"cells": big, "dmax": (big, max(12, int(1.5 * big**0.5)), max(5, int(1.5 * big ** (1 / 3)))) if big > 500 else (big, 12, 5)}
    g = draw(big_grid(**big_kw, **kw) if big else grid(dmax=dmax, cells=cells, irregular=irregular, **kw))
    return draw(flow_on(st.just(g), wells, bounds, comp, gravity, steps, kinds, well_kinds, big, nopi))


@st.composite
def flow_on(draw, gst, wells=True, bounds=True, comp=None, gravity=False, steps=(1, 5), kinds=("pressure", "rate", "gradient"), well_kinds=("q", "pwf", "both"), big=False, nopi=True):
    from . import ref

    g = dict(draw(gst))
    rg = ref.Grid(g)
    s = {"grid": g}
    compressible = draw(st.booleans()) if comp is None else comp
    f = {"mu": draw(st.sampled_from([0.5, 1.0, 0.25, 3.0, 1.7])), "B": draw(st.sampled_from([1.0, 1.25, 0.9, 1.5]))}
    if compressible:
        which = draw(st.sampled_from(["fluid", "grid", "both"]))
        if which != "grid":
            f["comp"] = draw(st.sampled_from([1e-6, 1e-5, 3.5e-6, 1e-4]))
        if which != "fluid":
            g["comp"] = draw(st.sampled_from([1e-6, 2e-6, 1e-5]))
    if gravity is True or (gravity == "maybe" and draw(st.booleans())):
        f["rho"] = draw(st.sampled_from([50.0, 62.4, 30.0, 1000.0]))
        if "z" not in g:
            g["z"] = draw(field(st.sampled_from([25.0, 10.0, 137.5])))
            if isinstance(g["z"], (int, float)):
                g["z"] = {"base": g["z"], "mult": draw(st.lists(st.integers(0, 30), min_size=2, max_size=9))}
        if isinstance(g["z"], dict) and "plus" not in g["z"] and draw(st.integers(0, 3)) == 0:
            # a deep reservoir of little relief
            g["z"] = {"base": draw(st.sampled_from([0.0625, 1, 5.5, 25.0])), "mult": g["z"]["mult"], "plus": draw(st.sampled_from([3000, 8000.0, 12345.5]))}
    s["fluid"] = f
    s["pi"] = draw(st.one_of(st.integers(1000, 6000), st.integers(1000, 6000).map(float)))
    s["dt"] = draw(st.sampled_from([1, 2, 5, 10, 30, 0.5]))
    barrier = False
    wide = draw(is_wide)
    if wide:
        f["mu"] = draw(st.sampled_from([0.01, 0.05, 1.0, 20.0, 1000.0]))
        f["B"] = draw(st.sampled_from([0.005, 0.6, 1.0, 3.0]))
        for q in (f, g):
            if "comp" in q:
                q["comp"] = draw(st.sampled_from([4e-10, 5e-9, 1e-6, 1e-3, 2e-2]))
        s["pi"] = draw(st.sampled_from([0.0, 0.25, 14.7, 3000.0, 2.5e4, 1e5, -500.0]))
        s["dt"] = draw(st.sampled_from([0.001, 0.1, 1, 7, 100, 365]))
        barrier = compressible and draw(st.booleans())
        if barrier:
            # sealing cells: zero permeability along one axis
            a = draw(st.sampled_from([p for p in ("kx", "ky", "kz") if p in g]))
            b = g[a]["base"] if isinstance(g[a], dict) else g[a]
            if isinstance(b, (int, float)):
                g[a] = {"base": b, "mult": draw(st.lists(st.sampled_from([0, 1, 2, 9]), min_size=2, max_size=9))}
                rg = ref.Grid(g)
    if nopi and not compressible and draw(st.integers(0, 7)) == 0:
        s["pi"] = None  # the initial pressure may be unknown
    s["steps"] = draw(st.integers(*steps))
    fids = boundary_face_ids(g["n"])
    bl = []
    if bounds:
        few = 0 if compressible else 1
        if big:
            m = draw(st.integers(few, min(len(fids), 25)))
            chosen = draw(st.lists(st.sampled_from(fids), unique=True, min_size=m, max_size=m))
        else:
            m = draw(st.integers(few, min(len(fids), 6)))
            chosen = draw(st.permutations(fids))[:m]
        for t, b in enumerate(chosen):
            kind = draw(st.sampled_from(kinds))
            if t == 0 and not compressible:
                kind = "pressure"
            if kind == "pressure":
                v = draw(st.one_of(st.integers(500, 6500), st.integers(500, 6500).map(float), st.sampled_from([0, 0.0, 14, 4000.0, -250, -1500.0])))
            elif kind == "rate":
                v = draw(st.sampled_from([0.0, 0, 100.0, -50, 7.5, -300.0]))
            else:
                v = draw(st.sampled_from([0.0, 0.1, -0.25, 1]))
            bl.append({"id": b, "kind": kind, "v": v})
    s["bounds"] = bl
    wl = []
    if wells and rg.fdir in ("x", "xy", "xyz"):
        if big:
            m = draw(st.integers(0, min(len(rg.inside), 12)))
            chosen = draw(st.lists(st.sampled_from(rg.inside), unique=True, min_size=m, max_size=m))
        else:
            m = draw(st.integers(0, min(3, len(rg.inside))))
            chosen = draw(st.permutations(rg.inside))[:m]
        for c in chosen:
            if any(p in g and rg.field(p)[c] == 0 for p in ("kx", "ky")):
                continue
            w = {"id": c, "r": draw(st.sampled_from([3.5, 2.0, 0.3, 0.1])) , "s": draw(st.sampled_from([0, 1.5, 5.0]))}
            kind = draw(st.sampled_from(well_kinds))
            if kind in ("q", "both"):
                w["q"] = draw(st.sampled_from([-1e5, -0.001, 0.0, -40.0, 3000.0] if wide else [-600, -100.0, -20.0, -3, 50.0, 200.0]))
            if kind in ("pwf", "both"):
                w["pwf"] = draw(st.sampled_from([0, 100, 500.0, 1000, 2500.0, 4000.0, 6500, -200.0]))
            # keep the well inside its equivalent radius, whatever the cell size
            d = [rg.d[a][c] for a in range(3)]
            w["r"] = float(w["r"] * min(1.0, min(d[0], d[1]) / 20))
            wl.append(w)
    s["wells"] = wl
    if wl and "q" in wl[0] and "pwf" not in wl[0] and draw(st.booleans()):
        s["well_arg"] = True  # the first well is given to the constructor
    if draw(st.integers(0, 5)) == 0:
        s["np"] = True  # numbers come out of numpy arrays, sequences are arrays or tuples
    return s


def as_np(v):
    """a number as an element of a numpy array"""
    if isinstance(v, bool) or v is None:
        return v
    return np.array([v])[0]


def build_model(spec, rf, compile=True, sparse=False, verbose=(False, False, False), dtype="double"):
    num = as_np if spec.get("np") else lambda v: v
    g = build_grid(spec["grid"], rf, dtype=dtype, arrays=bool(spec.get("np")), **({"verbose": True} if verbose[0] else {}))
    f = {k: num(v) for k, v in spec["fluid"].items()}
    unit = spec["grid"].get("unit", "field")
    fl = rf.fluids.SinglePhase(mu=f["mu"], B=f["B"], rho=f.get("rho"), comp=f.get("comp"), unit=unit, dtype=dtype, **({"verbose": True} if verbose[1] else {}))
    kw = {"verbose": True} if verbose[2] else {}
    if "start_date" in spec:
        kw["start_date"] = spec["start_date"]
    wells = list(spec.get("wells", []))
    if spec.get("well_arg") and wells and "q" in wells[0] and "pwf" not in wells[0]:
        w = wells.pop(0)
        kw["well"] = rf.wells.SingleCell(cell_id=num(w["id"]), **{k: num(w[k]) for k in ("q", "r", "s") if k in w})
    m = rf.models.BlackOil(g, fl, pi=num(spec.get("pi")), dt=num(spec.get("dt", 1)), unit=unit, dtype=dtype, **kw)
    for w in wells:
        a = {k: num(w[k]) for k in ("q", "pwf", "r", "s") if k in w}
        m.set_well(cell_id=num(w["id"]), **a)
    if spec.get("bounds"):
        m.set_boundaries({num(b["id"]): (b["kind"], num(b["v"])) for b in spec["bounds"]})
    if compile:
        m.compile(stype="numerical", method="FDM", sparse=sparse)
    return m
