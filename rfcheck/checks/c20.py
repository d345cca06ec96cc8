"""C20: fluid, grid and model inputs are validated and kept consistent."""
import contextlib
import copy
import io
import math

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, gridq, harness, ref, simcheck

PROPERTY = "C20"
RULE = (
    "histories of valid and invalid settings: two fluids or two wells set alternately (every setter, synonyms, units, rejected "
    "values) against attribute models; grids built with invalid arguments and queried with unknown options; models whose fluid, "
    "compressibility, wells and boundaries change before and between the steps, mixed with rejected calls, judged by the "
    "reference simulator holding the accepted values; non-trivial: a rejected call, or a change after the first use"
)
ASSUMPTIONS = [
    "rejections are judged for one invalid value per call (a call mixing valid and invalid values may keep the valid ones)",
    "a model adds the compressibility of fluid and grid when created; afterwards model.set_comp changes it",
    "wells and gradient conditions keep the permeability they were set with",
]
UNITS = ["field", "metric", "lab"]
REJ = (ValueError, AssertionError)
BADCOMP = [-1e-6, -1, -5.0, "nan", -4e-10, -1e-15]


def num(v):
    return math.nan if v == "nan" else v


# ----------------------------------------------------------------- two fluids


@st.composite
def fluid_case(draw):
    vals = {"mu": st.sampled_from([0.5, 1, 3.25, 0.001, 2000.0]), "B": st.sampled_from([1, 1.25, 0.9, 0.004]), "rho": st.sampled_from([0, 50, 62.4, 1000.0, 0.05, 1]), "comp": st.sampled_from([0, 0.0, 1e-6, 2e-5, 4e-10, 1e-14, 0.5, 1])}

    def props():
        return {k: draw(v) for k, v in vals.items() if draw(st.booleans())}

    ops = []
    for _ in range(draw(st.integers(1, 14))):
        o = {"f": draw(st.integers(0, 1)), "op": draw(st.sampled_from(["set", "set", "props", "unit", "badcomp", "badprops", "badunit", "synonyms", "report"]))}
        if o["op"] in ("set", "report"):
            o["k"] = draw(st.sampled_from(list(vals)))
            o["v"] = draw(vals[o["k"]])
            o["syn"] = draw(st.booleans())
        elif o["op"] == "props":
            o["p"] = props()
        elif o["op"] == "unit":
            o["v"] = draw(st.sampled_from(UNITS))
        elif o["op"] in ("badcomp", "badprops"):
            o["v"] = draw(st.sampled_from(BADCOMP))
        elif o["op"] == "badunit":
            o["v"] = draw(st.sampled_from(["", "Field", "si", "fields", "imperial"]))
        ops.append(o)
    return {"fluids": [{"p": props(), "unit": draw(st.sampled_from(UNITS))} for _ in range(2)], "ops": ops}


SYN = {"mu": "set_viscosity", "rho": "set_density", "B": "set_formation_volume_factor"}
SYN_V = {"mu": ["viscosity"], "rho": ["density"], "B": ["formation_volume_factor", "FVF"]}


def check_fluid(f, m, what):
    fac = ref.FACTORS[m["unit"]]
    for k in ("mu", "B"):
        if k in m["p"]:
            harness.close(getattr(f, k), m["p"][k], f"{what}: {k}", rtol=0)
    rho, comp = m["p"].get("rho", 0), m["p"].get("comp", 0)
    harness.close(f.rho, rho, f"{what}: rho", rtol=0)
    harness.close(f.g, fac["gamma"] * rho * fac["g"], f"{what}: gravity factor", rtol=1e-12)
    check_comp(f, comp, what)
    check_units(f, m["unit"], what)


def check_comp(o, comp, what):
    harness.close(o.comp, comp, f"{what}: comp", rtol=0)
    harness.same(o.comp_type, "compressible" if comp > 0 else "incompressible", f"{what}: comp_type")


def check_units(o, unit, what):
    fac = ref.FACTORS[unit]
    harness.same(o.unit, unit, f"{what}: unit")
    got = {"beta": o.factors["transmissibility conversion"], "gamma": o.factors["gravity conversion"], "alpha": o.factors["volume conversion"], "g": o.factors["gravitational acceleration"]}
    for k, v in got.items():
        harness.close(v, fac[k], f"{what}: factor {k}", rtol=0)
    want = {"field": ("psia", "ft", "days"), "metric": ("kpa", "m", "days"), "lab": ("atm", "cm", "sec")}[unit]
    harness.same((o.units["pressure"], o.units["length"], o.units["time"]), want, f"{what}: units")


def run_fluid(s, rec):
    rf = env.load()
    fl = [rf.fluids.SinglePhase(**f["p"], unit=f["unit"]) for f in s["fluids"]]
    ms = copy.deepcopy(s["fluids"])
    syn = [False, False]
    bad = 0
    for t in range(2):
        check_fluid(fl[t], ms[t], f"fluid {t} as built")
    for i, o in enumerate(s["ops"]):
        w = o["f"]
        f, m = fl[w], ms[w]
        what = f"after operation {i} ({o})"
        if o["op"] == "set":
            name = SYN[o["k"]] if o["syn"] and syn[w] and o["k"] in SYN else "set_" + o["k"]
            getattr(f, name)(o["v"])
            m["p"][o["k"]] = o["v"]
        elif o["op"] == "props":
            f.set_props(**o["p"])
            m["p"].update(o["p"])
        elif o["op"] == "unit":
            f.set_units(o["v"])
            m["unit"] = o["v"]
        elif o["op"] == "badcomp":
            harness.expect_raises(lambda: f.set_comp(num(o["v"])), REJ, what)
            bad += 1
        elif o["op"] == "badprops":
            harness.expect_raises(lambda: f.set_props(comp=num(o["v"])), REJ, what)
            bad += 1
        elif o["op"] == "badunit":
            harness.expect_raises(lambda: f.set_units(o["v"]), REJ, what)
            bad += 1
        elif o["op"] == "synonyms":
            if "mu" in m["p"] and "B" in m["p"]:
                f.allow_synonyms()
                syn[w] = True
                for k, names in SYN_V.items():
                    for nm in names:
                        harness.close(getattr(f, nm), m["p"].get(k, 0), f"{what}: {nm}", rtol=0)
                harness.close(f.gravity, f.g, f"{what}: gravity", rtol=0)
        elif o["op"] == "report":
            if o["k"] in m["p"]:
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    f.report(o["k"])
                    f.report()
                harness.require(f"{o['k']}: {m['p'][o['k']]}" in out.getvalue(), f"{what}: reported {out.getvalue()[:200]!r}, expected {m['p'][o['k']]}")
        for t in range(2):
            check_fluid(fl[t], ms[t], f"fluid {t} {what}")
        rec.label(o["op"])
    rec.nontrivial_if(bad > 0 or len({o["f"] for o in s["ops"]}) == 2)


# ------------------------------------------------------------------ two wells


@st.composite
def well_case(draw):
    vals = {"cell_id": st.integers(1, 30), "q": st.sampled_from([-600, 0, 0.0, 50.5]), "s": st.sampled_from([0, 1.5, -0.5]), "r": st.sampled_from([3.5, 0.1])}

    def props():
        return {k: draw(v) for k, v in vals.items() if draw(st.booleans())}

    ops = []
    for _ in range(draw(st.integers(1, 10))):
        o = {"w": draw(st.integers(0, 1)), "op": draw(st.sampled_from(["set", "set", "props", "synonyms"]))}
        if o["op"] == "set":
            o["k"] = draw(st.sampled_from(list(vals)))
            o["v"] = draw(vals[o["k"]])
            o["syn"] = draw(st.booleans())
        elif o["op"] == "props":
            o["p"] = props()
        ops.append(o)
    return {"wells": [props(), props()], "ops": ops}


def run_well(s, rec):
    rf = env.load()
    ws = [rf.wells.SingleCell(**p) for p in s["wells"]]
    ms = copy.deepcopy(s["wells"])
    syn = [False, False]

    def look(what):
        for t in range(2):
            for k, v in ms[t].items():
                harness.close(getattr(ws[t], k), v, f"well {t} {what}: {k}", rtol=0)
            for k in ("q", "s", "r", "cell_id"):
                if k not in ms[t]:
                    harness.require(getattr(ws[t], k, None) is None, lambda: f"well {t} {what}: {k} is {getattr(ws[t], k)!r} but was never given")

    look("as built")
    for i, o in enumerate(s["ops"]):
        w, m = ws[o["w"]], ms[o["w"]]
        if o["op"] == "set":
            name = {"q": "set_rate", "s": "set_skin", "r": "set_radius"}.get(o["k"]) if o["syn"] and syn[o["w"]] else None
            getattr(w, name or "set_" + o["k"])(o["v"])
            m[o["k"]] = o["v"]
        elif o["op"] == "props":
            w.set_props(**o["p"])
            m.update(o["p"])
        elif all(k in m for k in ("q", "s", "r")):
            w.allow_synonyms()
            syn[o["w"]] = True
            harness.same([w.rate, w.skin, w.radius], [m["q"], m["s"], m["r"]], "synonyms")
        look(f"after operation {i} ({o})")
        rec.label(o["op"])
    rec.nontrivial_if(len({o["w"] for o in s["ops"]}) == 2)


# ---------------------------------------------------------------------- grids


@st.composite
def ctor_case(draw):
    g = draw(gen.grid(dmax=(5, 3, 3), cells=24, props=("kx", "ky", "kz", "phi")))
    kind = draw(st.sampled_from(["n", "d", "prop", "comp", "unit"]))
    b = {"kind": kind}
    N = int(np.prod(gen.nb_of(g["n"])))
    if kind == "n":
        b.update(axis=draw(st.integers(0, 2)), v=draw(st.sampled_from([0, -1, -3])))
    elif kind == "d":
        flow = [a for a in range(3) if g["n"][a] > 1]
        if not flow:
            b = {"kind": "unit", "v": "si"}
        else:
            a = draw(st.sampled_from(flow))
            nb = gen.nb_of(g["n"])[a]
            # the number of interior cells is the mistake users make
            m = draw(st.sampled_from([v for v in (nb - 2, nb - 1, nb + 1, nb + 2, 1, 0) if v != nb]))
            b.update(axis=a, m=m, form=draw(st.sampled_from(["list", "tuple", "array"])))
    elif kind == "prop":
        b.update(name=draw(st.sampled_from(["kx", "ky", "kz", "phi", "z"])), m=draw(st.sampled_from([m for m in (N - 1, N + 1, int(np.prod(g["n"])), 2) if m not in (N, 1, 0) and m > 0] or [N + 1])), form=draw(st.sampled_from(["list", "array"])))
        if N == 1 or b["m"] == N:
            b = {"kind": "unit", "v": "FIELD"}
    elif kind == "comp":
        b["v"] = draw(st.sampled_from(BADCOMP))
    else:
        b["v"] = draw(st.sampled_from(["", "Field", "si", "oilfield"]))
    return {"grid": g, "bad": b}


def run_ctor(s, rec):
    rf = env.load()
    g, b = s["grid"], s["bad"]
    rec.label(b["kind"])
    rec.nontrivial_if(True)
    good = gen.build_grid(g, rf)
    look = gridq.numbering(ref.Grid(g))
    bad = dict(g, n=list(g["n"]), d=list(g["d"]))
    kw = {}
    if b["kind"] == "n":
        bad["n"][b["axis"]] = b["v"]
        bad["d"] = [v[0] if isinstance(v, list) else v for v in bad["d"]]
        for p in ("kx", "ky", "kz", "phi"):
            kw[p] = 1.0
    elif b["kind"] in ("d", "prop"):
        v = [1.0 + i for i in range(b["m"])]
        v = {"list": v, "tuple": tuple(v), "array": np.array(v)}[b["form"]]
        if b["kind"] == "d":
            nx, ny, nz = g["n"]
            d = [list(x) if isinstance(x, list) else x for x in g["d"]]
            d[b["axis"]] = v
            harness.expect_raises(lambda: rf.grids.RegularCartesian(nx, ny, nz, *d, phi=0.1), REJ, f"cell sizes {b} for {g['n']} cells")
            gridq.check(look, good)
            return
        kw[b["name"]] = v
    elif b["kind"] == "comp":
        kw["comp"] = num(b["v"])
    else:
        kw["unit"] = b["v"]
    harness.expect_raises(lambda: gen.build_grid(bad, rf, **kw), REJ, f"grid built with {b}")
    gridq.check(look, good)


@st.composite
def query_case(draw):
    g = draw(gen.grid(dmax=(5, 3, 3), cells=24, props=("kx", "ky", "kz", "phi")))
    r = ref.Grid(g)
    bad_fmt = st.sampled_from(["", "Array", "sets", "ndarray", "json"])
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        c = draw(st.sampled_from(r.inside))
        ops.append(draw(st.sampled_from([
            ["get_cells_id", [True, False, draw(bad_fmt)]], ["get_cells_id", [False, False, draw(bad_fmt)]],
            ["get_cells_coords", [True, False, draw(bad_fmt)]], ["get_cells_i", [True, False, draw(bad_fmt)]],
            ["get_boundaries", ["id", draw(bad_fmt)]], ["get_boundaries", [draw(st.sampled_from(["ids", "", "coord"])), "tuple"]],
            ["get_cell_neighbors", [c, None, False, draw(bad_fmt)]], ["get_cell_boundaries", [c, None, draw(bad_fmt)]],
            ["get_cell_neighbors", [None, None, False, "dict"]], ["get_cell_boundaries", [None, None, "dict"]],
            ["get_cells_d", [draw(st.sampled_from(["", "w", "X", "xy"]))]], ["get_cells_A", [draw(st.sampled_from(["", "w", "Y"]))]],
            ["get_cells_k", [draw(st.sampled_from(["", "w", "kx", "Z"]))]], ["get_cell_d", ["x"]], ["get_cell_A", ["x"]], ["get_cell_V", []],
            ["get_cell_center", []], ["get_cell_k", ["x"]], ["get_prop", [draw(st.sampled_from(["k", "perm", "", "KX", "rho"]))]],
            ["set_prop", [draw(st.sampled_from(["k", "perm", "", "KX", "rho"])), 1.0]], ["get_order", [draw(st.sampled_from(["", "red-black", "NATURAL "]))]],
            ["set_comp", [-1e-7]], ["set_units", ["SI"]],
        ])))
    return {"grid": g, "ops": ops}


def run_query(s, rec):
    rf = env.load()
    g = gen.build_grid(s["grid"], rf)
    r = ref.Grid(s["grid"])
    kk = [r.field("k" + a) for a in "xyz"]
    cells = list(r.inside[:2]) + list(r.inside[-1:])
    look = gridq.numbering(r)
    unit = s["grid"].get("unit", "field")
    for name, args in s["ops"]:
        harness.expect_raises(lambda: getattr(g, name)(*args), REJ, f"{name}{tuple(args)}")
        rec.label(name)
    gridq.check(look, g)
    if r.D:
        gridq.check(gridq.trans_cells(r, cells, kk), g)
    check_comp(g, 0, "grid")
    check_units(g, unit, "grid")
    rec.nontrivial_if(True)


# --------------------------------------------------------------------- models


@st.composite
def model_case(draw, vect=True, **kw):
    kw.setdefault("dmax", (6, 4, 3))
    kw.setdefault("cells", 18)
    s = draw(gen.flow(gravity=True, comp=True, kinds=("pressure", "rate"), **kw))
    rg = ref.Grid(s["grid"])
    fids = gen.boundary_face_ids(s["grid"]["n"])
    open_cells = [c for c in rg.inside if rg.field("kx")[c] > 0 and rg.field("ky")[c] > 0] if rg.fdir in ("x", "xy", "xyz") else []

    def op():
        kind = draw(st.sampled_from(["mu", "B", "rho", "comp", "well", "well", "bound", "bad", "bad", "bad"]))
        if kind == "mu":
            return [kind, draw(st.sampled_from([0.5, 1.0, 3.0]))]
        if kind == "B":
            return [kind, draw(st.sampled_from([1.0, 1.25, 0.8]))]
        if kind == "rho":
            return [kind, draw(st.sampled_from([0, 30.0, 62.4]))]
        if kind == "comp":
            return [kind, draw(st.sampled_from([1e-6, 1e-5, 3e-4, 5e-9, 1e-2]))]
        if kind == "bound":
            k = draw(st.sampled_from(["pressure", "rate"]))
            return [kind, draw(st.sampled_from(fids)), k, draw(st.sampled_from([0.0, 1500.0, 4000.0] if k == "pressure" else [0.0, 20.0, -35.0]))]
        if kind == "well" and open_cells:
            c = draw(st.sampled_from(open_cells))
            w = {"id": c}
            for k, v in {"q": st.sampled_from([-100.0, -3.0, 0.0, 40.0]), "pwf": st.sampled_from([100.0, 1500.0, 3500.0]), "r": st.sampled_from([1.0, 0.25]), "s": st.sampled_from([0, 2.0, 4.5])}.items():
                if draw(st.booleans()):
                    w[k] = v and draw(v)
            if "r" in w:
                w["r"] = float(w["r"] * min(1.0, min(rg.d[0][c], rg.d[1][c]) / 20))
            return [kind, w, draw(st.integers(0, 3))]
        what = draw(st.sampled_from(["well-outside", "well-bound", "well-none", "well-radius", "bound-inside", "bound-cond", "bounds-inside", "bounds-cond", "comp", "stype", "method", "sparse", "solution", "units", "fluid-comp", "grid-comp"]))
        return ["bad", what, draw(st.integers(0, 10**4))]

    s["ops"] = [[op() for _ in range(draw(st.integers(0, 4)))] for _ in range(s["steps"] + 1)]
    s["sparse"] = draw(st.booleans())
    s["vectorize"] = vect
    return s


def snap(m):
    out = [copy.deepcopy(dict(m.wells)), dict(m.bdict), m.init_pressures.copy(), m.init_rates.copy(), m.comp, m.comp_type, sorted(m.get_solutions()), m.unit, m.fluid.comp, m.grid.comp]
    if m.solution is not None:
        out += [m.solution.pressures.copy(), m.solution.rates.copy(), m.solution.nsteps, m.solution.tstep]
    return out


def same_snap(a, b, what):
    names = ["wells", "boundary conditions", "initial pressures", "initial rates", "comp", "comp_type", "solutions", "unit", "fluid comp", "grid comp", "pressures", "rates", "nsteps", "tstep"]
    for n, x, y in zip(names, b, a):
        if isinstance(x, np.ndarray):
            harness.close(x, y, f"{what}: {n}", rtol=0)
        else:
            harness.same(x, y, f"{what}: {n}")


def reject(m, S, what, n, rec):
    g = S.g
    c = g.inside[n % len(g.inside)]
    b = g.bound[n % len(g.bound)]
    any_ = REJ + (KeyError, TypeError, IndexError)
    free = [i for i in g.inside if i not in S.wells]
    sol = m.solution
    fns = {
        "well-outside": lambda: m.set_well(cell_id=[g.N, g.N + 7, -1][n % 3], q=-5.0, r=0.1),
        "well-bound": lambda: m.set_well(cell_id=b, q=-5.0, r=0.1),
        "well-none": lambda: m.set_well(q=-5.0, r=0.1),
        "bound-inside": lambda: m.set_boundary(c, "pressure", 77.0),
        "bound-cond": lambda: m.set_boundary(b, ["", "flow", "pq"][n % 3], 77.0),
        "bounds-inside": lambda: m.set_boundaries({b: ("rate", 5.0), c: ("pressure", 77.0)}),
        "bounds-cond": lambda: m.set_all_boundaries(["", "flow", "pq"][n % 3], 77.0),
        "comp": lambda: m.set_comp([-1e-6, -3, math.nan][n % 3]),
        "stype": lambda: m.compile(stype=["", "fdm", "numerics"][n % 3], method="FDM"),
        "method": lambda: m.compile(stype="numerical", method=["", "d1p1", "fd"][n % 3]),
        "sparse": lambda: m.compile(stype="numerical", method="FDM", sparse=[1, "yes", None][n % 3]),
        "solution": lambda: m.set_solution(["", "BlackOil", "FDM"][n % 3]),
        "units": lambda: m.set_units(["", "SI", "Metric"][n % 3]),
        "fluid-comp": lambda: m.fluid.set_comp(-1e-6),
        "grid-comp": lambda: m.grid.set_comp(-1e-6),
    }
    if what == "well-radius":
        if not free:
            return False
        fn = lambda: m.set_well(cell_id=free[n % len(free)], q=-5.0)  # noqa: E731
    else:
        fn = fns[what]
    a = snap(m)
    harness.expect_raises(fn, any_, what)
    same_snap(a, snap(m), f"after the rejected call {what} (cell {c}, boundary {b}, variant {n % 3})")
    harness.require(m.solution is sol, f"after the rejected call {what}: another solution is active")
    rec.label("rejected " + what)
    return True


def alpha(S, comp):
    g = S.g
    k = S.k["xyz".index(g.fdir)] if g.fdir in ("x", "y", "z") else S.k[0]
    return S.fac["beta"] * S.fac["alpha"] * k / (S.mu * g.field("phi") * comp)


def run_model(s, rec):
    rf = env.load()
    s = copy.deepcopy(s)
    m = gen.build_model(s, rf, compile=False)
    S = ref.Sim(s)
    g = S.g
    comp = (s["fluid"].get("comp") or 0) + (s["grid"].get("comp") or 0)
    check_comp(m, comp, "model as built")
    refused = changed = 0
    for i in range(s["steps"] + 1):
        for o in s["ops"][i]:
            what = f"before step {i}: {o}"
            kind = o[0]
            if kind in ("mu", "B", "rho"):
                getattr(m.fluid, "set_" + kind)(o[1])
            elif kind == "comp":
                m.set_comp(o[1])
            if kind in ("mu", "B"):
                setattr(S, kind, o[1])
            elif kind == "rho":
                S.grav = S.fac["gamma"] * o[1] * S.fac["g"]
            elif kind == "comp":
                S.comp = comp = o[1]
            elif kind == "well":
                w = o[1]
                if w["id"] not in S.wells and "r" not in w:
                    continue
                if w["id"] not in S.wells and "q" not in w and "pwf" not in w:
                    continue
                if o[2] == 2 and "r" in w:
                    # first the geometry, then the constraints
                    m.set_well(cell_id=w["id"], **{k: v for k, v in w.items() if k in "rs"})
                    m.set_well(cell_id=w["id"], **{k: v for k, v in w.items() if k in ("q", "pwf")})
                elif o[2] == 3 and (w["id"] in S.wells or "r" in w):
                    # one by one
                    for k in ("r", "s", "pwf", "q"):
                        if k in w:
                            m.set_well(cell_id=w["id"], **{k: w[k]})
                elif o[2] == 1 and "pwf" not in w:
                    m.set_well(rf.wells.SingleCell(cell_id=w["id"], **{k: v for k, v in w.items() if k != "id"}))
                else:
                    m.set_well(cell_id=w["id"], **{k: v for k, v in w.items() if k != "id"})
                S.set_well(w)
            elif kind == "bound":
                m.set_boundary(o[1], o[2], o[3])
                S.bnd[o[1]] = (o[2], o[3])
            else:
                refused += reject(m, S, o[1], o[2], rec)
            if kind != "bad":
                changed += 1
            rec.label(kind)
            check_comp(m, comp, what)
            harness.close(m.get_alpha(), alpha(S, comp), f"{what}: diffusivity", rtol=1e-12)
            harness.close(m.fluid.g, S.grav, f"{what}: gravity factor", rtol=1e-12)
        if i == 0:
            before = snap(m)
            m.solve()
            m.run(nsteps=3)
            same_snap(snap(m), before, "after solve and run of a model that is not compiled")
            m.compile(stype="numerical", method="FDM", sparse=s["sparse"])
            continue
        S.RHS = g.V * g.field("phi") * comp / (S.fac["alpha"] * S.B * S.dt)
        S.assemble()
        S.fill_bounds()
        m.solve(vectorize=s["vectorize"], check_MB=False, isolver=None)
        harness.close(m.RHS[g.inside], S.RHS[g.inside], f"step {i}: accumulation coefficients", rtol=1e-12)
        try:
            simcheck.step(S, m.solution, i - 1, rec)
        except simcheck.Skip as e:
            rec.label("skipped: " + str(e))
            break
    rec.nontrivial_if(refused > 0 or changed > 0)


# ------------------------------------------------------------ initial pressure


@st.composite
def nopi_case(draw):
    s = draw(gen.flow(gravity="maybe", steps=(1, 2), dmax=(5, 3, 3), cells=9, comp=True))
    s["pi"] = None
    s["sparse"] = draw(st.booleans())
    s["opts"] = {"threading": draw(st.booleans()), "vectorize": draw(st.booleans()), "check_MB": draw(st.booleans()), "isolver": draw(st.sampled_from([None, "bicgstab", "gmres"]))}
    s["run"] = draw(st.booleans())
    s["analytical"] = draw(st.booleans())
    return s


def run_nopi(s, rec):
    """Compressible flow needs an initial pressure."""
    rf = env.load()
    m = gen.build_model(s, rf, sparse=s["sparse"])
    harness.same(m.pi, None, "initial pressure")
    before = snap(m)
    if s["analytical"] and len(m.grid.get_fdir()) == 1:
        m.compile("analytical", "d1p1")
        before = snap(m)
        harness.expect_raises(lambda: m.run(nsteps=s["steps"]), Exception, "run of an analytical model without initial pressure")
        same_snap(snap(m), before, "after a rejected run of an analytical model without initial pressure")
        harness.same(m.get_shape(True), (1, m.grid.get_n(True)), "shape of the results after a rejected run")
        m.set_solution(m.get_solutions()[0])
        before = snap(m)
        rec.label("analytical")
    what = f"{'run' if s['run'] else 'solve'} of a compressible model without initial pressure"
    if s["run"]:
        harness.expect_raises(lambda: m.run(nsteps=s["steps"], **s["opts"]), Exception, what)
    else:
        harness.expect_raises(lambda: m.solve(**s["opts"]), Exception, what)
    same_snap(snap(m), before, "after a rejected " + what)
    rec.label("sparse" if s["sparse"] else "dense", "vectorised" if s["opts"]["vectorize"] else "symbolic")
    rec.nontrivial_if(True)


# ------------------------------------------------------------ unfinished parts

NOTYET = [
    ("fluids", "MultiPhase"), ("fluids", "TwoPhase"), ("fluids", "ThreePhase"), ("grids", "Radial"), ("grids", "IrregularCartesian"),
    ("models", "Thermal"), ("models", "Compositional"), ("wells", "MultiCell"), ("wells", "Directional"),
    ("backends", "NumPy"), ("backends", "JAX"), ("backends", "PyTorch"), ("backends", "TensorFlow"),
]


def run_notyet(s, rec):
    rf = env.load()
    mod, name = NOTYET[s["i"]]
    cls = getattr(getattr(rf, mod), name)
    harness.expect_raises(lambda: cls(**s["kw"]), (NotImplementedError, TypeError), f"{mod}.{name}")
    rec.label(name)
    rec.nontrivial_if(True)


@st.composite
def mix_case(draw):
    """dtype of grid, fluid and model must agree"""
    return {"dt": [draw(st.sampled_from(["double", "single"])) for _ in range(3)], "n": draw(st.integers(2, 4)), "comp": [draw(st.sampled_from([None, 0, 1e-6])), draw(st.sampled_from([None, 0, 2e-6]))]}


def run_mix(s, rec):
    rf = env.load()
    dg, df, dm = s["dt"]
    g = rf.grids.RegularCartesian(s["n"], 1, 1, 10, 10, 10, kx=5, ky=5, kz=5, phi=0.2, comp=s["comp"][0], dtype=dg)
    f = rf.fluids.SinglePhase(mu=1, B=1, comp=s["comp"][1], dtype=df)

    def build():
        return rf.models.BlackOil(g, f, pi=1000, dtype=dm)

    rec.nontrivial_if(True)
    if len(set(s["dt"])) > 1:
        rec.label("mixed dtypes")
        harness.expect_raises(build, REJ, f"model of dtypes {s['dt']}")
    else:
        rec.label("same dtype")
        check_comp(build(), (s["comp"][0] or 0) + (s["comp"][1] or 0), "model")


SUBS = [
    harness.Sub("fluid", fluid_case(), run_fluid, quick=400, thorough=20000),
    harness.Sub("well-object", well_case(), run_well, quick=200, thorough=10000),
    harness.Sub("constructor", ctor_case(), run_ctor, quick=300, thorough=12000),
    harness.Sub("query", query_case(), run_query, quick=250, thorough=10000),
    harness.Sub("model", model_case(), run_model, quick=600, thorough=20000),
    harness.Sub("model-symbolic", model_case(vect=False, dmax=(4, 3, 2), cells=6, steps=(1, 3)), run_model, quick=100, thorough=3000, shards=8),
    harness.Sub("no-initial-pressure", nopi_case(), run_nopi, quick=80, thorough=1000),
    harness.Sub("dtype", mix_case(), run_mix, quick=50, thorough=300),
    harness.Sub("unavailable", st.fixed_dictionaries({"i": st.integers(0, len(NOTYET) - 1), "kw": st.sampled_from([{}, {"dtype": "double"}, {"unit": "field"}])}), run_notyet, quick=50, thorough=200),
]
PINNED = {}
