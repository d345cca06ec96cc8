"""C14: unit systems are consistent."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, harness, ref
from .c13 import fscale, prepare, scales, simulate

PROPERTY = "C14"
RULE = (
    "random problems solved twice in different unit systems, the second statement with permeability, compressibility and "
    "density rescaled by the documented factor ratios so that the physics is the same; plus histories of unit and property "
    "changes on fluids and grids against a model that derives everything from the documented table; non-trivial: two "
    "different unit systems and something flows, or at least two unit changes"
)
ASSUMPTIONS = [
    "the documented tables (docs: Units & Factors) are the specification of the factors",
    "grid, fluid and model of a problem use one unit system; changing the unit system of an existing model is not covered "
    "(it does not convert its grid and fluid)",
]
U = ["field", "metric", "lab"]
KEYS = {"beta": "transmissibility conversion", "alpha": "volume conversion", "gamma": "gravity conversion", "g": "gravitational acceleration"}
# documented units (docs: units_table), the ones with a plain text form
UNITS = {
    "field": {"transmissibility": "stb/(day.psi)", "pressure": "psia", "time": "days", "rate": "stb/day", "length": "ft", "area": "ft^2", "volume": "ft^3", "permeability": "md", "viscosity": "cp", "density": "lbm/ft^3", "compressibility": "psi^{-1}", "porosity": "fraction", "phase gravity": "psi/ft"},
    "metric": {"transmissibility": "m^3/(day.bar)", "pressure": "kpa", "time": "days", "rate": "m^3/day", "length": "m", "area": "m^2", "volume": "m^3", "permeability": "m^2", "viscosity": "mpa.sec", "density": "kg/m^3", "compressibility": "kpa^{-1}", "porosity": "fraction", "phase gravity": "kpa/m"},
    "lab": {"transmissibility": "cm^3/(sec.atm)", "pressure": "atm", "time": "sec", "rate": "cm^3/sec", "length": "cm", "area": "cm^2", "volume": "cm^3", "permeability": "darcy", "viscosity": "cp", "density": "g/cm^3", "compressibility": "atm^{-1}", "porosity": "fraction", "phase gravity": "atm/cm"},
}


@st.composite
def case(draw, symbolic=False, **kw):
    s = draw(gen.flow(gravity="maybe", steps=(1, 3), units=False, **kw))
    a = draw(st.permutations(U))
    s["units"] = [a[0], a[1]]
    s["sparse"] = draw(st.booleans())
    s["symbolic"] = symbolic
    return s


def restate(s, u):
    """The field-unit statement s in unit system u."""
    o = copy.deepcopy(s)
    f0, f1 = ref.FACTORS["field"], ref.FACTORS[u]
    o["grid"]["unit"] = u
    for k in ("kx", "ky", "kz"):
        o["grid"][k] = fscale(o["grid"][k], f0["beta"] / f1["beta"])
    for d in (o["fluid"], o["grid"]):
        if d.get("comp"):
            d["comp"] *= f1["alpha"] / f0["alpha"]
    if o["fluid"].get("rho"):
        o["fluid"]["rho"] *= f0["gamma"] * f0["g"] / (f1["gamma"] * f1["g"])
    return o


def run(s, rec):
    rf = env.load()
    a, b = restate(s, s["units"][0]), restate(s, s["units"][1])
    Sa = prepare(a, rec)
    Sb = prepare(b, rec) if Sa else None
    if Sb is None:
        return
    Pa, Ra, Wa = simulate(a, rf, s["steps"], s["sparse"], s["symbolic"])
    Pb, Rb, Wb = simulate(b, rf, s["steps"], s["sparse"], s["symbolic"])
    rt, ps, qs = [max(x, y) for x, y in zip(scales(Sa), scales(Sb))]
    rec.label("/".join(s["units"]), "gravity" if Sa.grav else "no gravity", "compressible" if Sa.comp else "incompressible")
    rec.nontrivial_if(float(np.abs(Ra[1:]).max()) > 0)
    harness.close(Pb, Pa, f"pressures in {s['units'][1]} and {s['units'][0]} units", rtol=rt, scale=ps)
    harness.close(Rb, Ra, f"rates in {s['units'][1]} and {s['units'][0]} units", rtol=rt, scale=qs)
    for k in Wa:
        harness.close(Wb[k], Wa[k], f"flowing pressures of well {k}", rtol=rt, scale=ps + qs / (Sa.wells[k]["G"] / Sa.mu / Sa.B))


# ------------------------------------------------------------ reported units and derived values
BAD = ["Field", "si", "", "imperial", "metrics", "LAB"]


@st.composite
def hist_case(draw):
    g = draw(gen.grid(D=[1, 2], dmax=(4, 3, 2), cells=9, props=("kx", "ky", "kz", "phi"), units=False))
    us = [draw(st.sampled_from(U + [None])) for _ in range(2)]
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        o = draw(st.sampled_from(["unit", "unit", "unit", "bad", "rho", "props", "read", "read", "k", "new", "newbad"]))
        who = draw(st.sampled_from(["fluid", "grid", "fluid2"]))
        if o == "unit":
            ops.append([o, who, draw(st.sampled_from(U))])
        elif o in ("bad", "newbad"):
            ops.append([o, who, draw(st.sampled_from(BAD))])
        elif o == "rho":
            ops.append([o, who, draw(st.sampled_from([0, 30.0, 62.4, 1000.0]))])
        elif o == "props":
            ops.append([o, who, {k: draw(v) for k, v in {"rho": st.sampled_from([10.0, 45.0]), "mu": st.sampled_from([0.5, 2.0]), "comp": st.sampled_from([0, 1e-5])}.items() if draw(st.booleans())}])
        elif o == "k":
            ops.append([o, "grid", draw(gen.nice)])
        else:
            ops.append([o, who, draw(st.sampled_from(U))])
    return {"grid": g, "units": us, "rho": draw(st.sampled_from([None, 0, 50.0])), "ops": ops}


def tables(rf, o, u, what):
    harness.same(o.unit, u, what + ": unit")
    for k, name in KEYS.items():
        harness.close([o.factors[name]], [ref.FACTORS[u][k]], what + f": factor {name}", rtol=1e-12)
    for k, v in UNITS[u].items():
        harness.same(o.units[k], v, what + f": unit of {k}")


def run_hist(s, rec):
    rf = env.load()
    kw = {} if s["units"][0] is None else {"unit": s["units"][0]}
    fu = s["units"][0] or "field"
    fl = rf.fluids.SinglePhase(mu=1.0, B=1.0, rho=s["rho"], **kw)
    fl2 = rf.fluids.SinglePhase(mu=2.0, B=1.0, rho=40.0, unit="lab")
    gu = s["units"][1] or "field"
    gs = dict(s["grid"])
    gr = gen.build_grid(gs, rf, **({} if s["units"][1] is None else {"unit": s["units"][1]}))
    g = ref.Grid(gs)
    st_ = {"fluid": dict(u=fu, rho=s["rho"] or 0), "fluid2": dict(u="lab", rho=40.0), "grid": dict(u=gu)}
    objs = {"fluid": fl, "fluid2": fl2, "grid": gr}
    K = {a: g.field("k" + ref.AX[a]) for a in range(3)}
    nu = 0

    def check(tag):
        for n in ("fluid", "fluid2"):
            f, d = objs[n], st_[n]
            tables(rf, f, d["u"], f"{tag}: {n}")
            fac = ref.FACTORS[d["u"]]
            harness.close([f.rho, f.g], [d["rho"], fac["gamma"] * d["rho"] * fac["g"]], f"{tag}: density and gravity of {n} ({d['u']})", rtol=1e-12)
        tables(rf, gr, st_["grid"]["u"], f"{tag}: grid")
        spec = dict(gs, unit=st_["grid"]["u"])
        g2 = ref.Grid(spec)
        c = g.inside[0]
        got = gr.get_cell_G(c, None, True)
        for a in g.flow:
            for m in g.faces(c, a):
                harness.close([got[m]], [g2.G(c, m, a, K[a])], f"{tag}: geometric factor {c}-{m} in {st_['grid']['u']} units", rtol=1e-10)
        harness.same(sorted(int(x) for x in got), sorted(m for a in g.flow for m in g.faces(c, a)), f"{tag}: neighbours with a geometric factor")
        full = harness.as_float(gr.get_cells_G(False, False), f"{tag}: get_cells_G")
        for a in g.flow:
            for m in g.faces(c, a):
                if m in g.idx:
                    harness.close([full[g.idx[c], g.idx[m]]], [g2.G(c, m, a, K[a])], f"{tag}: get_cells_G {c}-{m}", rtol=1e-10)

    check("new")
    for no, op in enumerate(s["ops"]):
        kind, who, v = op
        tag = f"after {no}:{op}"
        if kind == "unit":
            objs[who].set_units(v)
            nu += st_[who]["u"] != v
            st_[who]["u"] = v
        elif kind == "bad":
            harness.expect_raises(lambda: objs[who].set_units(v), (ValueError, KeyError, AssertionError, TypeError), f"set_units({v!r})")
        elif kind == "newbad":
            if who == "grid":
                harness.expect_raises(lambda: gen.build_grid(gs, rf, unit=v), (ValueError, KeyError, AssertionError, TypeError), f"grid with unit={v!r}")
            else:
                harness.expect_raises(lambda: rf.fluids.SinglePhase(mu=1.0, B=1.0, unit=v), (ValueError, KeyError, AssertionError, TypeError), f"fluid with unit={v!r}")
        elif kind == "new":  # other objects do not interfere
            if who == "grid":
                gen.build_grid(gs, rf, unit=v)
            else:
                rf.fluids.SinglePhase(mu=1.0, B=1.0, rho=9.0, unit=v)
        elif kind == "rho" and who != "grid":
            objs[who].set_rho(v)
            st_[who]["rho"] = v
        elif kind == "props" and who != "grid":
            objs[who].set_props(**v)
            if "rho" in v:
                st_[who]["rho"] = v["rho"]
        elif kind == "k":
            a = g.flow[0]
            gr.set_props(**{"k" + ref.AX[a]: v})
            K[a] = np.full(g.N, v)
        check(tag)
    rec.label(f"{min(nu, 4)} unit changes")
    rec.nontrivial_if(nu >= 2)


def run_defaults(s, rec):
    """Unit system of a model: reported units/factors, default, and rejection."""
    rf = env.load()
    g = gen.build_grid(dict(s["grid"], unit=s["u"]), rf)
    f = rf.fluids.SinglePhase(mu=1.0, B=1.0, unit=s["u"], dtype="double")
    m = rf.models.BlackOil(g, f, pi=1000.0, unit=s["u"])
    tables(rf, m, s["u"], f"model with unit={s['u']}")
    m2 = rf.models.BlackOil(g, f, pi=1000.0)
    tables(rf, m2, "field", "model with the default unit")
    harness.expect_raises(lambda: rf.models.BlackOil(g, f, pi=1000.0, unit=s["bad"]), (ValueError, KeyError, AssertionError, TypeError), f"model with unit={s['bad']!r}")
    harness.expect_raises(lambda: m.set_units(s["bad"]), (ValueError, KeyError, AssertionError, TypeError), f"model.set_units({s['bad']!r})")
    tables(rf, m, s["u"], "model after a rejected set_units")
    for u in U:
        for k, name in KEYS.items():
            harness.close([rf.FACTORS[u][name]], [ref.FACTORS[u][k]], f"FACTORS[{u!r}][{name!r}]", rtol=1e-12)
        harness.same(set(rf.UNITS[u]), set(rf.UNITS["field"]), f"quantities in UNITS[{u!r}]")
        for k, v in UNITS[u].items():
            harness.same(rf.UNITS[u][k], v, f"UNITS[{u!r}][{k!r}]")
    rec.nontrivial_if(s["u"] != "field")


SUBS = [
    harness.Sub("equivalent", case(dmax=(6, 4, 3), cells=18), run, quick=500, thorough=15000),
    harness.Sub("hundreds", case(big=True), run, quick=160, thorough=2000, shards=8),
    harness.Sub("equivalent-symbolic", case(symbolic=True, dmax=(3, 2, 2), cells=6), run, quick=80, thorough=2000, shards=8),
    harness.Sub("histories", hist_case(), run_hist, quick=300, thorough=10000),
    harness.Sub("model", st.fixed_dictionaries({"grid": gen.grid(D=[1, 2], dmax=(3, 2, 2), cells=6, props=("kx", "ky", "phi"), units=False), "u": st.sampled_from(U), "bad": st.sampled_from(BAD)}), run_defaults, quick=40, thorough=400),
]
PINNED = {}
