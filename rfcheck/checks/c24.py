"""C24: narration and reports describe the objects and change nothing."""
import contextlib
import copy
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, gridq, harness, ref, simcheck
from . import c19

PROPERTY = "C24"
RULE = (
    "grids, fluids, models and solutions created with verbose on or off in any combination (and switched in between), driven "
    "through random queries, property changes, solves (every assembly, printed arrays), runs, exports and analytical "
    "solutions; the verbose side is judged by the reference models and against a silent twin; reports with every option; "
    "non-trivial: something verbose is solved for at least one step, or a grid with flow, or a report of a property"
)
ASSUMPTIONS = [
    "silent objects print nothing except the announcements of compile and run, asked-for arrays and material balance warnings",
    "the wording of the narration is not judged",
]


@contextlib.contextmanager
def captured():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def plain_state(o):
    """everything a report could alter, as comparable text"""
    out = {}
    for k, v in vars(o).items():
        if callable(v):
            continue
        if isinstance(v, (np.ndarray, list, tuple, dict, int, float, str, bool, type(None), set, np.generic)):
            out[k] = copy.deepcopy(gridq.plain(v)) if not isinstance(v, dict) else repr(v)
    return repr(out)


# ------------------------------------------------------------------------ grid


@st.composite
def grid_case(draw):
    g = draw(gen.grid(dmax=(5, 4, 3), cells=36, props=("kx", "ky", "kz", "phi", "z")))
    N = ref.Grid(g).N
    ops = []
    for _ in range(draw(st.integers(3, 25))):
        kind = draw(st.sampled_from(["ask"] * 8 + ["switch", "set", "set", "unit"]))
        if kind == "ask":
            ops.append([kind, draw(st.integers(0, 10**4))])
        elif kind == "set":
            c = draw(st.one_of(st.none(), st.integers(0, N - 1)))
            ops.append([kind, draw(st.sampled_from(["kx", "ky", "kz", "phi"])), draw(st.sampled_from([0.25, 0.125, 0.5])), c])
        elif kind == "unit":
            ops.append([kind, draw(st.sampled_from(["field", "metric", "lab"]))])
        else:
            ops.append([kind])
    return {"grid": g, "ops": ops, "cells": draw(st.lists(st.integers(0, N - 1), min_size=1, max_size=4, unique=True)), "on": draw(st.integers(0, 4)) > 0}


def run_grid(s, rec):
    rf = env.load()
    spec = s["grid"]
    r = ref.Grid(spec)
    rec.label(f"D{r.D} {r.fdir}")
    rec.nontrivial_if(r.D >= 1)
    with captured() as a:
        quiet = gen.build_grid(spec, rf)
    harness.same(a.getvalue(), "", "printed while a silent grid was created")
    with captured() as b:
        g = gen.build_grid(spec, rf, verbose=s["on"])
    if s["on"]:
        harness.require(b.getvalue() != "", "nothing printed while a verbose grid was created")
    p = {n: ref.expand(spec[n], r.N) for n in ("kx", "ky", "kz", "phi", "z")}
    unit = spec.get("unit", "field")
    fixed = gridq.numbering(r) + gridq.numbering_cells(r, s["cells"]) + gridq.geometry(r) + gridq.geometry_cells(r, s["cells"])
    if r.D:
        fixed += gridq.topology_cells(r, s["cells"])
    on = s["on"]

    def all_props():
        r.spec = {"unit": unit}
        for nm, v in p.items():
            for bd in (True, False):
                for fs in (True, False):
                    ids = np.arange(r.N) if bd else np.array(r.inside)
                    harness.close(g.get_prop(nm, bd, fs), v[ids].reshape(r.fshape(bd)) if fs else v[ids], f"{nm} boundary={bd} fshape={fs}", rtol=0)
        if r.D:
            gridq.check(gridq.trans_cells(r, s["cells"], [p["kx"], p["ky"], p["kz"]]), g)
            for bd in (True, False):
                harness.close(g.get_cells_G(bd, False), gridq.G_matrix(r, [p["kx"], p["ky"], p["kz"]], bd), f"G matrix boundary={bd}", rtol=1e-10)

    for i, o in enumerate(s["ops"]):
        what = f"op {i} {o} verbose={on}: "
        try:
            if o[0] == "ask":
                item = fixed[o[1] % len(fixed)]
                with captured() as a:
                    item[2](item[1](quiet))
                harness.same(a.getvalue(), "", f"printed by a silent grid asked for {item[0]}")
                with captured() as b:
                    item[2](item[1](g))
                if not on:
                    harness.same(b.getvalue(), "", f"printed by a silenced grid asked for {item[0]}")
            elif o[0] == "switch":
                on = not on
                g.verbose = on
            elif o[0] == "unit":
                with captured():
                    g.set_units(o[1])
                    quiet.set_units(o[1])
                unit = o[1]
            else:
                _, nm, v, c = o
                if c is None:
                    p[nm] = np.full(r.N, v)
                else:
                    p[nm][c] = v
                with captured() as a:
                    quiet.set_prop(nm, v, **({} if c is None else {"id": c}))
                harness.same(a.getvalue(), "", f"printed by a silent grid when {nm} was set")
                with captured() as b:
                    g.set_prop(nm, v, **({} if c is None else {"id": c}))
                harness.same(b.getvalue() != "", on, f"verbose={on}: whether the change of {nm} was announced")
                if on and c is not None:
                    harness.require(nm in b.getvalue() and str(v) in b.getvalue(), lambda: f"change of {nm} of cell {c} to {v} announced as {b.getvalue()!r}")
                with captured():
                    all_props()
        except harness.Violation as e:
            raise harness.Violation(what + str(e)) from None
        harness.same(g.verbose, on, what + "verbose")
    with captured():
        all_props()
        gridq.check(fixed, g)


# ------------------------------------------------------------------ simulation


@st.composite
def sim_case(draw, symbolic=False, **kw):
    s = draw(gen.flow(nopi=False, gravity="maybe", steps=(1, 4), **kw))
    s["verbose"] = [draw(st.integers(0, 2)) > 0 for _ in range(3)]
    s["sparse"] = draw(st.booleans())
    s["late"] = draw(st.booleans())
    s["how"] = draw(st.sampled_from(["solve", "run"]))
    s["opts"] = []
    for _ in range(s["steps"]):
        o = {"vectorize": not symbolic or draw(st.booleans()), "check_MB": draw(st.booleans()), "threading": draw(st.integers(0, 3)) == 0}
        if symbolic and draw(st.integers(0, 2)) == 0:
            o["print_arrays"] = True
        s["opts"].append(o)
    s["switch"] = [draw(st.integers(0, 4)) == 0 for _ in range(s["steps"])]
    s["fail"] = [draw(st.integers(0, 5)) == 0 for _ in range(s["steps"])]
    return s


def drive(s, rf, verbose, out):
    """build and advance one model; yields after every step"""
    with captured() as o:
        m = gen.build_model(s, rf, compile=False, verbose=verbose)
        late = [w for w in s["wells"]] if s["late"] else []
        for w in late:  # the same well once more, announced again
            m.set_well(cell_id=w["id"], **{k: w[k] for k in ("q", "pwf", "r", "s") if k in w})
    out.append(("creation", o.getvalue()))
    with captured():
        m.compile(stype="numerical", method="FDM", sparse=s["sparse"])
    yield m
    flag = verbose[2]
    for i in range(s["steps"]):
        if s["switch"][i] and any(verbose):
            flag = not flag
            m.verbose = flag
        if s["fail"][i] and s["sparse"]:
            with captured():
                harness.expect_raises(lambda: getattr(m, s["how"])(isolver="unknown"), Exception, f"step {i + 1}: {s['how']} with an unknown solver")
            harness.same(m.verbose, flag, f"step {i + 1}: verbose of the model after a {s['how']} that failed")
        kw = dict(s["opts"][i], isolver=None)
        with captured() as o, warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            if s["how"] == "run":
                m.run(nsteps=1, **kw)
            else:
                m.solve(**kw)
        harness.same(m.verbose, flag, f"step {i + 1}: verbose of the model after {s['how']}")
        out.append((f"step {i + 1} verbose={flag}", o.getvalue()))
        yield m


def run_sim(s, rec):
    rf = env.load()
    S = ref.Sim(s)
    v = s["verbose"]
    rec.label(f"D{S.g.D} {S.g.fdir}", "verbose " + "+".join(n for n, f in zip(("grid", "fluid", "model"), v) if f), s["how"])
    rec.nontrivial_if(any(v))
    qo, vo = [], []
    qd, vd = drive(s, rf, [False] * 3, qo), drive(s, rf, v, vo)
    mq, m = next(qd), next(vd)
    harness.same(qo[0][1], "", "printed while silent objects were created")
    if v[0] or v[2]:
        harness.require(vo[0][1] != "", "nothing printed while verbose objects were created")
    simcheck.initial(S, m.solution)
    try:
        for i in range(s["steps"]):
            next(qd), next(vd)
            simcheck.step(S, m.solution, i, rec, what=f"verbose={v} ")
            for nm in ("pressures", "rates"):
                harness.close(harness.as_float(getattr(m.solution, nm), nm)[i + 1], harness.as_float(getattr(mq.solution, nm), nm)[i + 1], f"step {i + 1}: {nm} of the verbose model {v} and of its silent twin", rtol=0)
            o = s["opts"][i]
            text = qo[-1][1]
            if s["how"] == "solve":
                if not o.get("print_arrays"):
                    rest = [t for t in text.split("\n") if t and "aterial balance" not in t]
                    harness.same(rest, [], f"step {i + 1}: printed by a silent model")
                else:
                    harness.require(text.strip() != "", f"step {i + 1}: arrays were asked for but not printed")
                if "verbose=True" in vo[-1][0]:
                    harness.require(len(vo[-1][1]) > len(text), f"step {i + 1}: a verbose model printed no more than a silent one")
            if o["check_MB"]:
                harness.same(repr(m.solution.error), repr(mq.solution.error), f"step {i + 1}: material balance error of the verbose model and of its silent twin")
    except simcheck.Skip as e:
        rec.label("skipped: " + str(e))
        return
    with captured() as a:
        dq = mq.get_df(drop_nan=False, drop_zero=False)
        Tq = mq.get_cells_trans(True, False)
    harness.same(a.getvalue(), "", "printed by a silent model asked for tables")
    with captured():
        dv = m.get_df(drop_nan=False, drop_zero=False)
        Tv = m.get_cells_trans(True, False)
    harness.same(list(dv.columns), list(dq.columns), "columns of the exported table")
    harness.require(dv.equals(dq), "tables exported by a verbose model and its silent twin differ")
    harness.close(Tv, Tq, "transmissibility", rtol=0)
    harness.same({k: {a: repr(b) for a, b in w.items()} for k, w in m.wells.items()}, {k: {a: repr(b) for a, b in w.items()} for k, w in mq.wells.items()}, "wells of the verbose model and of its silent twin")


# ------------------------------------------------------------------ analytical


@st.composite
def analytical_case(draw):
    s = draw(c19.problem())
    s["verbose"] = [draw(st.booleans()) for _ in range(3)]
    s["runs"] = draw(st.lists(st.tuples(st.integers(1, 5), st.booleans()).map(list), min_size=1, max_size=3))
    return s


def run_analytical(s, rec):
    rf = env.load()
    v = s["verbose"]
    rec.nontrivial_if(any(v) or any(b for _, b in s["runs"]))
    spec = {k: copy.deepcopy(s[k]) for k in ("grid", "fluid", "pi", "dt", "bounds", "wells")} | {"np": s.get("np")}
    with captured():
        m = gen.build_model(spec, rf, compile=False, verbose=v)
        m.compile("analytical", s["compile"])
    flag = v[2]
    for i, (n, switch) in enumerate(s["runs"]):
        if switch:
            flag = not flag
            m.verbose = flag
        with captured():
            m.run(nsteps=n)
        harness.same(m.verbose, flag, f"run {i + 1}: verbose of the model after an analytical run")
        harness.same((m.grid.verbose, m.fluid.verbose), (v[0], v[1]), f"run {i + 1}: verbose of grid and fluid after an analytical run")
        c19.judge(m.solution.pressures, s, n, f"verbose={v}, run {i + 1}: ")
    rec.label(f"verbose={flag}")


# --------------------------------------------------------------------- reports

OBJ = ["grid", "fluid", "model", "scaler", "base"]


@st.composite
def report_case(draw):
    s = draw(gen.flow(nopi=False, gravity="maybe", steps=(0, 2), dmax=(5, 3, 3), cells=18))
    s["obj"] = draw(st.sampled_from(["grid", "fluid", "model"]))
    s["asks"] = [
        {"prop": draw(st.one_of(st.none(), st.integers(0, 200), st.sampled_from(["nothing", "", "__props"]))), "showindex": draw(st.booleans()), "ifmt": draw(st.integers(0, 5))}
        for _ in range(draw(st.integers(1, 4)))
    ]
    s["unit"] = draw(st.one_of(st.none(), st.sampled_from(["field", "metric", "lab"])))
    return s


def run_report(s, rec):
    rf = env.load()
    with captured():
        m = gen.build_model(s, rf)
        for _ in range(s["steps"]):
            m.solve(isolver=None, check_MB=False)
    o = {"grid": m.grid, "fluid": m.fluid, "model": m}[s["obj"]]
    if s["unit"]:
        o.set_units(s["unit"])
        harness.same((o.unit, o.units, o.factors), (s["unit"], rf.UNITS[s["unit"]], rf.FACTORS[s["unit"]]), f"unit, units and factors of the {s['obj']} after set_units")
    rec.label(s["obj"])
    for a in s["asks"]:
        before = plain_state(o)
        names = [k for k in vars(o)]
        prop = a["prop"]
        if isinstance(prop, int):
            prop = names[prop % len(names)]
        what = f"report({prop!r}, showindex={a['showindex']}, ifmt={a['ifmt']}) of the {s['obj']}"
        with captured() as t:
            o.report(prop, a["showindex"], a["ifmt"])
        t = t.getvalue()
        if prop is None:
            skip = {"units", "factors", "pv_grid", "corners", "centers"}
            for k in names:
                v = getattr(o, k)
                if k in skip:
                    continue
                line = [x for x in t.split("\n") if k in x.replace("|", " ").split()]
                harness.require(line, f"{what}: {k} is missing")
                if isinstance(v, (int, float, str, np.number)) and not isinstance(v, bool):
                    harness.require(any(same_value(v, c) for x in line for c in x.replace("|", " ").replace("│", " ").split()), lambda: f"{what}: {k} = {v!r} reported as {line}")
            rec.nontrivial_if(True)
        elif prop in names:
            v = vars(o)[prop]
            if hasattr(v, "report"):  # nested objects report themselves
                harness.require(f" - {prop}: " in t and len(t) > len(prop) + 9, f"{what}: printed {t[:200]!r}")
            else:
                harness.same(t, f" - {prop}: {v}\n", what)
            rec.nontrivial_if(True)
        else:
            harness.require("nknown" in t, f"{what}: printed {t!r}")
        harness.same(plain_state(o), before, what + ": state afterwards")
    for k, v in list(vars(o).items()):
        if hasattr(v, "report"):
            continue
        with captured() as t:
            o.report(k)
        harness.same(t.getvalue(), f" - {k}: {v}\n", f"report({k!r}) of the {s['obj']}")
    with captured() as t:
        harness.same(str(o), "", f"str() of the {s['obj']} (a printed report)")
    harness.require(t.getvalue().strip() != "", f"str() of the {s['obj']} printed no report")
    r = repr(o)
    for k in vars(o):
        harness.require(repr(k) in r, f"repr() of the {s['obj']}: {k} is missing")


def same_value(v, cell):
    if isinstance(v, str):
        return cell in v.split()
    try:
        x = float(cell)
    except ValueError:
        return False
    return x == float(v) or abs(x - float(v)) <= 1e-5 * abs(float(v)) or (np.isnan(x) and np.isnan(v))


SUBS = [
    harness.Sub("grid", grid_case(), run_grid, quick=400, thorough=10000),
    harness.Sub("simulation", sim_case(), run_sim, quick=350, thorough=9000),
    harness.Sub("symbolic", sim_case(symbolic=True, dmax=(4, 3, 2), cells=8), run_sim, quick=100, thorough=2500, shards=8),
    harness.Sub("hundreds", sim_case(big=150), run_sim, quick=64, thorough=800, shards=8),
    harness.Sub("analytical", analytical_case(), run_analytical, quick=200, thorough=4000),
    harness.Sub("report", report_case(), run_report, quick=200, thorough=4000),
]
PINNED = {}
