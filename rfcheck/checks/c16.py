"""C16: exported data frames are a faithful view of the results."""
import copy
import datetime as dt
import os
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import env, gen, harness, ref

PROPERTY = "C16"
RULE = (
    "random simulated problems (wells before and between the steps, boundaries changed between the steps, solutions "
    "switched, any time step and start date, three unit systems) and random selections of columns in any documented "
    "spelling and letter case with any combination of boundary, units, melt, drop_nan, drop_zero and save, judged against "
    "a table built cell by cell from the recorded results; non-trivial: at least two steps and a selection with cells or wells"
)
ASSUMPTIONS = [
    "scaling is covered by C18; the values of the recorded results themselves by C07 to C13",
    "the analytical solution records pressures only, so only pressures and times are selected for it",
    "scipy/numpy/pandas are trusted",
]
NAMES = {
    "time": ["time"], "t": ["time"], "date": ["date"], "d": ["date"],
    "q": ["cq", "wq"], "rates": ["cq", "wq"], "p": ["cp", "wp"], "pressures": ["cp", "wp"],
    "cells": ["cq", "cp"], "wells": ["wq", "wp"], "cells_rate": ["cq"], "cells_pressure": ["cp"],
    "wells_rate": ["wq"], "wells_pressure": ["wp"],
}
ORDER = ["time", "date", "cq", "cp", "wq", "wp"]
LEN = {"field": "days", "metric": "days", "lab": "seconds"}


@st.composite
def selection(draw, names=tuple(NAMES)):
    cols, used = [], set()
    for c in draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True)):
        if not used & set(NAMES[c]):
            used |= set(NAMES[c])
            cols.append(draw(st.sampled_from([c, c, c.upper(), c.title()])))
    q = {"columns": cols}
    for k in ("boundary", "units", "melt", "drop_nan", "drop_zero"):
        v = draw(st.sampled_from([True, False, None]))
        if v is not None:
            q[k] = v
    if draw(st.integers(0, 9)) == 0:
        q["columns"] = None
    if draw(st.integers(0, 9)) == 0:
        q["save"] = True
    return q


@st.composite
def case(draw, big=False):
    s = draw(gen.flow(D=[1, 1, 2, 3], dmax=(5, 3, 3), cells=14, gravity="maybe", **({"big": big} if big else {})))
    s["sparse"] = draw(st.booleans())
    s["dt"] = draw(st.sampled_from([1, 2, 5, 10, 30, 0.5, 0.25, 7, 0.1, 0.3, 1.1, 2.7]))
    if s["grid"]["unit"] == "lab":
        s["dt"] = draw(st.sampled_from([1, 0.5, 30, 3600, 43200, 86400, 100000]))
    d = draw(st.dates(dt.date(1990, 1, 1), dt.date(2040, 12, 31)))
    s["start"] = None if draw(st.integers(0, 4)) == 0 else d.isoformat()
    fids = gen.boundary_face_ids(s["grid"]["n"])
    ins = gen.interior_ids(s["grid"]["n"])
    wellable = [c for c in ins if c not in {w["id"] for w in s["wells"]}] if (s["grid"]["n"][0] > 1) else []
    rg = ref.Grid(s["grid"])
    if rg.fdir not in ("x", "xy", "xyz"):
        wellable = []
    # a well needs permeability (sealing cells have none)
    wellable = [c for c in wellable if all(k not in s["grid"] or rg.field(k)[c] > 0 for k in ("kx", "ky"))]
    conds = [["pressure", 3000.0], ["pressure", 0.0]]
    if "comp" in s["fluid"] or "comp" in s["grid"]:
        conds += [["rate", 10.0], ["rate", 0.0]]
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["run", "run", "solve", "bound", "well", "other", "back"]))
        if kind == "run":
            ops.append([kind, draw(st.integers(1, 4))])
        elif kind == "bound":
            ops.append([kind, draw(st.sampled_from(fids)), draw(st.sampled_from(conds))])
        elif kind == "well":
            if wellable:
                c = wellable.pop(0)
                r = 3.5 * min(1.0, min(rg.d[0][c], rg.d[1][c]) / 20)
                ops.append([kind, c, {"q": -5.0, "pwf": 100.0, "r": float(r), "s": 0}])
        else:
            ops.append([kind])
    s["ops"] = ops
    s["queries"] = draw(st.lists(selection(), min_size=1, max_size=4))
    return s


@st.composite
def long(draw):
    """many steps with a time step that has no exact binary value"""
    s = draw(gen.flow(D=[1, 1, 2], dmax=(3, 2, 2), cells=4, gravity=False))
    s["sparse"] = draw(st.booleans())
    s["dt"] = draw(st.sampled_from([0.1, 0.3, 1.1, 2.7, 0.7, 0.01, 1 / 3, 5, 1]))
    s["start"] = draw(st.dates(dt.date(1990, 1, 1), dt.date(2040, 12, 31))).isoformat()
    top = draw(st.sampled_from([40, 40, 40, 300]))
    s["ops"] = [["run", draw(st.integers(1, top))], ["run", draw(st.integers(1, 30))]]
    s["queries"] = draw(st.lists(selection(), min_size=1, max_size=3))
    return s


def model(s, rf):
    sp = {k: copy.deepcopy(s[k]) for k in ("grid", "fluid", "pi", "dt", "bounds", "wells")} | {"np": s.get("np")}
    if s["start"]:
        sp["start_date"] = dt.date.fromisoformat(s["start"])
    return gen.build_model(sp, rf, compile=False)


def table(s, g, m, q):
    """the expected table as a list of (label, values), built from the recorded results"""
    sol = m.solution
    P, R = np.array(sol.pressures, float), np.array(sol.rates, float)
    n = sol.tstep + 1
    opt = lambda k, dflt: dflt if q.get(k) is None else q[k]
    boundary, units, melt = opt("boundary", True), opt("units", False), opt("melt", False)
    u = {k: f" [{v}]" if units else "" for k, v in m.units.items()}
    ids = list(range(g.N)) if boundary else list(g.inside)
    wells = list(m.wells)
    start = dt.datetime.fromisoformat(s["start"]) if s["start"] else dt.datetime.combine(m.start_date, dt.time())
    T = [k * s["dt"] for k in range(n)]
    D = [{(start + dt.timedelta(**{LEN[s["grid"].get("unit", "field")]: x})).strftime("%d.%m.%Y") for x in (t, t * (1 - 1e-12), t * (1 + 1e-12))} for t in T]
    cols = []
    if melt:
        cols.append(("id", ids * n))
        cols.append(("Step", [k for k in range(n) for _ in ids]))
        cen = g.centers()
        for a in g.flow:
            cols.append((ref.AX[a], [cen[c][a] for _ in range(n) for c in ids]))
    for c in q["columns"] if q["columns"] is not None else ["time", "cells", "wells"]:
        for part in ORDER:
            if part not in NAMES[c.lower()]:
                continue
            if part == "time":
                cols.append(("Time" + u["time"], [t for t in T for _ in (ids if melt else [0])]))
            elif part == "date":
                cols.append(("Date" + (" [d.m.y]" if units else ""), [d for d in D for _ in (ids if melt else [0])]))
            elif part in ("cq", "cp"):
                A, lab = (R, "Q") if part == "cq" else (P, "P")
                x = u["rate" if part == "cq" else "pressure"]
                if melt:
                    cols.append((lab + x, [A[k, c] for k in range(n) for c in ids]))
                else:
                    cols.extend((f"{lab}{c}{x}", [A[k, c] for k in range(n)]) for c in ids)
            elif not melt:
                if part == "wq":
                    cols.extend((f"Qw{w}{u['rate']}", [R[k, w] for k in range(n)]) for w in wells)
                else:
                    cols.extend((f"Pwf{w}{u['pressure']}", list(m.w_pressures[w])) for w in m.w_pressures)
    if not cols:  # only wells selected in a model without wells: nothing to show
        return cols, None
    isnan = lambda v: isinstance(v, float) and np.isnan(v)
    if melt:
        keep = [i for i in range(len(cols[0][1])) if not opt("drop_nan", True) or not any(isnan(v[i]) for _, v in cols)]
        return [(l, [v[i] for i in keep]) for l, v in cols], len(keep)
    if opt("drop_nan", True):
        cols = [(l, v) for l, v in cols if not all(isnan(x) for x in v)]
    if opt("drop_zero", True):
        cols = [(l, v) for l, v in cols if not all(not isinstance(x, set) and x == 0 for x in v)]
    return cols, n


def dates(got, want, what):
    """a time that is a whole number of days but for rounding may fall on either side of midnight"""
    harness.same(len(got), len(want), f"rows of {what}")
    for k, (x, days) in enumerate(zip(got, want)):
        if x not in days:
            raise harness.Violation(f"{what}: row {k} is {x!r}, expected {sorted(days)}")


def check(df, want, tag):
    cols, n = want
    harness.same([str(c) for c in df.columns], [l for l, _ in cols], tag + "columns")
    if n is None:
        return
    harness.same([int(i) for i in df.index], list(range(n)), tag + "index (one row per step)")
    for i, (l, v) in enumerate(cols):
        got = list(df.iloc[:, i])
        if l.startswith("Date"):
            dates(got, v, tag + l)
        else:
            harness.close(harness.as_float(got, l), np.array(v, float), tag + l, rtol=1e-12 if l[0] in "Txyz" else 0, atol=1e-12 if l[0] in "Txyz" else 0)


def run(s, rec):
    rf = env.load()
    g = ref.Grid(s["grid"])
    m = model(s, rf)
    m.compile("numerical", "FDM", sparse=s["sparse"])
    names = [n for n in m.get_solutions()]
    for op in s["ops"]:
        if op[0] == "run":
            m.run(nsteps=op[1], check_MB=False, isolver=None)
        elif op[0] == "solve":
            m.solve(check_MB=False, isolver=None)
        elif op[0] == "bound":
            m.set_boundary(op[1], tuple(op[2])[0], op[2][1])
            rec.label("boundary changed between steps")
        elif op[0] == "well":
            m.set_well(cell_id=op[1], **op[2])
            rec.label("well added between steps")
        elif op[0] == "other":
            if len(m.get_solutions()) < 2:
                m.compile("numerical", "FDM", sparse=not s["sparse"])
            else:
                m.set_solution([n for n in m.get_solutions() if n not in names][0])
            rec.label("solution switched")
        elif op[0] == "back":
            m.set_solution(names[0])
    n = m.solution.tstep + 1
    before = (np.array(m.solution.pressures), np.array(m.solution.rates), {k: list(v) for k, v in m.w_pressures.items()})
    wp = {k: len(v) for k, v in m.w_pressures.items()}
    if any(v != n for v in wp.values()) or before[0].shape != (n, g.N) or before[1].shape != (n, g.N):
        raise harness.Violation(f"recorded results of {n - 1} steps: pressures {before[0].shape}, rates {before[1].shape}, well pressures {wp}")
    for q in s["queries"]:
        kw = {k: v for k, v in q.items() if v is not None}
        tag = f"get_df({kw}): "
        if q.get("save"):
            with tempfile.TemporaryDirectory(dir=env.scratch()) as d:
                cwd = os.getcwd()
                os.chdir(d)
                try:
                    df = m.get_df(**kw)
                    harness.same(sorted(os.listdir(".")), ["model_data.csv"], tag + "files written")
                    saved = pd.read_csv("model_data.csv", index_col=0)
                finally:
                    os.chdir(cwd)
            harness.same(list(saved.columns), list(df.columns), tag + "saved columns")
            for c in df.columns if len(set(df.columns)) == len(df.columns) else []:
                if str(c).startswith("Date"):
                    harness.same(list(saved[c]), list(df[c]), tag + f"saved {c}")
                else:
                    harness.close(saved[c].values, df[c].values, tag + f"saved {c}", rtol=1e-12)
            rec.label("saved")
        else:
            df = m.get_df(**kw)
        check(df, table(s, g, m, q), tag)
        if kw.get("melt"):
            rec.label("melted")
        rec.nontrivial_if(n > 2 and bool({x for c in kw.get("columns", ["cells"]) for x in NAMES[c.lower()]} & {"cq", "cp", "wq", "wp"}))
    after = (np.array(m.solution.pressures), np.array(m.solution.rates), {k: list(v) for k, v in m.w_pressures.items()})
    harness.close(after[0], before[0], "pressures after exporting", rtol=0)
    harness.close(after[1], before[1], "rates after exporting", rtol=0)
    harness.same({k: str(v) for k, v in after[2].items()}, {k: str(v) for k, v in before[2].items()}, "well pressures after exporting")
    harness.close(harness.as_float(m.get_time().flatten(), "time"), np.arange(n) * s["dt"], "get_time", rtol=1e-12)


@st.composite
def analytical(draw):
    n = draw(st.integers(2, 6))
    ax = draw(st.integers(0, 2))
    nn = [1, 1, 1]
    nn[ax] = n
    s = {
        "grid": {"n": nn, "d": [draw(gen.nice), draw(gen.nice), draw(gen.nice)], "kx": 100.0, "ky": 50.0, "kz": 25.0, "phi": 0.2, "comp": 1e-5, "unit": draw(st.sampled_from(["field", "metric", "lab"]))},
        "fluid": {"mu": 0.5, "B": 1.0}, "pi": 4000.0, "dt": draw(st.sampled_from([1, 5, 0.5])),
        "bounds": [{"id": 0, "kind": "pressure", "v": 1000.0}, {"id": n + 1, "kind": "pressure", "v": 3000.0}], "wells": [],
        "start": draw(st.dates(dt.date(1990, 1, 1), dt.date(2040, 12, 31))).isoformat(),
        "steps": draw(st.integers(1, 5)),
    }
    if s["grid"]["unit"] == "lab":
        s["dt"] = draw(st.sampled_from([1, 40000, 86400]))
    s["queries"] = draw(st.lists(selection(("time", "t", "date", "d", "cells_pressure")), min_size=1, max_size=4))
    for q in s["queries"]:
        if q["columns"] is None:
            q["columns"] = ["time", "cells_pressure"]
        q.pop("save", None)
    return s


def run_analytical(s, rec):
    rf = env.load()
    m = model(s, rf)
    m.compile("analytical", "D1P1")
    m.run(nsteps=s["steps"])
    g = ref.Grid(s["grid"])
    harness.same(np.shape(m.solution.pressures), (s["steps"] + 1, g.N), "pressures of the analytical solution")
    for q in s["queries"]:
        kw = {k: v for k, v in q.items() if v is not None}
        check(m.get_df(**kw), table(s, g, m, q), f"get_df({kw}): ")
        rec.nontrivial_if("cells_pressure" in [c.lower() for c in q["columns"]])


@st.composite
def bad(draw):
    s = draw(gen.flow(D=[1, 2], dmax=(4, 3, 3), cells=9, comp=True))
    s["start"] = None
    cols = draw(st.lists(st.sampled_from(list(NAMES)), max_size=2, unique=True))
    cols.insert(draw(st.integers(0, len(cols))), draw(st.sampled_from(["", "x", "cell", "well", "pressure", "rate", "cells rate", "id", "Step", "qq", "cell_rates"])))
    s["columns"] = cols
    s["melt"] = draw(st.booleans())
    return s


def run_bad(s, rec):
    rf = env.load()
    m = model(s, rf)
    m.compile("numerical", "FDM")
    m.run(nsteps=1, check_MB=False, isolver=None)
    a = m.get_df(drop_nan=False, drop_zero=False)
    harness.expect_raises(lambda: m.get_df(columns=s["columns"], melt=s["melt"]), (ValueError, KeyError), f"columns {s['columns']}")
    b = m.get_df(drop_nan=False, drop_zero=False)
    harness.close(b.values, a.values, "table after a rejected selection", rtol=0)
    rec.nontrivial_if(len(s["columns"]) > 1)


SUBS = [
    harness.Sub("numerical", case(), run, quick=1200, thorough=30000),
    harness.Sub("long", long(), run, quick=160, thorough=4000),
    harness.Sub("hundreds", case(big=150), run, quick=120, thorough=1500, shards=8),
    harness.Sub("thousands", case(big=1300), run, quick=32, thorough=160, shards=8),
    harness.Sub("analytical", analytical(), run_analytical, quick=240, thorough=4000),
    harness.Sub("rejected", bad(), run_bad, quick=160, thorough=2000),
]
PINNED = {}
