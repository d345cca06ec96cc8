"""C25: the flow equations and matrices that are shown are those that are solved."""
import copy
import re

import numpy as np
import scipy.sparse as ss
from hypothesis import strategies as st

from .. import env, gen, harness, ref, simcheck

PROPERTY = "C25"
RULE = (
    "random problems (1 to 3 flow directions, heterogeneous, gravity, wells, conditions) and random histories of steps, changes "
    "of conditions, wells, fluid and rock properties, a second solution, with the equation of one cell, the equations of all "
    "cells and the matrices of both assemblies asked for in between, in any order and repeatedly; every answer is judged row by "
    "row against the reference equations of that moment, the recorded systems against those of their step, and the recorded "
    "results against a twin that was never asked; non-trivial: something was asked for after a step or a change"
)
ASSUMPTIONS = [
    "an equation may be given with either sign; relative tolerance 1e-9 of the terms of its row",
    "wells and gradient conditions keep the permeability they were set with, as implemented: no gradient conditions where rock or "
    "fluid properties change",
]
KIND = {"pressure": ["pressure", "P", "press"], "rate": ["rate", "q"]}


@st.composite
def case(draw, maxops=12, long=False, **kw):
    kw.setdefault("dmax", (5, 3, 3))
    kw.setdefault("cells", 10)
    s = draw(gen.flow(gravity="maybe", steps=(1, 1), kinds=("pressure", "rate"), nopi=False, **kw))
    rg = ref.Grid(s["grid"])
    fids = gen.boundary_face_ids(s["grid"]["n"])
    props = [p for p in ("kx", "ky", "kz", "phi", "z") if p in s["grid"]]
    ops = [{"op": "step", "vectorize": draw(st.booleans()), "threading": False, "n": draw(st.integers(20, 90))}] if long else []
    for _ in range(draw(st.integers(3, maxops))):
        kind = draw(st.sampled_from(["step", "step", "eq", "eq", "eqs", "vect", "symb", "symb", "bound", "well", "fluid", "rock", "switch", "switch", "bad"]))
        o = {"op": kind}
        if kind == "step":
            o.update(vectorize=draw(st.booleans()), threading=draw(st.booleans()), n=draw(st.integers(1, 9) if long else st.integers(1, 2)))
        elif kind == "eq":
            o["id"] = draw(st.sampled_from(rg.inside))
        elif kind in ("eqs", "vect", "symb"):
            o["threading"] = draw(st.booleans())
        elif kind == "bound":
            k = draw(st.sampled_from(["pressure", "rate"]))
            o.update(id=draw(st.sampled_from(fids)), kind=k, name=draw(st.sampled_from(KIND[k])), v=draw(st.sampled_from([0, 2500.0, 500, 33.5] if k == "pressure" else [0, 50.0, -7.5])))
        elif kind == "well":
            if not s["wells"]:
                continue
            w = draw(st.sampled_from(s["wells"]))
            o["w"] = {"id": w["id"], draw(st.sampled_from(["q", "pwf", "s"])): draw(st.sampled_from([-30.0, -5, 2.0, 0]))}
        elif kind == "fluid":
            o["k"] = draw(st.sampled_from(["mu", "B"]))
            o["v"] = draw(st.sampled_from([0.5, 1.5, 2.25]))
        elif kind == "rock":
            o["k"] = draw(st.sampled_from(props))
            o["id"] = draw(st.sampled_from(rg.inside))
            wells = {w["id"] for w in s["wells"]}
            o["v"] = draw(st.sampled_from([0.3, 12.5, 40.0] + [0.0] * (o["id"] not in wells))) if o["k"] != "phi" else draw(st.sampled_from([0.1, 0.35]))
        elif kind == "bad":
            o["id"] = draw(st.sampled_from(rg.bound + [rg.N, rg.N + 7, -1]))
        ops.append(o)
    s["ops"] = ops
    s["sparse"] = draw(st.booleans())
    s["second"] = draw(st.sampled_from([None, not s["sparse"]]))
    return s


class World:
    """One live model with its reference."""

    def __init__(self, s, rf):
        self.m = gen.build_model(s, rf, sparse=s["sparse"])
        self.S = ref.Sim(s)
        self.sols = [self.m.solution]
        self.names = [self.m.get_solutions()[-1]]
        if s["second"] is not None and s["second"] != s["sparse"]:
            self.m.compile("numerical", "fdm", sparse=s["second"])
            self.sols.append(self.m.solution)
            self.names.append(self.m.get_solutions()[-1])

    def change(self, o):
        m, S = self.m, self.S
        if o["op"] == "bound":
            m.set_boundary(o["id"], o["name"], o["v"])
            S.bnd[o["id"]] = (o["kind"], o["v"])
        elif o["op"] == "well":
            m.set_well(cell_id=o["w"]["id"], **{k: v for k, v in o["w"].items() if k != "id"})
            G = S.wells[o["w"]["id"]]
            S.set_well(o["w"])
        elif o["op"] == "fluid":
            getattr(m.fluid, "set_" + o["k"])(o["v"])
            setattr(S, o["k"], o["v"])
        elif o["op"] == "rock":
            m.grid.set_prop(o["k"], o["v"], id=o["id"])
            if o["k"] == "phi":
                S.phi[o["id"]] = o["v"]
            elif o["k"] == "z":
                S.z[o["id"]] = o["v"]
            else:
                S.k["xyz".index(o["k"][1])][o["id"]] = o["v"]
        S.RHS = S.g.V * S.phi * S.comp / (S.fac["alpha"] * S.B * S.dt) if S.comp else np.zeros(S.g.N)
        S.assemble()


def system(w, sol):
    """The reference system of the next step, and the magnitude of its right-hand sides."""
    S, m, g = w.S, w.m, w.S.g
    P = harness.as_float(sol.pressures, "pressures")
    R = harness.as_float(sol.rates, "rates")
    modes = simcheck.well_modes(S, m, R[-1])
    A, b = S.system(modes, P[-1])
    big = max([abs(v) for k, v in S.bnd.values() if k == "pressure"] + [abs(x["lim"]) for x in S.wells.values()] + [0.0])
    old = np.abs(P[-1][g.inside])
    old = float(np.nanmax(old)) if np.isfinite(old).any() else 0.0
    mag = np.abs(b) + np.abs(A).sum(axis=1) * (big + old + S.grav * float(np.abs(S.z).max()))
    mag += sum(abs(v) for k, v in S.bnd.values() if k == "rate") + sum(abs(x.get("q", 0)) for x in S.wells.values())
    return A, b, mag + 1e-300


def judge_row(what, row, rhs, A, b, mag):
    if not (np.isfinite(row).all() and np.isfinite(rhs)):
        raise harness.Violation(f"{what}: coefficients {row.tolist()}, right-hand side {rhs}")
    for sign in (1, -1):
        if (np.abs(sign * row - A) <= 1e-9 * np.abs(A).max()).all() and abs(sign * rhs - b) <= 1e-9 * mag:
            return
    raise harness.Violation(f"{what}: got {row.tolist()} = {rhs!r}, expected {A.tolist()} = {b!r} (or both with the other sign)")


def judge_eq(what, eq, c, w, sysm):
    g = w.S.g
    A, b, mag = sysm
    harness.require(isinstance(eq, tuple) and len(eq) == 2, f"{what}: {eq!r} is not (lhs, rhs)")
    lhs, rhs = eq
    row = np.zeros(g.Nin)
    for sym, v in dict(lhs).items():
        hit = re.fullmatch(r"p(\d+)", str(sym))
        if hit is None or int(hit[1]) not in g.idx:
            if float(v) == 0:
                continue
            raise harness.Violation(f"{what}: term {v}*{sym} is not the pressure of an internal cell")
        row[g.idx[int(hit[1])]] += float(v)
    i = g.idx[c]
    judge_row(what, row, float(rhs), A[i], b[i], mag[i])


def judge_matrices(what, got, w, sysm):
    A, b, mag = sysm
    M, d = [x.toarray() if ss.issparse(x) else np.asarray(x) for x in got]
    n = len(b)
    harness.same((M.shape, d.shape), ((n, n), (n, 1)), f"{what}: shapes of A and d")
    for i in range(n):
        judge_row(f"{what}, row {i}", M[i].astype(float), float(d[i, 0]), A[i], b[i], mag[i])


def run(s, rec):
    rf = env.load()
    s = copy.deepcopy(s)
    w, twin = World(s, rf), World(s, rf)
    for x in (w, twin):
        x.S.phi = x.S.g.field("phi").copy()
        x.S.z = np.array(x.S.z, float)
        x.S.k = [None if k is None else np.array(k, float) for k in x.S.k]
    if w.S.comp == 0 and not w.S.pb and not any("q" not in x for x in w.S.wells.values()):
        rec.label("skipped: no pressure anywhere")
        return
    cur = len(w.sols) - 1
    touched = asked = 0
    records = {id(x): [None] for x in w.sols}
    for no, o in enumerate(s["ops"]):
        sol, m = w.sols[cur], w.m
        what = f"operation {no} {o}: "
        if o["op"] == "step":
            for _ in range(o["n"]):
                cond = np.linalg.cond(system(w, sol)[0])
                if not cond < 1e9:
                    rec.label("skipped: ill-conditioned")
                    return
                for x in (w, twin):
                    x.m.solve(vectorize=o["vectorize"], threading=o["threading"], check_MB=False, isolver=None)
                for k in ("pressures", "rates"):
                    a, b = [harness.as_float(getattr(x.sols[cur], k), k) for x in (w, twin)]
                    sc = float(np.nanmax(np.abs(b))) + 1
                    if not np.isfinite(b[:, w.S.g.inside]).all():
                        rec.label("skipped: no unique solution")
                        return
                    harness.close(a, b, what + k + " compared with a model that was never asked", rtol=1e-9 * max(1, cond * 1e-6), scale=sc)
                judge_record(what, sol, w)
            touched += 1
        elif o["op"] == "switch":
            if len(w.sols) < 2:
                continue
            cur = 1 - cur
            for x in (w, twin):
                x.m.set_solution(x.names[cur])
            rec.label("switched")
        elif o["op"] == "bad":
            harness.expect_raises(lambda: sol.get_cell_eq(o["id"]), (AssertionError, ValueError, KeyError, IndexError), what + "equation of a cell that has none")
        elif o["op"] in ("bound", "well", "fluid", "rock"):
            w.change(o)
            twin.change(o)
            touched += 1
            rec.label("changed " + o["op"])
        else:
            sysm = system(w, sol)
            if not np.abs(sysm[0]).sum(axis=1).all():
                rec.label("skipped: a cell without any flow")
                return
            what += f"step {sol.tstep}, "
            keep = [harness.as_float(getattr(sol, k), k).copy() for k in ("pressures", "rates")]
            if o["op"] == "eq":
                judge_eq(what + f"equation of cell {o['id']}", sol.get_cell_eq(o["id"]), o["id"], w, sysm)
            elif o["op"] == "eqs":
                got = sol.get_cells_eq(threading=o["threading"])
                harness.same(sorted(int(c) for c in got), sorted(w.S.g.inside), what + "cells with an equation")
                for c in w.S.g.inside:
                    judge_eq(what + f"equation of cell {c}", got[c], c, w, sysm)
            else:
                got = (sol.get_matrices_vect if o["op"] == "vect" else sol.get_matrices_symb)(threading=o["threading"])
                judge_matrices(what + "matrices " + o["op"], got, w, sysm)
            for k, a in zip(("pressures", "rates"), keep):
                harness.close(harness.as_float(getattr(sol, k), k), a, what + k + " after asking", rtol=0)
            asked += touched > 0
            rec.label("asked " + o["op"] + (" sparse" if sol.sparse else " dense"))
    rec.nontrivial_if(asked > 0)


def judge_record(what, sol, w):
    """The recorded system of the last step is solved by its recorded pressures and is the reference system."""
    S, g = w.S, w.S.g
    P = harness.as_float(sol.pressures, "pressures")
    n = g.Nin
    As, ds = harness.as_float(sol.As, "As"), harness.as_float(sol.ds, "ds")
    harness.same((len(As), len(ds)), (sol.tstep + 1,) * 2, what + "recorded systems")
    M, d = As[-1].reshape(n, n), ds[-1].reshape(n)
    R = harness.as_float(sol.rates, "rates")
    modes = simcheck.well_modes(S, w.m, R[-1])
    A, b = S.system(modes, P[-2])
    x = P[-1][g.inside]
    mag = np.abs(A) @ np.abs(x) + np.abs(b) + np.abs(A).sum(axis=1) * (np.abs(x).max() + S.grav * float(np.abs(S.z).max())) + 1e-300
    for i in range(n):
        judge_row(what + f"recorded system of step {sol.tstep}, row {i}", M[i], float(d[i]), A[i], b[i], mag[i])


SUBS = [
    harness.Sub("histories", case(), run, quick=500, thorough=12000),
    harness.Sub("hundreds", case(big=120, maxops=8), run, quick=48, thorough=300, shards=8),
    harness.Sub("long", case(long=True, maxops=7, dmax=(4, 2, 2), cells=4, D=[1, 1, 2], comp=True), run, quick=96, thorough=600, shards=8),
    harness.Sub("3d", case(D=[3], dmax=(3, 3, 2), cells=12, maxops=5), run, quick=80, thorough=2000, shards=8),
]


def _stale():
    """The equation of a cell after a condition changed."""
    s = {"grid": {"n": [3, 1, 1], "d": [10.0, 10.0, 10.0], "kx": 50.0, "phi": 0.2}, "fluid": {"mu": 1.0, "B": 1.0, "comp": 1e-5}, "pi": 1000.0, "dt": 1, "steps": 1,
         "bounds": [{"id": 0, "kind": "pressure", "v": 800.0}], "wells": [], "sparse": False, "second": None,
         "ops": [{"op": "eq", "id": 1}, {"op": "bound", "id": 0, "kind": "rate", "name": "rate", "v": 5.0}, {"op": "eq", "id": 1}, {"op": "fluid", "k": "mu", "v": 2.0}, {"op": "eqs", "threading": True}]}
    run(s, harness.Rec())


PINNED = {"stale-equation": _stale}
