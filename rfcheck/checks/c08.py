"""C08: mass is conserved in every time step."""
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, harness, ref, simcheck
from . import c11
from .c07 import labels

PROPERTY = "C08"
RULE = (
    "random problems as in C07 (plus iterative solvers, changing options and wells near their limits), solved step by step; "
    "in every step the rates of wells and boundaries must add up to what the internal cells accumulate "
    "(V*phi*c/(alpha*B*dt) times the pressure change, from the reference geometry), per step and cumulatively, and check_MB "
    "must report that balance and warn exactly above a random threshold; non-trivial: something flows (the throughput is "
    "not zero) and at least two cells"
)
ASSUMPTIONS = [
    "the balance is closed within rounding: 1e-11 of the sum of the absolute terms of all cell equations (direct solvers), "
    "1.1e-5*sqrt(n)*|d| for iterative solvers (their documented relative tolerance)",
    "the reported relative error of compressible systems is judged only where total rate is not itself a rounding residue",
]
ISOLVERS = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "qmr", "gcrotmk", "tfqmr"]


@st.composite
def case(draw, vect=True, steps=(1, 5), **kw):
    s = draw(gen.flow(gravity="maybe", steps=steps, **kw))
    s["sparse"] = draw(st.booleans())
    s["vectorize"] = vect
    s["isolver"] = draw(st.sampled_from([None, None, None] + ISOLVERS)) if s["sparse"] else None
    s["threshold"] = draw(st.sampled_from([0.1, 0.0, 1e-12, 1e-6, 0.5, 10.0]))
    s["auto"] = draw(st.booleans())
    return s


def run(s, rec):
    rf = env.load()
    S = ref.Sim(s)
    g = S.g
    labels(s, S, rec)
    rec.label("isolver " + str(s["isolver"]))
    m = gen.build_model(s, rf, sparse=s["sparse"])
    sol = m.solution
    p0 = None
    total_in, total_acc, total_tol = 0.0, 0.0, 0.0
    RHS = S.RHS[g.inside]
    for i in range(s["steps"]):
        try:
            m.solve(vectorize=s["vectorize"], check_MB=s["auto"], isolver=s["isolver"])
        except AssertionError as e:
            if s["isolver"] and "convergence" in str(e):
                rec.label("iterative solver reported failure")
                return
            raise
        P = harness.as_float(sol.pressures, "pressures")
        R = harness.as_float(sol.rates, "rates")
        harness.same((P.shape, R.shape), ((i + 2, g.N), (i + 2, g.N)), "shape of pressures and rates")
        p0 = P[0][g.inside]
        p1, p2 = P[i][g.inside], P[i + 1][g.inside]
        modes = simcheck.well_modes(S, m, R[i + 1])
        A, b = S.system(modes, P[i])
        if i == 0 and np.linalg.cond(A) > 1e9:
            rec.label("skipped: ill-conditioned")
            return
        mag = float((np.abs(A) @ np.abs(p2) + np.abs(b)).sum())
        if s["isolver"]:
            tol = 1.1e-5 * np.sqrt(len(b)) * float(np.linalg.norm(b)) + 1e-11 * mag
        else:
            tol = 1e-11 * mag
        flow = float(R[i + 1].sum())
        thru = float(np.abs(R[i + 1]).sum())
        if not np.isfinite(thru):
            raise harness.Violation(f"step {i + 1}: rates are not finite")
        acc = float((RHS * (p2 - p1)).sum()) if S.comp else 0.0
        tol += 1e-11 * (thru + (float((RHS * (abs(p2) + abs(p1))).sum()) if S.comp else 0.0))
        rec.nontrivial_if(thru > 1e-6 and g.Nin > 1)
        if abs(flow - acc) > tol:
            raise harness.Violation(f"step {i + 1}: rates add up to {flow!r}, cells accumulate {acc!r} (difference {flow - acc:.3e}, allowed {tol:.3e})")
        if np.isnan(R[i + 1]).any():
            raise harness.Violation(f"step {i + 1}: rates contain NaN")
        # nothing flows where there is neither a well nor a condition
        for c in range(g.N):
            if c not in S.wells and c not in S.bnd and R[i + 1, c] != 0:
                raise harness.Violation(f"step {i + 1}: rate {R[i + 1, c]!r} in cell {c} without well or boundary condition")
        total_in += flow
        total_acc += acc
        total_tol += tol
        if S.comp:
            cum = float((RHS * (p2 - p0)).sum())
            if abs(total_in - cum) > total_tol + 1e-11 * float((RHS * abs(p2)).sum()):
                raise harness.Violation(f"step {i + 1}: cumulative inflow {total_in!r}, cells accumulated {cum!r} since the start")
        thr = s["threshold"]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            sol.check_MB(error_threshold=thr)
        warned = any("balance" in str(x.message) for x in w)
        err = float(sol.error)
        if not S.comp:
            if abs(err - flow) > 1e-9 * thru + 1e-12:
                raise harness.Violation(f"step {i + 1}: reported material balance error {err!r}, rates add up to {flow!r}")
        elif abs(flow) > 1e3 * tol:
            want = abs(acc / flow - 1)
            if not abs(err - want) <= 1e-9 + 4 * tol / abs(flow):
                raise harness.Violation(f"step {i + 1}: reported material balance error {err!r}, expected {want!r}")
            rec.label("relative error judged")
        if not np.isnan(err) and warned != (abs(err) > thr):
            raise harness.Violation(f"step {i + 1}: error {err!r}, threshold {thr}: {'warned' if warned else 'did not warn'}")
        rec.label("warned" if warned else "not warned")
    harness.same((len(sol.pressures), len(sol.rates)), (s["steps"] + 1,) * 2, "number of records (checking the balance must not add any)")


SUBS = [
    harness.Sub("balance", case(), run, quick=700, thorough=20000),
    harness.Sub("3d", case(D=[3], dmax=(4, 4, 4), cells=36), run, quick=160, thorough=5000),
    harness.Sub("wells", case(D=[1, 2], dmax=(6, 3, 3), cells=12, well_kinds=("both",), steps=(2, 8)), run, quick=300, thorough=9000),
    harness.Sub("hundreds", case(big=True, steps=(1, 2)), run, quick=160, thorough=1500, shards=8),
    harness.Sub("thousands", case(big=1300, steps=(1, 1)), run, quick=32, thorough=160, shards=8),
    harness.Sub("many-steps", case(steps=(12, 120), dmax=(5, 3, 2), cells=9), run, quick=64, thorough=1500, shards=8),
    harness.Sub("limits", c11.depletion({"threshold": st.sampled_from([0.0, 1e-6, 0.5]), "auto": st.booleans()}), run, quick=96, thorough=2000, shards=8),
    harness.Sub("symbolic", case(vect=False, steps=(1, 3), dmax=(4, 3, 2), cells=8), run, quick=96, thorough=2400, shards=8),
]
PINNED = {}


def _cumulative():
    rf = env.load()
    s = {"grid": {"n": [4, 1, 1], "d": [300.0, 350.0, 40.0], "kx": 270.0, "phi": 0.27, "comp": 1e-6},
         "fluid": {"mu": 0.5, "B": 1.0, "comp": 1e-5}, "pi": 4000.0, "dt": 1,
         "bounds": [{"id": 0, "kind": "pressure", "v": 4000.0}], "wells": [{"id": 4, "q": -600.0, "s": 1.5, "r": 3.5}]}
    m = gen.build_model(s, rf)
    for _ in range(2):
        m.solve(check_MB=True)
    if abs(float(m.solution.cumulative_error) - 1) > 1e-6:
        raise harness.Violation(f"cumulative_error is {m.solution.cumulative_error} for a run that conserves mass")


KNOWN = {"cumulative-error": _cumulative}
