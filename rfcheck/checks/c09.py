"""C09: results do not depend on how the system is solved."""
import numpy as np
from hypothesis import strategies as st

from .. import env, gen, harness, ref, simcheck
from .c07 import labels, nontrivial

PROPERTY = "C09"
RULE = (
    "random problems as in C07, each solved under a base configuration (dense, vectorised, step by step) and under several "
    "others: dense/sparse, vectorised/symbolic, threaded or not, run or solve, printed arrays, options that change from "
    "step to step; pressures, rates, well states and record counts must agree. Iterative solvers (also on long chains of strongly contrasting cells, where they may stop at their iteration limit) are judged by the residual "
    "of the reference equations or must report failure; non-trivial as in C07 or when options alternate"
)
ASSUMPTIONS = [
    "agreement within 1e-9 relative to the pressure range, scaled by the condition number (above 1e6)",
    "cases with a marginal well switch or a condition number above 1e9 are counted and skipped",
    "iterative solvers: |A p - d| <= 1.1e-5 |d| (scipy's default relative tolerance, as documented, no absolute tolerance); "
    "minres, which the documentation does not recommend because of its high balance error, only has to finish",
]
ISOLVERS = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"]


@st.composite
def options(draw, symbolic):
    o = {"vectorize": draw(st.booleans()) if symbolic else True, "threading": draw(st.booleans())}
    o["check_MB"] = draw(st.booleans())
    return o


@st.composite
def case(draw, symbolic=False, steps=(1, 4), nconf=3, **kw):
    s = draw(gen.flow(gravity="maybe", steps=steps, **kw))
    confs = []
    for _ in range(draw(st.integers(1, nconf))):
        c = {"sparse": draw(st.booleans())}
        if draw(st.booleans()):
            c["run"] = draw(options(symbolic))
        else:
            c["steps"] = [draw(options(symbolic)) for _ in range(s["steps"])]
        if symbolic and draw(st.integers(0, 5)) == 0:
            c["print"] = True
        confs.append(c)
    s["confs"] = confs
    return s


def solve(s, rf, conf):
    m = gen.build_model(s, rf, sparse=conf["sparse"])
    states = []

    def note():
        states.append({c: (w.get("constrain"), float(w["q"]), float(w["pwf"])) for c, w in m.wells.items()})

    kw = {"isolver": None}
    if conf.get("print"):
        kw["print_arrays"] = True
    if "run" in conf:
        m.run(nsteps=s["steps"], **conf["run"], **kw)
        note()
    else:
        for o in conf["steps"]:
            m.solve(**o, **kw)
            note()
    return m, harness.as_float(m.solution.pressures, "pressures"), harness.as_float(m.solution.rates, "rates"), states


def reference(s, rec):
    S = ref.Sim(s)
    for _ in range(s["steps"]):
        S.step()
        if S.marginal:
            rec.label("skipped: marginal switch")
            return None
        if S.cond > 1e9:
            rec.label("skipped: ill-conditioned")
            return None
    return S


def run(s, rec):
    rf = env.load()
    S = reference(s, rec)
    if S is None:
        return
    labels(s, S, rec)
    if S.switched:
        rec.label("well switched")
    rec.nontrivial_if(nontrivial(s, S) or any(len({str(o) for o in c.get("steps", [])}) > 1 for c in s["confs"]))
    base = {"sparse": False, "steps": [{"vectorize": True, "threading": False, "check_MB": False}] * s["steps"]}
    m0, P0, R0, st0 = solve(s, rf, base)
    tol = 1e-9 * max(1, S.cond * 1e-6)
    sp = np.nanmax(np.abs(P0)) + 1
    T = max([t for *_, t, _v, _dz in S.pb] + [w["G"] / (S.mu * S.B) for w in S.wells.values()] + [0.0])
    sr = np.abs(R0).max() + T * sp
    for c in s["confs"]:
        rec.label(("sparse" if c["sparse"] else "dense") + (" run" if "run" in c else " steps"))
        m, P, R, stt = solve(s, rf, c)
        what = f"configuration {c} vs dense/vectorised: "
        harness.close(P, P0, what + "pressures", rtol=tol, scale=sp)
        harness.close(R, R0, what + "rates", rtol=tol, scale=sr + 1e-300)
        for a, b in zip(stt[-1:] if "run" in c else stt, st0[-1:] if "run" in c else st0):
            harness.same({k: v[0] for k, v in a.items()}, {k: v[0] for k, v in b.items()}, what + "well constraints")
            for k in a:
                harness.close([a[k][1]], [b[k][1]], what + f"rate of well {k}", rtol=tol, scale=sr)
                harness.close([a[k][2]], [b[k][2]], what + f"flowing pressure of well {k}", rtol=tol, scale=sp + sr / (S.wells[k]["G"] / S.mu / S.B))
        harness.same((m.solution.tstep, m.solution.nsteps), (s["steps"], s["steps"] + 1), what + "tstep/nsteps")
        harness.same(sorted(m.solution.w_pressures), sorted(m0.solution.w_pressures), what + "wells with recorded pressures")
        for k in m.solution.w_pressures:
            harness.close(m.solution.w_pressures[k], m0.solution.w_pressures[k], what + f"flowing pressure history of well {k}", rtol=tol, scale=sp + sr / (S.wells[k]["G"] / S.mu / S.B))


@st.composite
def iter_case(draw):
    s = draw(gen.flow(gravity="maybe", steps=(1, 3), dmax=(10, 5, 3), cells=30))
    s["isolvers"] = [draw(st.sampled_from(ISOLVERS)) for _ in range(s["steps"])]
    s["how"] = draw(st.sampled_from(["solve", "run"]))
    s["vectorize"] = True
    return s


def run_iter(s, rec):
    rf = env.load()
    S = ref.Sim(s)
    g = S.g
    if g.Nin > 1:
        rec.nontrivial_if(nontrivial(s, S))
    m = gen.build_model(s, rf, sparse=True)
    sol = m.solution
    for i in range(s["steps"]):
        iso = s["isolvers"][i]
        rec.label("isolver " + iso)
        before = sol.tstep, sol.pressures.copy(), sol.rates.copy()
        try:
            if s["how"] == "run":
                m.run(nsteps=1, isolver=iso, check_MB=False)
            else:
                m.solve(isolver=iso, check_MB=False)
        except AssertionError as e:
            if "convergence" not in str(e):
                raise
            rec.label("failure reported: " + iso)
            return
        except ValueError as e:
            raise harness.Violation(f"documented iterative solver {iso} rejected: {e}")
        harness.same(sol.tstep, before[0] + 1, "tstep after one step")
        P, R = harness.as_float(sol.pressures, "pressures"), harness.as_float(sol.rates, "rates")
        harness.close(P[: i + 1], before[1], "past pressures", rtol=0)
        harness.close(R[: i + 1], before[2], "past rates", rtol=0)
        p = P[i + 1][g.inside]
        modes = simcheck.well_modes(S, m, R[i + 1])
        A, b = S.system(modes, P[i])
        if np.linalg.cond(A) > 1e9:
            rec.label("skipped: ill-conditioned")
            return
        lim = 1.1e-5 * np.linalg.norm(b)
        if iso == "minres":
            # scipy's estimate of |A| includes |d|: stops as soon as |r| <= 1e-5 |d| |p|
            lim = np.inf if np.isfinite(p).all() else 0.0
        lim += 1e-10 * (np.linalg.norm(np.abs(A) @ np.abs(p)) + 1e-300)
        r = np.linalg.norm(A @ p - b)
        if not r <= lim:
            raise harness.Violation(f"step {i + 1} with {iso}: residual {r:.3e} exceeds {lim:.3e} (|d| = {np.linalg.norm(b):.3e}) and no failure was reported")
        # rates follow from the returned pressures whatever the solver
        for mm, c, T2, v, dz in S.pb:
            harness.close([R[i + 1][mm]], [T2 * (v - P[i + 1][c] - S.grav * dz)], f"step {i + 1} with {iso}: rate of boundary {mm}", rtol=1e-9, scale=T2 * (abs(v) + abs(P[i + 1][c]) + abs(S.grav * dz)) + 1e-300)


@st.composite
def hard_case(draw):
    """Long chains of strongly contrasting cells, on which solvers stop at their iteration limit."""
    n = draw(st.integers(8, 60))
    span = draw(st.sampled_from([(-1, 2), (-2, 3), (-5, 5)]))
    k = [10.0 ** e for e in draw(st.lists(st.integers(*span), min_size=n + 2, max_size=n + 2))]
    return {"n": n, "k": k, "isolver": draw(st.sampled_from([i for i in ISOLVERS if i not in ("tfqmr", "minres")])), "how": draw(st.sampled_from(["solve", "run"])),
            "left": float(draw(st.integers(500, 6000))), "right": float(draw(st.integers(500, 6000)))}


def run_hard(s, rec):
    rf = env.load()
    n = s["n"]
    spec = {"grid": {"n": [n, 1, 1], "d": [10.0, 10.0, 10.0], "kx": s["k"], "phi": 0.2, "unify": False}, "fluid": {"mu": 1.0, "B": 1.0}, "pi": 1000.0, "dt": 1,
            "bounds": [{"id": 0, "kind": "pressure", "v": s["left"]}, {"id": n + 1, "kind": "pressure", "v": s["right"]}], "wells": []}
    S = ref.Sim(spec)
    m = gen.build_model(spec, rf, sparse=True)
    sol = m.solution
    try:
        if s["how"] == "run":
            m.run(nsteps=1, isolver=s["isolver"], check_MB=False)
        else:
            m.solve(isolver=s["isolver"], check_MB=False)
    except AssertionError as e:
        if "convergence" not in str(e):
            raise
        rec.label("failure reported: " + s["isolver"])
        rec.nontrivial_if()
        harness.close(sol.pressures[0, 1:-1], np.full(n, 1000.0), "initial pressures after a reported failure", rtol=0)
        return
    rec.label("converged: " + s["isolver"])
    rec.nontrivial_if(max(s["k"]) > min(s["k"]))
    p = harness.as_float(sol.pressures, "pressures")[1, 1:-1]
    A, b = S.system({}, harness.as_float(sol.pressures, "pressures")[0])
    r, lim = np.linalg.norm(A @ p - b), 1e-3 * np.linalg.norm(b)
    if not r <= lim:
        raise harness.Violation(f"{s['isolver']}: residual {r:.3e} exceeds {lim:.3e} and no failure was reported")


names = st.one_of(st.sampled_from(["CG", "gmres ", "", "lsqr", "bicgstabb", "umfpack", "default", "cgss"]), st.text(min_size=1, max_size=6).filter(lambda t: t not in ISOLVERS))


@st.composite
def bad_case(draw):
    s = draw(gen.flow(gravity=False, steps=(1, 2), dmax=(4, 2, 2), cells=6))
    s["name"] = draw(names.filter(lambda v: v != ""))
    s["before"] = draw(st.integers(0, 2))
    return s


def run_bad(s, rec):
    """An unknown solver name is rejected and the run can go on as if nothing had happened."""
    rf = env.load()
    S = reference(s, rec)
    if S is None:
        return
    rec.nontrivial_if()
    m = gen.build_model(s, rf, sparse=True)
    m2 = gen.build_model(s, rf, sparse=True)
    for k in range(3):
        if k == s["before"]:
            harness.expect_raises(lambda: m.solve(isolver=s["name"], check_MB=False), (ValueError, KeyError, TypeError, AssertionError, NotImplementedError), f"isolver={s['name']!r}")
        m.solve(isolver=None, check_MB=False)
        m2.solve(isolver=None, check_MB=False)
    harness.close(m.solution.pressures, m2.solution.pressures, "pressures after a rejected solver name", rtol=1e-10, scale=1e4)
    harness.close(m.solution.rates, m2.solution.rates, "rates after a rejected solver name", rtol=1e-9, scale=float(np.abs(m2.solution.rates).max()) + 1e-6)


@st.composite
def precision_case(draw):
    s = draw(gen.flow(gravity="maybe", steps=(1, 3), dmax=(5, 3, 3), cells=18, hetero=False))
    s["dtype"] = draw(st.sampled_from(["single", "float32", "np.single", "float64", "np.double", "double"]))
    s["sparse"] = draw(st.booleans())
    s["vectorize"] = draw(st.integers(0, 4)) > 0
    return s


def run_precision(s, rec):
    rf = env.load()
    S = reference(s, rec)
    if S is None:
        return
    dt = s["dtype"]
    single = dt in ("single", "float32", "np.single")
    if single and S.cond > 1e3:
        rec.label("skipped: too badly conditioned for single precision")
        return
    rec.label(f"{dt} {'sparse' if s['sparse'] else 'dense'}")
    m = gen.build_model(s, rf, sparse=s["sparse"], dtype=getattr(np, dt[3:]) if dt.startswith("np.") else dt)
    for _ in range(s["steps"]):
        m.solve(vectorize=s["vectorize"], check_MB=False, isolver=None)
    eps = 1e-6 if single else 1e-12
    P, R = harness.as_float(m.solution.pressures, "pressures"), harness.as_float(m.solution.rates, "rates")
    want = np.dtype(np.single if single else np.double)
    for nm, a in (("pressures", m.solution.pressures), ("rates", m.solution.rates), ("ones", m.grid.get_ones(True, False, False)), ("zeros", m.grid.get_zeros(True, False, False))):
        harness.same(a.dtype, want, f"data type of {nm} for dtype={dt}")
    harness.same(P.shape, (s["steps"] + 1, S.g.N), "shape of the pressures")
    # (gravity acts on differences of depths: what they are differences of is rounded)
    deep = abs(S.grav) * float(np.abs(S.z).max())
    sp = max(float(np.nanmax(np.abs(np.array(S.P)))), 1.0) + deep
    T = max([t for *_, t, _v, _dz in S.pb] + [w["G"] / (S.mu * S.B) for w in S.wells.values()] + [0.0])
    sq = max(float(np.abs(q).max()) for q in S.Q[1:]) + T * (sp + abs(S.grav) * 1e3)
    tol = eps * max(10, 10 * S.cond)
    rec.nontrivial_if(tol < 1e-2)
    harness.close(P, np.array(S.P), f"pressures with dtype={dt}", rtol=tol, scale=sp)
    harness.close(R[1:], np.array(S.Q[1:]), f"rates with dtype={dt}", rtol=tol, scale=sq + 1e-300)


SUBS = [
    harness.Sub("precision", precision_case(), run_precision, quick=250, thorough=5000),
    harness.Sub("vectorised", case(), run, quick=500, thorough=15000),
    harness.Sub("wells", case(D=[1, 2], dmax=(5, 3, 3), cells=9, well_kinds=("both",), steps=(2, 6)), run, quick=250, thorough=8000),
    harness.Sub("3d", case(D=[3], dmax=(4, 4, 4), cells=30, steps=(1, 2)), run, quick=120, thorough=3000),
    harness.Sub("hundreds", case(big=True, steps=(1, 2)), run, quick=160, thorough=1500, shards=8),
    harness.Sub("thousands", case(big=1300, steps=(1, 1)), run, quick=32, thorough=160, shards=8),
    harness.Sub("many-steps", case(steps=(12, 60), dmax=(5, 3, 2), cells=9, nconf=2), run, quick=48, thorough=1200, shards=8),
    harness.Sub("symbolic", case(symbolic=True, dmax=(4, 3, 2), cells=8, steps=(1, 3), nconf=2), run, quick=144, thorough=4000, shards=8),
    harness.Sub("symbolic-hundreds", case(symbolic=True, big=150, steps=(1, 2), nconf=1), run, quick=32, thorough=400, shards=8),
    harness.Sub("iterative", iter_case(), run_iter, quick=400, thorough=15000),
    harness.Sub("iterative-hard", hard_case(), run_hard, quick=200, thorough=6000),
    harness.Sub("unknown-solver", bad_case(), run_bad, quick=60, thorough=1500),
]


def _minres():
    s = {"grid": {"n": [4, 1, 1], "d": [300.0, 350.0, 40.0], "kx": 270.0, "phi": 0.27}, "fluid": {"mu": 0.5, "B": 1.0}, "pi": 4000.0, "dt": 1, "steps": 1,
         "bounds": [{"id": 0, "kind": "pressure", "v": 4000.0}], "wells": [{"id": 4, "q": -600.0, "s": 1.5, "r": 3.5}],
         "isolvers": ["minres"], "how": "solve", "vectorize": True}
    run_iter(s, harness.Rec())


PINNED = {"minres": _minres}
