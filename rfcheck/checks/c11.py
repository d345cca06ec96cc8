"""C11: wells honour their constraints in every step."""
import math

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from .. import env, gen, harness, ref

PROPERTY = "C11"
RULE = (
    "random problems with 1 to 4 wells (rate, pressure or both, limits often near the operating point, any skin, radius, unit), "
    "given by arguments or as well objects, re-specified between steps, solved with dense/sparse/iterative and "
    "vectorised/symbolic options; after every step the recorded cell pressure, flowing pressure and rate of every well must "
    "satisfy the well equation with the reference equivalent radius, and exactly one constraint: the target rate with the "
    "flowing pressure at or above the limit, or the limit with a rate the target would overshoot; non-trivial: some well "
    "switched, recovered or was re-specified, or at least two wells"
)
ASSUMPTIONS = [
    "wells are judged from the recorded pressures of the same step (flow equations themselves are C07); switches within "
    "1e-6 relative of the limit may go either way",
    "12 inch per foot in the radius ratio for every unit system, as implemented",
]


@st.composite
def wellspec(draw, c, rg):
    w = {"id": c}
    d = [rg.d[a][c] for a in range(3)]
    w["r"] = float(draw(st.sampled_from([3.5, 2.0, 0.3, 0.1])) * min(1.0, min(d[0], d[1]) / 20))
    w["s"] = draw(st.sampled_from([0, 1.5, 5.0, -0.5]))
    if draw(st.booleans()):
        del w["s"]
    kind = draw(st.sampled_from(["q", "pwf", "both", "both", "both"]))
    if kind in ("q", "both"):
        w["q"] = float(draw(st.sampled_from([-600.0, -100.0, -20.0, -3.0, -0.5, 0.0, 50.0, 200.0])))
    if kind in ("pwf", "both"):
        w["pwf"] = float(draw(st.sampled_from([0, 100, 1000, 2500, 3900, 4000, 4100, 6500])))
    return w


@st.composite
def case(draw, vect=True, steps=(1, 6), tune=False, **kw):
    fl = draw(st.sampled_from([[1], [2], [3]]))
    kw.setdefault("dmax", (6, 4, 3))
    kw.setdefault("cells", 18)
    while True:
        g = draw(gen.grid(D=fl, props=("kx", "ky", "kz", "phi"), **kw))
        rg = ref.Grid(g)
        if rg.fdir in ("x", "xy", "xyz"):
            break
        # relabel: flow along x / xy
        n = sorted(g["n"], reverse=True)
        g = {"n": n, "d": [20.0 if isinstance(v, list) else v for v in g["d"]], "unit": g["unit"], "unify": g["unify"], "kx": g["kx"], "ky": g["ky"], "kz": g["kz"], "phi": g["phi"]}
        rg = ref.Grid(g)
        break
    s = draw(gen.flow_on(st.just(g), wells=False, gravity="maybe", steps=steps))
    s["pi"] = 4000.0
    if s["steps"] >= 20:
        s["dt"] = draw(st.sampled_from([0.001, 0.01, 0.1, 1]))
        if draw(st.integers(0, 3)):
            s["fluid"]["comp"] = draw(st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3]))
    rg = ref.Grid(s["grid"])
    open_cells = [c for c in rg.inside if all(rg.field(p)[c] > 0 for p in ("kx", "ky"))]
    assume(open_cells)
    cells = draw(st.permutations(open_cells))[: draw(st.integers(1, min(4, len(open_cells))))]
    s["wells"] = [draw(wellspec(c, rg)) for c in cells]
    if tune:
        # limits inside the range the unlimited wells pass through, so that they become active (and inactive) on the way
        free = dict(s, wells=[{k: v for k, v in w.items() if k != "pwf"} | ({"pwf": -1e12} if "q" in w else {"pwf": w["pwf"]}) for w in s["wells"]])
        S = ref.Sim(free)
        if S.comp or S.pb or any("q" not in w for w in s["wells"]):
            est = {w["id"]: [] for w in s["wells"] if "q" in w}
            for _ in range(s["steps"]):
                S.step()
                for c in est:
                    est[c].append(S.PW[-1][c])
            for w in s["wells"]:
                if "q" in w and draw(st.integers(0, 4)):
                    e = est[w["id"]]
                    js = [j for j in range(s["steps"] - 1) if abs(e[j + 1] - e[j]) > 1e-4 * abs(e[j])] or list(range(s["steps"]))
                    j = js[draw(st.integers(0, len(js) - 1))] if draw(st.booleans()) else js[-1 - draw(st.integers(0, min(3, len(js) - 1)))]
                    v = e[j] + draw(st.sampled_from([0.5, -0.3, 0.01, 1.5])) * (e[min(j + 1, len(e) - 1)] - e[j])
                    w["pwf"] = float(v)
    changes = []
    for i in range(1, s["steps"]):
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])) if s["steps"] < 20 or draw(st.integers(0, 40)) == 0 else 0):
            c = draw(st.sampled_from(cells + open_cells[:2]))
            w = draw(wellspec(c, rg))
            if c in cells or any(ch["w"]["id"] == c for ch in changes):
                w = {k: v for k, v in w.items() if k == "id" or draw(st.booleans())}
            changes.append({"at": i, "w": w})
    s["changes"] = changes
    s["objects"] = draw(st.booleans())
    s["sparse"] = draw(st.booleans())
    s["isolver"] = draw(st.sampled_from([None, None, "cgs", "bicgstab", "lgmres"])) if s["sparse"] else None
    s["vectorize"] = vect
    s["how"] = draw(st.sampled_from(["solve", "run"]))
    return s


def req(g, k, c):
    d = [g.d[a][c] for a in range(3)]
    if g.fdir == "x":
        return 0.14 * math.hypot(d[0], d[1])
    a = math.sqrt(k[1][c] / k[0][c])
    return 0.28 * math.sqrt(a * d[0] ** 2 + d[1] ** 2 / a) / (math.sqrt(a) + 1 / math.sqrt(a))


def set_well(m, w, rf, as_object):
    a = {k: w[k] for k in ("q", "pwf", "r", "s") if k in w}
    if as_object and "pwf" not in w and "q" in w:
        m.set_well(rf.wells.SingleCell(cell_id=w["id"], **a))
    else:
        m.set_well(cell_id=w["id"], **a)


def run(s, rec):
    rf = env.load()
    bare = dict(s, wells=[])
    S = ref.Sim(bare)
    g = S.g
    m = gen.build_model(bare, rf, compile=False)
    spec, added = {}, {}

    def put(w, at):
        d = spec.setdefault(w["id"], {})
        added.setdefault(w["id"], at)
        d.update({k: v for k, v in w.items() if k != "id"})
        set_well(m, w, rf, s["objects"])

    for w in s["wells"]:
        put(w, 0)
    m.compile(stype="numerical", method="FDM", sparse=s["sparse"])
    sol = m.solution
    modes = {}
    switched = 0
    for i in range(s["steps"]):
        for ch in s["changes"]:
            if ch["at"] == i:
                put(ch["w"], i)
                rec.label("re-specified" if ch["w"]["id"] in modes else "well added between steps")
                modes.pop(ch["w"]["id"], None)
        # a problem without a unique solution is not judged
        lims = {c: "pwf" for c, w in spec.items() if "pwf" in w and "q" not in w}
        if S.comp == 0 and not S.pb and not lims:
            rec.label("skipped: no pressure anywhere")
            return
        try:
            if s["how"] == "run":
                m.run(nsteps=1, vectorize=s["vectorize"], check_MB=False, isolver=s["isolver"])
            else:
                m.solve(vectorize=s["vectorize"], check_MB=False, isolver=s["isolver"])
        except AssertionError as e:
            if s["isolver"] and "convergence" in str(e):
                rec.label("iterative solver reported failure")
                return
            raise
        P, R = harness.as_float(sol.pressures, "pressures"), harness.as_float(sol.rates, "rates")
        harness.same((sol.tstep, sol.nsteps, len(P), len(R)), (i + 1, i + 2, i + 2, i + 2), f"step {i + 1}: tstep, nsteps, records")
        harness.same(sorted(sol.w_pressures), sorted(spec), "wells with recorded flowing pressures")
        harness.same(sorted(m.w_pressures), sorted(spec), "wells in model.w_pressures")
        for c, w in spec.items():
            what = f"step {i + 1}, well {c} {w}: "
            G = S.well_G(c, w["r"], w.get("s") or 0)
            J = G / (S.mu * S.B)
            harness.close([m.wells[c]["r_eq"], m.wells[c]["G"]], [req(g, S.k, c), G], what + "equivalent radius and factor", rtol=1e-10)
            hist = harness.as_float(sol.w_pressures[c], what + "flowing pressures")
            harness.same(len(hist), i + 2, what + "recorded flowing pressures")
            if not np.isnan(hist[: added[c]]).all():
                raise harness.Violation(what + f"flowing pressures before the well existed: {hist[: added[c]]}")
            harness.close(hist[added[c]], P[added[c], c], what + "flowing pressure when the well was set", rtol=0)
            p, q, pw = P[i + 1, c], R[i + 1, c], hist[i + 1]
            if not np.isfinite([p, q, pw]).all():
                raise harness.Violation(what + f"cell pressure {p}, flowing pressure {pw}, rate {q}")
            size = J * (abs(p) + abs(pw)) + abs(q)
            if abs(q + J * (p - pw)) > 1e-9 * size:
                raise harness.Violation(what + f"cell pressure {p}, flowing pressure {pw}, rate {q} do not satisfy the well equation (J = {J})")
            lim = w.get("pwf", 0.0)
            on_lim = pw == lim
            mode = None
            if "q" in w:
                est = p + w["q"] / J
                margin = 1e-6 * (abs(est) + abs(lim) + abs(p))
                if q == w["q"] and est >= lim - margin:
                    mode = "q"
                if mode is None and on_lim and est <= lim + margin:
                    mode = "pwf"
                if mode is None and s["isolver"] and (on_lim or q == w["q"]):
                    mode = "pwf" if on_lim else "q"  # inexact solves: the switch itself is not judged
                if mode is None:
                    raise harness.Violation(what + f"rate {q}, flowing pressure {pw}: neither the target rate with the limit respected nor the limit with the target infeasible (target would flow at {est})")
            else:
                if not on_lim:
                    raise harness.Violation(what + f"flowing pressure {pw} instead of {lim}")
                mode = "pwf"
            harness.close([m.wells[c]["q"], m.wells[c]["pwf"]], [q, pw], what + "current rate and pressure in model.wells", rtol=1e-12, atol=1e-300)
            if c in modes and modes[c] != mode:
                switched += 1
                rec.label("recovered to its rate" if mode == "q" else "limit became active later")
            elif c not in modes and mode == "pwf" and "q" in w:
                switched += 1
                rec.label("limited in its first step")
            modes[c] = mode
            rec.label("mode " + mode)
        if not s["isolver"]:
            balance(S, {c: (R[i + 1, c], S.well_G(c, w["r"], w.get("s") or 0) / (S.mu * S.B), modes[c]) for c, w in spec.items()}, P[i], P[i + 1], f"step {i + 1}: ", rec)
    rec.nontrivial_if(switched > 0 or len(spec) > 1 or bool(s["changes"]))


def balance(S, rates, p_old, p, tag, rec):
    """The recorded rate of a well is what flows into its cell (or leaves it) in the same step."""
    g = S.g
    acc = S.RHS[g.inside]
    A = S.A - np.diag(acc)
    b = S.b0 - acc * np.where(acc == 0, 0, p_old[g.inside])
    full = A.copy()
    for c, (q, J, mode) in rates.items():
        if mode == "pwf":
            full[g.idx[c], g.idx[c]] -= J
    if not np.linalg.cond(full) < 1e9:
        rec.label("balance not judged: ill-conditioned")
        return
    x = p[g.inside]
    for c, (q, J, mode) in rates.items():
        i = g.idx[c]
        mag = np.abs(A[i]) @ np.abs(x) + abs(b[i]) + abs(q) + J * abs(p[c]) + 1e-3 * np.abs(full[i, i]) * np.abs(x).max() + 1e-12
        if not abs(A[i] @ x - b[i] + q) <= 1e-8 * mag:
            raise harness.Violation(f"{tag}well {c}: rate {q}, but {b[i] - A[i] @ x} flows out of its cell (pressures {x}, before {p_old[g.inside]})")


@st.composite
def depletion(draw, extra, **kw):
    """Long problems whose limits become active on the way, for the checks of other properties."""
    s = draw(case(steps=(10, 110), tune=True, dmax=(4, 2, 2), cells=5, **kw))
    for k in ("changes", "objects"):
        del s[k]
    for k, v in extra.items():
        s[k] = draw(v)
    return s


SUBS = [
    harness.Sub("wells", case(), run, quick=700, thorough=20000),
    harness.Sub("long", case(steps=(4, 12), tune=True, dmax=(5, 3, 2), cells=8), run, quick=300, thorough=6000),
    harness.Sub("depletion", case(steps=(30, 110), tune=True, dmax=(4, 2, 2), cells=5), run, quick=120, thorough=1500, shards=8),
    harness.Sub("symbolic", case(vect=False, steps=(1, 4), dmax=(4, 3, 2), cells=6), run, quick=96, thorough=2500, shards=8),
]


def _exact():
    """The limit is exactly the flowing pressure of the target rate."""
    for k in range(12):
        g = {"n": [2, 2, 2], "d": [1.0, 1.0, 0.125], "kx": 1.0 + k / 8, "ky": 0.125, "kz": 1.0, "phi": 0.01, "unify": False, "unit": "field"}
        s = {"grid": g, "fluid": {"mu": 0.5, "B": 1.25}, "pi": 4000.0, "dt": 1, "steps": 4, "bounds": [{"id": 5, "kind": "pressure", "v": 500.0}],
             "wells": [{"id": 21, "q": -600.0, "r": 0.1, "s": 0, "pwf": -1e12}], "changes": [], "objects": False, "sparse": False, "isolver": None, "vectorize": True, "how": "solve"}
        S = ref.Sim(s)
        S.step()
        s["wells"][0]["pwf"] = float(S.PW[-1][21])
        run(s, harness.Rec())


def _two():
    """One well at its limit exactly, until the limit of the other one becomes active in the same step."""
    g = {"n": [2, 2, 2], "d": [1.0, [1.0, 23.0, 1.0, 1.0], [1.0, 396.0, 1.0, 1.0]], "kx": 1.0, "ky": 0.125, "kz": 1.0, "phi": 0.01, "unify": False, "unit": "field"}
    s = {"grid": g, "fluid": {"mu": 0.5, "B": 1.0}, "pi": 4000.0, "dt": 1, "steps": 4, "bounds": [{"id": b, "kind": "pressure", "v": 500.0} for b in (5, 6, 17)],
         "wells": [{"id": 21, "pwf": -62349.89438940378, "q": -600.0, "r": 0.17500000000000002, "s": 0}, {"id": 22, "q": -600.0, "r": 0.17500000000000002, "s": 0}],
         "changes": [], "objects": False, "sparse": False, "isolver": None, "vectorize": True, "how": "solve"}
    run(s, harness.Rec())


PINNED = {"limit-exactly-reached": _exact, "marginal-well-beside-limited-one": _two}
