"""C13: solutions obey the physics of single-phase flow (metamorphic relations)."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, harness, ref

PROPERTY = "C13"
RULE = (
    "random problems and their transformed counterparts, both run with the real code: mirrored along any axis, axes "
    "relabelled, sources superposed, pressures shifted or scaled, viscosity/permeability, volume factor/rate and "
    "compressibility/time step rescaled, a 1D problem repeated over identical rows; plus bounds, equilibrium (hydrostatic "
    "included), monotone approach to the steady state; non-trivial: the transformation changes the input and something flows"
)
ASSUMPTIONS = [
    "relations hold up to 1e-9 of the pressure range scaled by the condition number (above 1e5); marginal well switches and "
    "condition numbers above 1e9 are counted and skipped",
    "axes are relabelled without wells, or x/y swapped with wells (wells are vertical)",
]


def explicit(spec):
    """the same problem with explicit per-cell lists"""
    s = copy.deepcopy(spec)
    g = ref.Grid(s["grid"])
    for p in ("kx", "ky", "kz", "phi", "z"):
        if p in s["grid"]:
            s["grid"][p] = [float(v) for v in ref.expand(s["grid"][p], g.N)]
    s["grid"]["d"] = [[float(v) for v in g.d1[a]] for a in range(3)]
    for a in range(3):
        if g.n[a] == 1:
            s["grid"]["d"][a] = s["grid"]["d"][a][0]
    return s, g


def simulate(spec, rf, n, sparse=False, symbolic=False):
    m = gen.build_model(spec, rf, sparse=sparse)
    for _ in range(n):
        m.solve(check_MB=False, isolver=None, vectorize=not symbolic)
    return harness.as_float(m.solution.pressures, "pressures"), harness.as_float(m.solution.rates, "rates"), {k: np.array(v, float) for k, v in m.solution.w_pressures.items()}


def remap(spec, g, g2grid, f):
    """spec with cells renumbered: cell c of the old grid is cell f(c) of the new one"""
    s = copy.deepcopy(spec)
    s["grid"] = g2grid
    for b in s["bounds"]:
        b["id"] = f[b["id"]]
    for w in s["wells"]:
        w["id"] = f[w["id"]]
    return s


def mirror(spec, ax):
    s, g = explicit(spec)
    f = {}
    for c, xyz in enumerate(g.coords):
        v = list(xyz)
        v[ax] = g.nb[ax] - 1 - v[ax]
        f[c] = g.id(*v)
    gr = copy.deepcopy(s["grid"])
    if isinstance(gr["d"][ax], list):
        gr["d"][ax] = gr["d"][ax][::-1]
    for p in ("kx", "ky", "kz", "phi", "z"):
        if p in gr:
            old = s["grid"][p]
            new = [0.0] * g.N
            for c in range(g.N):
                new[f[c]] = old[c]
            gr[p] = new
    return remap(s, g, gr, f), f


def relabel(spec, perm):
    """new axis a is the old axis perm[a]"""
    s, g = explicit(spec)
    gr = copy.deepcopy(s["grid"])
    gr["n"] = [g.n[perm[a]] for a in range(3)]
    gr["d"] = [s["grid"]["d"][perm[a]] for a in range(3)]
    g2 = ref.Grid({"n": gr["n"], "d": gr["d"]})
    f = {c: g2.id(*[xyz[perm[a]] for a in range(3)]) for c, xyz in enumerate(g.coords)}
    for a in range(3):
        src = "k" + ref.AX[perm[a]]
        gr["k" + ref.AX[a]] = s["grid"][src]
    for p in ("kx", "ky", "kz", "phi", "z"):
        if p in gr:
            old = gr[p]
            new = [0.0] * g.N
            for c in range(g.N):
                new[f[c]] = old[c]
            gr[p] = new
    return remap(s, g, gr, f), f


def prepare(s, rec, n=None, bound=1e9):
    """reference run: is the case numerically sound?"""
    S = ref.Sim(s)
    for _ in range(n or s["steps"]):
        S.step()
        if S.marginal:
            rec.label("skipped: marginal switch")
            return None
        if S.cond > bound:
            rec.label("skipped: ill-conditioned")
            return None
    return S


def scales(S):
    ps = max(float(np.nanmax(np.abs(p))) for p in S.P) + 1
    T = max([t for *_, t, _v, _dz in S.pb] + [w["G"] / (S.mu * S.B) for w in S.wells.values()] + [0.0])
    qs = max(float(np.abs(q).max()) for q in S.Q[1:]) + T * ps + 1e-300
    return 1e-9 * max(1, S.cond * 1e-5), ps, qs


TRANS = ["mirror", "relabel", "shift", "scale", "mu-k", "B-q", "comp-dt", "swap-options"]


@st.composite
def case(draw, **kw):
    t = draw(st.sampled_from(TRANS))
    kw.setdefault("dmax", (6, 4, 3))
    kw.setdefault("cells", 20)
    kw.setdefault("steps", (1, 4))
    s = draw(gen.flow(nopi=False, gravity="maybe" if t not in ("scale",) else False, wells=t != "relabel" or draw(st.booleans()), **kw))
    s["t"] = t
    if t == "mirror":
        s["axis"] = draw(st.integers(0, 2))
    if t == "relabel":
        rg = ref.Grid(s["grid"])
        if s["wells"]:
            if rg.fdir == "x":
                s["wells"] = []
        s["perm"] = [1, 0, 2] if s["wells"] else list(draw(st.permutations([0, 1, 2])))
    s["f"] = draw(st.sampled_from([0.5, 2.0, 4.0, 3.0, 1.25, 10.0]))
    s["c"] = draw(st.sampled_from([100.0, 1000.0, 250.5]))
    s["sparse"] = [draw(st.booleans()), draw(st.booleans())]
    if t in ("shift",):
        # rate-only wells have the implied limit 0: state it, so that it is shifted too
        for w in s["wells"]:
            w.setdefault("pwf", 0.0)
    return s


def fscale(v, f):
    if isinstance(v, dict):
        return dict(v, base=v["base"] * f, plus=v.get("plus", 0) * f)
    if isinstance(v, list):
        return [x * f for x in v]
    return v * f


def transform(s):
    """(other spec, cell map, pressure map, rate factor)"""
    o = copy.deepcopy(s)
    t, f, c = s["t"], s["f"], s["c"]
    ident = None
    if t == "mirror":
        o, m = mirror(s, s["axis"])
        return o, m, lambda p: p, 1.0
    if t == "relabel":
        o, m = relabel(s, s["perm"])
        return o, m, lambda p: p, 1.0
    if t == "shift":
        o["pi"] += c
        for b in o["bounds"]:
            if b["kind"] == "pressure":
                b["v"] += c
        for w in o["wells"]:
            if "pwf" in w:
                w["pwf"] += c
        return o, ident, lambda p: p + c, 1.0
    if t == "scale":
        o["pi"] *= f
        for b in o["bounds"]:
            b["v"] *= f
        for w in o["wells"]:
            for k in ("q", "pwf"):
                if k in w:
                    w[k] *= f
        return o, ident, lambda p: p * f, f
    if t == "mu-k":
        o["fluid"]["mu"] *= f
        for k in ("kx", "ky", "kz"):
            o["grid"][k] = fscale(o["grid"][k], f)
        return o, ident, lambda p: p, 1.0
    if t == "B-q":
        o["fluid"]["B"] *= f
        for b in o["bounds"]:
            if b["kind"] == "rate":
                b["v"] /= f
        for w in o["wells"]:
            if "q" in w:
                w["q"] /= f
        return o, ident, lambda p: p, 1 / f
    if t == "comp-dt":
        o["dt"] *= f
        if o["fluid"].get("comp"):
            o["fluid"]["comp"] *= f
        if o["grid"].get("comp"):
            o["grid"]["comp"] *= f
        return o, ident, lambda p: p, 1.0
    return o, ident, lambda p: p, 1.0


def run(s, rec):
    rf = env.load()
    S = prepare(s, rec)
    if S is None:
        return
    o, m, fp, fq = transform(s)
    S2 = prepare(o, rec)
    if S2 is None:
        return
    rec.label(s["t"])
    P, R, W = simulate(s, rf, s["steps"], s["sparse"][0])
    P2, R2, W2 = simulate(o, rf, s["steps"], s["sparse"][1])
    rt, ps, qs = scales(S)
    rt2, ps2, qs2 = scales(S2)
    rt, ps, qs = max(rt, rt2), max(ps, ps2), max(qs * abs(fq), qs2)
    if m is not None:
        idx = [m[c] for c in range(S.g.N)]
        P2, R2 = P2[:, idx], R2[:, idx]
        inv = {v: k for k, v in m.items()}
        W2 = {inv[k]: v for k, v in W2.items()}
    rec.nontrivial_if(float(np.abs(R[1:]).max()) > 0 and o != s)
    harness.close(P2, fp(P), f"{s['t']}: pressures", rtol=rt, scale=ps)
    harness.close(R2[1:], R[1:] * fq, f"{s['t']}: rates", rtol=rt, scale=qs)
    harness.same(sorted(W2), sorted(W), f"{s['t']}: wells")
    for k in W:
        J = S.wells[k]["G"] / S.mu / S.B
        harness.close(W2[k], fp(W[k]), f"{s['t']}: flowing pressures of well {k}", rtol=rt, scale=ps + qs / abs(fq) / J)


# ------------------------------------------------------------ superposition
@st.composite
def sup_case(draw):
    s = draw(gen.flow(nopi=False, gravity="maybe", steps=(1, 4), dmax=(6, 4, 3), cells=20, wells=False))
    rg = ref.Grid(s["grid"])
    fids = gen.boundary_face_ids(s["grid"]["n"])
    used = {b["id"] for b in s["bounds"] if b["kind"] == "pressure"}
    free = [b for b in fids if b not in used]
    if rg.fdir in ("x", "xy", "xyz"):
        # a well needs permeability (sealing cells have none)
        free = free + [c for c in rg.inside if all(k not in s["grid"] or rg.field(k)[c] > 0 for k in ("kx", "ky"))]
    s["A"] = draw(st.lists(st.tuples(st.sampled_from(free), st.sampled_from([5.0, -3.0, 40.0, -0.5])), min_size=1, max_size=3)) if free else []
    s["B"] = draw(st.lists(st.tuples(st.sampled_from(free), st.sampled_from([5.0, -3.0, 40.0, -0.5])), min_size=1, max_size=3)) if free else []
    s["A"], s["B"] = [list(x) for x in s["A"]], [list(x) for x in s["B"]]
    s["f"] = draw(st.sampled_from([1.0, 2.0, -1.0]))
    s["sparse"] = draw(st.booleans())
    return s


def run_sup(s, rec):
    rf = env.load()
    g = ref.Grid(s["grid"])
    base = [b for b in s["bounds"] if b["kind"] == "pressure"]

    def spec(src):
        o = copy.deepcopy(s)
        o["bounds"] = copy.deepcopy(base)
        q = {}
        for c, v in src:
            q[c] = q.get(c, 0.0) + v
        o["wells"] = []
        for c, v in q.items():
            if c in g.idx:
                o["wells"].append({"id": c, "q": v, "pwf": -1e9, "r": 1e-3, "s": 0})
            else:
                o["bounds"].append({"id": c, "kind": "rate", "v": v})
        return o

    f = s["f"]
    sets = [[], s["A"], s["B"], s["A"] + [[c, f * v] for c, v in s["B"]]]
    if not s["fluid"].get("comp") and not s["grid"].get("comp") and not base:
        return
    out, worst = [], (0, 0, 0)
    for src in sets:
        o = spec(src)
        S = prepare(o, rec)
        if S is None or S.switched:
            return
        worst = tuple(max(a, b) for a, b in zip(worst, scales(S)))
        P, R, _ = simulate(o, rf, s["steps"], s["sparse"])
        out.append((P, R))
    rt, ps, qs = worst
    rec.nontrivial_if(bool(s["A"]) and bool(s["B"]))
    rec.label(f"D{g.D}", "wells" if any(c in g.idx for c, _ in s["A"] + s["B"]) else "boundary sources")
    (P0, R0), (PA, RA), (PB, RB), (PC, RC) = out
    harness.close(PC - P0, (PA - P0) + f * (PB - P0), "superposed sources: pressures", rtol=4 * rt, scale=ps)
    harness.close((RC - R0)[1:], ((RA - R0) + f * (RB - R0))[1:], "superposed sources: rates", rtol=4 * rt, scale=qs)


# ------------------------------------------------------------ bounds, equilibrium, steady state
@st.composite
def bound_case(draw, big=False):
    s = draw(gen.flow(nopi=False, gravity=False, wells=False, kinds=("pressure",), steps=(1, 5), dmax=(7, 5, 3), cells=30, big=big))
    s["sparse"] = draw(st.booleans())
    s["side"] = draw(st.sampled_from(["any", "above", "below", "equal"]))
    for b in s["bounds"]:
        if s["side"] == "above":
            b["v"] = s["pi"] + abs(b["v"])
        elif s["side"] == "below":
            b["v"] = s["pi"] - abs(b["v"])
        elif s["side"] == "equal":
            b["v"] = s["pi"]
    return s


def run_bound(s, rec):
    rf = env.load()
    S = prepare(s, rec)
    if S is None:
        return
    g = S.g
    P, R, _ = simulate(s, rf, s["steps"], s["sparse"])
    vs = [b["v"] for b in s["bounds"]]
    rt, ps, qs = scales(S)
    tol = rt * ps
    lo, hi = min(vs + ([s["pi"]] if S.comp or not vs else [])), max(vs + ([s["pi"]] if S.comp or not vs else []))
    X = P[1:][:, g.inside]
    rec.nontrivial_if(hi > lo or s["side"] == "equal")
    rec.label(s["side"], "compressible" if S.comp else "incompressible", f"D{g.D}")
    if X.min() < lo - tol or X.max() > hi + tol:
        raise harness.Violation(f"pressures {X.min()}..{X.max()} leave the range {lo}..{hi} of initial and boundary pressures")
    if s["side"] == "equal":
        harness.close(X, np.full(X.shape, s["pi"]), "equilibrium", rtol=rt, scale=ps)
        harness.close(R[1:], np.zeros_like(R[1:]), "rates at equilibrium", rtol=rt, scale=qs)
    if S.comp and s["side"] in ("above", "below") and vs:
        sg = 1 if s["side"] == "above" else -1
        Y = np.vstack([np.full(g.Nin, s["pi"]), X])
        if (sg * np.diff(Y, axis=0)).min() < -tol:
            raise harness.Violation("pressures do not move monotonically towards the steady state")
    if S.comp and vs:
        # distance to the steady state of the same problem never grows
        o = copy.deepcopy(s)
        o["fluid"].pop("comp", None)
        o["grid"].pop("comp", None)
        S2 = prepare(o, rec, 1)
        if S2 is None:
            return
        Ps, _, _ = simulate(o, rf, 1, s["sparse"])
        xs = Ps[1][g.inside]
        d = [np.abs(np.full(g.Nin, s["pi"]) - xs).max()] + [np.abs(x - xs).max() for x in X]
        for i in range(1, len(d)):
            if d[i] > d[i - 1] + tol + scales(S2)[0] * scales(S2)[1]:
                raise harness.Violation(f"distance to the steady state grows: {d}")


@st.composite
def hydro_case(draw):
    s = draw(gen.flow(nopi=False, gravity=True, wells=False, comp=False, kinds=("pressure",), steps=(1, 3), dmax=(6, 4, 3), cells=24))
    s["sparse"] = draw(st.booleans())
    s["symbolic"] = draw(st.integers(0, 9)) == 0 and len(gen.interior_ids(s["grid"]["n"])) <= 8
    s["p0"] = draw(st.sampled_from([100.0, 3000.0, 5000.0]))
    return s


def run_hydro(s, rec):
    """Boundary pressures on one hydrostatic line: the solution is that line, nothing flows."""
    rf = env.load()
    S0 = ref.Sim(s)
    for b in s["bounds"]:
        b["v"] = float(s["p0"] + S0.grav * S0.z[b["id"]])
    S = prepare(s, rec)
    if S is None or not s["bounds"]:
        return
    rec.nontrivial_if(len({float(v) for v in S.z}) > 1)
    rec.label(f"D{S.g.D}", f"{len(s['bounds'])} pressure boundaries", "symbolic" if s["symbolic"] else "vectorised")
    P, R, _ = simulate(s, rf, s["steps"], s["sparse"], s["symbolic"])
    rt, ps, qs = scales(S)
    want = s["p0"] + S.grav * S.z[S.g.inside]
    for i in range(1, len(P)):
        harness.close(P[i][S.g.inside], want, f"step {i}: hydrostatic equilibrium", rtol=rt, scale=ps + abs(want).max())
        harness.close(R[i], np.zeros(S.g.N), f"step {i}: rates at hydrostatic equilibrium", rtol=rt, scale=qs + S.grav * abs(S.z).max() * qs / ps)


# ------------------------------------------------------------ identical rows
@st.composite
def rows_case(draw):
    nx = draw(st.integers(2, 6))
    ax = draw(st.permutations([0, 1, 2]))
    m = [draw(st.integers(2, 4)), draw(st.sampled_from([1, 1, 2, 3]))]
    d = {"main": draw(gen.size_list(nx + 2)), "w": draw(gen.size_list(m[0] + 2)), "h": draw(gen.size_list(m[1] + 2)) if m[1] > 1 else [draw(gen.nice)]}
    k = draw(gen.size_list(nx + 2))
    ends = [draw(st.sampled_from([["pressure", 500.0], ["pressure", 3000.0], ["rate", 40.0], ["gradient", 0.1], ["none", 0.0]])) for _ in range(2)]
    ends[0] = ["pressure", float(draw(st.integers(500, 5000)))]
    return {"nx": nx, "ax": list(ax), "m": m, "d": d, "k": k, "phi": draw(st.integers(1, 40)) / 100, "ends": ends,
            "pi": float(draw(st.integers(1000, 5000))), "comp": draw(st.sampled_from([0, 1e-5, 1e-4])), "kt": draw(gen.nice),
            "dt": draw(st.sampled_from([1, 5])), "steps": draw(st.integers(1, 3)), "unit": draw(st.sampled_from(["field", "metric", "lab"])), "sparse": draw(st.booleans())}


def run_rows(s, rec):
    """A 1D problem repeated over identical, closed rows: every row behaves as the 1D problem."""
    rf = env.load()
    a0, a1, a2 = s["ax"]
    nx, (m1, m2) = s["nx"], s["m"]
    W = sum(s["d"]["w"][1:-1])
    H = sum(s["d"]["h"][1:-1]) if m2 > 1 else s["d"]["h"][0]

    def make(n1, n2, dw, dh):
        n, d = [1, 1, 1], [0, 0, 0]
        n[a0], n[a1], n[a2] = nx, n1, n2
        d[a0], d[a1], d[a2] = s["d"]["main"], dw, dh
        g = ref.Grid({"n": n, "d": d})
        grid = {"n": n, "d": d, "unit": s["unit"], "phi": s["phi"]}
        for a in range(3):
            grid["k" + ref.AX[a]] = [s["k"][xyz[a0]] if a == a0 else s["kt"] for xyz in g.coords]
        if s["comp"]:
            grid["comp"] = s["comp"]
        bounds = []
        for c in g.bound:
            xyz = g.coords[c]
            if not all(0 < xyz[a] < g.nb[a] - 1 for a in g.flow if a != a0):
                continue
            e = 0 if xyz[a0] == 0 else 1
            if xyz[a0] not in (0, g.nb[a0] - 1):
                continue
            kind, v = s["ends"][e]
            if kind == "none":
                continue
            if kind == "rate":
                frac = g.A[a0][c] / (W * H)
                v = v * frac
            bounds.append({"id": c, "kind": kind, "v": float(v)})
        return {"grid": grid, "fluid": {"mu": 0.7, "B": 1.2}, "pi": s["pi"], "dt": s["dt"], "steps": s["steps"], "bounds": bounds, "wells": []}, g

    s1, g1 = make(1, 1, W, H)
    s2, g2 = make(m1, m2, s["d"]["w"], s["d"]["h"] if m2 > 1 else H)
    S1, S2 = prepare(s1, rec), prepare(s2, rec)
    if S1 is None or S2 is None:
        return
    rec.nontrivial_if()
    rec.label(f"D{g2.D} along {ref.AX[a0]}")
    P1, R1, _ = simulate(s1, rf, s["steps"], False)
    P2, R2, _ = simulate(s2, rf, s["steps"], s["sparse"])
    rt, ps, qs = [max(a, b) for a, b in zip(scales(S1), scales(S2))]
    for c in g2.inside:
        harness.close(P2[1:, c], P1[1:, g2.coords[c][a0]], f"pressures of cell {c} (row of the repeated problem)", rtol=rt, scale=ps)
    for e, i in ((0, 0), (1, nx + 1)):
        cells = [c for c in g2.bound if g2.coords[c][a0] == i]
        harness.close(R2[1:, cells].sum(axis=1), R1[1:, i], f"total rate at end {e}", rtol=rt * len(cells), scale=qs)


SUBS = [
    harness.Sub("transformed", case(), run, quick=600, thorough=20000),
    harness.Sub("transformed-3d", case(D=[3], dmax=(3, 3, 3), cells=27), run, quick=120, thorough=3000),
    harness.Sub("hundreds", case(big=True, steps=(1, 2)), run, quick=160, thorough=1500, shards=8),
    harness.Sub("superposition", sup_case(), run_sup, quick=150, thorough=5000),
    harness.Sub("bounds", bound_case(), run_bound, quick=250, thorough=9000),
    harness.Sub("bounds-hundreds", bound_case(big=True), run_bound, quick=160, thorough=1500, shards=8),
    harness.Sub("hydrostatic", hydro_case(), run_hydro, quick=200, thorough=6000),
    harness.Sub("rows", rows_case(), run_rows, quick=150, thorough=5000),
]
PINNED = {}
