"""C19: the analytical 1D solution solves the diffusion problem."""
import copy
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import erfc

from .. import env, gen, harness, ref

PROPERTY = "C19"
RULE = (
    "random homogeneous 1D problems (any axis, irregular sizes, three unit systems, any initial pressure inside or outside "
    "the two end pressures, time steps from the first instants to the steady state), judged against an independent solution "
    "of the diffusion equation (images for early, Fourier series for late times); non-trivial: the profile is neither the "
    "initial one nor the steady one in some step"
)
ASSUMPTIONS = [
    "the documented series is cut after N terms: the rigorous (Abel) bound of its tail is allowed, it only matters for the "
    "first instants next to the ends",
    "no wells, no gravity, homogeneous properties, compressible (the problem the analytical solution is documented for)",
    "the ends of the analytical problem are the centres of the two boundary cells; the finite-difference solution puts them "
    "at the cell faces, so both agree in the limit of refinement only",
]
CONV = {"field": (0.001127, 5.614583), "metric": (0.0864, 1.0), "lab": (1.0, 1.0)}


def ierf_sum(x, t):
    """F(x,t): solution of u_t = u_xx on (0,1), u=1 at x=0, 0 at x=1, 0 at t=0"""
    x = np.asarray(x, float)
    if t <= 0:
        return np.where(x <= 0, 1.0, 0.0)
    if t < 0.15:
        r = 2 * math.sqrt(t)
        u = np.zeros_like(x)
        for k in range(0, 8):
            u += erfc((2 * k + x) / r) - erfc((2 * k + 2 - x) / r)
        return u
    u = 1 - x
    for n in range(1, 40):
        u = u - 2 / (n * math.pi) * np.sin(n * math.pi * x) * math.exp(-n * n * math.pi**2 * t)
    return u


def exact(x, t, pi, p0, pn):
    return pi + (p0 - pi) * ierf_sum(x, t) + (pn - pi) * ierf_sum(1 - x, t)


def tail(x, t, pi, p0, pn, N):
    """bound of the terms after the first N"""
    s0 = np.sin(np.pi * np.asarray(x, float) / 2)
    s1 = np.sin(np.pi * (1 - np.asarray(x, float)) / 2)
    e = math.exp(-min(700.0, (N + 1) ** 2 * math.pi**2 * t))
    with np.errstate(divide="ignore"):
        b = 2 / math.pi * e / (N + 1) * (abs(pi - p0) / np.maximum(s0, 1e-300) + abs(pn - pi) / np.maximum(s1, 1e-300))
    b = np.minimum(b, 2.0 * (abs(pi - p0) + abs(pn - pi)) * e)
    return np.where((s0 < 1e-12) | (s1 < 1e-12), 0.0, b)


def press(draw):
    return float(draw(st.one_of(st.integers(500, 6500), st.sampled_from([0, 14, 1000, 4000, -300]))))


@st.composite
def problem(draw, nmax=9, irregular=True):
    n = draw(st.integers(2, nmax))
    ax = draw(st.integers(0, 2))
    nn = [1, 1, 1]
    nn[ax] = n
    unit = draw(st.sampled_from(["field", "metric", "lab"]))
    d = [draw(gen.nice) for _ in range(3)]
    if irregular and draw(st.booleans()):
        d[ax] = draw(gen.size_list(n + 2))
    k = [draw(gen.nice) for _ in range(3)]
    s = {"grid": {"n": nn, "d": d, "kx": k[0], "ky": k[1], "kz": k[2], "phi": draw(st.integers(1, 40)) / 100, "unit": unit, "unify": draw(st.booleans())}}
    s["fluid"] = {"mu": draw(st.sampled_from([0.5, 1.0, 0.25, 3.0])), "B": draw(st.sampled_from([1.0, 1.25, 0.9]))}
    which = draw(st.sampled_from(["fluid", "grid", "both"]))
    comp = 0.0
    if which != "grid":
        s["fluid"]["comp"] = draw(st.sampled_from([1e-6, 1e-5, 1e-4]))
        comp += s["fluid"]["comp"]
    if which != "fluid":
        s["grid"]["comp"] = draw(st.sampled_from([1e-6, 2e-6, 1e-5]))
        comp += s["grid"]["comp"]
    s["pi"], p0, pn = press(draw), press(draw), press(draw)
    if draw(st.integers(0, 9)) == 0:
        p0 = pn
    if draw(st.integers(0, 9)) == 0:
        s["pi"] = p0
    s["bounds"] = [{"id": 0, "kind": "pressure", "v": p0}, {"id": n + 1, "kind": "pressure", "v": pn}]
    s["wells"] = []
    c, v = CONV[unit]
    x = np.array(ref.Grid(s["grid"]).centers(), float)[:, ax]
    L = x.max() - x.min()
    alpha = c * v * k[ax] / (s["fluid"]["mu"] * s["grid"]["phi"] * comp)
    tD = draw(st.one_of(st.floats(1e-4, 0.5), st.floats(1e-7, 1e-3), st.floats(0.1, 3.0)))
    s["dt"] = float(tD * L**2 / alpha)
    s["steps"] = draw(st.integers(1, 6))
    s["ax"] = ax
    s["np"] = draw(st.booleans())
    s["compile"] = draw(st.sampled_from(["d1p1", "1D1P", "D1P1"]))
    return s


def facts(s):
    g = ref.Grid(s["grid"])
    x = np.array(g.centers(), float)[:, s["ax"]]
    L = x.max() - x.min()
    comp = s["fluid"].get("comp", 0) + s["grid"].get("comp", 0)
    c, v = CONV[s["grid"]["unit"]]
    alpha = c * v * s["grid"]["k" + ref.AX[s["ax"]]] / (s["fluid"]["mu"] * s["grid"]["phi"] * comp)
    return g, x, L, alpha, s["pi"], s["bounds"][0]["v"], s["bounds"][1]["v"]


def judge(P, s, steps, tag, N=1000):
    g, x, L, alpha, pi, p0, pn = facts(s)
    P = harness.as_float(P, tag)
    harness.same(P.shape, (steps + 1, g.N), tag + "shape of the pressures")
    xD = (x - x.min()) / L
    scale = abs(pi - p0) + abs(pn - pi)
    eps = 1e-9 * scale + 1e-12 * max(abs(pi), abs(p0), abs(pn))
    mid = False
    for i in range(steps + 1):
        tD = alpha * i * s["dt"] / L**2
        want = exact(xD, tD, pi, p0, pn)
        want[0], want[-1] = p0, pn
        tol = tail(xD, tD, pi, p0, pn, N) + eps
        bad = ~(np.abs(P[i] - want) <= tol)
        if bad.any():
            j = int(np.argmax(bad))
            raise harness.Violation(f"{tag}step {i}, cell {j} (tD={tD:.3g}, xD={xD[j]:.3g}): got {P[i, j]!r}, exact {want[j]!r}, tolerance {tol[j]:.3g}")
        lo, hi = min(pi, p0, pn), max(pi, p0, pn)
        if (P[i] < lo - eps).any() or (P[i] > hi + eps).any():
            raise harness.Violation(f"{tag}step {i}: pressures leave [{lo}, {hi}]")
        lin = p0 + (pn - p0) * xD
        if i and np.abs(want[1:-1] - pi).max() > 1e-3 * scale and np.abs(want - lin).max() > 1e-3 * scale:
            mid = True
    return mid


def build(s, rf):
    return gen.build_model({k: copy.deepcopy(s[k]) for k in ("grid", "fluid", "pi", "dt", "bounds", "wells")} | {"np": s.get("np")}, rf, compile=False)


@st.composite
def case(draw, big=False):
    s = draw(problem(nmax=150) if big else problem())
    if big:
        s["steps"] = draw(st.sampled_from([1, 7, 30, 101]))
    s["again"] = draw(st.lists(st.integers(1, 6), max_size=2))
    s["calc"] = [draw(st.sampled_from([1000, 200, 1500, 3000])), draw(st.booleans()), draw(st.sampled_from([[-1, 1], [0, 1], [2, 5]])), draw(st.booleans())]
    s["mirror"] = draw(st.booleans())
    return s


def run(s, rec):
    rf = env.load()
    m = build(s, rf)
    m.compile("analytical", s["compile"])
    g, x, L, alpha, pi, p0, pn = facts(s)
    m.run(nsteps=s["steps"])
    mid = judge(m.solution.pressures, s, s["steps"], "")
    P = np.array(m.solution.pressures)
    for k in s["again"]:
        m.run(nsteps=k)
        judge(m.solution.pressures, s, k, f"run again with {k} steps: ")
        q = min(k, s["steps"]) + 1
        harness.close(m.solution.pressures[:q], P[:q], f"run again with {k} steps: repeated steps", rtol=1e-12)
    k = m.solution.tstep
    harness.same(k, (s["again"] or [s["steps"]])[-1], "tstep")
    t = np.arange(k + 1) * s["dt"]
    harness.close(harness.as_float(m.get_time(), "time").flatten(), t, "time vector", rtol=1e-12)
    # calc_solution: the same solution with its domain
    N, scale, out, clean = s["calc"]
    keep = np.array(m.solution.pressures)
    X, p = m.solution.calc_solution(N=N, clean=clean)
    harness.same(np.shape(X), (k + 1, g.N, 2), "shape of the domain")
    harness.close(X[..., 0], np.repeat(t[:, None], g.N, 1), "times of the domain", rtol=1e-12)
    harness.close(X[..., 1], np.repeat(x[None], k + 1, 0), "positions of the domain", rtol=1e-12)
    if clean:
        judge(p, s, k, f"calc_solution(N={N}): ", N)
    if N == 1000 and clean:
        harness.close(p, keep, "calc_solution and run", rtol=1e-12)
    X, p_run = m.solution.calc_solution()
    harness.close(X[..., 1], np.repeat(x[None], k + 1, 0), "positions of the default domain", rtol=1e-12)
    harness.close(p_run, keep, "calc_solution as it comes and run", rtol=1e-12)
    lo, hi = min(pi, p0, pn), max(pi, p0, pn)
    if hi > lo:
        Xs, ps = m.solution.calc_solution(N=N, scale=True, output_range=out, clean=clean)
        harness.close(ps, out[0] + (p - lo) / (hi - lo) * (out[1] - out[0]), "scaled calc_solution", rtol=0, atol=1e-9 * max(map(abs, out)) * (1 + hi / (hi - lo) * 1e-3))
        T, C = m.get_domain(scale=True, boundary=True)
        harness.close(Xs[..., 0], np.repeat(T, g.N, 1), "scaled times of the domain", rtol=1e-12)
        harness.close(Xs[..., 1], np.repeat(C.reshape(1, -1), k + 1, 0), "scaled positions of the domain", rtol=1e-12)
    harness.close(m.solution.pressures, keep, "recorded pressures after calc_solution", rtol=0)
    df = m.get_df(columns=["time", "cells_pressure"], drop_nan=False, drop_zero=False)
    harness.close(df.iloc[:, 1:].values, keep, "exported pressures", rtol=0)
    harness.expect_raises(m.solution.solve, (NotImplementedError,), "single steps")
    if s["mirror"]:
        s2 = copy.deepcopy(s)
        s2["bounds"][0]["v"], s2["bounds"][1]["v"] = pn, p0
        d = s2["grid"]["d"][s["ax"]]
        if isinstance(d, list):
            s2["grid"]["d"][s["ax"]] = d[::-1]
        m2 = build(s2, rf)
        m2.compile("analytical", "D1P1")
        m2.run(nsteps=s["steps"])
        harness.close(m2.solution.pressures[:, ::-1], P, "mirrored problem", rtol=0, atol=1e-8 * (hi - lo) + 1e-9 * hi)
        rec.label("mirrored")
    rec.nontrivial_if(mid)
    if mid:
        rec.label("pi inside" if min(p0, pn) <= pi <= max(p0, pn) else "pi outside")


@st.composite
def steady(draw):
    s = draw(problem(nmax=6))
    g, x, L, alpha, *_ = facts(s)
    s["dt"] = float(draw(st.floats(2.5, 50)) * L**2 / alpha)
    return s


def run_steady(s, rec):
    rf = env.load()
    m = build(s, rf)
    m.compile("analytical", "D1P1")
    m.run(nsteps=2)
    g, x, L, alpha, pi, p0, pn = facts(s)
    xD = (x - x.min()) / L
    for i in (1, 2):
        harness.close(m.solution.pressures[i], p0 + (pn - p0) * xD, f"steady state (step {i})", rtol=0, atol=1e-8 * (abs(pi - p0) + abs(pn - pi)) + 1e-10 * max(pi, p0, pn))
    rec.nontrivial_if(p0 != pn)


@st.composite
def refine(draw):
    s = draw(problem(nmax=4, irregular=False))
    s["T"] = draw(st.floats(0.05, 0.6))
    if s["bounds"][0]["v"] == s["bounds"][1]["v"] == s["pi"]:
        s["pi"] += 100.0
    s["length"] = draw(st.sampled_from([100.0, 1000.0, 4000.0]))
    s["sparse"] = draw(st.booleans())
    return s


def run_refine(s, rec):
    """distance of both solutions at one time, on coarse and fine discretisations"""
    rf = env.load()
    err = []
    pi, p0, pn = s["pi"], s["bounds"][0]["v"], s["bounds"][1]["v"]
    for n, steps in ((8, 8), (16, 32), (32, 128)):
        q = copy.deepcopy(s)
        q["grid"]["n"][s["ax"]] = n
        q["grid"]["d"][s["ax"]] = s["length"] / n
        q["bounds"][1]["id"] = n + 1
        g, x, L, alpha, *_ = facts(q)
        q["dt"] = float(s["T"] * L**2 / alpha / steps)
        m = build(q, rf)
        m.compile("analytical", "D1P1")
        m.run(nsteps=steps)
        a = np.array(m.solution.pressures[-1])
        m.compile("numerical", "FDM", sparse=s["sparse"])
        m.run(nsteps=steps, check_MB=False, isolver=None)
        err.append(np.abs(np.array(m.solution.pressures[-1]) - a)[1:-1].max() / (abs(pi - p0) + abs(pn - pi)))
    harness.require(err[2] <= 0.06, f"finite differences with 32 cells and 128 steps are {err[2]:.3g} of the pressure range off (8 cells: {err[0]:.3g})")
    harness.require(err[2] <= 0.75 * err[0] + 1e-3, f"refining does not reduce the distance to the analytical solution: {err}")
    rec.nontrivial_if(err[0] > 1e-3)


SUBS = [
    harness.Sub("exact", case(), run, quick=1200, thorough=30000),
    harness.Sub("hundreds", case(big=True), run, quick=96, thorough=1200, shards=8),
    harness.Sub("steady", steady(), run_steady, quick=200, thorough=4000),
    harness.Sub("refinement", refine(), run_refine, quick=80, thorough=1500),
]
PINNED = {}
