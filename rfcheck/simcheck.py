"""Comparison of the real simulator with ref.Sim, step by step."""
import numpy as np

from . import harness

BT = 1e-9  # backward (row-wise) tolerance of a direct solve


class Skip(Exception):
    """The case is numerically marginal (counted, not judged)."""


def step(S, sol, i, rec=None, bt=BT, rates=True, what=""):
    """Advance S from the recorded row i of the solution and judge row i + 1.

    * every cell equation holds for the recorded pressures (row-wise residual relative
      to the magnitude of its terms), with the well states of the reference,
    * the pressures are those of the reference up to conditioning,
    * every boundary/well rate follows from the recorded pressures.
    """
    g = S.g
    tag = f"{what}step {i + 1}: "
    P, R = harness.as_float(sol.pressures, "pressures"), harness.as_float(sol.rates, "rates")
    if P.shape[0] < i + 2 or R.shape[0] != P.shape[0] or P.shape[1:] != (g.N,) or R.shape[1:] != (g.N,):
        raise harness.Violation(f"{tag}pressures {P.shape} / rates {R.shape}, expected at least {i + 2} rows of {g.N}")
    p_old, p, q = P[i].copy(), P[i + 1], R[i + 1]
    S.p = p_old.copy()
    pr, qr, pwr = S.step()
    if S.marginal:
        raise Skip("marginal switch")
    if S.cond > 1e9:
        raise Skip("ill-conditioned")
    scale = np.nanmax(np.abs(pr)) + 1
    harness.close(p, pr, tag + "pressures", rtol=1e-8 * max(1, S.cond * 1e-6), scale=scale)
    A, b = S.system(S.modes, p_old)
    x = p[g.inside]
    # the last term: cells whose whole equation cancels to (nearly) nothing
    mag = np.abs(A) @ np.abs(x) + np.abs(b) + 1e-3 * np.abs(np.diag(A)) * np.abs(x).max() + 1e-12
    harness.close((A @ x - b) / mag, np.zeros(len(x)), tag + "flow equations (relative residual per internal cell)", atol=bt)
    if not rates:
        return
    want = np.zeros(g.N)
    tol = np.full(g.N, 1e-12)
    for m, c, T2, v, dz in S.pb:
        want[m] += T2 * (v - p[c] - S.grav * dz)
        tol[m] += 1e-9 * T2 * (abs(v) + abs(p[c]) + abs(S.grav * dz))
    for m, c, v in S.qb:
        want[m] += v
        tol[m] += 1e-9 * abs(v)
    for c, w in S.wells.items():
        J = w["G"] / (S.mu * S.B)
        want[c] = w["q"] if S.modes[c] == "q" else -J * (p[c] - w["lim"])
        tol[c] += 1e-9 * (abs(want[c]) + J * (abs(p[c]) + abs(w["lim"])))
    bad = ~(np.abs(q - want) <= tol)
    if bad.any():
        j = int(np.argmax(bad))
        kind = "well" if j in S.wells else "boundary" if j in S.g.bound else "internal cell"
        raise harness.Violation(f"{tag}rate of {kind} {j}: got {q[j]!r}, expected {want[j]!r} ({int(bad.sum())} cells differ)")
    if rec is not None and S.switched:
        rec.label("well switched")


def initial(S, sol):
    P, R = harness.as_float(sol.pressures, "pressures"), harness.as_float(sol.rates, "rates")
    S.fill_bounds()
    harness.close(P[0], S.p, "initial pressures", rtol=0)
    return P, R


def well_modes(S, m, rates):
    """What limits every well in the step of these recorded rates (as the model says it, or as the rate tells)."""
    out = {}
    for c, w in S.wells.items():
        mode = m.wells[c].get("constrain")
        if mode not in ("q", "pwf"):
            mode = "q" if "q" in w and rates[c] == w["q"] else "pwf"
        out[c] = mode
    return out
