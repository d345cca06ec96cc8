"""Independent reference models (written from the documentation and the textbook
formulas, in plain numpy over explicit (i, j, k) loops; nothing is imported from the
code under test)."""
import itertools
import math

import numpy as np

# The documented unit tables (docs: user guide "Units & Factors").
FACTORS = {
    "field": dict(beta=0.001127, alpha=5.614583, gamma=0.21584e-3, g=32.174),
    "metric": dict(beta=0.0864, alpha=1.0, gamma=0.001, g=9.806635),
    "lab": dict(beta=1.0, alpha=1.0, gamma=0.986923e-6, g=980.6635),
}
AX = "xyz"


def pat_index(c, L):
    """Deterministic scattered pattern index of cell c."""
    return ((c * 2654435761) % (1 << 32) >> 9) % L


def expand(field, n):
    """A field spec -> array of n values. Number, list of n, or {"base","mult"[,"plus"]}."""
    if isinstance(field, dict):
        m = field["mult"]
        return np.array([field.get("plus", 0) + field["base"] * m[pat_index(c, len(m))] for c in range(n)], dtype=float)
    if isinstance(field, list):
        assert len(field) == n, (len(field), n)
        return np.array(field, dtype=float)
    return np.full(n, float(field))


class Grid:
    """Cell numbering: boundary cells are added on both ends of every flow direction
    (more than one cell); ids run x fastest, then y, then z."""

    def __init__(self, spec):
        self.spec = spec
        self.n = tuple(spec["n"])
        self.flow = [ax for ax in range(3) if self.n[ax] > 1]
        self.fdir = "".join(AX[a] for a in self.flow) or "-"
        self.D = len(self.flow)
        self.nb = tuple(n + 2 if n > 1 else n for n in self.n)
        self.N = int(np.prod(self.nb))
        self.Nin = int(np.prod(self.n))
        self.unify = spec.get("unify", True)
        # per-axis cell sizes, boundary cells included
        self.d1 = []
        for ax in range(3):
            d = spec["d"][ax]
            self.d1.append(np.array(d, dtype=float) if isinstance(d, list) else np.full(self.nb[ax], float(d)))
            assert len(self.d1[ax]) == self.nb[ax]
        self.coords = [(i, j, k) for k in range(self.nb[2]) for j in range(self.nb[1]) for i in range(self.nb[0])]
        self.inside = [
            c for c, xyz in enumerate(self.coords) if all(0 < xyz[a] < self.nb[a] - 1 for a in self.flow)
        ]
        ins = set(self.inside)
        self.bound = [c for c in range(self.N) if c not in ins]
        self.idx = {c: i for i, c in enumerate(self.inside)}
        self.d = [np.array([self.d1[a][xyz[a]] for xyz in self.coords]) for a in range(3)]
        self.A = [self.d[1] * self.d[2], self.d[0] * self.d[2], self.d[0] * self.d[1]]
        self.V = self.d[0] * self.d[1] * self.d[2]

    def id(self, i, j, k):
        return i + self.nb[0] * (j + self.nb[1] * k)

    def faces(self, c, ax):
        """ids of the cells sharing a face with c along ax, in increasing order."""
        xyz = list(self.coords[c])
        out = []
        for s in (-1, 1):
            v = xyz.copy()
            v[ax] += s
            if 0 <= v[ax] < self.nb[ax]:
                out.append(self.id(*v))
        return out

    def centers(self):
        e = [np.concatenate([[0], np.cumsum(d)]) for d in self.d1]
        return np.array([[(e[a][xyz[a]] + e[a][xyz[a] + 1]) / 2 for a in range(3)] for xyz in self.coords])

    def fshape(self, boundary):
        n = self.nb if boundary else self.n
        full = (n[2], n[1], n[0])
        if self.D == 3 or self.unify:
            return full
        if self.D == 0:
            return (1,)
        return tuple(n[a] for a in (2, 1, 0) if a in self.flow)

    def field(self, name):
        return expand(self.spec[name], self.N)

    def G(self, a, b, ax, k):
        """Two-point geometric factor between face neighbours (series flow)."""
        beta = FACTORS[self.spec.get("unit", "field")]["beta"]
        if k[a] == 0 or k[b] == 0:
            return 0.0
        return 2 * beta / (self.d[ax][a] / (self.A[ax][a] * k[a]) + self.d[ax][b] / (self.A[ax][b] * k[b]))


class Sim:
    """Textbook block-centred, implicit, single-phase flow simulator.

    For every cell c, at every step:
        sum_n T_cn (p_n - p_c - g (z_n - z_c))          neighbours
      + sum_b 2 T_cb (v_b - p_c - g (z_b - z_c))        pressure boundaries
      + sum_b q_b                                       rate boundaries
      + q_w                                             wells
      = V phi c / (alpha B dt) (p_c - p_c_old)
    Wells: q_w = q_sp while p_wf = p_c + q_sp B mu / G stays at or above the limit,
    otherwise q_w = -G/(B mu) (p_c - p_sp), the step being solved again.
    """

    def __init__(self, spec):
        self.spec = s = spec
        g = self.g = Grid(s["grid"])
        f = s["fluid"]
        unit = s["grid"].get("unit", "field")
        self.fac = FACTORS[unit]
        self.mu, self.B = f["mu"], f["B"]
        self.rho = f.get("rho", 0) or 0
        self.grav = self.fac["gamma"] * self.rho * self.fac["g"]
        self.comp = (f.get("comp") or 0) + (s["grid"].get("comp") or 0)
        self.dt = s.get("dt", 1)
        self.k = [g.field("k" + AX[a]) if ("k" + AX[a]) in s["grid"] else None for a in range(3)]
        self.z = g.field("z") if "z" in s["grid"] else np.zeros(g.N)
        if self.comp > 0:
            self.RHS = g.V * g.field("phi") * self.comp / (self.fac["alpha"] * self.B * self.dt)
        else:
            self.RHS = np.zeros(g.N)
        self.bnd = {}
        for b in s.get("bounds", []):
            self.bnd[b["id"]] = (b["kind"], b["v"])
        self.wells = {}
        for w in s.get("wells", []):
            self.set_well(w)
        self.assemble()
        self.p = np.full(g.N, np.nan)
        if s.get("pi") is not None:
            self.p[g.inside] = s["pi"]
        self.fill_bounds()
        self.P = [self.p.copy()]
        self.Q = [None]
        self.PW = []
        self.marginal = False
        self.cond = 0.0
        self.switched = 0
        self.recovered = 0

    def set_well(self, w):
        """New well, or another specification of the well in that cell."""
        d = self.wells.setdefault(w["id"], {"s": 0})
        d.update(w)
        d["s"] = d["s"] or 0
        d["G"] = self.well_G(w["id"], d["r"], d["s"])
        d["mode"] = "q" if "q" in d else "pwf"
        d["lim"] = d.get("pwf", 0)

    def fill_bounds(self):
        self.p[self.g.bound] = np.nan
        for m, (kind, v) in self.bnd.items():
            if kind == "pressure":
                self.p[m] = v

    def assemble(self):
        """Linear system of everything that is not a well or an accumulation."""
        g = self.g
        n = g.Nin
        self.A = np.zeros((n, n))
        self.b0 = np.zeros(n)
        self.pb = []  # pressure boundaries: (b, c, 2T, v, dz)
        self.qb = []
        for c in g.inside:
            i = g.idx[c]
            for ax in g.flow:
                for m in g.faces(c, ax):
                    T = g.G(c, m, ax, self.k[ax]) / (self.mu * self.B)
                    dz = self.z[m] - self.z[c]
                    if m in g.idx:
                        self.A[i, g.idx[m]] += T
                        self.A[i, i] -= T
                        self.b0[i] += T * self.grav * dz
                    elif m in self.bnd:
                        kind, v = self.bnd[m]
                        if kind == "pressure":
                            self.A[i, i] -= 2 * T
                            self.b0[i] -= 2 * T * (v - self.grav * dz)
                            self.pb.append((m, c, 2 * T, v, dz))
                        else:
                            q = v if kind == "rate" else T * g.d[ax][c] * v
                            self.b0[i] -= q
                            self.qb.append((m, c, q))

    def well_G(self, c, r, s):
        g = self.g
        k, d = [None if self.k[a] is None else self.k[a][c] for a in range(3)], [g.d[a][c] for a in range(3)]
        if g.fdir == "x":
            kH = k[0]
            req = 0.14 * math.sqrt(d[0] ** 2 + d[1] ** 2)
        else:  # xy, xyz: Peaceman, vertical well
            kH = math.sqrt(k[0] * k[1])
            a = math.sqrt(k[1] / k[0])
            req = 0.28 * math.sqrt(a * d[0] ** 2 + d[1] ** 2 / a) / (math.sqrt(a) + 1 / math.sqrt(a))
        return 2 * math.pi * self.fac["beta"] * kH * d[2] / (math.log(12 * req / r) + s)

    def system(self, modes, p_old):
        g = self.g
        A = self.A - np.diag(self.RHS[g.inside])
        b = self.b0 - self.RHS[g.inside] * np.where(self.RHS[g.inside] == 0, 0, p_old[g.inside])
        for c, w in self.wells.items():
            i = g.idx[c]
            if modes[c] == "q":
                b[i] -= w["q"]
            else:
                J = w["G"] / (self.mu * self.B)
                A[i, i] -= J
                b[i] -= J * w["lim"]
        return A, b

    def solve_modes(self, modes, p_old):
        A, b = self.system(modes, p_old)
        # the worst system met so far, discarded well modes included
        self.cond = max(self.cond, np.linalg.cond(A))
        p = p_old.copy()
        try:
            p[self.g.inside] = np.linalg.solve(A, b)
        except np.linalg.LinAlgError:  # no unique solution, e.g. sealed cells
            self.cond = np.inf
            p[self.g.inside] = np.linalg.lstsq(A, b, rcond=None)[0]
        return p

    def step(self, rel=1e-6):
        g = self.g
        self.fill_bounds()
        self.old = old = self.p
        modes = {c: w["mode"] for c, w in self.wells.items()}
        # every well delivers max(q_sp, G/(B mu) (p_sp - p)): policy iteration
        for _ in range(4 * len(self.wells) + 4):
            p = self.solve_modes(modes, old)
            changed = False
            for c, w in self.wells.items():
                if "q" not in w:
                    continue
                est = p[c] + w["q"] * self.B * self.mu / w["G"]
                if abs(est - w["lim"]) <= rel * (abs(est) + abs(w["lim"]) + abs(p[c])):
                    self.marginal = True
                want = "pwf" if est < w["lim"] else "q"
                if modes[c] != want:
                    modes[c] = want
                    changed = True
            if not changed:
                break
        else:
            self.marginal = True
        q = np.zeros(g.N)
        for m, c, T2, v, dz in self.pb:
            q[m] += T2 * (v - p[c] - self.grav * dz)
        for m, c, v in self.qb:
            q[m] += v
        pw = {}
        for c, w in self.wells.items():
            J = w["G"] / (self.mu * self.B)
            if modes[c] == "q":
                q[c] += w["q"]
                pw[c] = p[c] + w["q"] / J
            else:
                q[c] += -J * (p[c] - w["lim"])
                pw[c] = w["lim"]
            if w["mode"] != modes[c]:
                self.switched += 1
                self.recovered += modes[c] == "q"
            w["mode"] = modes[c]
        self.modes = modes
        self.p = p
        self.P.append(p.copy())
        self.Q.append(q)
        self.PW.append(pw)
        return p, q, pw
