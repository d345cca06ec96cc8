"""C10: a run is the sum of its steps and of nothing else."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, harness, ref
from .c09 import reference

PROPERTY = "C10"
RULE = (
    "random schedules over two live models (separate, equal, or sharing the grid and the fluid object) with up to two "
    "solutions each: solve, run of k steps, solve without update, compile again, switch solution, export/query in between, "
    "with changing options; after every operation the complete record of every solution must equal the first rows of an "
    "isolated run of the same problem; non-trivial: at least two different solutions advanced in an interleaved way or a "
    "run split into pieces with other operations in between"
)
ASSUMPTIONS = [
    "agreement with the isolated run within 1e-10 of the pressure range scaled by conditioning (bitwise where the same "
    "options are used in the same order)",
    "marginal well switches and condition numbers above 1e9 are counted and skipped",
]
QUERIES = ["df", "df_melt", "df_scaled", "time", "centers", "shape", "trans", "grid", "repr", "mb", "solutions", "alpha"]


@st.composite
def case(draw, symbolic=False, maxops=9, **kw):
    kw.setdefault("dmax", (6, 3, 3))
    kw.setdefault("cells", 12)
    a = draw(gen.flow(gravity="maybe", steps=(1, 1), **kw))
    share = draw(st.sampled_from(["none", "equal", "grid", "grid+fluid", "single"]))
    models = [a]
    if share == "none":
        models.append(draw(gen.flow(gravity="maybe", steps=(1, 1), **kw)))
    elif share == "equal":
        models.append(copy.deepcopy(a))
    elif share != "single":
        b = draw(gen.flow_on(st.just(copy.deepcopy(a["grid"])), comp=bool(a["grid"].get("comp") or a["fluid"].get("comp")), gravity=False, steps=(1, 1)))
        b["grid"] = a["grid"]
        if share == "grid+fluid" or (not b["fluid"].get("comp") and not a["grid"].get("comp")):
            b["fluid"] = a["fluid"]
        models.append(b)
    ops = []
    for _ in range(draw(st.integers(2, maxops))):
        m = draw(st.integers(0, len(models) - 1))
        kind = draw(st.sampled_from(["solve", "solve", "run", "run", "query", "switch", "recompile", "dry", "fork"]))
        o = {"vectorize": draw(st.booleans()) if symbolic else True, "threading": draw(st.booleans()), "check_MB": draw(st.booleans())}
        if kind == "solve":
            ops.append([kind, m, 1, o])
        elif kind == "run":
            ops.append([kind, m, draw(st.integers(1, 4 if not symbolic else 2)), o])
        elif kind == "query":
            ops.append([kind, m, draw(st.sampled_from(QUERIES))])
        elif kind == "dry":
            ops.append([kind, m, o])
        else:
            ops.append([kind, m, draw(st.booleans())])
    return {"models": models, "share": share, "ops": ops}


def query(m, what):
    sol = m.solution
    if what == "df":
        df = m.get_df(drop_nan=False, drop_zero=False)
        harness.same(len(df), len(sol.pressures), "rows of the exported table")
    elif what == "df_melt":
        m.get_df(columns=["time", "cells"], melt=True)
    elif what == "df_scaled":
        if sol.tstep > 0:
            m.get_df(scale=True)
    elif what == "time":
        m.get_time()
    elif what == "centers":
        m.get_centers()
    elif what == "shape":
        harness.same(tuple(m.get_shape(True)), sol.pressures.shape, "get_shape(True)")
    elif what == "trans":
        m.get_cells_trans(True, True)
        m.get_cells_trans(False, False)
    elif what == "grid":
        m.grid.get_cells_V(True, False, "array")
        m.grid.get_boundaries("id", "list")
        m.grid.get_cell_neighbors(int(m.grid.cells_id[0]), None, False, "dict")
    elif what == "repr":
        repr(m)
    elif what == "mb":
        if sol.tstep > 0:
            sol.check_MB()
    elif what == "solutions":
        m.get_solutions()
    elif what == "alpha":
        if m.comp > 0:
            m.get_alpha()


def isolated(spec, sparse, n, rf):
    m = gen.build_model(spec, rf, sparse=sparse)
    for _ in range(n):
        m.solve(check_MB=False, isolver=None)
    return np.array(m.solution.pressures), np.array(m.solution.rates), {k: list(v) for k, v in m.solution.w_pressures.items()}, m


def run(s, rec):
    rf = env.load()
    specs = s["models"]
    nm = len(specs)
    # how far can any solution get?
    total = [1 + sum(op[2] for op in s["ops"] if op[0] in ("solve", "run") and op[1] == i) for i in range(nm)]
    refs, tols = [], []
    for sp, n in zip(specs, total):
        S = reference(dict(sp, steps=n), rec)
        if S is None:
            return
        scale = max(float(np.nanmax(np.abs(S.P[-1]))) + 1, float(np.nanmax(np.abs(S.P[0]))) + 1)
        T = max([t for *_, t, _v, _dz in S.pb] + [w["G"] / (S.mu * S.B) for w in S.wells.values()] + [0.0])
        qs = max(float(np.abs(q).max()) for q in S.Q[1:])
        tols.append((1e-10 * max(1, S.cond * 1e-5), scale, qs + T * scale + 1e-300, {k: scale + (qs + T * scale) / (w["G"] / S.mu / S.B) for k, w in S.wells.items()}))
    iso = {}
    for i, sp in enumerate(specs):
        used = {False} | {op[2] for op in s["ops"] if op[0] in ("switch", "recompile") and op[1] == i}
        for sparse in used:
            iso[i, sparse] = isolated(sp, sparse, total[i], rf)
    # the models under test
    models = []
    for i, sp in enumerate(specs):
        if i == 1 and s["share"] in ("grid", "grid+fluid"):
            m = build_shared(sp, specs[0], models[0], rf, s["share"])
        else:
            m = gen.build_model(sp, rf, sparse=False)
        models.append(m)
    live = {}  # (model, sparse) -> [solution, steps]
    names = {}
    for i, m in enumerate(models):
        live[i, False] = [m.solution, 0]
        names[i, False] = m.get_solutions()[-1]
    cur = [False] * nm
    order = []
    pieces = 0
    for no, op in enumerate(s["ops"]):
        i, m = op[1], models[op[1]]
        key = (i, cur[i])
        if op[0] == "solve":
            m.solve(isolver=None, **op[3])
            live[key][1] += 1
        elif op[0] == "run":
            m.run(nsteps=op[2], isolver=None, **op[3])
            live[key][1] += op[2]
        elif op[0] == "dry":
            m.solve(isolver=None, update=False, **op[2])
        elif op[0] == "query":
            query(m, op[2])
        elif op[0] == "recompile":
            m.compile(stype="numerical", method="FDM", sparse=op[2])
            cur[i] = op[2]
            live[i, op[2]] = [m.solution, 0]
            names[i, op[2]] = next(n for n in m.get_solutions() if m.solutions[n] is m.solution)
        elif op[0] == "fork":
            # an independent copy goes on instead, the results of the other one stay as they are (or the other way round)
            m2 = copy.deepcopy(m)
            olds = {k: live[k] for k in live if k[0] == i}
            for (_, sparse), (sol, n) in olds.items():
                sol2 = m2.solutions[names[i, sparse]]
                a, b = (sol2, sol) if op[2] else (sol, sol2)
                live[i, sparse] = [a, n]
                live[(i, no), sparse] = [b, n]
            if op[2]:
                models[i] = m = m2
            rec.label("forked")
        elif op[0] == "switch":
            if (i, op[2]) in live:
                m.set_solution(names[i, op[2]])
                cur[i] = op[2]
        if op[0] in ("solve", "run"):
            if order[-1:] != [key]:
                order.append(key)
            pieces += 1
        for (j, sparse), (sol, n) in live.items():
            j = j[0] if isinstance(j, tuple) else j
            what = f"after operation {no} {op[:3]}: model {j} ({'sparse' if sparse else 'dense'}, {n} steps): "
            harness.same((sol.tstep, sol.nsteps, len(sol.pressures), len(sol.rates)), (n, n + 1, n + 1, n + 1), what + "tstep, nsteps, records")
            P, R, W, _ = iso[j, sparse]
            rt, ps, qs, ws = tols[j]
            harness.close(sol.pressures, P[: n + 1], what + "pressures", rtol=rt, scale=ps)
            harness.close(sol.rates, R[: n + 1], what + "rates", rtol=rt, scale=qs)
            harness.same(sorted(sol.w_pressures), sorted(W), what + "wells with recorded pressures")
            for k in W:
                harness.close(sol.w_pressures[k], W[k][: n + 1], what + f"flowing pressures of well {k}", rtol=rt, scale=ws[k])
        if m.solution is not live[i, cur[i]][0]:
            raise harness.Violation(f"after operation {no} {op[:3]}: model {i} does not use the solution it was set to")
    rec.label("share " + s["share"])
    rec.nontrivial_if(len(set(order)) > 1 and len(order) > len(set(order)) or pieces > 1)
    if len(order) > len(set(order)):
        rec.label("interleaved")


def build_shared(spec, first, m0, rf, share):
    f = spec["fluid"]
    unit = spec["grid"].get("unit", "field")
    if share == "grid+fluid":
        fl = m0.fluid
    else:
        fl = rf.fluids.SinglePhase(mu=f["mu"], B=f["B"], rho=f.get("rho"), comp=f.get("comp"), unit=unit, dtype="double")
    m = rf.models.BlackOil(m0.grid, fl, pi=spec.get("pi"), dt=spec.get("dt", 1), unit=unit, dtype="double")
    for w in spec.get("wells", []):
        m.set_well(cell_id=w["id"], **{k: w[k] for k in ("q", "pwf", "r", "s") if k in w})
    if spec.get("bounds"):
        m.set_boundaries({b["id"]: (b["kind"], b["v"]) for b in spec["bounds"]})
    m.compile(stype="numerical", method="FDM", sparse=False)
    return m


@st.composite
def det_case(draw):
    s = draw(gen.flow(gravity="maybe", steps=(2, 6), dmax=(6, 3, 3), cells=16))
    s["sparse"] = draw(st.booleans())
    cuts = []
    left = s["steps"]
    while left:
        k = draw(st.integers(1, left))
        cuts.append([draw(st.sampled_from(["run", "solve"])), k])
        left -= k
    s["cuts"] = cuts
    return s


def run_det(s, rec):
    """Two complete runs with the same options are bitwise equal, however they are cut."""
    rf = env.load()
    if reference(s, rec) is None:
        return
    ms = []
    for cut in (None, s["cuts"]):
        m = gen.build_model(s, rf, sparse=s["sparse"])
        if cut is None:
            m.run(nsteps=s["steps"], isolver=None, check_MB=False)
        else:
            for how, k in cut:
                if how == "run":
                    m.run(nsteps=k, isolver=None, check_MB=True)
                else:
                    for _ in range(k):
                        m.solve(isolver=None, check_MB=True)
        ms.append(m)
    rec.nontrivial_if(len(s["cuts"]) > 1)
    a, b = ms[0].solution, ms[1].solution
    for what in ("pressures", "rates"):
        x, y = np.asarray(getattr(a, what)), np.asarray(getattr(b, what))
        harness.same(x.shape, y.shape, f"shape of {what}")
        if not np.array_equal(x, y, equal_nan=True):
            i = tuple(int(v) for v in np.argwhere(~((x == y) | (np.isnan(x) & np.isnan(y))))[0])
            raise harness.Violation(f"{what} of one run and of {s['cuts']} differ at {i}: {x[i]!r} / {y[i]!r}")
    harness.same({k: [repr(float(x)) for x in v] for k, v in a.w_pressures.items()}, {k: [repr(float(x)) for x in v] for k, v in b.w_pressures.items()}, "flowing pressures")


@st.composite
def long_case(draw):
    """hundreds of steps: the record must stay as it was written, whatever its length"""
    s = draw(gen.flow(gravity="maybe", steps=(1, 1), dmax=(4, 2, 2), cells=5))
    s["sparse"] = draw(st.booleans())
    far = draw(st.integers(0, 11)) == 0
    s["cuts"] = [["run", draw(st.integers(150, 560) if far else st.one_of(st.integers(1, 40), st.integers(40, 130)))] for _ in range(draw(st.integers(2, 3)))]
    return s


@st.composite
def late_case(draw):
    """the same for wells whose limits become active on the way"""
    from . import c11

    s = draw(c11.depletion({}))
    n = s["steps"]
    a = draw(st.integers(1, n - 1))
    s["cuts"] = [["run", a], ["run", n - a]]
    return s


def run_long(s, rec):
    """The rows already recorded never change, and long runs are bitwise equal however they are cut."""
    rf = env.load()
    if reference(dict(s, steps=3), rec) is None:
        return
    n = sum(k for _, k in s["cuts"])
    m = gen.build_model(s, rf, sparse=s["sparse"])
    keep = None
    for _, k in s["cuts"]:
        m.run(nsteps=k, isolver=None, check_MB=False)
        sol = m.solution
        now = [np.array(sol.pressures, float), np.array(sol.rates, float)] + [np.array(sol.w_pressures[w], float) for w in sorted(sol.w_pressures)]
        if keep is not None:
            for i, (a, b) in enumerate(zip(keep, now)):
                name = ["pressures", "rates"][i] if i < 2 else "flowing pressures"
                if not np.array_equal(a, b[: len(a)], equal_nan=True):
                    raise harness.Violation(f"{name} of the first {len(a) - 1} steps changed while {k} further steps were run")
        keep = now
        harness.same((sol.nsteps, len(sol.rates), len(sol.As), len(sol.ds)), (sol.tstep + 1,) * 4, "nsteps and records after a run")
    harness.same(tuple(len(a) for a in keep), (n + 1,) * len(keep), "records of the run")
    o = gen.build_model(s, rf, sparse=s["sparse"])
    o.run(nsteps=n, isolver=None, check_MB=False)
    sol = o.solution
    other = [np.array(sol.pressures, float), np.array(sol.rates, float)] + [np.array(sol.w_pressures[w], float) for w in sorted(sol.w_pressures)]
    for i, (a, b) in enumerate(zip(keep, other)):
        name = ["pressures", "rates"][i] if i < 2 else "flowing pressures"
        harness.same(a.shape, b.shape, "shape of " + name)
        if not np.array_equal(a, b, equal_nan=True):
            j = tuple(int(v) for v in np.argwhere(~((a == b) | (np.isnan(a) & np.isnan(b))))[0])
            raise harness.Violation(f"{name} of a run of {n} steps and of the pieces {s['cuts']} differ at {j}: {b[j]!r} / {a[j]!r}")
    rec.nontrivial_if(n > 50)


ITERATIVE = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "qmr", "gcrotmk", "tfqmr"]


@st.composite
def fault_case(draw):
    """steps which fail while their linear system is being solved, and are tried again"""
    from . import c11

    if draw(st.booleans()):
        s = draw(gen.flow(gravity="maybe", steps=(2, 7), dmax=(5, 3, 3), cells=12, well_kinds=("both", "both", "q", "pwf")))
    else:
        s = draw(c11.depletion({}))
        s["steps"] = min(s["steps"], 12)
    s["sparse"] = draw(st.booleans())
    cuts = []
    left = s["steps"]
    while left:
        k = draw(st.integers(1, left))
        cuts.append([draw(st.sampled_from(["run", "run", "solve"])), k, draw(st.sampled_from(ITERATIVE + [None])) if s["sparse"] else None])
        left -= k
    s["cuts"] = cuts
    s["faults"] = draw(st.lists(st.integers(0, 6), min_size=1, max_size=4))  # calls of the solver between faults
    s["fault"] = draw(st.sampled_from(["exit", "memory", "interrupt", "singular"]))
    s["vectorize"] = draw(st.integers(0, 5)) > 0
    s["threading"] = draw(st.booleans())
    return s


class Faults:
    """scipy's solvers, with failures at the given calls; iterative solvers solve directly"""

    current = None
    installed = False

    def __init__(self, gaps, kind):
        self.gaps, self.kind = list(gaps), kind
        self.raised = self.calls = 0
        self.inside = False

    def due(self):
        self.calls += 1
        if not self.gaps:
            return False
        if self.gaps[0] > 0:
            self.gaps[0] -= 1
            return False
        self.gaps.pop(0)
        self.raised += 1
        return True

    @staticmethod
    def wrap(name, real, direct):
        def call(A, b, *a, **k):
            F = Faults.current
            if F is None or F.inside:
                return real(A, b, *a, **k)
            F.inside = True
            try:
                if F.due():
                    if F.kind == "exit" and name in ITERATIVE:
                        return np.zeros(np.shape(b)[0]), 1
                    if F.kind == "interrupt":
                        raise KeyboardInterrupt("injected fault")
                    raise (np.linalg.LinAlgError if F.kind == "singular" else MemoryError)("injected fault")
                if name in ITERATIVE:
                    return direct(A, b), 0
                return real(A, b, *a, **k)
            finally:
                F.inside = False

        return call

    def __enter__(self):
        import scipy.linalg as sl
        import scipy.sparse.linalg as ssl

        if not Faults.installed:  # once and for ever: the package may keep the functions it got
            Faults.installed = True
            direct = ssl.spsolve
            for mod, name in [(sl, "solve"), (ssl, "spsolve")] + [(ssl, n) for n in ITERATIVE]:
                setattr(mod, name, self.wrap(name, getattr(mod, name), direct))
        Faults.current = self
        return self

    def __exit__(self, *a):
        Faults.current = None


def run_faults(s, rec):
    """A step that failed while it was being solved leaves no trace: the run goes on as if it had not been tried."""
    rf = env.load()
    S = reference(s, rec)
    if S is None:
        return
    n = s["steps"]
    P, R, W, o = isolated(s, s["sparse"], n, rf)
    scale = max(float(np.nanmax(np.abs(S.P[-1]))) + 1, float(np.nanmax(np.abs(S.P[0]))) + 1)
    T = max([t for *_, t, _v, _dz in S.pb] + [w["G"] / (S.mu * S.B) for w in S.wells.values()] + [0.0])
    qs = max(float(np.abs(q).max()) for q in S.Q[1:]) + T * scale + 1e-300
    rt = 1e-10 * max(1, S.cond * 1e-5)
    m = gen.build_model(s, rf, sparse=s["sparse"])
    sol = m.solution
    opts = {"vectorize": s["vectorize"], "threading": s["threading"], "check_MB": False}
    failed = 0
    done = 0

    def judge(what):
        harness.same((sol.tstep, sol.nsteps, len(sol.pressures), len(sol.rates)), (done, done + 1, done + 1, done + 1), what + "tstep, nsteps, records")
        harness.close(sol.pressures, P[: done + 1], what + "pressures", rtol=rt, scale=scale)
        harness.close(sol.rates, R[: done + 1], what + "rates", rtol=rt, scale=qs)
        harness.same(sorted(sol.w_pressures), sorted(W), what + "wells with recorded pressures")
        for k in W:
            w = S.wells[k]
            harness.close(sol.w_pressures[k], W[k][: done + 1], what + f"flowing pressures of well {k}", rtol=rt, scale=scale + qs / (w["G"] / S.mu / S.B))

    with Faults(s["faults"], s["fault"]) as F:
        for how, k, isolver in s["cuts"]:
            end = done + k
            while done < end:
                seen, calls = F.raised, F.calls
                try:
                    if how == "run":
                        m.run(nsteps=end - done, isolver=isolver, **opts)
                        done = end
                    else:
                        m.solve(isolver=isolver, **opts)
                        done += 1
                except BaseException as e:
                    if F.raised == seen or type(e).__name__ == "_NoEnd":
                        raise
                    failed += 1
                    if not done <= sol.tstep < end:
                        raise harness.Violation(f"tstep is {sol.tstep} after a failure in steps {done + 1} to {end}")
                    done = sol.tstep if how == "run" else done
                    judge(f"after failure {failed} ({s['fault']}) in step {done + 1}: ")
                else:
                    if F.calls == calls:  # another solver, of another precision perhaps
                        rec.label("not judged: solvers out of reach")
                        return
                    if F.raised > seen:
                        rec.label("a failure of the solver was handled")
        judge(f"at the end, after {failed} failed steps: ")
    rec.label("fault " + s["fault"])
    rec.nontrivial_if(failed > 0 and n > 1)


SUBS = [
    harness.Sub("schedules", case(), run, quick=500, thorough=15000),
    harness.Sub("wells", case(D=[1, 2], dmax=(5, 3, 3), cells=9, well_kinds=("both",)), run, quick=200, thorough=6000),
    harness.Sub("symbolic", case(symbolic=True, dmax=(3, 2, 2), cells=6, maxops=6), run, quick=96, thorough=2500, shards=8),
    harness.Sub("cut", det_case(), run_det, quick=300, thorough=10000),
    harness.Sub("long", long_case(), run_long, quick=96, thorough=2500, shards=8),
    harness.Sub("late-limits", late_case(), run_long, quick=64, thorough=1500, shards=8),
    harness.Sub("faults", fault_case(), run_faults, quick=200, thorough=6000, shards=8),
]
PINNED = {}
