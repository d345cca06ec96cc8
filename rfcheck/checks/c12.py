"""C12: boundary conditions mean the same however they are given."""
import numpy as np
from hypothesis import strategies as st

from .. import env, gen, harness, ref, simcheck
from .c07 import labels

PROPERTY = "C12"
RULE = (
    "random problems whose boundary conditions (faces, edges and corners; pressure, rate, gradient; zero included) are set by "
    "a random history of set_boundary / set_boundaries / set_all_boundaries calls with any documented alias and letter case, "
    "in any order, before and after compiling and between steps, mixed with rejected calls; every step is judged by the "
    "reference simulator holding the conditions in force (row-wise residual, pressures, boundary rates, recorded boundary "
    "values); non-trivial: conditions set by more than one call, or after compiling, or between steps, or on edge cells"
)
ASSUMPTIONS = ["as C07; a step without a unique solution (incompressible and no pressure anywhere) ends the case"]
ALIAS = {"pressure": ["pressure", "press", "p"], "rate": ["rate", "q"], "gradient": ["gradient", "grad", "g"]}


def alias(draw, kind):
    a = draw(st.sampled_from(ALIAS[kind]))
    return draw(st.sampled_from([a, a, a.upper(), a.capitalize()]))


def value(draw, kind):
    if kind == "pressure":
        return float(draw(st.one_of(st.integers(500, 6500), st.sampled_from([0, 14, 4000, -250, -1500]))))
    if kind == "rate":
        return draw(st.sampled_from([0.0, 0, 100.0, -50, 7.5, -300.0]))
    return draw(st.sampled_from([0.0, 0.1, -0.25, 1]))


@st.composite
def a_call(draw, g, fids):
    how = draw(st.sampled_from(["one", "one", "dict", "dict", "all", "bad"]))
    kind = draw(st.sampled_from(["pressure", "pressure", "rate", "gradient"]))
    pool = list(g.bound) + fids * 3
    if how == "one":
        return [how, [[draw(st.sampled_from(pool)), alias(draw, kind), kind, value(draw, kind)]]]
    if how == "dict":
        ids = []
        for _ in range(draw(st.integers(0, 4))):
            b = draw(st.sampled_from(pool))
            if b not in ids:
                ids.append(b)
        out = []
        for b in ids:
            k = draw(st.sampled_from(["pressure", "rate", "gradient"]))
            out.append([b, alias(draw, k), k, value(draw, k)])
        return [how, out]
    if how == "all":
        if draw(st.booleans()):
            kind = "pressure"
        return [how, [[None, alias(draw, kind), kind, value(draw, kind)]]]
    what = draw(st.sampled_from(["cond", "cell", "dict-cond", "dict-cell", "all-cond"]))
    b = draw(st.sampled_from(pool))
    if "cell" in what:
        b = draw(st.sampled_from(list(g.inside) + [g.N, g.N + 3, -1]))
    good = draw(st.sampled_from(fids))
    name = draw(st.sampled_from(["", "pres", "flux", "dirichlet", "pressures", "rates", "qq", "pq"])) if "cond" in what else "pressure"
    return [how, [what, b, name, good]]


@st.composite
def case(draw, vect=True, steps=(1, 4), pre=3, **kw):
    kw.setdefault("dmax", (6, 4, 3))
    kw.setdefault("cells", 18)
    s = draw(gen.flow(gravity="maybe", steps=steps, bounds=False, **kw))
    g = ref.Grid(s["grid"])
    fids = gen.boundary_face_ids(s["grid"]["n"])
    s["calls"] = [draw(st.lists(a_call(g, fids), min_size=0, max_size=pre)), draw(st.lists(a_call(g, fids), min_size=0, max_size=pre))]
    for _ in range(s["steps"] - 1):
        s["calls"].append(draw(st.lists(a_call(g, fids), max_size=2)) if draw(st.booleans()) else [])
    s["sparse"] = draw(st.booleans())
    s["vectorize"] = vect
    return s


def apply(m, S, call, rec):
    how, items = call
    g = S.g
    rec.label("call " + how)
    if how == "bad":
        what, b, name, good = items
        fn = {
            "cond": lambda: m.set_boundary(b, name, 1000.0),
            "cell": lambda: m.set_boundary(b, name, 1000.0),
            "dict-cond": lambda: m.set_boundaries({good: ("pressure", 77.0), b: (name, 5.0)} if good != b else {b: (name, 5.0)}),
            "dict-cell": lambda: m.set_boundaries({good: ("pressure", 77.0), b: (name, 5.0)}),
            "all-cond": lambda: m.set_all_boundaries(name, 5.0),
        }[what]
        harness.expect_raises(fn, (ValueError, AssertionError, KeyError, IndexError, TypeError), f"{what}: cell {b}, condition {name!r}")
        return
    if how == "one":
        b, a, kind, v = items[0]
        m.set_boundary(b, a, v)
        S.bnd[b] = (kind, v)
    elif how == "dict":
        d = {b: (a, v) for b, a, _k, v in items}
        keep = dict(d)
        m.set_boundaries(d)
        harness.same(d, keep, "the dictionary given to set_boundaries")
        S.bnd = {b: (k, v) for b, _a, k, v in items}
    else:
        _, a, kind, v = items[0]
        m.set_all_boundaries(a, v)
        S.bnd = {b: (kind, v) for b in g.bound}
    if any(b not in gen_faces(g) for b in S.bnd):
        rec.label("edge or corner conditioned")


_faces = {}


def gen_faces(g):
    if g.n not in _faces:
        _faces[g.n] = set(gen.boundary_face_ids(list(g.n)))
    return _faces[g.n]


def run(s, rec):
    rf = env.load()
    S = ref.Sim(dict(s, bounds=[]))
    g = S.g
    labels(dict(s, bounds=[]), S, rec)
    m = gen.build_model(dict(s, bounds=[]), rf, compile=False)
    good = 0
    for c in s["calls"][0]:
        apply(m, S, c, rec)
        good += c[0] != "bad"
    m.compile(stype="numerical", method="FDM", sparse=s["sparse"])
    sol = m.solution
    late = False
    P = None
    for i in range(s["steps"]):
        for c in s["calls"][1 + i]:
            before = (sol.pressures.copy(), sol.rates.copy())
            apply(m, S, c, rec)
            late = late or c[0] != "bad"
            good += c[0] != "bad"
            if c[0] == "bad" or i > 0:
                harness.close(sol.pressures, before[0], f"recorded pressures after {c}", rtol=0)
                harness.close(sol.rates, before[1], f"recorded rates after {c}", rtol=0)
        S.assemble()
        S.fill_bounds()
        p0, q0 = m.get_init_arrays()
        want_p, want_q, tol_q = np.full(g.N, np.nan), np.zeros(g.N), np.zeros(g.N)
        if s["pi"] is not None:
            want_p[g.inside] = s["pi"]
        for b, (k, v) in S.bnd.items():
            if k == "pressure":
                want_p[b] = v
        for b, _c, q in S.qb:
            want_q[b], tol_q[b] = q, 1e-10 * abs(q)
        harness.same((np.shape(p0), np.shape(q0)), ((1, g.N),) * 2, "shapes of get_init_arrays")
        harness.close(p0[0], want_p, f"initial pressures of the model before step {i + 1}", rtol=0)
        harness.close(q0[0], want_q, f"initial rates of the model before step {i + 1}", rtol=0, atol=tol_q)
        p0[:], q0[:] = 77.0, -77.0  # copies
        if i == 0:
            harness.close(sol.pressures[0], S.p, "initial pressures", rtol=0)
            harness.close(sol.rates[0], want_q, "initial rates", rtol=0, atol=tol_q)
        if S.comp == 0 and not S.pb and not any(w["mode"] == "pwf" for w in S.wells.values()) and not any("q" not in w for w in S.wells.values()):
            rec.label("ended: no pressure anywhere")
            break
        m.solve(vectorize=s["vectorize"], check_MB=False, isolver=None)
        try:
            simcheck.step(S, sol, i, rec)
        except simcheck.Skip as e:
            rec.label("skipped: " + str(e))
            break
        want = np.full(g.N, np.nan)
        for b, (k, v) in S.bnd.items():
            if k == "pressure":
                want[b] = v
        harness.close(np.asarray(sol.pressures[i + 1])[g.bound], want[g.bound], f"step {i + 1}: recorded boundary pressures", rtol=0)
        if P is not None:
            harness.close(sol.pressures[: i + 1], P[0], f"step {i + 1}: past pressures", rtol=0)
            harness.close(sol.rates[: i + 1], P[1], f"step {i + 1}: past rates", rtol=0)
        P = (sol.pressures.copy(), sol.rates.copy())
        rec.nontrivial_if(bool(S.bnd) and (good > 1 or late or any(b not in gen_faces(g) for b in S.bnd)))


@st.composite
def meta_case(draw):
    s = draw(gen.flow(gravity="maybe", steps=(1, 3), dmax=(6, 4, 3), cells=18))
    s["sparse"] = draw(st.booleans())
    s["alias"] = [alias(draw, b["kind"]) for b in s["bounds"]]
    s["order"] = draw(st.permutations(range(len(s["bounds"]))))
    s["how"] = draw(st.sampled_from(["one", "dict", "one-after", "dict-after", "extra", "gradient-as-rate", "explicit-zero"]))
    return s


def run_meta(s, rec):
    """Two ways of stating the same conditions give the same run."""
    rf = env.load()
    S = ref.Sim(s)
    for _ in range(s["steps"]):
        S.step()
        if S.marginal or S.cond > 1e8:
            rec.label("skipped")
            return
    m1 = gen.build_model(s, rf, sparse=s["sparse"])
    m2 = gen.build_model(dict(s, bounds=[]), rf, compile=False)
    how = s["how"]
    items = []
    qb = {b: q for b, _c, q in S.qb}
    for j in s["order"]:
        b = s["bounds"][j]
        if how == "gradient-as-rate" and b["kind"] == "gradient":
            items.append((b["id"], "rate", qb[b["id"]]))
        else:
            items.append((b["id"], s["alias"][j], b["v"]))
    if how == "explicit-zero":
        given = {b["id"] for b in s["bounds"]}
        items += [(b, "rate", 0.0) for b in S.g.bound if b not in given]
    after = how.endswith("-after")
    if after:
        m2.compile(stype="numerical", method="FDM", sparse=s["sparse"])
    if how == "extra":
        m2.set_boundaries({b: ("p", 123.0) for b in S.g.bound})
    if how.startswith("one"):
        for b, a, v in items:
            m2.set_boundary(b, a, v)
    else:
        m2.set_boundaries({b: (a, v) for b, a, v in items})
    if not after:
        m2.compile(stype="numerical", method="FDM", sparse=s["sparse"])
    for m in (m1, m2):
        m.run(nsteps=s["steps"], check_MB=False, isolver=None)
    rec.label(how)
    rec.nontrivial_if(len(items) > 0)
    scale = max(float(np.nanmax(np.abs(p))) for p in S.P) + 1
    T = max([t for *_, t, _v, _dz in S.pb] + [w["G"] / (S.mu * S.B) for w in S.wells.values()] + [0.0])
    rt = 1e-10 * max(1, S.cond * 1e-5)
    harness.close(m2.solution.pressures, m1.solution.pressures, f"pressures ({how})", rtol=rt, scale=scale)
    harness.close(m2.solution.rates, m1.solution.rates, f"rates ({how})", rtol=rt, scale=float(np.abs(m1.solution.rates).max()) + T * scale + 1e-300)


SUBS = [
    harness.Sub("history", case(), run, quick=600, thorough=20000),
    harness.Sub("3d", case(D=[3], dmax=(3, 3, 3), cells=27, steps=(1, 3)), run, quick=120, thorough=4000),
    harness.Sub("hundreds", case(big=True, steps=(1, 2)), run, quick=160, thorough=1500, shards=8),
    harness.Sub("thousands", case(big=1300, steps=(1, 1)), run, quick=32, thorough=160, shards=8),
    harness.Sub("symbolic", case(vect=False, dmax=(4, 3, 2), cells=6, steps=(1, 3), pre=2), run, quick=120, thorough=3000, shards=8),
    harness.Sub("same-conditions", meta_case(), run_meta, quick=300, thorough=9000),
]
PINNED = {}
