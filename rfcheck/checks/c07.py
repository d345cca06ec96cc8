"""C07: a solved time step satisfies the discretised flow equations."""
from hypothesis import strategies as st

from .. import env, gen, harness, ref, simcheck
from . import c11

PROPERTY = "C07"
RULE = (
    "random single-phase problems (1 to 3 flow directions along any axes, irregular heterogeneous directional grids, all "
    "unit systems, gravity, compressible or not, any mix of pressure/rate/gradient boundaries and wells), solved for 1 to "
    "6 steps with dense/sparse and vectorised/symbolic assembly, every step judged against an independent simulator: "
    "row-wise residual of every cell equation, pressures, boundary and well rates; non-trivial: at least two flow "
    "directions, or heterogeneous/irregular, or gravity, or a well next to other conditions"
)
ASSUMPTIONS = [
    "numerically marginal well switches (limit within 1e-6 of the operating point) and systems with condition number > 1e9 "
    "are counted and skipped",
    "conversion factors and well model (equivalent radius, 12 in/ft) as documented/implemented for all unit systems",
]


@st.composite
def case(draw, vect=True, steps=(1, 5), **kw):
    s = draw(gen.flow(gravity="maybe", steps=steps, **kw))
    s["sparse"] = draw(st.booleans())
    s["vectorize"] = vect
    s["threading"] = draw(st.booleans())
    s["how"] = draw(st.sampled_from(["solve", "run"]))
    return s


def labels(s, S, rec):
    rec.label(f"D{S.g.D} {S.g.fdir}", "compressible" if S.comp else "incompressible")
    if S.grav:
        rec.label("gravity")
    for b in s["bounds"]:
        rec.label("boundary " + b["kind"])
    for w in s["wells"]:
        rec.label("well " + "+".join(k for k in ("q", "pwf") if k in w))
    rec.label(("sparse" if s.get("sparse") else "dense") + (" vectorised" if s.get("vectorize", True) else " symbolic"))


def nontrivial(s, S):
    g = s["grid"]
    het = any(isinstance(g["k" + ref.AX[a]], dict) or isinstance(g["d"][a], list) for a in S.g.flow)
    return S.g.D >= 2 or het or S.grav > 0 or (len(s["wells"]) > 0 and len(s["bounds"]) > 0)


def run(s, rec):
    rf = env.load()
    S = ref.Sim(s)
    labels(s, S, rec)
    rec.nontrivial_if(nontrivial(s, S))
    m = gen.build_model(s, rf, sparse=s["sparse"])
    sol = m.solution
    simcheck.initial(S, sol)
    kw = dict(threading=s["threading"], vectorize=s["vectorize"], check_MB=False, isolver=None)
    try:
        if s["how"] == "run":
            m.run(nsteps=s["steps"], **kw)
            harness.same(len(sol.pressures), s["steps"] + 1, "number of recorded steps")
        for i in range(s["steps"]):
            if s["how"] == "solve":
                m.solve(**kw)
                harness.same(len(sol.pressures), i + 2, "number of recorded steps")
            try:
                simcheck.step(S, sol, i, rec)
            except simcheck.Skip as e:
                rec.label("skipped: " + str(e))
                if not S.marginal:
                    return
                S.marginal = False  # the next step is judged from its recorded state
    except simcheck.Skip as e:
        rec.label("skipped: " + str(e))


SUBS = [
    harness.Sub("problems", case(), run, quick=900, thorough=20000),
    harness.Sub("3d", case(D=[3], dmax=(4, 4, 4), cells=36), run, quick=200, thorough=5000),
    harness.Sub("symbolic", case(vect=False, steps=(1, 3), dmax=(4, 3, 2), cells=9), run, quick=160, thorough=4000, shards=8),
    harness.Sub("hundreds", case(big=True, steps=(1, 2)), run, quick=160, thorough=1500, shards=8),
    harness.Sub("thousands", case(big=1300, steps=(1, 1)), run, quick=32, thorough=160, shards=8),
    harness.Sub("many-steps", case(steps=(12, 120), dmax=(5, 3, 2), cells=9), run, quick=64, thorough=1500, shards=8),
    harness.Sub("limits", c11.depletion({"threading": st.booleans(), "sparse": st.booleans()}), run, quick=96, thorough=2000, shards=8),
    harness.Sub("larger", case(D=[1, 2], dmax=(30, 7, 3), cells=45), run, quick=120, thorough=3000),
]
PINNED = {}


def _zero():
    s = {"grid": {"n": [3, 1, 1], "d": [10.0, 10.0, 10.0], "kx": 50.0, "phi": 0.2}, "fluid": {"mu": 1.0, "B": 1.0}, "pi": 1000.0, "dt": 1, "steps": 2,
         "bounds": [{"id": 0, "kind": "pressure", "v": 0.0}, {"id": 4, "kind": "pressure", "v": 500.0}], "wells": [],
         "sparse": False, "vectorize": True, "threading": False, "how": "solve"}
    run(s, harness.Rec())


def _grav():
    s = {"grid": {"n": [2, 2, 2], "d": [10.0, 20.0, 5.0], "kx": 50.0, "ky": 20.0, "kz": 5.0, "phi": 0.2, "z": {"base": 10.0, "mult": [1, 5, 2, 9]}},
         "fluid": {"mu": 1.0, "B": 1.0, "rho": 50.0}, "pi": 1000.0, "dt": 1, "steps": 2,
         "bounds": [{"id": 5, "kind": "pressure", "v": 2000.0}, {"id": 22, "kind": "rate", "v": 10.0}], "wells": [],
         "sparse": True, "vectorize": True, "threading": False, "how": "solve"}
    s["bounds"][0]["id"], s["bounds"][1]["id"] = gen.boundary_face_ids([2, 2, 2])[0], gen.boundary_face_ids([2, 2, 2])[9]
    run(s, harness.Rec())


PINNED["zero-pressure-boundary"] = _zero
PINNED["gravity-vectorised"] = _grav


def _zero_start():
    s = {"grid": {"n": [2, 1, 1], "d": [1.0, 1.0, 1.0], "kx": 1.0, "phi": 0.01}, "fluid": {"mu": 0.5, "B": 1.0, "comp": 1e-6}, "pi": 0.0, "dt": 1, "steps": 2,
         "bounds": [], "wells": [], "sparse": False, "vectorize": False, "threading": False, "how": "solve"}
    run(s, harness.Rec())


PINNED["zero-initial-pressure-symbolic"] = _zero_start
