"""C15: compiling, switching and listing solutions never mixes them up."""
import numpy as np
from hypothesis import strategies as st

from .. import env, gen, harness, ref

PROPERTY = "C15"
RULE = (
    "random histories of compile (documented spellings in any letter case, both storages, numerical and analytical), "
    "rejected compile calls, set_solution by listed or unknown name, run/solve and queries on one or two models, judged "
    "against a registry model holding the expected rows of every solution; non-trivial: at least two solutions compiled "
    "and a solution selected by name or compiled again after some steps"
)
ASSUMPTIONS = [
    "only FDM and D1P1 are available; every other documented method must be rejected (any exception type) without effect",
    "repeated runs of the analytical solution are covered by C19",
]
FDM = ["fdm", "finite difference method", "finite-difference-method"]
D1P1 = ["d1p1", "1d1p", "1-dimension-1-phase", "1dimension1phase"]
NUM, ANA, NEU = ["n", "num", "numerical"], ["a", "ana", "analytical"], ["nn", "neu", "neurical"]
REJECT = (
    [(t, m) for t in ["numerical"] for m in ["fvm", "fem", "finite volume method", "finite-element-method", "d1p1", "1d1p", "pinn", "", "fd", "fdmm"]]
    + [(t, m) for t in ["analytical"] for m in ["d1p2", "1d2p", "d2p1", "2d1p", "d3p3", "d1p3", "d2p2", "d2p3", "d3p1", "d3p2", "1-dimension-3-phase", "2dimension1phase", "3-dimension-3-phase", "fdm", "pinn", "analytical", ""]]
    + [(t, m) for t in ["neurical"] for m in ["pinn", "deeponet", "deep-operator-network", "fdm", "physics informed neural network"]]
    + [("numeric", "fdm"), ("", "fdm"), ("neural", "pinn"), ("ann", "d1p1"), ("fdm", "numerical")]
)


def cased(draw, v):
    return draw(st.sampled_from([v, v, v.upper(), v.title()]))


@st.composite
def case(draw):
    nm = draw(st.integers(1, 2))
    models = []
    for _ in range(nm):
        n = draw(st.integers(2, 6))
        models.append({
            "grid": {"n": [n, 1, 1], "d": [draw(gen.nice), draw(gen.nice), draw(gen.nice)], "kx": draw(gen.nice), "phi": draw(st.integers(1, 40)) / 100, "comp": 1e-5},
            "fluid": {"mu": draw(st.sampled_from([0.5, 1.0])), "B": 1.0, "comp": 1e-5},
            "pi": 4000.0, "dt": draw(st.sampled_from([1, 5])),
            "bounds": [{"id": 0, "kind": "pressure", "v": float(draw(st.integers(1000, 6000)))}, {"id": n + 1, "kind": "pressure", "v": float(draw(st.integers(1000, 6000)))}], "wells": []})
        if models[-1]["bounds"][0]["v"] == models[-1]["bounds"][1]["v"]:
            models[-1]["bounds"][1]["v"] += 100.0
    ops = []
    first = draw(st.permutations(["compile", "compile", "run", "set"])) if draw(st.booleans()) else []
    for no in range(len(first) + draw(st.integers(3, 12))):
        m = draw(st.integers(0, nm - 1)) if no >= len(first) else 0
        kind = first[no] if no < len(first) else draw(st.sampled_from(["compile", "compile", "compile", "bad", "set", "set", "set", "badset", "run", "run", "solve", "query"]))
        if kind == "compile":
            num = draw(st.integers(0, 3)) > 0
            ops.append([kind, m, cased(draw, draw(st.sampled_from(NUM if num else ANA))), cased(draw, draw(st.sampled_from(FDM if num else D1P1))), draw(st.sampled_from([True, False, None])), "FDM" if num else "D1P1"])
        elif kind == "bad":
            if draw(st.integers(0, 4)) == 0:
                ops.append([kind, m, "numerical", "fdm", draw(st.sampled_from(["yes", 1, 0, None, 2.0]))])
            else:
                t, me = draw(st.sampled_from(REJECT))
                ops.append([kind, m, t, me, draw(st.booleans())])
        elif kind == "set":
            ops.append([kind, m, draw(st.integers(0, 9))])
        elif kind == "badset":
            ops.append([kind, m, draw(st.sampled_from(["FDM", "", "BlackOil", "BlackOil-numerical-FDM", "BlackOil-numerical-FVM-True", "numerical"]))])
        elif kind == "run":
            ops.append([kind, m, draw(st.integers(1, 4))])
        else:
            ops.append([kind, m])
    return {"models": models, "ops": ops}


class Reg:
    def __init__(self):
        self.names, self.sols, self.cfg, self.rows, self.cur = [], {}, {}, {}, None


def run(s, rec):
    rf = env.load()
    models = [gen.build_model(m, rf, compile=False) for m in s["models"]]
    regs = [Reg() for _ in models]
    steps_max = 1 + sum(op[2] if op[0] == "run" else 1 for op in s["ops"] if op[0] in ("run", "solve"))
    want = []
    for m in s["models"]:
        S = ref.Sim(m)
        for _ in range(steps_max):
            S.step()
        want.append((np.array(S.P), max(1, S.cond * 1e-5)))
    reused = 0

    def snapshot(m):
        return (m.solution, m.compiler, m.get_solutions(), {k: id(v) for k, v in m.solutions.items()})

    for no, op in enumerate(s["ops"]):
        m, r = models[op[1]], regs[op[1]]
        tag = f"operation {no} {op}: "
        if op[0] == "compile":
            kw = {} if op[4] is None else {"sparse": op[4]}
            sparse = True if op[4] is None else op[4]
            m.compile(stype=op[2], method=op[3], **kw)
            cfg = (op[5], sparse)
            new = [n for n in m.get_solutions() if m.solutions[n] is m.solution]
            if len(new) != 1:
                raise harness.Violation(tag + f"the compiled solution is listed as {new}")
            known = [n for n in r.names if r.cfg[n] == cfg]
            if known:
                harness.same(new[0], known[0], tag + "name of the same solution compiled again")
                if m.solution is r.sols[new[0]]:
                    raise harness.Violation(tag + "compiling again kept the old solution")
                reused += r.rows[new[0]] is not None and r.rows[new[0]][0] > 0
            else:
                if new[0] in r.names:
                    raise harness.Violation(tag + f"name {new[0]} already belongs to {r.cfg[new[0]]}")
                r.names.append(new[0])
            n = new[0]
            r.sols[n], r.cfg[n], r.rows[n], r.cur = m.solution, cfg, [0, None], n
            harness.same((m.solution.name, bool(m.solution.sparse), m.solution.model is m), (op[5], sparse, True), tag + "kind of the solution")
            harness.same((m.compiler.method, m.compiler.sparse, m.compiler.stype), (op[5], sparse, "numerical" if op[5] == "FDM" else "analytical"), tag + "compiler")
            harness.same((m.solution.tstep, m.solution.nsteps, len(m.solution.pressures)), (0, 1, 1), tag + "a compiled solution starts from the initial state")
            rec.label(f"compiled {op[5]} {sparse}")
        elif op[0] == "bad":
            before = snapshot(m)
            harness.expect_raises(lambda: m.compile(stype=op[2], method=op[3], sparse=op[4]), (ValueError, NotImplementedError, TypeError, KeyError, AssertionError, AttributeError), tag + "rejected compile")
            harness.same(snapshot(m), before, tag + "state after a rejected compile")
        elif op[0] == "set":
            if r.names:
                n = r.names[op[2] % len(r.names)]
                m.set_solution(n)
                if n != r.cur and r.rows[n][0]:
                    reused += 1
                r.cur = n
        elif op[0] == "badset":
            if op[2] not in r.names:
                before = snapshot(m)
                harness.expect_raises(lambda: m.set_solution(op[2]), (ValueError, KeyError, AssertionError), tag + "unknown solution")
                harness.same(snapshot(m), before, tag + "state after a rejected set_solution")
        elif op[0] in ("run", "solve") and r.cur is not None:
            kind = r.cfg[r.cur][0]
            k = op[2] if op[0] == "run" else 1
            row = r.rows[r.cur]
            if kind == "FDM":
                if op[0] == "run":
                    m.run(nsteps=k, check_MB=False, isolver=None)
                else:
                    m.solve(check_MB=False, isolver=None)
                row[0] += k
            elif op[0] == "run" and row[0] == 0:
                m.run(nsteps=k)
                row[0] = k
                row[1] = np.array(m.solution.pressures)
        elif op[0] == "query" and r.cur is not None:
            repr(m.compiler), str(m.compiler)
            m.get_time()
            harness.same(tuple(m.get_shape(True)), (r.rows[r.cur][0] + 1, m.grid.get_n(True)), tag + "get_shape")
            if r.cfg[r.cur][0] == "FDM":
                df = m.get_df(columns=["cells_pressure"], drop_nan=False, drop_zero=False)
                harness.close(df.values, m.solution.pressures, tag + "exported pressures", rtol=0)
        # everything listed is what it should be
        for j, (mm, rr) in enumerate(zip(models, regs)):
            harness.same(mm.get_solutions(), rr.names, tag + f"model {j}: listed solutions")
            if rr.cur is None:
                harness.same(mm.solution, None, tag + f"model {j}: solution before compiling")
                continue
            if mm.solution is not rr.sols[rr.cur]:
                raise harness.Violation(tag + f"model {j} does not use {rr.cur}")
            harness.same((mm.compiler.method, mm.compiler.sparse), rr.cfg[rr.cur], tag + f"model {j}: compiler of the selected solution")
            for f in ("run", "solve"):
                if getattr(getattr(mm, f), "__self__", None) not in (rr.sols[rr.cur], mm):
                    raise harness.Violation(tag + f"model {j}: model.{f} is not that of {rr.cur}")
            for n in rr.names:
                sol, (k, rows) = rr.sols[n], rr.rows[n]
                w = tag + f"model {j}, {n}: "
                harness.same((sol.tstep, sol.nsteps, len(sol.pressures)), (k, k + 1, k + 1), w + "tstep, nsteps, rows")
                if rr.cfg[n][0] == "FDM":
                    P, c = want[j]
                    harness.close(sol.pressures, P[: k + 1], w + "pressures", rtol=1e-9 * c, scale=np.nanmax(P))
                elif rows is not None:
                    harness.close(sol.pressures, rows, w + "pressures of the analytical solution", rtol=0)
    rec.nontrivial_if(max(len(r.names) for r in regs) > 1 and reused > 0)


SUBS = [harness.Sub("histories", case(), run, quick=2400, thorough=60000)]
PINNED = {}
