"""C18: scaled model data are the configured affine image of the raw data."""
import numpy as np
from hypothesis import strategies as st

from .. import env, gen, harness, ref
from . import c16

PROPERTY = "C18"
RULE = (
    "random simulated problems and random histories of configuring scalers (any documented column name and scaler "
    "spelling, rejected ones included), advancing, switching solutions and changing boundaries, with scaled exports, times, "
    "centres and domains in between, judged against the affine image of the raw recorded values; non-trivial: at least two "
    "steps and a scaler configured or refitted after a previous export"
)
ASSUMPTIONS = [
    "values without a range (e.g. time before the first step) are not judged: tests/test_minmax.py pins nan for them",
    "well pressures use the scaler of cell pressures, hence may lie outside of the output range",
]
KEYS = {
    "time": ["t", "time"], "space": ["space", "spatial", "xyz", "x", "y", "z"],
    "pressure": ["p", "pressures", "pressure"], "rate": ["q", "rates", "rate"],
}
DEFAULT = {"time": (0, 1), "space": (-1, 1), "pressure": (-1, 1), "rate": None}
ranges = st.sampled_from([(0, 1), (-1, 1), (-10, 10), (0.25, 0.75), (1, 0), (5, 6.5)])


@st.composite
def config(draw):
    out = []
    for k in draw(st.lists(st.sampled_from(list(KEYS)), min_size=1, max_size=4, unique=True)):
        name = draw(st.sampled_from(KEYS[k]))
        r = draw(st.one_of(ranges, ranges, st.none()))
        t = draw(st.sampled_from(["MinMax", "minmax", "MinMaxScaler", "MINMAX", None] if r is not None else ["MinMax", None]))
        out.append([k, draw(st.sampled_from([name, name.upper(), name.title()])), t, None if r is None else list(r)])
    return out


@st.composite
def case(draw, big=False, long=False):
    s = draw(gen.flow(D=[1, 1, 2, 3], dmax=(5, 3, 3), cells=14, gravity="maybe", **({"big": big} if big else {})))
    s["sparse"] = draw(st.booleans())
    s["start"] = None
    fids = gen.boundary_face_ids(s["grid"]["n"])
    conds = [["pressure", 3000.0], ["pressure", 0.0]]
    if "comp" in s["fluid"] or "comp" in s["grid"]:
        conds += [["rate", 10.0], ["rate", -5.0]]
    ops = [["run", draw(st.integers(1, 3))]] if draw(st.integers(0, 3)) else []
    first = draw(st.sampled_from([[], ["df", "set", "df"], ["df", "run", "df"], ["run", "df", "bound", "run", "df"], ["run", "df", "other", "run", "df"]]))
    for no in range(len(first) + draw(st.integers(1, 6))):
        kind = first[no] if no < len(first) else draw(st.sampled_from(["set", "set", "set", "all", "badset", "run", "bound", "other", "df", "df", "df", "df", "time", "centers", "domain"]))
        if kind == "set":
            ops.append([kind, draw(config())])
        elif kind == "all":
            ops.append([kind, draw(st.sampled_from(["all", "All"])), draw(st.one_of(ranges.map(list), st.none()))])
        elif kind == "badset":
            bad = draw(st.sampled_from([["times", "MinMax", [0, 1]], ["", "MinMax", [0, 1]], ["time", "MaxMin", [0, 1]], ["rate", "standard", [0, 1]], ["w", None, None]]))
            ops.append([kind, draw(config()) if draw(st.booleans()) else [], bad])
        elif kind == "run":
            ops.append([kind, draw(st.integers(20, 140) if long else st.integers(1, 3))])
        elif kind == "bound":
            ops.append([kind, draw(st.sampled_from(fids)), draw(st.sampled_from(conds))])
        elif kind == "df":
            q = draw(c16.selection())
            q.pop("save", None)
            q["drop_zero"] = draw(st.sampled_from([False, False, False, True, None]))
            ops.append([kind, q])
        elif kind == "time":
            ops.append([kind])
        elif kind in ("centers", "domain"):
            ops.append([kind, draw(st.booleans())])
        else:
            ops.append([kind])
    s["ops"] = ops
    return s


def rng(v):
    v = np.array(v, float).flatten()
    v = v[~np.isnan(v)]
    return (v.min(), v.max()) if len(v) else (0.0, 0.0)


def affine(v, lo_hi, out):
    """(expected values, tolerance) or None when not judged"""
    lo, hi = lo_hi
    v = np.array(v, float)
    if out is None:
        return v, 0.0
    if hi - lo <= 1e-9 * max(abs(hi), abs(lo), 1e-300):
        return None
    w = out[0] + (v - lo) / (hi - lo) * (out[1] - out[0])
    x = max(abs(hi), abs(lo), np.nanmax(np.abs(v)) if np.isfinite(v).any() else 0.0)
    return w, 1e-12 * (x / (hi - lo) * abs(out[1] - out[0]) + max(abs(out[0]), abs(out[1])))


def cat(label):
    head = label.split(" ")[0]
    if head == "Time":
        return "time"
    if head in ("x", "y", "z"):
        return "space"
    if head[0] == "Q":
        return "rate"
    if head[0] == "P":
        return "pressure"
    return None


def run(s, rec):
    rf = env.load()
    g = ref.Grid(s["grid"])
    m = c16.model(s, rf)
    m.compile("numerical", "FDM", sparse=s["sparse"])
    cfg = dict(DEFAULT)
    names = list(m.get_solutions())
    C = np.array(g.centers(), float)
    exported = changed = 0

    def bounds():
        sol = m.solution
        b = {"time": (0.0, sol.tstep * s["dt"]), "pressure": rng(sol.pressures), "rate": rng(sol.rates)}
        for a in g.flow:
            b[ref.AX[a]] = (C[:, a].min(), C[:, a].max())
        return b

    def centers(got, boundary, scale, tag):
        b = bounds()
        ids = list(range(g.N)) if boundary else list(g.inside)
        got = harness.as_float(got, tag)
        harness.same(got.shape, (len(ids), len(g.flow)), tag + " shape")
        for j, a in enumerate(g.flow):
            e = affine(C[ids, a], b[ref.AX[a]], cfg["space"] if scale else None)
            if e is not None:
                harness.close(got[:, j], e[0], f"{tag} {ref.AX[a]}", rtol=1e-12 if e[1] == 0 else 0, atol=e[1])

    def times(got, scale, tag):
        t = np.arange(m.solution.tstep + 1) * s["dt"]
        e = affine(t, bounds()["time"], cfg["time"] if scale else None)
        harness.same(np.shape(got), (len(t), 1), tag + " shape")
        if e is not None:
            harness.close(harness.as_float(got, tag).flatten(), e[0], tag, rtol=1e-12, atol=e[1])

    def listed(tag):
        for k in cfg:
            got = m.scalers_dict[k]
            want = cfg[k]
            if (want is None) != (got[0] is None) or (want is not None and tuple(got[1]) != tuple(want)):
                raise harness.Violation(f"{tag}scalers_dict[{k!r}] is {got}, expected output range {want}")

    for no, op in enumerate(s["ops"]):
        tag = f"operation {no} {op}: "
        raw = (np.array(m.solution.pressures), np.array(m.solution.rates))
        if op[0] == "set":
            m.set_scalers({c[1]: [c[2], None if c[3] is None else tuple(c[3])] for c in op[1]})
            for k, _, t, r in op[1]:
                cfg[k] = None if t is None or r is None else tuple(r)
            changed += exported > 0
        elif op[0] == "all":
            m.set_scalers({op[1]: ["MinMax", op[2]]})
            for k in cfg:
                cfg[k] = None if op[2] is None else tuple(op[2])
            changed += exported > 0
        elif op[0] == "badset":
            d = {c[1]: [c[2], c[3]] for c in op[1]}
            d[op[2][0]] = [op[2][1], op[2][2]]
            harness.expect_raises(lambda: m.set_scalers(d), (ValueError, KeyError), tag + "unknown column or scaler")
            rec.label("rejected")
        elif op[0] == "run":
            m.run(nsteps=op[1], check_MB=False, isolver=None)
            changed += exported > 0
            raw = None
        elif op[0] == "bound":
            m.set_boundary(op[1], op[2][0], op[2][1])
            raw = None
        elif op[0] == "other":
            if len(m.get_solutions()) < 2:
                m.compile("numerical", "FDM", sparse=not s["sparse"])
            else:
                cur = [n for n in m.get_solutions() if m.solutions[n] is m.solution][0]
                m.set_solution([n for n in m.get_solutions() if n != cur][0])
            raw = None
        elif op[0] == "time":
            times(m.get_time(scale=True), True, tag + "scaled time")
            times(m.get_time(), False, tag + "raw time")
        elif op[0] == "centers":
            for sc in (True, False):
                got, fdir = m.get_centers(scale=sc, boundary=op[1])
                harness.same(list(fdir), [ref.AX[a] for a in g.flow], tag + "directions")
                centers(got, op[1], sc, tag + f"centres (scale={sc})")
            # boundary cells are included unless excluded
            centers(m.get_centers(True)[0], True, True, tag + "scaled centres of all cells")
            centers(m.get_centers()[0], True, False, tag + "centres of all cells")
        elif op[0] == "domain":
            for sc in (True, False):
                t, x = m.get_domain(sc, op[1])
                times(t, sc, tag + f"domain time (scale={sc})")
                centers(x, op[1], sc, tag + f"domain centres (scale={sc})")
        else:
            kw = {k: v for k, v in op[1].items() if v is not None}
            df = m.get_df(scale=True, **kw)
            n = m.solution.tstep + 1
            b = bounds()
            if any(cfg[k if k in cfg else "space"] is not None and affine([0.0], v, (0, 1)) is None for k, v in b.items()):
                rec.label("skipped: values without a range")
                continue
            q = dict(op[1], drop_zero=False)
            rows, count = c16.table(s, g, m, q)
            dropping = op[1].get("drop_zero") is not False and not op[1].get("melt") and count is not None
            want = []
            for label, v in rows:
                k = cat(label)
                head = label.split(" ")[0]
                if k is not None and kw.get("units") and k != "space" and cfg[k] is not None:
                    label = head + " [scaled]"
                want.append((label, v, k, head))
            got = [str(c) for c in df.columns]
            if dropping:
                keep = []
                j = 0
                for w in want:
                    if j < len(got) and got[j] == w[0]:
                        keep.append(w)
                        j += 1
                    else:
                        e = None if w[2] is None else affine(w[1], b[w[3] if w[2] == "space" else w[2]], cfg[w[2]])
                        if w[2] is None or (e is not None and np.abs(e[0]).max() > e[1]):
                            raise harness.Violation(f"{tag}column {w[0]} is missing, columns are {got}")
                harness.same(j, len(got), tag + f"columns {got} in order")
                want = keep
            harness.same(got, [w[0] for w in want], tag + "columns")
            if count is not None:
                harness.same([int(i) for i in df.index], list(range(count)), tag + "index")
            for i, (label, v, k, head) in enumerate(want):
                col = list(df.iloc[:, i])
                if k is None:
                    if head == "Date":
                        c16.dates(col, v, tag + label)
                    else:
                        harness.close(np.array(col, float), np.array(v, float), tag + label, rtol=1e-12 if head == "Time" else 0)
                    continue
                key = head if k == "space" else k
                e = affine(v, b[key], cfg[k])
                if e is not None:
                    harness.close(harness.as_float(col, label), e[0], tag + label, rtol=1e-12 if e[1] == 0 else 0, atol=e[1])
                    rec.label(("scaled " if cfg[k] else "raw ") + k)
            exported += 1
            rec.nontrivial_if(n > 2 and changed > 0)
        listed(tag)
        if raw is not None:
            harness.close(m.solution.pressures, raw[0], tag + "recorded pressures", rtol=0)
            harness.close(m.solution.rates, raw[1], tag + "recorded rates", rtol=0)


SUBS = [
    harness.Sub("histories", case(), run, quick=3000, thorough=60000),
    harness.Sub("long", case(long=True), run, quick=160, thorough=2500, shards=8),
    harness.Sub("hundreds", case(big=150), run, quick=120, thorough=1500, shards=8),
    harness.Sub("thousands", case(big=1300), run, quick=32, thorough=160, shards=8),
]
PINNED = {}
