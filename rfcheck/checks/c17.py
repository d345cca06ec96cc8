"""C17: scalers are exact, invertible affine maps."""
import numpy as np
from hypothesis import strategies as st

from .. import env, harness

PROPERTY = "C17"
RULE = (
    "random scalers and random histories of configuring (output range, input range), fitting and transforming arrays of "
    "one to three dimensions, per column, per row or over all values, judged against an element-wise reference; "
    "non-trivial: at least two different fits or output ranges were used before a transformation"
)
ASSUMPTIONS = [
    "columns of equal values have no range: tests/test_minmax.py pins nan for them, so they are not judged",
    "values are finite; inverting is not judged when both ends of the output range are equal",
    "relative tolerance 1e-9 of the input range",
]

num = st.one_of(
    st.integers(-1000, 1000).map(float),
    st.integers(-4000, 4000).map(lambda v: v / 8),
    st.integers(-40000, 40000).map(lambda v: v / 7),
    st.floats(-1e6, 1e6, allow_nan=False, allow_infinity=False).map(lambda v: float(np.float32(v))),
)


@st.composite
def array(draw, dims=(1, 2, 2, 3), base=None):
    nd = draw(st.sampled_from(dims))
    shape = [draw(st.integers(1 if nd > 1 else 2, 4)) for _ in range(nd)]
    if base and draw(st.integers(0, 4)):
        shape[-1] = base[1]
        if nd == 2 and draw(st.booleans()):
            shape[0] = base[0]
    if draw(st.integers(0, 39)) == 0:
        # large: the values repeat a short list by two incommensurable strides, its extremes somewhere in the middle
        shape[draw(st.integers(0, nd - 1))] *= draw(st.sampled_from([60, 137, 300]))
        vals = draw(st.lists(num, min_size=3, max_size=24))
        return {"shape": shape, "rep": vals, "stride": draw(st.sampled_from([1, 5, 7])), "dtype": "float64"}
    n = int(np.prod(shape))
    kind = draw(st.sampled_from(["float", "float", "int"]))
    v = draw(st.lists(num if kind == "float" else st.integers(-500, 500), min_size=n, max_size=n))
    return {"shape": shape, "v": v, "dtype": "float64" if kind == "float" else "int64"}


@st.composite
def vrange(draw):
    a = draw(num)
    b = draw(num.filter(lambda x: x != a))
    return [a, b]


@st.composite
def case(draw):
    s = {"out": draw(st.one_of(st.sampled_from([[0, 1], [-1, 1], [0.0, 1.0]]), vrange())), "tuple": draw(st.booleans())}
    s["inp"] = draw(st.one_of(st.none(), vrange()))
    ops = []
    base = [draw(st.integers(2, 4)), draw(st.integers(1, 4))]
    first = draw(st.sampled_from([[], ["fit", "out", "transform"], ["fit", "transform", "fit", "round"], ["fit_transform", "out"]]))
    for no in range(len(first) + draw(st.integers(1, 7))):
        kind = first[no] if no < len(first) else draw(st.sampled_from(["fit", "fit", "fit_transform", "out", "transform", "transform", "inverse", "round", "round"]))
        op = {"op": kind}
        if kind in ("fit", "fit_transform"):
            op["a"] = draw(array(base=base))
            op["axis"] = draw(st.sampled_from([0, 0, None, None, 1, "default"]))
        elif kind == "out":
            op["r"] = draw(vrange())
        else:
            op["a"] = draw(array(base=base))
        ops.append(op)
    s["ops"] = ops
    return s


def np_arr(a):
    if "rep" in a:
        n = int(np.prod(a["shape"]))
        v = [a["rep"][(i * a["stride"] + i // 11) % len(a["rep"])] for i in range(n)]
        return np.array(v, dtype=a["dtype"]).reshape(a["shape"])
    return np.array(a["v"], dtype=a["dtype"]).reshape(a["shape"])


class Ref:
    """the affine map, kept as python numbers per element of the broadcast"""

    def __init__(self, out, inp):
        self.out, self.lo, self.hi = [float(v) for v in out], None, None
        if inp is not None:
            self.lo, self.hi = np.float64(inp[0]), np.float64(inp[1])

    def fit(self, v, axis):
        v = v.astype(float)
        if axis is None or v.ndim == 1:
            self.lo, self.hi = np.float64(min(v.flatten().tolist())), np.float64(max(v.flatten().tolist()))
        elif axis == 0:
            self.lo = np.array([min(v[:, j].tolist()) for j in range(v.shape[1])])
            self.hi = np.array([max(v[:, j].tolist()) for j in range(v.shape[1])])
        else:
            self.lo = np.array([[min(v[i].tolist())] for i in range(v.shape[0])])
            self.hi = np.array([[max(v[i].tolist())] for i in range(v.shape[0])])

    def usable(self, shape):
        if self.lo is None:
            return False
        if np.ndim(self.lo):
            if len(shape) > 2 or not _bc(self.lo.shape, shape) or np.broadcast_shapes(self.lo.shape, shape) != tuple(shape):
                return False
        return bool(np.all(self.lo != self.hi))

    def fwd(self, v):
        lo, hi = np.broadcast_to(self.lo, v.shape), np.broadcast_to(self.hi, v.shape)
        return self.out[0] + (v - lo) * ((self.out[1] - self.out[0]) / (hi - lo))

    def inv(self, w):
        lo, hi = np.broadcast_to(self.lo, w.shape), np.broadcast_to(self.hi, w.shape)
        return lo + (w - self.out[0]) * ((hi - lo) / (self.out[1] - self.out[0]))


def _bc(a, b):
    try:
        np.broadcast_shapes(a, b)
        return True
    except ValueError:
        return False


def tol(r, v, back=False):
    """rounding of the map: relative to the largest term taking part"""
    span_out = abs(r.out[1] - r.out[0])
    span_in = np.min(np.abs(r.hi - r.lo))
    m = max(np.abs(r.lo).max(), np.abs(r.hi).max(), 1e-300)
    o = max(abs(r.out[0]), abs(r.out[1]))
    x = np.abs(v).max() if v.size else 0.0
    if not back:
        return 1e-12 * ((x + m) / span_in * span_out + o) + 1e-300
    return 1e-12 * ((x + o) / span_out * np.max(np.abs(r.hi - r.lo)) + m) + 1e-300


def run(s, rec):
    rf = env.load()
    out = tuple(s["out"]) if s["tuple"] else list(s["out"])
    inp = s["inp"] if s["inp"] is None else (tuple(s["inp"]) if s["tuple"] else list(s["inp"]))
    sc = rf.scalers.MinMax(out) if inp is None else rf.scalers.MinMax(output_range=out, input_range=inp)
    r = Ref(s["out"], s["inp"])
    changes = 0
    for no, op in enumerate(s["ops"]):
        tag = f"operation {no} {op}: "
        if op["op"] == "out":
            got = sc.set_output_range(tuple(op["r"]))
            if got is not sc:
                raise harness.Violation(tag + "set_output_range does not return the scaler")
            r.out = [float(v) for v in op["r"]]
            changes += 1
            continue
        a = np_arr(op["a"])
        keep = a.copy()
        if op["op"] in ("fit", "fit_transform"):
            ax = op["axis"]
            kw = {} if ax == "default" else {"axis": ax}
            axis = 0 if ax == "default" else ax
            if axis == 1 and a.ndim != 2:
                continue
            fn = sc.fit if op["op"] == "fit" else sc.fit_transform
            if a.ndim > 2 and axis == 0:
                lo = r.lo
                harness.expect_raises(lambda: fn(a, **kw), (ValueError,), tag + "axis 0 of more than two dimensions")
                rec.label("rejected fit")
                if lo is None and a.size > 1:
                    harness.expect_raises(lambda: sc.transform(a), (ValueError,), tag + "transform after a rejected fit")
                continue
            got = fn(a, **kw)
            r.fit(a, axis)
            changes += 1
            if op["op"] == "fit":
                if got is not sc:
                    raise harness.Violation(tag + "fit does not return the scaler")
            elif r.usable(a.shape):
                harness.close(got, r.fwd(a.astype(float)), tag + "fit_transform", rtol=0, atol=tol(r, a))
                for axis_v, want in ((got.min(axis=axis) if axis != 1 else got.min(axis=1), min(r.out)), (got.max(axis=axis) if axis != 1 else got.max(axis=1), max(r.out))):
                    harness.close(np.array(axis_v, float), np.full(np.shape(axis_v), want), tag + "end of the output range", rtol=0, atol=tol(r, a))
            if r.lo is not None and np.all(r.lo != r.hi) and op["op"] == "fit" and r.usable(a.shape):
                harness.close(sc.transform(a), r.fwd(a.astype(float)), tag + "transform of the fitted array", rtol=0, atol=tol(r, a))
        elif r.lo is None:
            harness.expect_raises(lambda: sc.transform(a), (ValueError,), tag + "transform before fit")
            harness.expect_raises(lambda: sc.inverse_transform(a), (ValueError,), tag + "inverse before fit")
            rec.label("not fitted")
        elif r.usable(a.shape):
            v = a.astype(float)
            if op["op"] == "transform":
                harness.close(sc.transform(a), r.fwd(v), tag + "transform", rtol=0, atol=tol(r, v))
            elif op["op"] == "inverse":
                harness.close(sc.inverse_transform(a), r.inv(v), tag + "inverse", rtol=0, atol=tol(r, v, True))
            else:
                w = np.array(sc.transform(a), float)
                t = tol(r, w, True) + tol(r, v) * np.max(np.abs(r.hi - r.lo)) / abs(r.out[1] - r.out[0])
                harness.close(sc.inverse_transform(w), v, tag + "inverse of the transform", rtol=0, atol=t)
            rec.nontrivial_if(changes > 1)
            rec.label(op["op"], "per column" if np.ndim(r.lo) == 1 else "per row" if np.ndim(r.lo) == 2 else "overall")
        if not (a == keep).all():
            raise harness.Violation(tag + "the caller's array was changed")


@st.composite
def dummy(draw):
    return {"args": draw(st.sampled_from([[], [None], [[0, 1]], [[0, 1], [5, 6]]])), "a": draw(st.lists(array(), min_size=1, max_size=3)), "axis": draw(st.sampled_from([0, None])), "fit": draw(st.booleans())}


def run_dummy(s, rec):
    rf = env.load()
    sc = rf.scalers.Dummy(*s["args"])
    for i, a in enumerate(s["a"]):
        v = np_arr(a)
        if s["fit"]:
            harness.require(sc.fit(v, s["axis"]) is sc, "fit does not return the scaler")
            harness.require(sc.set_output_range((0, 5)) is sc, "set_output_range does not return the scaler")
            harness.close(sc.fit_transform(v, s["axis"]), v, "fit_transform", rtol=0)
        harness.close(sc.transform(v), v, "transform", rtol=0)
        harness.close(sc.inverse_transform(v), v, "inverse", rtol=0)
    rec.nontrivial_if(len(s["a"]) > 1 and s["fit"])


SUBS = [
    harness.Sub("minmax", case(), run, quick=8000, thorough=400000),
    harness.Sub("dummy", dummy(), run_dummy, quick=400, thorough=8000),
]
PINNED = {}
