"""C23: displays and animations show the recorded results."""
import datetime as dt
import re
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, harness, ref
from .c16 import LEN

PROPERTY = "C23"
RULE = (
    "random simulated problems (1 to 3 flow directions, all unit systems, wells, any steps, finite differences or the analytical "
    "solution) and random sequences of displays (grid.show, model.show, model.save_gif) with random labels, properties, "
    "boundary cells, widgets and slider positions, drawn into a recording plotter instead of a window; every frame, label, text "
    "and well marker is compared with the recorded results and the reference geometry; non-trivial: at least two steps drawn, "
    "or labels of a grid with at least two flow directions"
)
ASSUMPTIONS = [
    "pyvista.Plotter is replaced by a recorder: what pyvista does with the data it is given is trusted",
    "labels are only drawn when opacity is below 1 (as implemented)",
    "one display at a time (displays of one grid share its mesh)",
]
LABELS = ["id", "i", "coords", "icoords", "dx", "dy", "dz", "Ax", "area_x", "Ay", "area_y", "Az", "area_z", "V", "volume", "center", "centers", "sphere"]
PROPS = {"pressures": ["p", "pressure", "pressures"], "rates": ["q", "rate", "rates"]}


class Text:
    def __init__(self, text, pos):
        self.text, self.pos = text, pos

    def SetInput(self, text):
        self.text = text


class Plotter:
    """records what is drawn; every method that is not listed does nothing"""

    last = None

    def __init__(self, *args, **kw):
        Plotter.last = self
        self.meshes, self.labels, self.texts, self.frames, self.slider, self.points = [], [], [], [], None, []
        self.shown = self.closed = False
        self.bars = []
        self.gif = None
        self.camera = mock.MagicMock()

    def add_mesh(self, mesh=None, **kw):
        self.meshes.append((mesh, kw))
        return mock.MagicMock()

    def add_point_labels(self, points=None, labels=None, *a, **kw):
        self.labels.append((np.array(points), list(labels)))

    def add_points(self, points=None, *a, **kw):
        self.points.append(np.array(points))

    def add_text(self, text="", position=None, *a, **kw):
        t = Text(text, position)
        self.texts.append(t)
        return t

    def add_scalar_bar(self, title="", *a, **kw):
        self.bars.append(title)

    def add_slider_widget(self, callback=None, rng=None, value=None, **kw):
        self.slider = (callback, rng, value)

    def open_gif(self, filename=None, *a, **kw):
        self.gif = filename

    def write_frame(self):
        self.frames.append(self.snapshot())

    def show(self, *a, **kw):
        self.shown = self.snapshot()

    def close(self):
        self.closed = True

    def snapshot(self):
        """the main mesh is the one with cells of the grid, its data the active array"""
        mesh, kw = next((m for m in self.meshes if hasattr(m[0], "cell_data") and m[1].get("show_edges")), (None, {}))
        data = None
        if mesh is not None and kw.get("clim") is not None:
            data = np.array(mesh.cell_data["Data"]) if "Data" in mesh.cell_data else np.array(kw.get("scalars"))
        return {"mesh": mesh, "kw": kw, "data": data, "texts": [t.text for t in self.texts]}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: mock.MagicMock()


@st.composite
def case(draw, big=False):
    ana = not big and draw(st.integers(0, 5)) == 0
    if ana:
        s = draw(gen.flow(D=[1], dmax=(5, 3, 3), wells=False, comp=True, hetero=False, kinds=("pressure",)))
        n = max(s["grid"]["n"])
        s["bounds"] = [{"id": 0, "kind": "pressure", "v": 1000.0}, {"id": n + 1, "kind": "pressure", "v": 3000.0}]
    else:
        s = draw(gen.flow(D=[1, 2, 2, 3], dmax=(5, 3, 3), cells=18, gravity="maybe", **({"big": big} if big else {})))
    s["ana"] = ana
    s["sparse"] = draw(st.booleans())
    s["steps"] = draw(st.integers(1 if ana else 0, 4)) if not big else draw(st.sampled_from([1, 12, 30]))
    if s["grid"].get("unit") == "lab":
        s["dt"] = draw(st.sampled_from([1, 3600, 86400]))
    s["start"] = draw(st.dates(dt.date(1990, 1, 1), dt.date(2040, 12, 31))).isoformat()
    shows = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["grid", "model", "model", "gif"]))
        q = {"kind": kind, "boundary": draw(st.booleans()), "label": draw(st.sampled_from([None] + LABELS))}
        q["desc"] = draw(st.booleans())
        q["title"] = draw(st.sampled_from([None, "A title"]))
        if kind != "gif":
            q["static"], q["notebook"] = draw(st.booleans()), draw(st.booleans())
        if kind == "grid":
            q["corners"] = draw(st.booleans())
        if kind != "grid":
            p = "pressures" if ana else draw(st.sampled_from(sorted(PROPS)))
            name = draw(st.sampled_from(PROPS[p]))
            q["prop"] = draw(st.sampled_from([name, name.upper(), name.title()]))
            q["values"] = p
            q["wells"], q["info"], q["cbar"] = draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
        if kind == "model":
            q["slide"] = draw(st.lists(st.integers(0, s["steps"]), max_size=4))
        bad = draw(st.integers(0, 11))
        if bad == 0 and kind != "grid":
            q["bad"], q["prop"] = True, draw(st.sampled_from(["", "pressur", "id", "wells", "x"]))
        elif bad == 1:
            q["bad"], q["label"] = True, draw(st.sampled_from(["", "ids", "depth", "A", "K"]))
        shows.append(q)
    s["shows"] = shows
    return s


def labels(g, boundary):
    """what is written in the cell, by label and cell id"""
    cells = list(range(g.N)) if boundary else list(g.inside)
    pos = {c: i for i, c in enumerate(cells)}
    keep = [a for a in (2, 1, 0) if g.unify or g.D == 3 or a in g.flow]
    C = g.centers()
    f = {
        "id": lambda c: c, "i": lambda c: pos[c], "coords": lambda c: g.coords[c],
        "icoords": lambda c: tuple(g.coords[c][a] for a in keep),
        "dx": lambda c: g.d[0][c], "dy": lambda c: g.d[1][c], "dz": lambda c: g.d[2][c],
        "Ax": lambda c: g.A[0][c], "Ay": lambda c: g.A[1][c], "Az": lambda c: g.A[2][c], "V": lambda c: g.V[c],
        "center": lambda c: tuple(C[c]),
    }
    f.update(area_x=f["Ax"], area_y=f["Ay"], area_z=f["Az"], volume=f["V"], centers=f["center"])
    return cells, f


def cell_at(g, cells, C, point, what):
    d = np.abs(C[cells] - np.asarray(point, float)).max(axis=1)
    i = int(np.argmin(d))
    harness.require(d[i] <= 1e-4 * (1 + np.abs(C).max()) * 1e-2, lambda: f"{what}: nothing is drawn there but {list(map(float, point))} is no cell centre")
    return cells[i]


def check_values(g, cells, C, snap, want, what):
    """the mesh shows want[cell] in the place of the cell"""
    mesh, data = snap["mesh"], snap["data"]
    harness.require(mesh is not None and data is not None, what + ": no mesh with data was drawn")
    harness.same(mesh.n_cells, len(cells), what + ": cells in the mesh")
    harness.same(np.shape(data), (len(cells),), what + ": shape of the data")
    pts = np.asarray(mesh.cell_centers().points, float)
    seen = [cell_at(g, cells, C, p, what) for p in pts]
    harness.same(sorted(seen), cells, what + ": cells drawn")
    harness.close(harness.as_float(data, what), np.array([want[c] for c in seen], float), what + f" (cells {seen[:5]}…)", rtol=1e-6)


def number(texts, what, key):
    for t in texts:
        if key in t and re.search(r":\s*\S", t):
            return t.split(":", 1)[1].strip()
    raise harness.Violation(f"{what}: no text {key!r} in {texts}")


def check_info(s, texts, t, V, name, what):
    start = dt.datetime.fromisoformat(s["start"])
    x = t * s["dt"]
    days = {(start + dt.timedelta(**{LEN[s["grid"].get("unit", "field")]: y})).strftime("%d.%m.%Y") for y in (x, x * (1 - 1e-12), x * (1 + 1e-12))}
    got = number(texts, what, "date")
    harness.require(got in days, f"{what}: date {got}, expected {sorted(days)}")
    harness.same(int(number(texts, what, "timestep")), t, what + ": step")
    for key, f in (("avg", np.nanmean), ("min", np.nanmin), ("max", np.nanmax)):
        w = float(f(V))
        got = float(number(texts, what, key))
        label = next(t for t in texts if key in t and re.search(r":\s*\S", t)).lower()
        harness.require(("rate" in label) == (name == "rates") and ("pressure" in label) == (name == "pressures"), f"{what}: {name} are labelled {label!r}")
        harness.require(abs(got - w) <= 0.5 + 1e-6 * abs(w) or got != got and w != w, f"{what}: {key} {got}, expected {w}")
    if s["pi"] is not None:
        harness.close(float(number(texts, what, "initial")), s["pi"], what + ": initial pressure")


def check_common(g, m, s, q, pl, cells, C, what):
    """labels, wells, title"""
    snap = pl.snapshot()
    harness.require(snap["mesh"] is not None, what + ": the grid was not drawn")
    sets = list(pl.labels)
    if q.get("corners"):
        # every corner of the drawn cells is labelled with its position
        i = next((i for i, (p, _) in enumerate(sets) if len(p) == snap["mesh"].n_points != len(cells)), None)
        harness.require(i is not None, what + ": corners are not labelled")
        p, lab = sets.pop(i)
        harness.close(np.asarray(lab, float), p, what + ": labels of corners", rtol=1e-6)
        harness.close(np.array(sorted(map(tuple, p))), np.array(sorted(map(tuple, snap["mesh"].points))), what + ": labelled corners", rtol=1e-6)
    harness.same(snap["mesh"].n_cells, len(cells), what + ": cells drawn")
    _, f = labels(g, q["boundary"])
    if q["label"] == "sphere":
        harness.same(len(pl.points), 1, what + ": sets of points")
        harness.same(sorted(cell_at(g, cells, C, p, what) for p in pl.points[0]), cells, what + ": cells with a point")
    elif q["label"] is None:
        harness.same(len(sets), 0, what + ": sets of labels")
    else:
        harness.same(len(sets), 1, what + ": sets of labels")
        pts, lab = sets[0]
        harness.same(len(lab), len(pts), what + ": number of labels")
        at = [cell_at(g, cells, C, p, what) for p in pts]
        harness.same(sorted(at), cells, what + ": cells with a label")
        for c, x in zip(at, lab):
            want = f[q["label"]](c)
            got = np.asarray(x, float).ravel()
            harness.close(got, np.asarray(want, float).ravel(), f"{what}: label {q['label']} of cell {c}", rtol=1e-6)
    texts = [t.text for t in pl.texts]
    harness.require((q["title"] or "ReservoirFlow") in texts, f"{what}: title missing in {texts}")
    if q["desc"]:
        d = [t for t in texts if "grid model" in t]
        harness.require(len(d) == 1 and d[0].startswith(f"{g.D}D") and f"at {g.fdir}-direction" in d[0] and ("with boundary" if q["boundary"] else "without boundary") in d[0], f"{what}: description {d}")
    if q["kind"] != "grid":
        harness.same([b.lower() for b in pl.bars], [q["prop"].lower()] if q["cbar"] else [], what + ": titles of colour bars")
        cyl = [x for x in pl.meshes if x[0] is not snap["mesh"]]
        wells = list(m.wells) if q["wells"] else []
        harness.same(len(cyl), len(wells), what + ": well markers")
        left = [(C[w][0], C[w][1], m.wells[w]["r"], C[w][2], g.d[2][w]) for w in wells]
        for mesh, _ in cyl:
            b = mesh.bounds
            x, y, r = (b[0] + b[1]) / 2, (b[2] + b[3]) / 2, (b[1] - b[0]) / 2
            i = next((i for i, w in enumerate(left) if abs(w[0] - x) <= 1e-3 * (1 + abs(x)) and abs(w[1] - y) <= 1e-3 * (1 + abs(y)) and abs(w[2] - r) <= 0.02 * r + 1e-4 * (1 + abs(x)) and abs(b[4] - w[3]) <= max(w[4] / 2, 1) + 1e-3 * (1 + abs(w[3]))), None)
            harness.require(i is not None, lambda: f"{what}: well marker at ({x}, {y}) from {b[4]} upwards, radius {r}; wells are at (x, y, radius, z, thickness) {left}")
            left.pop(i)


def run(s, rec):
    rf = env.load()
    P = rf.utils.pyvista
    g = ref.Grid(s["grid"])
    C = g.centers()
    sp = dict(s, start_date=dt.date.fromisoformat(s["start"]))
    m = gen.build_model(sp, rf, compile=False)
    if s["ana"]:
        m.compile("analytical", "D1P1")
    else:
        m.compile("numerical", "FDM", sparse=s["sparse"])
    if s["steps"]:
        m.run(nsteps=s["steps"], check_MB=False, isolver=None)
    n = s["steps"] + 1
    keep = {p: np.array(getattr(m.solution, p), float) for p in PROPS}
    centers = np.array(m.grid.get_cells_center(True, False, False))
    with mock.patch.object(P.pv, "Plotter", Plotter), mock.patch.object(P.pv, "set_jupyter_backend", lambda *a: None):
        for q in s["shows"]:
            kw = {k: q[k] for k in ("label", "boundary", "corners", "desc", "title", "static", "notebook", "wells", "info", "cbar") if k in q}
            what = f"{q['kind']} display {({**kw, **{k: q[k] for k in ('prop',) if k in q}})}"
            cells = list(range(g.N)) if q["boundary"] else list(g.inside)
            call = {"grid": lambda: m.grid.show(**kw), "model": lambda: m.show(q["prop"], **kw), "gif": lambda: m.save_gif(q["prop"], file_name="x.gif", **kw)}[q["kind"]]
            if q.get("bad"):
                harness.expect_raises(call, ValueError, what)
                rec.label("rejected")
            else:
                call()
                pl = Plotter.last
                check_common(g, m, s, q, pl, cells, C, what)
                if q["kind"] == "grid":
                    harness.require(pl.shown is not False, what + ": nothing was shown")
                else:
                    V = keep[q["values"]]
                    lim = pl.snapshot()["kw"].get("clim")
                    shown = V[:, cells]
                    harness.close(np.array(lim, float), [np.nanmin(shown), np.nanmax(shown)], what + ": range of colours")
                    for v, nm in (pl.snapshot()["kw"].get("annotations") or {}).items():
                        f = {"min": np.nanmin, "max": np.nanmax, "avg": np.nanmean}.get(nm)
                        if f:  # equal values share one annotation
                            harness.close(float(v), float(f(shown)), f"{what}: value marked {nm!r} on the colour bar", rtol=1e-6, atol=1e-9 * float(np.nanmax(np.abs(shown))))
                if q["kind"] == "model":
                    harness.require(pl.shown is not False, what + ": nothing was shown")
                    frames = [(n - 1, pl.shown)]
                    if not (q["static"] and q["notebook"]):
                        harness.require(pl.slider is not None, what + ": no slider")
                        cb, rng, val = pl.slider
                        harness.same((float(rng[0]), float(rng[1]), float(val)), (0.0, n - 1.0, n - 1.0), what + ": slider")
                        for t in q["slide"]:
                            cb(float(t))
                            frames.append((t, pl.snapshot()))
                elif q["kind"] == "gif":
                    harness.require(str(pl.gif).endswith("x.gif") and pl.closed, what + ": file not written")
                    harness.same(len(pl.frames), n, what + ": frames")
                    frames = list(enumerate(pl.frames))
                else:
                    frames = []
                for t, snap in frames:
                    w = f"{what}: step {t}"
                    check_values(g, cells, C, snap, V[t], w)
                    if q["info"]:
                        check_info(s, snap["texts"], t, V[t][cells], q["values"], w)
                rec.label(q["kind"])
                rec.nontrivial_if(len(frames) > 1 or (g.D > 1 and q["label"] is not None))
            for p in PROPS:
                harness.close(np.asarray(getattr(m.solution, p), float), keep[p], f"{what}: {p} afterwards", rtol=0)
            harness.close(m.grid.get_cells_center(True, False, False), centers, what + ": centres afterwards", rtol=0)


@st.composite
def option(draw):
    what = draw(st.sampled_from(["size", "size-bad", "mode-bad", "colours", "limits", "locs"]))
    if what == "size":
        v = draw(st.sampled_from(["1k", "HD", "hd", "Full HD", "FHD", "fhd", "2K", "2k", "4K", "4k", "8k", "10k"]))
    elif what == "size-bad":
        v = draw(st.sampled_from(["", "3k", "k", "hdd", "full", "4"]))
    elif what == "mode-bad":
        v = draw(st.sampled_from(["", "Darkness", "grey", "l"]))
    elif what == "colours":
        v = draw(st.lists(st.tuples(st.sampled_from(["background", "text", "mode"]), st.sampled_from(["red", "#102030", "white", "black", "blue"])).map(list), min_size=1, max_size=4))
    elif what == "limits":
        v = draw(st.lists(st.one_of(st.floats(-1e6, 1e6), st.none()), min_size=1, max_size=6).filter(lambda l: any(x is not None for x in l)))
    else:
        v = [draw(st.integers(1, 9)), draw(st.integers(0, 8)) / 8, draw(st.integers(0, 8)) / 8, draw(st.integers(1, 8)) / 64]
    return {"what": what, "v": v}


def run_option(s, rec):
    P = env.load().utils.pyvista
    v = s["v"]
    rec.label(s["what"])
    rec.nontrivial_if(True)
    if s["what"] == "size":
        w, h = P.get_window_size(v)
        harness.require(w > h > 0, f"window size of {v!r}: {(w, h)}")
        std = {"hd": (1280, 720), "full hd": (1920, 1080), "fhd": (1920, 1080), "4k": (3840, 2160), "2k": (2048, 1080), "1k": (1024, 768)}
        if v.lower() in std:
            harness.same((w, h), std[v.lower()], f"window size of {v!r}")
    elif s["what"] == "size-bad":
        harness.expect_raises(lambda: P.get_window_size(v), ValueError, f"resolution {v!r}")
    elif s["what"] == "mode-bad":
        a = (P.BACKGROUND_COLOR, P.TEXT_COLOR)
        harness.expect_raises(lambda: P.set_mode(v), ValueError, f"mode {v!r}")
        harness.same((P.BACKGROUND_COLOR, P.TEXT_COLOR), a, "colours after a rejected mode")
        try:
            for mode, bg, fg in (("light", "white", "black"), ("dark", "black", "white")):
                P.set_mode(mode)
                harness.same((P.BACKGROUND_COLOR, P.TEXT_COLOR), (bg, fg), f"colours of mode {mode}")
        finally:
            P.set_mode("dark")
    elif s["what"] == "colours":
        want = {"background": "black", "text": "white"}
        try:
            P.set_mode("dark")
            for kind, c in v:
                if kind == "mode":
                    mode = "light" if c in ("white", "red") else "dark"
                    P.set_mode(mode)
                    want = {"background": "white", "text": "black"} if mode == "light" else {"background": "black", "text": "white"}
                else:
                    getattr(P, f"set_{kind}_color")(c)
                    want[kind] = c
                harness.same((P.BACKGROUND_COLOR, P.TEXT_COLOR), (want["background"], want["text"]), f"colours after {kind} {c}")
        finally:
            P.set_mode("dark")
    elif s["what"] == "limits":
        x = np.array([np.nan if y is None else y for y in v])
        lim, _ = P.get_limits_fmt(x)
        harness.close(np.array(lim, float), [np.nanmin(x), np.nanmax(x)], f"limits of {v}", rtol=0)
    else:
        n, h, y, sp = v
        got = np.array([[float(a) for a in p] for p in P.get_text_locs(n, h, y, sp)])
        harness.close(got, [[h, y - i * sp] for i in range(n)], f"text positions {v}", atol=1e-12)


@st.composite
def plot_case(draw):
    ana = draw(st.integers(0, 5)) == 0
    if ana:
        s = draw(gen.flow(D=[1], dmax=(5, 3, 3), wells=False, comp=True, hetero=False, kinds=("pressure",)))
        n = max(s["grid"]["n"])
        s["bounds"] = [{"id": 0, "kind": "pressure", "v": 1000.0}, {"id": n + 1, "kind": "pressure", "v": 3000.0}]
    else:
        s = draw(gen.flow(D=[1, 2, 3], dmax=(14, 4, 3), cells=24, gravity="maybe"))
    s["ana"], s["sparse"] = ana, draw(st.booleans())
    s["steps"] = draw(st.integers(1, 4))
    N = ref.Grid(s["grid"]).N
    s["plots"] = []
    for _ in range(draw(st.integers(1, 5))):
        q = {"kind": draw(st.sampled_from(["cell", "row", "grid", "more"])), "prop": "pressures" if ana else draw(st.sampled_from([None, "pressures", "rates"]))}
        q["id"] = draw(st.integers(0, N - 1))
        q["tstep"] = draw(st.one_of(st.none(), st.integers(0, s["steps"])))
        s["plots"].append(q)
    return s


def run_plot(s, rec):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    rf = env.load()
    m = gen.build_model(s, rf, compile=False)
    if s["ana"]:
        m.compile(stype="analytical", method="D1P1", sparse=s["sparse"])
        m.run(nsteps=s["steps"])
    else:
        m.compile(stype="numerical", method="FDM", sparse=s["sparse"])
        for _ in range(s["steps"]):
            m.solve(isolver=None, check_MB=False)
    g = ref.Grid(s["grid"])
    last = s["steps"]
    rec.label(f"D{g.D}" + (" analytical" if s["ana"] else ""))
    rec.nontrivial_if(s["steps"] > 1)
    P, R = np.array(m.solution.pressures), np.array(m.solution.rates) if not s["ana"] else None
    shown = []
    try:
        with mock.patch.object(plt, "show", lambda *a, **k: shown.append(1)):
            for i, q in enumerate(s["plots"]):
                plt.close("all")
                if q["kind"] == "more":
                    if not s["ana"]:
                        m.solve(isolver=None, check_MB=False)
                        last += 1
                        P, R = np.array(m.solution.pressures), np.array(m.solution.rates)
                    continue
                a = {} if q["prop"] is None else {"property" if q["kind"] == "grid" else "prop": q["prop"]}
                V = R if q["prop"] == "rates" else P
                t = last
                if q["tstep"] is not None and q["kind"] != "cell":
                    a["tstep"] = t = q["tstep"]
                what = f"plot {i} {q['kind']} {a} id={q['id']}: "
                before = len(shown)
                if q["kind"] == "grid":
                    m.plot_grid(**a)
                else:
                    m.plot(**dict(a, id=q["id"]) if q["kind"] == "cell" else a)
                harness.same(len(shown) - before, 1, what + "times shown")
                ax = plt.gcf().axes[0]
                if q["kind"] == "grid":
                    harness.close(np.ma.filled(ax.images[0].get_array().astype(float), np.nan), V[t][g.inside][np.newaxis, :], what + "picture", rtol=1e-12)
                    ticks = {int(round(x)): tx.get_text() for x, tx in zip(ax.get_xticks(), ax.get_xticklabels())}
                    for x, tx in ticks.items():
                        harness.same(tx, str(g.inside[x]), what + f"label of column {x}")
                    bar = plt.gcf().axes[1].get_ylabel()
                    unit = m.units["rate" if q["prop"] == "rates" else "pressure"]
                    harness.require(unit in bar and (q["prop"] or "pressures") in bar.lower(), f"{what}colour bar labelled {bar!r}, unit {unit!r}")
                else:
                    lines = ax.get_lines()
                    harness.same(len(lines), 1, what + "curves")
                    x, y = np.asarray(lines[0].get_xdata(), float), np.ma.filled(np.ma.asarray(lines[0].get_ydata(), float), np.nan)
                    if q["kind"] == "cell":
                        harness.close(y, V[:, q["id"]], what + "values", rtol=1e-12)
                        harness.close(x, np.arange(last + 1) * s["dt"], what + "times", rtol=1e-12)
                    else:
                        harness.close(y, V[t], what + "values", rtol=1e-12)
                        harness.close(x, np.arange(g.N), what + "cells", rtol=0)
                        for p, tx in zip(ax.get_xticks(), ax.get_xticklabels()):
                            if tx.get_text() != "":
                                harness.same(tx.get_text(), str(int(round(p))), what + f"label at {p}")
                harness.close(m.solution.pressures, P, what + "recorded pressures afterwards", rtol=0)
    finally:
        plt.close("all")


SUBS = [
    harness.Sub("displays", case(), run, quick=500, thorough=12000),
    harness.Sub("hundreds", case(big=150), run, quick=64, thorough=800, shards=8),
    harness.Sub("plots", plot_case(), run_plot, quick=160, thorough=2500),
    harness.Sub("options", option(), run_option, quick=160, thorough=1500),
]
PINNED = {}
