"""Queries on a grid with the value an independent model says they must have.

Each query is (label, call(g), compare(got)); `compare` raises Violation.
"""
import numpy as np

from . import harness, ref

X3 = "xyz"


def _arr(want, rtol=0.0, what=""):
    def cmp(got):
        got = harness.as_float(got, what)
        w = np.asarray(want, dtype=float)
        harness.close(got, w, what, rtol=rtol)

    return cmp


def plain(x):
    """nested containers of ints -> python, keeping container kinds"""
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return type(x)(plain(v) for v in x)
    return x


def _eq(want, what="", norm=None):
    def cmp(got):
        try:
            g = plain(got)
            if norm:
                g = norm(g)
        except Exception as e:  # noqa: BLE001
            raise harness.Violation(f"{what}: unusable result {str(got)[:200]} ({e})") from None
        harness.same(g, want, what)

    return cmp


class Q:
    def __init__(self):
        self.items = []

    def arr(self, label, call, want, rtol=0.0):
        self.items.append((label, call, _arr(want, rtol, label)))

    def eq(self, label, call, want, norm=None):
        self.items.append((label, call, _eq(want, label, norm)))


def check(items, g):
    for _label, call, cmp in items:
        cmp(call(g))


def npid(c):
    """every third cell is asked for by a numpy integer"""
    return np.int64(c) if c % 3 == 1 else c


# ------------------------------------------------------------------ numbering


def numbering(r):
    q = Q()
    q.eq("D", lambda g: g.get_D(), r.D)
    q.eq("fdir", lambda g: g.get_fdir(), r.fdir)
    for b in (True, False):
        n3 = r.nb if b else r.n
        ids = np.arange(r.N) if b else np.array(r.inside)
        t = f" boundary={b}"
        q.eq("shape" + t, lambda g, b=b: tuple(g.get_shape(b)), tuple(n3))
        q.eq("n" + t, lambda g, b=b: int(g.get_n(b)), len(ids))
        q.eq("n_max" + t, lambda g, b=b: int(g.get_n_max(b)), max(n3))
        for pts in (False, True):
            q.eq("fshape" + t, lambda g, b=b, p=pts: tuple(g.get_fshape(b, p)), tuple(r.fshape(b)) + ((3,) if pts else ()))
        for fs in (False, True):
            sh = r.fshape(b) if fs else (len(ids),)
            u = t + f" fshape={fs}"
            q.arr("order" + u, lambda g, b=b, fs=fs: g.get_order("natural", b, fs), ids.reshape(sh))
            q.arr("ones" + u, lambda g, b=b, fs=fs: g.get_ones(b, fs, False), np.ones(sh))
            q.arr("zeros" + u, lambda g, b=b, fs=fs: g.get_zeros(b, fs, False), np.zeros(sh))
            if len(sh) <= 2:
                # as a sparse matrix (one row unless shaped)
                for nm, f in (("ones", np.ones), ("zeros", np.zeros)):
                    q.arr(f"{nm} sparse" + u, lambda g, nm=nm, b=b, fs=fs: getattr(g, "get_" + nm)(b, fs, True).toarray().flatten(), f(len(ids)))
            q.arr("cells_i" + u, lambda g, b=b, fs=fs: g.get_cells_i(b, fs, "array"), np.arange(len(ids)).reshape(sh))
            q.arr("cells_id" + u, lambda g, b=b, fs=fs: g.get_cells_id(b, fs, "array"), ids.reshape(sh))
            q.arr("cells_coords" + u, lambda g, b=b, fs=fs: g.get_cells_coords(b, fs, "array"), np.array(r.coords)[ids].reshape(tuple(sh) + (3,)))
        L = [int(i) for i in ids]
        C = [r.coords[i] for i in L]
        for fmt, conv in (("list", list), ("tuple", tuple), ("set", set)):
            q.eq("cells_id as " + fmt + t, lambda g, b=b, f=fmt: g.get_cells_id(b, False, f), conv(L))
            q.eq("cells_coords as " + fmt + t, lambda g, b=b, f=fmt: g.get_cells_coords(b, False, f), conv(C))
        keep = [a for a in (2, 1, 0) if r.unify or r.D == 3 or a in r.flow]
        ic = [tuple(c[a] for a in keep) for c in C]
        if keep and r.N <= 1000:  # (slow)
            q.eq("cells_icoords" + t, lambda g, b=b: g.get_cells_icoords(b, False, "list"), ic)
            if len(keep) == 3:
                q.arr("cells_icoords fshape" + t, lambda g, b=b: g.get_cells_icoords(b, True), np.array(ic).reshape(tuple(r.fshape(b)) + (3,)))
    return q.items


def numbering_cells(r, cells):
    q = Q()
    for c in cells:
        xyz = r.coords[c]
        q.eq(f"coords of cell {c}", lambda g, c=npid(c): tuple(g.get_cell_coords(c, True)), xyz)
        q.eq(f"id of cell {xyz}", lambda g, xyz=xyz: g.get_cell_id(xyz, True), c)
        keep = [a for a in (2, 1, 0) if r.unify or r.D == 3 or a in r.flow]
        if keep:
            q.eq(f"icoords of cell {xyz}", lambda g, xyz=xyz: tuple(g.get_cell_icoords(xyz)), tuple(xyz[a] for a in keep))
            q.arr(
                f"cells_id[icoords] of cell {xyz}",
                lambda g, xyz=xyz: g.get_cells_id(True, True)[g.get_cell_icoords(xyz)],
                c,
            )
    if len(cells) > 1:
        cs = tuple(cells)
        q.eq(f"coords of cells {cs}", lambda g: [tuple(x) for x in g.get_cell_coords(cs, True)], [r.coords[c] for c in cs])
        co = tuple(r.coords[c] for c in cs)
        q.eq(f"ids of cells {co}", lambda g: list(g.get_cell_id(co, True)), list(cs))
    # the grid without boundary cells has its own (local) numbering
    nx, ny, _ = r.n
    loc = [c % len(r.inside) for c in cells]
    xyz = [(i % nx, i // nx % ny, i // (nx * ny)) for i in loc]
    for i, x in zip(loc, xyz):
        q.eq(f"local coords of cell {i}", lambda g, i=i: tuple(g.get_cell_coords(i, False)), x)
        q.eq(f"local id of cell {x}", lambda g, x=x: g.get_cell_id(x, boundary=False), i)
    if len(loc) > 1:
        tl, tx = tuple(loc), tuple(xyz)
        q.eq(f"local coords of cells {tl}", lambda g: [tuple(x) for x in g.get_cell_coords(tl, False)], xyz)
        q.eq(f"local ids of cells {tx}", lambda g: list(g.get_cell_id(tx, False)), loc)
    return q.items


# ------------------------------------------------------------------- topology


def topology_cells(r, cells):
    q = Q()
    ins = set(r.inside)
    for c in cells:
        for b in (False, True):
            if b and c not in ins:
                continue
            want = {ax: [] for ax in X3}
            for a in r.flow:
                want[X3[a]] = [x for x in r.faces(c, a) if b or x in ins]
            srt = lambda d: {k: sorted(v) for k, v in d.items()}  # noqa: E731
            t = f" of cell {c} boundary={b}"
            q.eq("neighbors" + t, lambda g, c=npid(c), b=b: g.get_cell_neighbors(id=c, boundary=b, fmt="dict"), want, srt)
            wc = {k: [r.coords[x] for x in v] for k, v in want.items()}
            q.eq("neighbors (coords)" + t, lambda g, c=c, b=b: g.get_cell_neighbors(coords=r.coords[c], boundary=b, fmt="dict"), wc, srt)
            flat = sorted(x for v in want.values() for x in v)
            for fmt in ("list", "tuple", "set", "array"):
                q.eq(f"neighbors as {fmt}" + t, lambda g, c=npid(c), b=b, f=fmt: g.get_cell_neighbors(id=c, boundary=b, fmt=f), flat, lambda v: sorted(int(x) for x in v))
        if c in ins:
            want = {ax: [] for ax in X3}
            for a in r.flow:
                want[X3[a]] = [x for x in r.faces(c, a) if x not in ins]
            srt = lambda d: {k: sorted(v) for k, v in d.items()}  # noqa: E731
            q.eq(f"boundaries of cell {c}", lambda g, c=npid(c): g.get_cell_boundaries(id=c, fmt="dict"), want, srt)
            wc = {k: sorted(r.coords[x] for x in v) for k, v in want.items()}
            q.eq(f"boundaries (coords) of cell {c}", lambda g, c=c: g.get_cell_boundaries(coords=r.coords[c], fmt="dict"), wc, srt)
            flat = sorted(x for v in want.values() for x in v)
            for fmt in ("list", "tuple", "set", "array"):
                q.eq(f"boundaries of cell {c} as {fmt}", lambda g, c=npid(c), f=fmt: g.get_cell_boundaries(id=c, fmt=f), flat, lambda v: sorted(int(x) for x in v))
    return q.items


# ------------------------------------------------------------------- geometry

RT = 1e-12


def geometry(r):
    q = Q()
    cen = r.centers()
    for b in (True, False):
        ids = np.arange(r.N) if b else np.array(r.inside)
        t = f" boundary={b}"
        for fs in (False, True):
            sh = tuple(r.fshape(b)) if fs else (len(ids),)
            u = t + f" fshape={fs}"
            for a, ax in enumerate(X3):
                q.arr(f"d{ax}" + u, lambda g, ax=ax, b=b, fs=fs: g.get_cells_d(ax, b, fs), r.d[a][ids].reshape(sh), RT)
                q.arr(f"get_cells_d{ax}" + u, lambda g, ax=ax, b=b, fs=fs: getattr(g, "get_cells_d" + ax)(b, fs), r.d[a][ids].reshape(sh), RT)
                q.arr(f"A{ax}" + u, lambda g, ax=ax, b=b, fs=fs: g.get_cells_A(ax, b, fs), r.A[a][ids].reshape(sh), RT)
                q.arr(f"get_cells_A{ax}" + u, lambda g, ax=ax, b=b, fs=fs: getattr(g, "get_cells_A" + ax)(b, fs), r.A[a][ids].reshape(sh), RT)
            q.arr("V" + u, lambda g, b=b, fs=fs: g.get_cells_V(b, fs, False), r.V[ids].reshape(sh), RT)
            q.arr("centers" + u, lambda g, b=b, fs=fs: g.get_cells_center(b, fs, False), cen[ids].reshape(sh + (3,)), 1e-10)
        q.arr("V pyvista" + t, lambda g, b=b: g.get_cells_V(b, False, True), r.V[ids], 1e-4)
        q.arr("centers pyvista" + t, lambda g, b=b: g.get_cells_center(b, False, True), cen[ids], 1e-4)
        q.arr("Vt" + t, lambda g, b=b: g.get_Vt(b), r.V[ids].sum(), 1e-10)
        q.arr("Vt pyvista" + t, lambda g, b=b: g.get_Vt(b, True), r.V[ids].sum(), 1e-4)
        if all(len(set(r.d1[a])) == 1 or r.n[a] > 1 for a in range(3)):
            q.eq("pyvista cells" + t, lambda g, b=b: int(g.get_pyvista_grid(b).n_cells), len(ids))
    for i, how in enumerate(("all", "dict", "-")):
        for nm, w in (("d", r.d), ("A", r.A)):
            for a, ax in enumerate(X3):
                for b, fs in ((True, False), (i != 1, True), (False, i == 1)):
                    ids = np.arange(r.N) if b else np.array(r.inside)
                    sh = tuple(r.fshape(b)) if fs else (len(ids),)
                    q.arr(f"{nm} {how} {ax} boundary={b} fshape={fs}", lambda g, nm=nm, how=how, ax=ax, b=b, fs=fs: getattr(g, "get_cells_" + nm)(how, b, fs)[ax], w[a][ids].reshape(sh), RT)
    even = [len({float(r.d[a][i]) for i in r.inside}) == 1 for a in range(3)]
    if not all(even) or all(len(set(v)) == 1 for v in r.d1):
        # equal internal cells between unequal boundary cells are left open
        q.eq("regular", lambda g: (bool(g.is_regular), bool(g.is_irregular)), (all(even), not all(even)))
    return q.items


def geometry_cells(r, cells):
    q = Q()
    cen = r.centers()
    # a single cell without flow direction has no index array (see numbering)
    by_coords = r.D > 0 or r.unify
    for c in cells:
        xyz = r.coords[c]
        for a, ax in enumerate(X3):
            for nm, w in (("d", r.d), ("A", r.A)):
                q.arr(f"{nm}{ax} of cell {c}", lambda g, nm=nm, ax=ax, c=npid(c): getattr(g, "get_cell_" + nm)(ax, id=c), w[a][c], RT)
                if by_coords:
                    q.arr(f"{nm}{ax} of cell {xyz}", lambda g, nm=nm, ax=ax, x=xyz: getattr(g, "get_cell_" + nm)(ax, coords=x), w[a][c], RT)
                q.arr(f"{nm}{ax} of cell {c} (named)", lambda g, nm=nm, ax=ax, c=npid(c): getattr(g, f"get_cell_{nm}{ax}")(id=c), w[a][c], RT)
        q.arr(f"V of cell {c}", lambda g, c=npid(c): g.get_cell_V(id=c), r.V[c], RT)
        if by_coords:
            q.arr(f"V of cell {xyz}", lambda g, x=xyz: g.get_cell_V(coords=x), r.V[c], RT)
        q.arr(f"center of cell {c}", lambda g, c=npid(c): g.get_cell_center(id=c), cen[c], 1e-10)
        if by_coords:
            q.arr(f"center of cell {xyz}", lambda g, x=xyz: g.get_cell_center(coords=x), cen[c], 1e-10)
    return q.items


# ----------------------------------------------------------- transmissibility


def trans_cells(r, cells, ks, rtol=1e-10):
    q = Q()
    ins = set(r.inside)
    for c in cells:
        for b in (False, True):
            if b and c not in ins:
                continue
            want = {}
            for a in r.flow:
                for x in r.faces(c, a):
                    if b or x in ins:
                        want[x] = r.G(c, x, a, ks[a])
            keys = sorted(want)

            def call(g, c=npid(c), b=b):
                return {int(k): float(v) for k, v in g.get_cell_G(id=c, boundary=b).items()}

            def cmp(got, keys=keys, want=want, c=c, b=b):
                harness.same(sorted(got), keys, f"cells connected to {c} (boundary={b})")
                harness.close([got[k] for k in keys], [want[k] for k in keys], f"G of cell {c} to {keys}", rtol=rtol)

            q.items.append((f"G of cell {c}", call, cmp))

            def call2(g, c=c, b=b):
                return {tuple(int(i) for i in k): float(v) for k, v in g.get_cell_G(coords=r.coords[c], boundary=b).items()}

            def cmp2(got, want=want, c=c, b=b):
                w = {r.coords[k]: v for k, v in want.items()}
                ks_ = sorted(w)
                harness.same(sorted(got), ks_, f"cells connected to {r.coords[c]} (boundary={b})")
                harness.close([got[k] for k in ks_], [w[k] for k in ks_], f"G of cell {r.coords[c]} to {ks_}", rtol=rtol)

            q.items.append((f"G of cell {r.coords[c]}", call2, cmp2))
    return q.items


def G_matrix(r, ks, boundary):
    ids = list(range(r.N)) if boundary else r.inside
    pos = {c: i for i, c in enumerate(ids)}
    M = np.zeros((len(ids), len(ids)))
    for c in ids:
        for a in r.flow:
            for x in r.faces(c, a):
                if x in pos:
                    M[pos[c], pos[x]] = r.G(c, x, a, ks[a])
    return M


def kfields(spec, r):
    return [ref.expand(spec["k" + ax], r.N) for ax in X3]
