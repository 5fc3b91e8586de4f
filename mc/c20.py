"""C20: a region contains exactly the cells it should."""
from fractions import Fraction as F
from itertools import product
import math
import numpy as np
from mc import plib as L
from mc.core import require

TECHNIQUE = "exhaustive enumeration of every lattice rectangle, every lattice centre and radius and the whole mesh over a family of small meshes, and of every lattice point against every cell of the region, on the real region classes, compared with exact rational geometry"
LEVEL_NOTE = "Exhaustive over the stated meshes and lattices. Spherical regions are claimed in 1D only, as the class is written for one coordinate."
BOUNDS = {
    "quick": "rectangles in the middle and at the end of an interval and a triangle mesh of 66000 cells; 14 meshes (interval, radial, triangle, tetrahedron); all rectangles whose corners are cell-midpoint coordinates or half-way between neighbouring ones; all 1D centres and radii of that kind; all points of a lattice extending beyond the mesh, plus all vertices, edge points and midpoints, against every cell",
    "thorough": "as quick with quarter-way corners and twice finer point lattices, and rectangle/box meshes up to 3x3 and 2x2x1",
}
ORACLE = "exact rational cell midpoints, closed cells, volumes and circumradii"
ASSUMPTIONS = ["corners differ from cell midpoints by 0 or by more than the code's 1e-10 tolerance"]
EXPECT = {"regions": 1000, "points": 10000, "empty": 50, "large": 4}

MESHES = ["line4", "line_uneven", "line_shuffled", "radial", "square_right", "square_left", "square_crossed", "skewed", "sheared", "ell",
          "unit_square", "cube", "brick", "box211"]
_cache = {}


def world(mesh, geo):
    if (mesh, geo) not in _cache:
        import dolfin as df
        dm = L.mesh_of(mesh) if mesh in MESHES + ["wide", "long"] else (
            df.RectangleMesh(df.Point(0, 0), df.Point(3, 3), 3, 3, "right") if mesh == "rect33" else
            df.BoxMesh(df.Point(0, 0, 0), df.Point(2, 2, 1), 2, 2, 1))
        M = L.Mesh_C(Mesh=dm, coordinate_system=geo, compute_dictionaries=True, compute_cpp_arrays=False, compute_tree=True)
        _cache[mesh, geo] = (M, L.ExactMesh(dm))
    return _cache[mesh, geo]


def mid(em, c):
    vs = [em.coords[v] for v in em.cells[c]]
    return tuple(sum(v[k] for v in vs) / len(vs) for k in range(em.dim))


def volume(em, c, geo):
    if geo == "Cartesian":
        return float(em.volume(c))
    r = sorted(em.coords[v][0] for v in em.cells[c])
    return float(r[1] ** 3 - r[0] ** 3) * 4 * math.pi / 3


def circumradius(em, c):
    """From the circumcentre: the point at equal distance from all vertices (exact linear equations)."""
    vs = [em.coords[v] for v in em.cells[c]]
    d = em.dim
    A = [[2 * (v[k] - vs[0][k]) for k in range(d)] for v in vs[1:]]
    b = [sum(v[k] ** 2 - vs[0][k] ** 2 for k in range(d)) for v in vs[1:]]
    from mc.geom import det
    D = det(A)
    ctr = []
    for k in range(d):
        Ak = [[b[i] if j == k else A[i][j] for j in range(d)] for i in range(d)]
        ctr.append(det(Ak) / D)
    return math.sqrt(float(sum((ctr[k] - vs[0][k]) ** 2 for k in range(d))))


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-12 * max(1.0, abs(float(b)))


def check_region(R, want, M, em, geo, what, rep):
    idx = [int(i) for i in R.cell_index]
    require(sorted(idx) == sorted(want), "wrong cells", lambda: "%s: cells %s, should be %s" % (what, sorted(idx), sorted(want)))
    require(R.ncell == len(want) and len(R.cell_list) == len(want) and R.gdim == em.dim, "sizes", what)
    for i, c in enumerate(idx):
        require(R.cell_list[i].index() == c, "cell list and indices differ", what)
        require(near(R.volume[i], volume(em, c, geo)), "volume", lambda: "%s: cell %d: %r" % (what, c, R.volume[i]))
        require(all(near(a, b) for a, b in zip(R.midpoint[i], mid(em, c))) and len(R.midpoint[i]) == em.dim, "midpoint", lambda: "%s: cell %d: %s" % (what, c, R.midpoint[i]))
        require(near(R.radius[i], circumradius(em, c)), "radius", lambda: "%s: cell %d: %r, should be %r" % (what, c, R.radius[i], circumradius(em, c)))
    rep.note("regions")
    rep.step()
    rep.state((what.split()[0], tuple(sorted(idx))))


def make(fn, want, what, rep):
    try:
        R = fn()
    except RuntimeError as e:
        require(not want, "region refused", lambda: "%s: %s, should have cells %s" % (what, e, want))
        rep.note("empty")
        rep.step()
        return None
    require(want, "empty region accepted", what)
    return R


def one(case, rep):
    from Dolfin_Module import RectangularRegion_C, SphericalRegion_C, WholeMesh_C, CellSet_C
    M, em = world(case["mesh"], case["geo"])
    n = range(len(em.cells))
    if case["kind"] == "rect":
        lo, hi = [F(v) for v in case["lo"]], [F(v) for v in case["hi"]]
        want = [c for c in n if all(near_le(l, m) and near_le(m, h) for l, m, h in zip(lo, mid(em, c), hi))]
        a, b = [float(v) for v in lo], [float(v) for v in hi]
        if em.dim == 1:
            a, b = a[0], b[0]
        what = "rectangle %s to %s on %s" % (a, b, case["mesh"])
        R = make(lambda: RectangularRegion_C(M, a, b), want, what, rep)
    elif case["kind"] == "sphere":
        ctr, rad = F(case["center"]), F(case["radius"])
        want = [c for c in n if near_le(abs(mid(em, c)[0] - ctr), rad)]
        what = "sphere at %s radius %s on %s" % (float(ctr), float(rad), case["mesh"])
        R = make(lambda: SphericalRegion_C(M, float(ctr), float(rad)), want, what, rep)
    elif case["kind"] == "whole":
        want, what = list(n), "whole " + case["mesh"]
        R = make(lambda: WholeMesh_C(M), want, what, rep)
    elif case["kind"] == "plain":
        want, what = list(n), "plain " + case["mesh"]
        R = make(lambda: CellSet_C(M), want, what, rep)
    else:                                    # a user's own region: every subset of the cells
        want = [c for c in n if case["mask"] >> c & 1]
        ms = [tuple(float(v) for v in mid(em, c)) for c in want]

        class Own(CellSet_C):
            def inside(self, x):
                return any(all(abs(x[k] - m[k]) < 1e-9 for k in range(em.dim)) for m in ms)
        what = "user's region %s of %s" % (want, case["mesh"])
        R = make(lambda: Own(M), want, what, rep)
    if R is not None:
        check_region(R, want, M, em, case["geo"], what, rep)
        if case.get("points"):
            in_cells(R, em, case["den"], what, rep)


def near_le(a, b):
    return a - b <= F(1, 10 ** 11)


def in_cells(R, em, den, what, rep):
    pts = []
    lo = [min(c[k] for c in em.coords) - F(1, 2) for k in range(em.dim)]
    hi = [max(c[k] for c in em.coords) + F(1, 2) for k in range(em.dim)]
    for p in product(*[L.lattice(l, h, F(1, den)) for l, h in zip(lo, hi)]):
        pts.append(p)
    pts += em.coords
    for c in range(len(em.cells)):
        vs = [em.coords[v] for v in em.cells[c]]
        for a in vs:
            for b in vs:
                pts.append(tuple((x + 3 * y) / 4 for x, y in zip(a, b)))
        pts.append(mid(em, c))
    pts = sorted(set(L.fr([float(v) for v in p]) for p in pts))
    for i in range(R.ncell):
        c = int(R.cell_index[i])
        for p in pts:
            got = R.in_cell(np.array([float(v) for v in p]), i)
            want = em.contains(c, p)
            rep.note("points")
            require(bool(got) == want, "in_cell", lambda: "%s: point %s cell %d: %s, should be %s" % (what, [float(v) for v in p], c, got, want))


def corners(em, k, parts):
    ms = sorted(set(mid(em, c)[k] for c in range(len(em.cells))))
    out = list(ms) + [ms[0] - 1, ms[-1] + 1]
    for a, b in zip(ms, ms[1:]):
        out += [a + (b - a) * F(j, parts) for j in range(1, parts)]
    return sorted(out)


def jobs(tier):
    yield {"mesh": "wide", "geo": "Cartesian", "what": "large"}
    yield {"mesh": "long", "geo": "Cartesian", "what": "large"}
    for m in MESHES + ([] if tier == "quick" else ["rect33", "box221"]):
        for geo in (["Cartesian", "1D-spherical-radial"] if m == "radial" else ["Cartesian"]):
            em = world(m, geo)[1]
            yield {"mesh": m, "geo": geo, "what": "other"}
            for lo in corners(em, 0, 2 if tier == "quick" else 4):
                yield {"mesh": m, "geo": geo, "what": "rect", "lo0": str(lo)}


def explore(job, tier, rep):
    q = tier == "quick"
    base = {"mesh": job["mesh"], "geo": job["geo"]}
    M, em = world(job["mesh"], job["geo"])
    if job["what"] == "large":
        for lo, hi in (((89, 89), (93, 92)), ((178, 179), (182, 182))) if em.dim == 2 else (((32766,), (32770,)), ((65530,), (66000,))):
            case = dict(base, kind="rect", lo=[str(v) for v in lo], hi=[str(v) for v in hi])
            rep.run(case, lambda: one(case, rep))
            rep.note("large")
        return
    parts = 2 if q else 4
    cs = [corners(em, k, parts) for k in range(em.dim)]
    if em.dim == 3 and q:
        cs = [c[::2] + c[-1:] for c in cs]
    if job["what"] == "rect":
        lo0 = F(job["lo0"])
        for rest in product(*cs[1:]):
            lo = (lo0,) + rest
            for hi in product(*cs):
                if not all(l <= h for l, h in zip(lo, hi)) and any(l > h + 2 for l, h in zip(lo, hi)):
                    continue
                case = dict(base, kind="rect", lo=[str(v) for v in lo], hi=[str(v) for v in hi])
                rep.run(case, lambda: one(case, rep))
        return
    den = {1: 16, 2: 4, 3: 2}[em.dim] * (1 if q else 2)
    for kind in ("whole", "plain"):
        case = dict(base, kind=kind, points=True, den=den)
        rep.run(case, lambda: one(case, rep))
    n = len(em.cells)
    if n <= 8:
        for mask in range(2 ** n):
            case = dict(base, kind="own", mask=mask, points=mask % 7 == 3, den=max(1, den // 2))
            rep.run(case, lambda: one(case, rep))
    if em.dim == 1:
        for ctr in cs[0]:
            for other in cs[0]:
                case = dict(base, kind="sphere", center=str(ctr), radius=str(abs(ctr - other)), points=True, den=4)
                rep.run(case, lambda: one(case, rep))


def replay(case, rep):
    rep.run(case, lambda: one(case, rep))
