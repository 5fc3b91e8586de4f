"""C23: a mesh built from the user's description is that mesh, with each named boundary marked."""
from itertools import product, permutations
from math import cos, sin, pi, atan2, hypot
import numpy as np
import dolfin as df
from mc import plib as L
from mc.c12 import Here
from mc.core import require

TECHNIQUE = "exhaustive enumeration of mesh descriptions (dimension, cells per side, diagonal, limits, stretch, angle, boundary dictionaries and tag assignments, built or read back from files) on the real mesh classes; every vertex, cell and facet compared with the description"
LEVEL_NOTE = "Exhaustive within the stated bounds: every vertex, every cell volume, every facet mark of every description."
BOUNDS = {
    "quick": "Cartesian: 1D 1..5 cells, 2D 1..3 x 1..3 cells x 6 diagonals, 3D 1..2 per side; spherical radial: 1..5 cells x 4 stretches x 4 limits; quarter circle: 1..3 x 1..3 cells x 5 diagonals x 3 stretches x 3 angles; boundary dictionaries absent or present, tags from {1,2,5} for every side (all assignments in 1D/2D; rotations, reversals and repetitions in 3D); rebuilt from mesh and marker files; every kind of mesh also in 6 sizes, 1e-6 to 7e6, x 5 sets of limits that are not round",
    "thorough": "as quick with one more cell per side and 4 tag values",
}
ORACLE = "vertex positions from the description's formula; exterior facets found by counting cells per facet and classified by the positions of their vertices"
ASSUMPTIONS = ["field boundaries of 2D and 3D Cartesian meshes are documented as unsupported (refused)"]
EXPECT = {"meshes": 2000, "marked": 5000, "unmarked": 5000, "from file": 100, "refused": 10}




def grid(vals):
    return sorted(product(*vals))


def near(a, b, scale):
    return all(abs(x - y) <= 1e-12 * scale for x, y in zip(a, b))


def same_points(got, want, scale, what):
    got, want = sorted(map(tuple, got)), sorted(want)
    require(len(got) == len(want), "number of vertices", lambda: "%s: %d, should be %d" % (what, len(got), len(want)))
    left = list(want)
    for p in got:
        m = [q for q in left if near(p, q, scale)]
        require(m, "vertex", lambda: "%s: %s is not a vertex of the mesh described" % (what, p))
        left.remove(m[0])


def facets_of(mesh):
    """{facet index: (vertex indices, number of cells)} from the cell lists."""
    d = mesh.topology().dim()
    count = {}
    for c in mesh.cells():
        c = [int(v) for v in c]
        for i in range(d + 1):
            k = frozenset(c[:i] + c[i + 1:])
            count[k] = count.get(k, 0) + 1
    mesh.init(d - 1, 0)
    mesh.init(0, d - 1)
    out = {}
    for f in df.facets(mesh):
        vs = frozenset(int(v) for v in f.entities(0)) if d > 1 else frozenset([int(f.entities(0)[0])])
        out[f.index()] = (vs, count[vs])
    return out


def volume(mesh, c):
    X = [mesh.coordinates()[int(v)] for v in mesh.cells()[c]]
    d = len(X) - 1
    M = np.array([X[i + 1] - X[0] for i in range(d)])
    return abs(np.linalg.det(M)) / [1, 1, 2, 6][d]


def check_marks(M, marker, tags, side, rep, what):
    """side: vertex coordinates -> set of boundary names the point is on."""
    X = M.mesh.coordinates()
    arr = marker.array()
    F = facets_of(M.mesh)
    require(len(arr) == len(F), "marker size", what)
    require(marker.dim() == M.mesh.topology().dim() - 1, "marker dimension", what)
    for f, (vs, n) in F.items():
        names = set.intersection(*[side(X[v]) for v in vs]) if n == 1 else set()
        want = {tags[k] for k in names if k in tags} or {0}
        require(int(arr[f]) in want, "boundary mark", lambda: "%s: facet %s is on %s and is marked %d, should be %s" % (
            what, [list(X[v]) for v in vs], sorted(names), arr[f], sorted(want)))
        rep.note("marked" if want != {0} else "unmarked")
        rep.step()


# ------------------------------------------------------------------ Cartesian
def cartesian(case, rep):
    from UserMesh_y_Fields_FE_XYZ_Module import UserMeshInput_C, UserMesh_C
    n, lo, hi = case["n"], case["lo"], case["hi"]
    d = len(n)
    umi = UserMeshInput_C()
    umi.pmin, umi.pmax = df.Point(*lo), df.Point(*hi)
    umi.cells_on_side = tuple(n)
    umi.diagonal = case.get("diagonal")
    umi.field_boundary_dict = case.get("field")
    umi.particle_boundary_dict = case.get("particle")
    with Here():
        M = UserMesh_C(umi, compute_dictionaries=case["extra"], compute_cpp_arrays=case["extra"], compute_tree=case["extra"])
    m = M.mesh
    scale = max(abs(v) for v in list(lo) + list(hi))
    require(M.coordinate_system == "Cartesian" and m.geometry().dim() == d and m.topology().dim() == d, "kind of mesh")
    vals = [[lo[k] + (hi[k] - lo[k]) * i / float(n[k]) for i in range(n[k] + 1)] for k in range(d)]
    pts = grid(vals)
    per = {1: 1, 2: 2, 3: 6}[d]
    if case.get("diagonal") == "crossed":
        pts += grid([[(v[i] + v[i + 1]) / 2 for i in range(len(v) - 1)] for v in vals])
        per = 4
    same_points(m.coordinates(), pts, scale, "mesh")
    cells = int(np.prod(n)) * per
    require(m.num_cells() == cells, "number of cells", lambda: "%d, should be %d" % (m.num_cells(), cells))
    V = [volume(m, c) for c in range(cells)]
    total = float(np.prod([hi[k] - lo[k] for k in range(d)]))
    require(all(abs(v - total / cells) <= 1e-9 * total for v in V), "cell volumes", lambda: str(V))
    if d == 2 and case.get("diagonal") != "crossed":
        diagonals(m, vals, case.get("diagonal"))

    def side(x):
        return {"xyz"[k] + s for k in range(d) for s, v in (("min", lo[k]), ("max", hi[k])) if abs(x[k] - v) < 1e-9 * scale}
    for name, dic in (("field_boundary", case.get("field")), ("particle_boundary", case.get("particle"))):
        marker = getattr(M, name + "_marker")
        require(getattr(M, name + "_dict") == dic, name + "_dict")
        if dic is None:
            require(marker is None or not np.any(marker.array()), name + " marked without a dictionary")
        else:
            check_marks(M, marker, dic, side, rep, name)
    rep.note("meshes")
    rep.state(repr(case))


def diagonals(m, vals, want):
    """each rectangle of the grid is split along the requested diagonal"""
    nx, ny = len(vals[0]) - 1, len(vals[1]) - 1
    X = m.coordinates()
    for c in m.cells():
        p = [X[int(v)] for v in c]
        i = min(range(nx), key=lambda k: abs((vals[0][k] + vals[0][k + 1]) / 2 - sum(q[0] for q in p) / 3.0))
        j = min(range(ny), key=lambda k: abs((vals[1][k] + vals[1][k + 1]) / 2 - sum(q[1] for q in p) / 3.0))
        corners = {(int(abs(q[0] - vals[0][i]) > abs(q[0] - vals[0][i + 1])), int(abs(q[1] - vals[1][j]) > abs(q[1] - vals[1][j + 1]))) for q in p}
        is_right = {(0, 0), (1, 1)} <= corners
        is_left = {(0, 1), (1, 0)} <= corners
        require(is_right != is_left, "triangle")
        if want in (None, "right"):
            require(is_right, "diagonal", lambda: "cell %s,%s" % (i, j))
        elif want == "left":
            require(is_left, "diagonal", lambda: "cell %s,%s" % (i, j))


# ------------------------------------------------------------------ spherical radial
def radial_input(case):
    from UserMesh_y_Fields_Spherical1D_Module import UserMeshInput1DS_C
    umi = UserMeshInput1DS_C()
    umi.rmin, umi.rmax, umi.stretch, umi.nr = case["rmin"], case["rmax"], case["stretch"], case["nr"]
    umi.field_boundary_dict, umi.particle_boundary_dict = case.get("field"), case.get("particle")
    return umi


def radial(case, rep):
    from UserMesh_y_Fields_Spherical1D_Module import UserMesh1DS_C
    rmin, rmax, nr = case["rmin"], case["rmax"], case["nr"]
    with Here():
        M = UserMesh1DS_C(radial_input(case), compute_dictionaries=case["extra"], compute_cpp_arrays=case["extra"], compute_tree=case["extra"])
        if case.get("file"):
            df.File("m.xml") << M.mesh
            for k in ("field", "particle"):
                if case.get(k):
                    df.File(k + ".xml") << getattr(M, k + "_boundary_marker")
            umi = radial_input(case)
            umi.mesh_file = "m.xml"
            umi.field_boundary_file = "field.xml" if case.get("field") else None
            umi.particle_boundary_file = "particle.xml" if case.get("particle") else None
            M = UserMesh1DS_C(umi, compute_dictionaries=case["extra"], compute_cpp_arrays=case["extra"], compute_tree=case["extra"])
            rep.note("from file")
    m = M.mesh
    require(M.coordinate_system == "1D-spherical-radial" and m.geometry().dim() == 1, "kind of mesh")
    want = [(rmin + (rmax - rmin) * (i / float(nr)) ** case["stretch"],) for i in range(nr + 1)]
    same_points(m.coordinates(), want, rmax, "radial mesh")
    require(m.num_cells() == nr and all(volume(m, c) > 0 for c in range(nr)), "cells")
    require(abs(sum(volume(m, c) for c in range(nr)) - (rmax - rmin)) < 1e-9 * rmax, "length")

    def side(x):
        return {s for s, v in (("rmin", rmin), ("rmax", rmax)) if abs(x[0] - v) < 1e-9 * rmax}
    named(M, case, side, rep)


def named(M, case, side, rep):
    for k in ("field", "particle"):
        dic = case.get(k)
        require(getattr(M, k + "_boundary_dict") == dic, k + "_boundary_dict")
        marker = getattr(M, k + "_boundary_marker", None)
        if dic is None:
            require(marker is None or not np.any(marker.array()), k + " boundary marked without a dictionary")
        else:
            require(marker is not None, "no marker", lambda: "%s boundaries are named but there is no %s_boundary_marker" % (k, k))
            check_marks(M, marker, dic, side, rep, k)
    rep.note("meshes")
    rep.state(repr(case))


# ------------------------------------------------------------------ part of a circle
def circle(case, rep):
    from UserMesh_y_Fields_FE2D_Module import UserMeshInput2DCirc_C, UserMesh2DCirc_C
    rmin, rmax, nr, nt, tmax, st = [case[k] for k in ("rmin", "rmax", "nr", "nt", "tmax", "stretch")]

    def make_input():
        u = UserMeshInput2DCirc_C()
        u.rmin, u.rmax, u.stretch, u.nr, u.nt, u.tmax, u.diagonal = rmin, rmax, st, nr, nt, tmax, case["diagonal"]
        u.field_boundary_dict, u.particle_boundary_dict = case.get("field"), case.get("particle")
        return u
    kw = {"compute_dictionaries": case["extra"], "compute_cpp_arrays": case["extra"], "compute_tree": case["extra"]}
    with Here():
        M = UserMesh2DCirc_C(make_input(), **kw)
        if case.get("file"):
            df.File("m.xml") << M.mesh
            u = make_input()
            u.mesh_file = "m.xml"
            for k in ("field", "particle"):
                if case.get(k):
                    df.File(k + ".xml") << getattr(M, k + "_boundary_marker")
                    setattr(u, k + "_boundary_file", k + ".xml")
            M = UserMesh2DCirc_C(u, **kw)
            rep.note("from file")
    m = M.mesh
    require(M.coordinate_system == "Cartesian" and m.geometry().dim() == 2, "kind of mesh")
    at = lambda s, t: (lambda r: (r * cos(tmax * t), r * sin(tmax * t)))(rmin + (rmax - rmin) * s ** st)
    pts = [at(i / float(nr), j / float(nt)) for i in range(nr + 1) for j in range(nt + 1)]
    per = 2
    if case["diagonal"] == "crossed":
        pts += [at((i + 0.5) / nr, (j + 0.5) / nt) for i in range(nr) for j in range(nt)]
        per = 4
    same_points(m.coordinates(), pts, rmax, "mesh")
    require(m.num_cells() == per * nr * nt, "number of cells")
    area = 0.5 * sin(tmax / nt) * nt * (rmax ** 2 - rmin ** 2)          # polygon inscribed in both circles
    V = [volume(m, c) for c in range(m.num_cells())]
    if case["diagonal"] != "crossed":
        require(min(V) > 0 and abs(sum(V) - area) < 1e-9 * area, "area", lambda: "%r, should be %r" % (sum(V), area))
    else:
        require(min(V) > 0, "area")

    def side(x):
        r, t = hypot(*x), atan2(x[1], x[0])
        out = {s for s, v in (("rmin", rmin), ("rmax", rmax)) if abs(r - v) < 1e-9 * rmax}
        return out | {s for s, v in (("thmin", 0.0), ("thmax", tmax)) if abs(t - v) < 1e-9}
    named(M, case, side, rep)


def refused(case, rep):
    """Field boundaries on 2D/3D Cartesian meshes are not supported: refused, not ignored."""
    try:
        cartesian(dict(case), Nothing())
    except SystemExit:
        rep.note("refused")
        return
    # a version that supports them has been checked above like any other


class Nothing(object):
    def note(self, *a):
        pass
    state = step = note


# ------------------------------------------------------------------ enumeration
def assign(names, tags):
    for t in product(tags, repeat=len(names)):
        yield dict(zip(names, t))


def jobs(tier):
    q = tier == "quick"
    for nx in range(1, 6 if q else 7):
        yield {"what": "x", "n": [nx]}
    for nx, ny in product(range(1, 4 if q else 5), repeat=2):
        for d in (None, "left", "right", "left/right", "right/left", "crossed"):
            yield {"what": "xy", "n": [nx, ny], "diagonal": d}
    for n in product(range(1, 3 if q else 4), repeat=3):
        yield {"what": "xyz", "n": list(n)}
    for nr in range(1, 6 if q else 7):
        yield {"what": "r", "nr": nr}
    for nr, nt in product(range(1, 4 if q else 5), repeat=2):
        for d in ("left", "right", "left/right", "right/left", "crossed"):
            yield {"what": "circle", "nr": nr, "nt": nt, "diagonal": d}


SIZES = (1e-6, 1e-3, 1e3, 1e5, 6.371e6, 7e6)
SPANS = ((-3.0, 1.1), (0.1, 0.8), (-2.9, -1.1), (0.7, 1.8), (1.1, 2.3))


def sized(job):
    """Devices of every size: micrometres to the size of a planet, with limits that are not round numbers."""
    w = job["what"]
    for s, (a, b) in product(SIZES, SPANS):
        if w in ("x", "xy", "xyz"):
            d = len(job["n"])
            spans = [SPANS[(SPANS.index((a, b)) + k) % len(SPANS)] for k in range(d)]
            lo = [u * s for u, v in spans] + [0.0] * (3 - d)
            hi = [v * s for u, v in spans] + [0.0] * (3 - d)
            tags = {x + e: 1 + 2 * k + (e == "max") for k, x in enumerate("xyz"[:d]) for e in ("min", "max")}
            yield dict(n=job["n"], lo=lo, hi=hi, diagonal=job.get("diagonal"), particle=tags, field=tags if d == 1 else None, extra=False)
        elif a > 0:
            c = dict(nr=job["nr"], rmin=a * s, rmax=b * s, field={"rmin": 1, "rmax": 2}, extra=False)
            if w == "r":
                for st in (1.0, 1.3):
                    yield dict(c, stretch=st, particle={"rmin": 3, "rmax": 4})
            else:
                for st in (1.0, 1.3):
                    yield dict(c, nt=job["nt"], diagonal=job["diagonal"], stretch=st, tmax=pi / 2, particle={"rmin": 1, "rmax": 2, "thmin": 4, "thmax": 8})


def explore(job, tier, rep):
    tags = (1, 2, 5) if tier == "quick" else (1, 2, 5, 9)
    w = job["what"]
    run = {"x": cartesian, "xy": cartesian, "xyz": cartesian, "r": radial, "circle": circle}
    cases = []
    if w == "x":
        names = ["xmin", "xmax"]
        opts = [None] + list(assign(names, tags))
        for lo, hi in (([0.0, 0.0, 0.0], [1.0, 0.0, 0.0]), ([-2.5, 1.0, 0.0], [4.0, 1.0, 0.0]), ([-10.0, 0.0, -3.0], [-2.0, 0.0, -3.0])):
            for f, p in product(opts, repeat=2):
                cases.append(dict(n=job["n"], lo=lo, hi=hi, field=f, particle=p, extra=f is None))
    elif w == "xy":
        names = ["xmin", "xmax", "ymin", "ymax"]
        for lo, hi in (([0.0, 0.0, 0.0], [1.0, 1.0, 0.0]), ([-2.5, 1.0, 3.0], [4.0, 3.0, 3.0])):
            for p in [None] + list(assign(names, tags)):
                cases.append(dict(n=job["n"], lo=lo, hi=hi, diagonal=job["diagonal"], particle=p, extra=p is None))
    elif w == "xyz":
        names = ["xmin", "xmax", "ymin", "ymax", "zmin", "zmax"]
        sets = [dict(zip(names, t)) for t in set(permutations((1, 1, 2, 2, 5, 5)))] if job["n"] == [1, 1, 1] else []
        sets += [dict(zip(names, [1 + (i * s + r) % 7 for i in range(6)])) for s in (1, 2, 3, 5) for r in range(7) if all((i * s + r) % 7 != 6 for i in range(6))]
        for lo, hi in (([0.0, 0.0, 0.0], [1.0, 1.0, 1.0]), ([-2.5, 1.0, -3.0], [4.0, 3.0, -1.0])):
            for p in [None] + sets:
                cases.append(dict(n=job["n"], lo=lo, hi=hi, particle=p, extra=p is None))
    elif w == "r":
        names = ["rmin", "rmax"]
        opts = [None] + list(assign(names, tags))
        for (rmin, rmax), st in product(((0.0, 1.0), (1.0, 5.0), (0.5, 0.75), (2.0, 40.0)), (1.0, 1.3, 2.0, 0.5)):
            for k, (f, p) in enumerate(product(opts, repeat=2)):
                cases.append(dict(nr=job["nr"], rmin=rmin, rmax=rmax, stretch=st, field=f, particle=p, extra=f is None))
                if k % 7 == 0:
                    cases.append(dict(cases[-1], file=True))
    else:
        fopts = [None, {"rmin": 1, "rmax": 2}, {"rmin": 5, "rmax": 1}, {"rmin": 4, "rmax": 4}]
        popts = [None] + [dict(zip(["rmin", "rmax", "thmin", "thmax"], t)) for t in permutations((1, 2, 4, 8))] + [{"rmin": 1, "rmax": 1, "thmin": 2, "thmax": 2}]
        for st, tm, (rmin, rmax) in product((1.0, 1.3, 2.0), (pi / 2, 1.0, pi / 4), ((1.0, 5.0), (0.5, 0.75))):
            if tm / job["nt"] > 1.6:
                continue
            for k, (f, p) in enumerate(product(fopts, popts)):
                if k % 9 == 0 or (st == 1.3 and tm == 1.0):
                    cases.append(dict(nr=job["nr"], nt=job["nt"], diagonal=job["diagonal"], rmin=rmin, rmax=rmax, stretch=st, tmax=tm, field=f, particle=p, extra=k % 2 == 0))
                    if k % 18 == 0:
                        cases.append(dict(cases[-1], file=True))
    cases += sized(job)
    for c in cases:
        c["what"] = w
        rep.run(c, lambda: run[w](c, rep))
    if w in ("xy", "xyz"):
        c = dict(cases[0], what="refused", field={"xmin": 1, "xmax": 2, "ymin": 1, "ymax": 2, "zmin": 1, "zmax": 2})
        rep.run(c, lambda: refused(c, rep))


def replay(case, rep):
    run = {"x": cartesian, "xy": cartesian, "xyz": cartesian, "r": radial, "circle": circle, "refused": refused}
    rep.run(case, lambda: run[case["what"]](case, rep))
