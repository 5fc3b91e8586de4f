"""C09: mesh connectivity and geometry tables."""
import math
from fractions import Fraction as F
from mc import plib as L
from mc.core import require
import dolfin as df

TECHNIQUE = "exhaustive check of every cell, facet and vertex entry of the real Python and compiled tables over an enumerated family of small meshes, against exact connectivity and geometry"
LEVEL_NOTE = "Exhaustive over the entries of the meshes in the family; the family is a bound."
BOUNDS = {
    "quick": "14 hand-picked meshes, 8 of them scaled by 2**-20, 2**22 or 2**30, plus every right/left/crossed/alternating rectangle mesh up to 3x3, every box mesh up to 2x2x1, every interval mesh with 1..6 cells under every vertex numbering of up to 4 cells, each stretched by a uniform and a distorting map; Cartesian and (1D) spherical; one interval and one triangle mesh of more than 66000 cells, three of 300 to 612",
    "thorough": "rectangles up to 5x5, boxes up to 3x2x2, every vertex numbering of up to 6 interval cells",
}
ORACLE = "connectivity recomputed from the cell-vertex lists; volumes and normals in rational arithmetic"
ASSUMPTIONS = ["simplicial cells"]
EXPECT = {"facets": 3000, "meshes": 150}
FIXED = ["line4", "line_uneven", "line_shuffled", "radial", "square_right", "square_left", "square_crossed", "skewed", "sheared", "ell",
         "cube", "brick", "box211", "unit_square"] + ["skewed@-20", "ell@30", "cube@30", "brick@-20", "line_uneven@-20", "line_shuffled@30", "radial@22", "radial@-20"]

# Meshes with more cells, facets and vertices than a byte can count, and with more than two bytes can count
LARGE = [{"kind": "rect", "n": [182, 182], "diag": "right", "warp": 1}, {"kind": "long", "n": 66000},
         {"kind": "box", "n": [5, 4, 4], "warp": 1}, {"kind": "rect", "n": [18, 17], "diag": "right/left", "warp": 1},
         {"kind": "long", "n": 300}]


def family(tier):
    from itertools import permutations
    big = tier == "thorough"
    out = [{"kind": "fixed", "name": n} for n in FIXED]
    for nx in range(1, 6 if big else 4):
        for ny in range(1, 6 if big else 4):
            for diag in ("right", "left", "crossed", "right/left", "left/right"):
                for warp in (0, 1):
                    out.append({"kind": "rect", "n": [nx, ny], "diag": diag, "warp": warp})
    for n in ([(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1)] + ([(2, 2, 2), (3, 2, 2)] if big else [])):
        for warp in (0, 1):
            out.append({"kind": "box", "n": list(n), "warp": warp})
    for n in range(1, 7 if big else 5):
        for perm in permutations(range(n + 1)):
            if n > 3 and not big and perm[0] > 1:
                continue
            out.append({"kind": "line", "perm": list(perm)})
    return out


def build(spec):
    if spec["kind"] == "fixed":
        return L.mesh_of(spec["name"])
    if spec["kind"] == "rect":
        m = df.RectangleMesh(df.Point(0, 0), df.Point(spec["n"][0], spec["n"][1]), spec["n"][0], spec["n"][1], spec["diag"])
        if spec["warp"]:
            x = m.coordinates()
            x[:, 0], x[:, 1] = x[:, 0] + 0.125 * x[:, 1] ** 2, 0.75 * x[:, 1] - 0.0625 * x[:, 0]
        return m
    if spec["kind"] == "box":
        m = df.BoxMesh(df.Point(0, 0, 0), df.Point(*spec["n"]), *spec["n"])
        if spec["warp"]:
            x = m.coordinates()
            a, b, c = x[:, 0].copy(), x[:, 1].copy(), x[:, 2].copy()
            x[:, 0], x[:, 1], x[:, 2] = a + 0.125 * b * b, 0.75 * b - 0.0625 * c, c + 0.25 * a * b
        return m
    if spec["kind"] == "long":
        n = spec["n"]
        return L.make_mesh([(1 + i / 4,) for i in range(n + 1)], [(i, i + 1) for i in range(n)], "interval")
    perm = spec["perm"]          # perm[i] = number given to the i-th vertex from the left
    n = len(perm) - 1
    pos = [0, 1, 1.5, 3, 3.25, 5, 7]
    coords = [None] * (n + 1)
    for i, v in enumerate(perm):
        coords[v] = (1 + pos[i],)
    return L.make_mesh(coords, [(perm[i], perm[i + 1]) for i in range(n)], "interval")


def unit(v):
    n = math.sqrt(sum(float(a) ** 2 for a in v))
    return [float(a) / n for a in v]


def close(a, b, tol=1e-12):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))


def check(spec, rep):
    dm = build(spec)
    em = L.ExactMesh(dm)
    d = em.dim
    geos = ["Cartesian"] + (["1D-spherical-radial"] if d == 1 and min(c[0] for c in em.coords) >= 0 else [])
    for geo in geos:
        M = L.Mesh_C(Mesh=dm, coordinate_system=geo, compute_dictionaries=True, compute_cpp_arrays=True, compute_tree=True)
        ncell = len(em.cells)
        for tab in (M.cell_dict, M.cell_vertices_dict, M.cell_entity_indices_dict["facet"], M.cell_neighbors_dict,
                    M.cell_facet_normals_dict, M.cell_volume_dict):
            require(sorted(int(k) for k in tab) == list(range(ncell)), "table does not list every cell once", "")
        total = 0.0
        exact = 0
        for c in range(ncell):
            require(M.cell_dict[c].index() == c, "cell_dict", "cell %d" % c)
            require(sorted(M.cell_vertices_dict[c]) == sorted(em.cells[c]), "cell vertices", "cell %d" % c)
            fs = [int(f) for f in M.cell_entity_indices_dict["facet"][c]]
            require(sorted(fs) == sorted(em.cell_facets[c]), "cell facets", "cell %d: %s" % (c, fs))
            nb, nbc = list(M.cell_neighbors_dict[c]), list(M.mea_object.get_cell_neighbors(c))
            nrm, nrmc = M.cell_facet_normals_dict[c], list(M.mea_object.get_cell_facet_normals(c))
            require(len(nb) == d + 1 and len(nbc) == d + 1, "number of neighbours", "cell %d" % c)
            for i, f in enumerate(fs):
                want = em.neighbour(c, f)
                want = M.NO_CELL if want is None else want
                require(int(nb[i]) == want, "neighbour", lambda: "cell %d facet %d: %d, should be %d" % (c, f, nb[i], want))
                require(int(nbc[i]) == want, "compiled neighbour",
                        lambda: "cell %d facet %d: %d, should be %d" % (c, f, nbc[i], want))
                o = unit(em.outward(c, f))
                n1 = L.np.atleast_1d(nrm[i])
                require(len(n1) == d and all(close(a, b) for a, b in zip(n1, o)), "normal",
                        lambda: "cell %d facet %d: %s, should be %s" % (c, f, n1, o))
                require(all(close(a, b) for a, b in zip(nrmc[3 * i:3 * i + 3], o + [0.0] * (3 - d))), "compiled normal",
                        lambda: "cell %d facet %d: %s, should be %s" % (c, f, nrmc[3 * i:3 * i + 3], o))
                rep.note("facets")
                rep.step()
            if geo == "Cartesian":
                v = em.volume(c)
            else:
                a, b = sorted(em.coords[k][0] for k in em.cells[c])
                v = 4 * math.pi / 3 * float(b ** 3 - a ** 3)
            require(abs(float(M.cell_volume_dict[c]) - float(v)) <= 1e-12 * float(v) + 1e-300, "volume",
                    lambda: "%s: cell %d: %r, should be %r" % (geo, c, M.cell_volume_dict[c], float(v)))
            rep.state((str(spec), geo, c))
        around = [[] for v in em.coords]
        for c in range(ncell):
            for v in em.cells[c]:
                around[v].append(c)
        for v in range(len(em.coords)):
            want = sorted(around[v])
            require(sorted(int(c) for c in M.vertex_cells_dict[v]) == want, "cells of a vertex", "vertex %d" % v)
        require(len(M.vertex_cells_dict) == len(em.coords), "vertex table", "")
    rep.note("meshes", len(geos))


def jobs(tier):
    fam = family(tier)
    for spec in LARGE:
        yield {"specs": [spec]}
    for k in range(0, len(fam), 12):
        yield {"specs": fam[k:k + 12]}


def explore(job, tier, rep):
    for spec in job["specs"]:
        rep.run(spec, lambda: check(spec, rep))


def replay(case, rep):
    rep.run(case, lambda: check(case, rep))
