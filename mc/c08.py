"""C08: the facet through which a move leaves a cell."""
from fractions import Fraction as F
from itertools import product
from mc import plib as L
from mc.core import require
from mc.track import show
import dolfin as df

TECHNIQUE = "exhaustive enumeration of barycentric-lattice points x lattice displacements for every cell of small meshes through both real facet searches, compared with exact rational geometry"
LEVEL_NOTE = "Exhaustive over the stated lattices; when the end point is on a facet, or the path leaves through an edge, to within rounding error, any of the answers exact geometry allows is accepted; moves within the plane of a facet they start on are left out."
BOUNDS = {
    "quick": "every cell of 4 interval, 6 triangle and 3 tetrahedron meshes; every point of the closed cell with barycentric coordinates that are multiples of 1/8 (tetrahedra: 1/4); displacements on a lattice of 65 (1D), 17x17 (2D), 9x9x9 (3D) up to about the mesh size; 6 of the meshes also scaled by 2**-40 or 2**30; and moves of length about 2**-24 from points that far off every facet, edge and vertex",
    "thorough": "barycentric lattice 1/16 (1/8 for tetrahedra), the fine displacement lattices for the scaled and the short moves too, displacement lattices 129, 33x33, 13x13x13",
}
ORACLE = "first exit of the straight path from the cell's half-spaces, in rational arithmetic"
ASSUMPTIONS = ["simplicial cells with dyadic coordinates"]
EXPECT = {"crossings": 100000, "no_crossing": 10000}
MESHES = ["brick", "cube", "box211", "skewed", "ell", "sheared", "square_right", "square_left", "square_crossed",
          "line_uneven", "line_shuffled", "line4", "radial"]
SCALED = ["brick@-40", "cube@30", "skewed@-40", "sheared@30", "line_uneven@-40", "line_shuffled@30"]
EPS = 2.0 ** -52
SHORT = F(1, 2 ** 24)


def jobs(tier):
    for m in MESHES + SCALED:
        n = len(L.mesh_of(m).cells())
        for c in range(n):
            yield {"mesh": m, "cell": c}
            yield {"mesh": m, "cell": c, "short": True}


def points(em, c, k):
    """The barycentric lattice of the closed cell."""
    d = em.dim
    for w in product(range(k + 1), repeat=d):
        if sum(w) <= k:
            w = list(w) + [k - sum(w)]
            yield tuple(sum(F(wi, k) * em.coords[v][a] for wi, v in zip(w, em.cells[c])) for a in range(d))


def close(em, c):
    """Points a short way off each facet, edge and vertex, towards the middle of the cell."""
    n = em.dim + 1
    mid = [sum(em.coords[v][a] for v in em.cells[c]) / 4 * (F(4, n) if n != 3 else 1) for a in range(em.dim)]
    if n == 3:
        mid = [m + em.coords[em.cells[c][0]][a] / 4 for a, m in enumerate(mid)]
    for w in product(range(3), repeat=n):
        if sum(w) == 2:
            base = [sum(F(wi, 2) * em.coords[v][a] for wi, v in zip(w, em.cells[c])) for a in range(em.dim)]
            for t in (SHORT, SHORT / 2, SHORT / 4):
                yield tuple(b + t * (m - b) for b, m in zip(base, mid))


def displacements(em, tier, coarse):
    big = tier == "thorough"
    if coarse and not big and em.dim > 1:
        ax = L.lattice(-2, 2, F(1, 2)) if em.dim == 2 else [F(-1), F(-3, 8), F(0), F(1, 4), F(1)]
        return list(product(ax, repeat=em.dim))
    if em.dim == 1:
        return [(v,) for v in L.lattice(-4, 4, F(1, 16) if big else F(1, 8))]
    if em.dim == 2:
        ax = L.lattice(-2, 2, F(1, 8) if big else F(1, 4))
    else:
        ax = L.lattice(F(-3, 2), F(3, 2), F(1, 4)) if big else L.lattice(-1, 1, F(1, 4))
    return list(product(ax, repeat=em.dim))


def exits(em, c, x, d):
    """[(fraction, uncertainty, local facet)] of the planes the move heads for, and whether it runs within a facet."""
    out, along = [], False
    far = max(max(abs(float(em.coords[v][a] - x[a])) for a in range(em.dim)) for v in em.cells[c])
    for i, (A, c0) in enumerate(em.planes[c]):
        b = -sum(p * q for p, q in zip(A, d))
        h = sum(p * q for p, q in zip(A, x)) + c0
        if b > 0:
            ln = float(sum(p * p for p in A)) ** 0.5
            out.append((h / b, 1e-12 + 16 * EPS * far * ln / float(b), i))
        elif b == 0 and h == 0 and any(d):
            along = True
    return sorted(out), along


def check(world, c, x, d, rep):
    """Where rounding decides (two planes reached together, an end on a plane) every answer it can give is right."""
    import dolfin_functions_solib as DF
    em, M = world.em, world.mesh_M
    ex, along = exits(em, c, x, d)
    if along:
        rep.note("left_out_along")
        return
    s = ex[0][0] if ex else None
    fx, fd = [float(v) for v in x], [float(v) for v in d]
    facets = [int(f) for f in df.Cell(world.dmesh, c).entities(em.dim - 1)]
    none_ok = all(t + e >= 1 for t, e, i in ex)
    some = {em.cell_facets[c][i]: (t, e) for t, e, i in ex if t - e <= 1 and all(t - e <= u + g for u, g, j in ex)}
    for impl in ("python", "compiled"):
        if impl == "python":
            got = M.find_facet(L.np.array(fx), L.np.array(fd), c)
        else:
            got = DF.find_facet(M, fx, fd, c)
        f, frac, n = got[0], float(got[1]), got[2]
        what = "%s: cell %d of %s, from %s by %s" % (impl, c, world.name, show(x), show(d))
        if f == M.NO_FACET:
            require(none_ok, "crossing missed", lambda: "%s leaves at fraction %s" % (what, float(s)))
            continue
        require(some, "crossing invented", lambda: "%s: facet %s, fraction %s" % (what, f, frac))
        mf = facets[int(f)]
        require(mf in some, "wrong facet", lambda: "%s: facet %d, should be %s" % (what, mf, sorted(some)))
        require(abs(frac - float(some[mf][0])) <= some[mf][1], "wrong fraction",
                lambda: "%s: %r, should be %s" % (what, frac, float(some[mf][0])))
        o = [float(v) for v in em.outward(c, mf)]
        ln = sum(v * v for v in o) ** 0.5
        n = L.np.atleast_1d(n)
        require(len(n) == em.dim and all(abs(float(a) - b / ln) < 1e-12 for a, b in zip(n, o)), "wrong normal",
                lambda: "%s: normal %s, should be %s" % (what, n, [v / ln for v in o]))
    rep.note("no_crossing" if none_ok else "crossings")
    rep.step()


def explore(job, tier, rep):
    world = L.World(job["mesh"])
    em, c = world.em, job["cell"]
    k = {1: 8, 2: 8, 3: 4}[em.dim] * (2 if tier == "thorough" else 1)
    unit = L.unit(job["mesh"]) * (SHORT if job.get("short") else 1)
    disp = [tuple(v * unit for v in d) for d in displacements(em, tier, job.get("short") or "@" in job["mesh"])]
    for x in close(em, c) if job.get("short") else points(em, c, k):
        for d in disp:
            case = {"mesh": job["mesh"], "cell": c, "x": [str(v) for v in x], "d": [str(v) for v in d]}
            rep.run(case, lambda: check(world, c, x, d, rep))
        rep.state((job["mesh"], c, x))


def replay(case, rep):
    world = L.World(case["mesh"])
    rep.run(case, lambda: check(world, case["cell"], tuple(F(v) for v in case["x"]), tuple(F(v) for v in case["d"]), rep))
