"""C10: point location."""
from fractions import Fraction as F
from itertools import product
from mc import plib as L
from mc.core import require
from mc.track import show, large_particles, LARGE

TECHNIQUE = "exhaustive enumeration of lattice points (interiors, facets, edges, vertices, exterior) x cells of small meshes through the real location functions, compared with exact rational containment"
LEVEL_NOTE = "Exhaustive over the stated lattices and meshes."
BOUNDS = {
    "quick": "particles near cells 127, 255, 32767 and 65535 of an interval and a triangle mesh of 66000 cells; 13 interval/triangle/tetrahedron meshes; every point of a lattice of spacing 1/16 (1D), 1/8 (2D), 1/4 (3D) and of one in general position, over the bounding box enlarged by half a unit; every (point, cell) pair; particles, with no cell or any cell recorded before, listed along each axis of the lattice in turn and in every cell after every cell, 60 at a time; 6 of the meshes also scaled by 2**-40 or 2**30; on 7 meshes with coordinates that are not short binary fractions, the rounded points of a lattice on every facet and all their neighbours one unit in the last place away",
    "thorough": "spacings 1/64, 1/32 and 1/8",
}
ORACLE = "exact containment in the closed cell"
ASSUMPTIONS = ["simplicial cells"]
EXPECT = {"inside": 3000, "outside": 3000, "pairs": 50000, "lists": 200, "ulps": 5000, "large": 4}
MESHES = ["brick", "cube", "box211", "skewed", "ell", "sheared", "square_right", "square_left", "square_crossed",
          "line_uneven", "line_shuffled", "line4", "radial"]
SCALED = ["box211@-40", "skewed@-40", "line_uneven@-40", "brick@30", "sheared@30", "line_shuffled@30"]
ROUNDED = ["brick~", "skewed~", "line_uneven~", "cube~", "ell~", "sheared~", "line_shuffled~"]


def jobs(tier):
    for m in LARGE:
        yield {"mesh": m, "large": True}
    for m in ROUNDED:
        parts = 4 if m in ("brick~", "cube~") else 1
        for p in range(parts):
            yield {"mesh": m, "ulps": True, "part": p, "parts": parts}
    for m in MESHES + SCALED:
        parts = 4 if m.split("@")[0] in ("brick", "cube", "box211") else 1
        for lat in (0, 1):
            for p in range(parts):
                yield {"mesh": m, "lattice": lat, "part": p, "parts": parts}


def near(em, tier):
    """The rounded points of a lattice on every facet, with all their neighbours in floating point."""
    k = 5 if em.dim == 3 and tier != "thorough" else 7
    out = set()
    for c, fs in enumerate(em.cell_facets):
        for f in fs:
            vs = [em.coords[v] for v in sorted(em.facet_verts[f])]
            for w in product(range(k + 1), repeat=len(vs)):
                if sum(w) == k:
                    p = [float(sum(F(a, k) * v[i] for a, v in zip(w, vs))) for i in range(em.dim)]
                    for s in product((-1, 0, 1), repeat=em.dim):
                        out.add(tuple(F(float(L.np.nextafter(a, a + b))) if b else F(a) for a, b in zip(p, s)))
    return sorted(out)


def points(em, tier, lat, unit=F(1)):
    step = {1: F(1, 16), 2: F(1, 8), 3: F(1, 4)}[em.dim]
    if tier == "thorough":
        step = {1: F(1, 64), 2: F(1, 32), 3: F(1, 8)}[em.dim]
    axes = []
    for k in range(em.dim):
        lo, hi = min(c[k] for c in em.coords), max(c[k] for c in em.coords)
        off = (F(0), F(3, 128) + F(k, 256))[lat]
        axes.append(L.lattice(lo + unit * (off - F(1, 2)), hi + unit / 2, unit * step))
    return list(product(*axes))


def check(world, x, rep):
    import dolfin_functions_solib as DF
    em, M = world.em, world.mesh_M
    fx = tuple(float(v) for v in x)
    cells = em.cells_of(x)
    what = "%s: point %s" % (world.name, show(x))
    for c in range(len(em.cells)):
        a = bool(M.is_inside_cell(fx, c))
        b = bool(DF.is_inside_vertices(world.dmesh, [int(v) for v in M.cell_vertices_dict[c]], list(fx)))
        require(a == (c in cells), "is_inside_cell", lambda: "%s cell %d: %s" % (what, c, a))
        require(b == (c in cells), "is_inside_vertices", lambda: "%s cell %d: %s" % (what, c, b))
        rep.note("pairs")
    try:
        got = M.compute_cell_index(fx)
        stop = False
    except (SystemExit, RuntimeError, ValueError):
        got, stop = None, True
    if cells:
        require(got in cells, "location", lambda: "%s located in cell %s, contained in %s" % (what, got, cells))
        rep.note("inside")
    else:
        require(stop or got == M.NO_CELL, "point outside the mesh given a cell", lambda: "%s -> %r" % (what, got))
        rep.note("outside")
    rep.state((world.name, tuple(cells)))
    rep.step()


def check_particles(world, xs, cpp, rep):
    """Particles put at listed positions are each assigned a containing cell."""
    em = world.em
    if cpp and em.dim not in (1, 2, 3):
        return
    P = L.make_particles([("a", 0, 1.0), ("b", 0, 1.0)] if em.dim != 1 else [("a", 1, 1.0), ("b", 1, 1.0)], em.dim, 7, cpp)
    L.attach(P, world)
    for i, x in enumerate(xs):
        L.push(P, "ab"[2 * i >= len(xs)], [L.record(P, x, [0] * em.dim, uid=i, cell=i % (len(em.cells) + 1) - 1)])
    P.compute_mesh_cell_indices()
    seen = 0
    for sn in "ab":
        for p in L.items(P, sn):
            x = xs[int(p["unique_ID"])]
            c = int(p["cell_index"])
            require(0 <= c < len(em.cells) and em.contains(c, x), "particle cell",
                    lambda: "%s: particle at %s given cell %d" % (world.name, show(x), c))
            require(tuple(F(float(p[k])) for k in range(em.dim)) == tuple(x), "particle moved", "")
            seen += 1
    require(seen == len(xs), "particles lost", "")


def explore(job, tier, rep):
    world = L.World(job["mesh"])
    if job.get("large"):
        xs = sorted({x for x, d in large_particles(world.em)})
        xs = xs[::2] + xs[1::2] + xs[::-1]
        for cpp in (False, True):
            rep.run({"mesh": job["mesh"], "xs": [[str(v) for v in x] for x in xs], "cpp": cpp},
                    lambda: check_particles(world, xs, cpp, rep))
            rep.note("large")
        return
    unit = L.unit(job["mesh"])
    ulps = job.get("ulps")
    pts = (near(world.em, tier) if ulps else points(world.em, tier, job["lattice"], unit))[job["part"]::job["parts"]]
    if ulps:
        rep.note("ulps", len(pts))
    for x in pts:
        rep.run({"mesh": job["mesh"], "x": [str(v) for v in x]}, lambda: check(world, x, rep))
    if job["part"] or ulps:
        return
    em = world.em
    ins = [x for x in points(em, "quick", job["lattice"], unit) if em.cells_of(x)]
    lists = [sorted(ins, key=lambda x: x[a:] + x[:a]) for a in range(em.dim)]      # neighbours along each axis in turn
    mid = [tuple(sum(em.coords[v][k] for v in c) / len(c) for k in range(em.dim)) for c in em.cells]
    mid = [tuple(F(round(v / unit * 4096), 4096) * unit for v in m) for m in mid]
    lists.append([p for c in range(len(mid)) for d in range(len(mid)) for p in (mid[c], mid[d])])   # every cell after every cell
    for full in lists:
        for k in range(0, len(full), 60):
            xs = full[k:k + 60]
            for cpp in (False, True):
                rep.run({"mesh": job["mesh"], "xs": [[str(v) for v in x] for x in xs], "cpp": cpp},
                        lambda: check_particles(world, xs, cpp, rep))
                rep.note("lists")


def replay(case, rep):
    world = L.World(case["mesh"])
    if "x" in case:
        rep.run(case, lambda: check(world, tuple(F(v) for v in case["x"]), rep))
    else:
        rep.run(case, lambda: check_particles(world, [tuple(F(v) for v in x) for x in case["xs"]], case["cpp"], rep))
