"""C14: density deposition conserves weight and is local."""
from fractions import Fraction as F
from itertools import product
import math
import numpy as np
from mc import plib as L
from mc.core import require
from mc.track import large_cells, LARGE

TECHNIQUE = "exhaustive enumeration of all lattice positions (interiors, facets, edges, vertices) in every cell of small meshes, and of all histories of births, deaths, deposits and charge sums up to a depth, on the real Python and compiled storage and fields, compared at every node and cell with exact rational shape functions"
LEVEL_NOTE = "Exhaustive within the stated lattices, meshes and history depth; linear and quadratic nodal elements and constant-in-cell fields."
BOUNDS = {
    "quick": "some cells of an interval and a triangle mesh of 66000 cells; 11 meshes in 1D, 2D, 3D and spherical-radial, 6 of them scaled by 2**-20 to 2**30; barycentric lattice of every cell (denominator 5 in 1D, 4 in 2D, 3 in 3D) with linear and quadratic elements, one particle at a time and all at once with segment lengths 1 to 4 and weights of order 1, 2^-70, 2^-30 and 2^70 (and none); all histories of 5 operations from {4 births over 2 species, death of the first or last particle, node deposit of either species, deposit of both into one field, cell deposit of either species, charge sum} for segment lengths 1 and 2, Python and compiled storage",
    "thorough": "lattice denominators 9/7/5; all histories of 6 operations, segment lengths 1,2,3",
}
ORACLE = "exact rational barycentric shape functions and cell volumes"
ASSUMPTIONS = ["a cell-density field is zeroed before each species is summed into it, as the division by volumes applies to the whole field"]
EXPECT = {"deposits": 2000, "histories": 20000, "nodes": 20000, "large": 4}

SYSTEM = {"x": ("cartesian_x", 1), "xy": ("cartesian_xy", 2), "xyz": ("cartesian_xyz", 3), "r": ("spherical_r", 1)}
MESHES = ["line4", "line_uneven", "line_shuffled", "radial", "square_left", "square_crossed", "skewed", "ell", "unit_square", "cube", "brick",
          "line_uneven@-20", "radial@22", "skewed@-20", "ell@30", "cube@-20", "brick@20"]
SPECIES = [("a", 2.0, 1.0), ("b", -3.0, 4.0), ("n", 0.0, 1.0)]
Q = {"a": 2, "b": -3, "n": 0}
_cache = {}


def world(mesh, geo="Cartesian"):
    if (mesh, geo) not in _cache:
        _cache[mesh, geo] = L.World(mesh, coordinate_system=geo)
    return _cache[mesh, geo]


def field(w, kind, tag=0):
    k = ("f", w.name, w.mesh_M.coordinate_system, kind, tag)
    if k not in _cache:
        _cache[k] = L.Field_C(w.mesh_M, kind[0], kind[1], "scalar")
    f = _cache[k]
    f.function_values[:] = 0.0
    return f


def shapes(w, kind, c, x):
    """{dof: exact shape-function value} of cell c at x, from the dof coordinates alone."""
    k = ("dofs", w.name, kind)
    em = w.em
    if k not in _cache:
        V = field(w, kind, "dofs").function_space
        xy = V.tabulate_dof_coordinates().reshape(-1, em.dim)
        tab = []
        for cc in range(len(em.cells)):
            tab.append([(int(d), em.bary(cc, L.fr(xy[d]))) for d in V.dofmap().cell_dofs(cc)])
        _cache[k] = tab
    lam = em.bary(c, x)
    out = {}
    for d, node in _cache[k][c]:
        if kind[1] == 0:
            v = F(1)
        else:
            big = [i for i, v in enumerate(node) if abs(v) > F(1, 4)]
            if kind[1] == 1:
                v = lam[big[0]]
            elif len(big) == 1:
                v = lam[big[0]] * (2 * lam[big[0]] - 1)
            else:
                v = 4 * lam[big[0]] * lam[big[1]]
        out[d] = v
    return out


def volume(w, c):
    if w.mesh_M.coordinate_system == "Cartesian":
        return float(w.em.volume(c))
    r = sorted(w.em.coords[v][0] for v in w.em.cells[c])
    return float(r[1] ** 3 - r[0] ** 3) * 4.0 * math.pi / 3.0


def compare(f, want, what, rep, scale=1.0):
    got = f.function_values.get_local()
    for d in range(len(got)):
        rep.note("nodes")
        v = float(want.get(d, 0))
        require(abs(got[d] - v) <= 1e-12 * max(scale, abs(v)), "wrong value", lambda: "%s: value %d is %r, should be %r" % (what, d, got[d], v))


def add(to, what, k=1):
    for d, v in what.items():
        to[d] = to.get(d, 0) + v * k


# ------------------------------------------------------------------ positions
def points(em, den):
    """(cell, exact point) for the barycentric lattice of every cell (some cells of a large mesh)."""
    for c in range(len(em.cells)) if len(em.cells) < 5000 else large_cells(em):
        vs = [em.coords[v] for v in em.cells[c]]
        for lam in product(range(den + 1), repeat=em.dim):
            if sum(lam) <= den:
                full = list(lam) + [den - sum(lam)]
                yield c, tuple(sum(F(l, den) * v[k] for l, v in zip(full, vs)) for k in range(em.dim))


def exact_cell(em, c, x):
    """The point as the machine holds it, and whether it is still in the cell to rounding."""
    return L.fr([float(v) for v in x])


def one_point(case, rep):
    w = world(case["mesh"], case["geo"])
    em = w.em
    kind = tuple(case["kind"])
    c, x = case["cell"], exact_cell(em, case["cell"], [F(v) for v in case["x"]])
    P = L.make_particles(SPECIES, em.dim, 3, False, system="spherical_r" if "spherical" in case["geo"] else None)
    P.initialize_particle_mesh(w.mesh_M)
    p = L.record(P, x, [1.0] * em.dim, weight=0.75, cell=c)
    P.sap_dict["a"].push_back(p)
    f = field(w, kind)
    P.accumulate_number_density("a", f)
    want = {d: F(3, 4) * v for d, v in shapes(w, kind, c, x).items()}
    what = "particle of weight 3/4 at %s in cell %d" % ([float(v) for v in x], c)
    compare(f, want, what, rep)
    require(abs(f.function_values.get_local().sum() - 0.75) < 1e-12, "weight not conserved", what)
    if case["geo"] == "Cartesian" and min(em.bary(c, x)) >= 0:
        g = field(w, kind, 1)
        g.integrate_delta_function(L.items(P, "a")[0])
        compare(g, want, "integrate_delta_function: " + what, rep)
    rep.note("deposits")
    rep.step()
    rep.state((case["mesh"], c, kind, tuple(v == 0 for v in em.bary(c, x))))


def all_points(case, rep):
    """All lattice particles at once, over many segments, in one storage of either kind."""
    w = world(case["mesh"], case["geo"])
    em = w.em
    kind = tuple(case["kind"])
    P = L.make_particles(SPECIES, em.dim, case["L"], case["cpp"], system="spherical_r" if "spherical" in case["geo"] else None)
    P.initialize_particle_mesh(w.mesh_M)
    want, cells = {}, {}
    for i, (c, x) in enumerate(points(em, case["den"])):
        x = exact_cell(em, c, x)
        wt = F(i % 7 + (case["scale"] == 0), 8) * F(2) ** case["scale"]        # (some have no weight when scaled)
        P.sap_dict["a"].push_back(L.record(P, x, [0.0] * em.dim, weight=wt, cell=c))
        add(want, shapes(w, kind, c, x), wt)
        cells[c] = cells.get(c, 0) + wt
    f, g = field(w, kind), field(w, ("DG", 0))
    before = [p.tobytes() for p in L.items(P, "a")]
    P.accumulate_number_density("a", f, g)
    compare(f, want, "all lattice particles", rep, 2.0 ** case["scale"])
    d0 = {int(field_dof(w, c)): v / F(volume(w, c)) for c, v in cells.items()}
    compare(g, d0, "cell density of all lattice particles", rep, 2.0 ** case["scale"] / float(L.unit(case["mesh"])) ** (3 if "spherical" in case["geo"] else em.dim))
    require([p.tobytes() for p in L.items(P, "a")] == before, "particles disturbed")
    rep.note("deposits")


def field_dof(w, c):
    k = ("d0", w.name, c)
    if k not in _cache:
        V = field(w, ("DG", 0), "dofs").function_space      # kept: cell_dofs() is a view
        _cache[k] = int(V.dofmap().cell_dofs(c)[0])
    return _cache[k]


# ------------------------------------------------------------------ histories
OPS = ["a0", "a1", "b0", "b1", "killfirst", "killlast", "da", "db", "ca", "cb", "charge", "shared"]


def kill(P, sn, which):
    sap = P.sap_dict[sn]
    n = sap.get_number_of_items()
    drop = 0 if which == "killfirst" else n - 1
    (np_, i, o) = sap.init_inout_loop()[:3]
    k = out = total = 0
    while i is not None:
        for j in range(np_):
            if k != drop:
                if out == P.SEGMENT_LENGTH:
                    o = sap.get_next_out_segment()
                    o = o[0] if isinstance(o, tuple) else o
                    out = 0
                o[out] = i[j]
                out += 1
                total += 1
            k += 1
        r = sap.get_next_segment("in")
        np_, i = r[0], r[1]
    sap.set_number_of_items("out", total)


def history(case, rep):
    system, dim = SYSTEM[case["sys"]]
    geo = "1D-spherical-radial" if case["sys"] == "r" else "Cartesian"
    w = world(case["mesh"], geo)
    em = w.em
    kind = ("Lagrange", 1)
    pts = _cache.setdefault(("pts", case["mesh"]), [p for p in points(em, 3)])
    n = len(pts)
    P = L.make_particles(SPECIES, dim, case["L"], case["cpp"], system=system)
    P.initialize_particle_mesh(w.mesh_M)
    nd = {s: field(w, kind, s) for s in "abn"}
    nd["n"].function_values[:] = 5.0            # uncharged particles are there too
    cd = {s: field(w, ("DG", 0), s) for s in "ab"}
    rho = field(w, kind, "rho")
    model = {"a": [], "b": []}
    wnd, wcd, wrho = {s: {} for s in "abn"}, {s: {} for s in "ab"}, {}
    tot, wtot = field(w, kind, "tot"), {}
    born = 0
    for op in case["ops"]:
        if op in ("a0", "a1", "b0", "b1"):
            s = op[0]
            c, x = pts[(7 * born + 5 * (op[1] == "1") + (0 if s == "a" else n // 2)) % n]
            x = exact_cell(em, c, x)
            wt = F(born * 2 + 1, 4)
            P.sap_dict[s].push_back(L.record(P, x, [0.0] * dim, weight=wt, cell=c))
            model[s].append((c, x, wt))
            born += 1
        elif op.startswith("kill"):
            for s in "ab":
                if model[s]:
                    kill(P, s, op)
                    model[s].pop(0 if op == "killfirst" else -1)
        elif op[0] == "d":
            P.accumulate_number_density(op[1], nd[op[1]])
            for c, x, wt in model[op[1]]:
                add(wnd[op[1]], shapes(w, kind, c, x), wt)
        elif op == "shared":
            for s in "ab":
                P.accumulate_number_density(s, tot)
                for c, x, wt in model[s]:
                    add(wtot, shapes(w, kind, c, x), wt)
        elif op[0] == "c" and len(op) == 2:
            s = op[1]
            cd[s].set_values(0.0)
            P.accumulate_number_density(s, cell_number_density_F=cd[s])
            wcd[s] = {}
            for c, x, wt in model[s]:
                add(wcd[s], {field_dof(w, c): wt / F(volume(w, c))})
        else:
            P.accumulate_charge_density_from_particles(nd, rho)
            for s in "ab":
                add(wrho, wnd[s], Q[s])
        rep.step()
    what = " ".join(case["ops"])
    for s in "ab":
        compare(nd[s], wnd[s], "node density of %s after %s" % (s, what), rep)
        compare(cd[s], wcd[s], "cell density of %s after %s" % (s, what), rep)
    compare(tot, wtot, "sum of both species after %s" % what, rep)
    compare(rho, wrho, "charge density after %s" % what, rep)
    rep.state((case["sys"], case["L"], tuple(len(model[s]) for s in "ab"), tuple(sorted(wrho)), len(wnd["a"]), len(wnd["b"])))
    rep.note("histories")


def jobs(tier):
    q = tier == "quick"
    for m in LARGE:
        for cpp in (False, True):
            yield {"what": "large", "mesh": m, "geo": "Cartesian", "kind": ("Lagrange", 1), "cpp": cpp}
    for m in MESHES:
        for geo in (["Cartesian", "1D-spherical-radial"] if m.startswith("radial") else ["Cartesian"]):
            for kind in (("Lagrange", 1), ("Lagrange", 2)):
                yield {"what": "points", "mesh": m, "geo": geo, "kind": kind}
    deep = 5 if q else 6
    for s, m in (("x", "line_uneven"), ("r", "radial"), ("xy", "unit_square"), ("xyz", "cube")):
        for cpp in (False, True):
            for L_ in ((1, 2) if q else (1, 2, 3)):
                if q and (s, L_) not in (("x", 1), ("x", 2), ("r", 1), ("xy", 2), ("xyz", 2)):
                    continue
                depth = deep if s in ("x",) else deep - 1
                for first in OPS[:4]:
                    yield {"what": "histories", "sys": s, "mesh": m, "cpp": cpp, "L": L_, "first": first, "depth": depth}


def explore(job, tier, rep):
    q = tier == "quick"
    if job["what"] == "large":
        case = {"mesh": job["mesh"], "geo": job["geo"], "kind": job["kind"], "cpp": job["cpp"], "L": 4, "den": 3, "scale": 0}
        rep.run(case, lambda: all_points(case, rep))
        rep.note("large")
        return
    if job["what"] == "points":
        em = world(job["mesh"], job["geo"]).em
        den = {1: 5, 2: 4, 3: 3}[em.dim] if q else {1: 9, 2: 7, 3: 5}[em.dim]
        base = {k: job[k] for k in ("mesh", "geo", "kind")}
        for c, x in points(em, den):
            case = dict(base, cell=c, x=[str(v) for v in x])
            rep.run(case, lambda: one_point(case, rep))
        for cpp in (False, True):
            for L_, scale in ((1, 0), (3, 0), (4, 0), (2, -70), (2, 70), (3, -30)):
                case = dict(base, L=L_, cpp=cpp, den=den, scale=scale)
                rep.run(case, lambda: all_points(case, rep))
        return
    for rest in product(OPS, repeat=job["depth"] - 1):
        ops = [job["first"]] + list(rest)
        if ops[-1] in OPS[:6]:       # ends without a deposit: nothing new to see
            continue
        case = {"sys": job["sys"], "mesh": job["mesh"], "cpp": job["cpp"], "L": job["L"], "ops": ops}
        rep.run(case, lambda: history(case, rep))


def replay(case, rep):
    fn = history if "ops" in case else all_points if "den" in case else one_point
    rep.run(case, lambda: fn(case, rep))


def warm():
    for m in ("line4", "skewed", "cube"):
        for k in (("Lagrange", 1), ("Lagrange", 2), ("DG", 0)):
            field(world(m), k)
