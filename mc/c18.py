"""C18: particle sources emit the requested particles, in the requested place and time."""
from fractions import Fraction as F
from itertools import product
import numpy as np
from mc import plib as L
from mc.core import require, Violation

TECHNIQUE = "exhaustive enumeration of (step, interval) schedules of several sources, of regions, counts and storages, and of the environment's nondeterminism (every sequence of random draws from a menu, including rejected ones), on the real source code, compared with the requested populations and exact geometry"
LEVEL_NOTE = "Exhaustive within the stated bounds. The random generator is the environment: its answers are enumerated from a menu, so distributions are not claimed, only what is done with each answer."
BOUNDS = {
    "quick": "12 mesh/coordinate-system/storage combinations incl. spherical and particles with more dimensions than the mesh; regions: every single cell, every pair of neighbours in numbering, whole mesh; 1..3 particles per cell; every sequence of 2 position draws (1D 9 values, 2D 7x7, 3D 4x4x4 once + 1 fixed); schedules: steps 0..6 x all interval pairs in 1..4 x 3 source orders, steps 0..24 x intervals 1..12 x {1,5,7,10,12}, 0..3 existing particles, segment lengths 1..3; every corner of every cell of all meshes, elongated ones included: the draw that reaches it is worked out from the observed draw-to-position map and replayed",
    "thorough": "as quick with 17/11x11/6x6x6 draws, 4 particles per cell, interval triples in 1..5 over steps 0..12",
}
ORACLE = "requested species, cells, counts, weight = density x cell volume / number per cell (per steradian in spherical coordinates), exact containment"
ASSUMPTIONS = ["a velocity component is the drift component plus the thermal speed times one standard normal draw"]
EXPECT = {"created": 20000, "due": 300, "not due": 300, "rejected": 500, "spread": 10, "corners reached": 150, "followed": 10}

SPECIES = [("ions", 1.5, 2.0), ("atoms", 0, 3.0)]
COMBOS = [  # mesh, geometry, particle coordinates, compiled storage
    ("line_uneven", "Cartesian", "cartesian_x", False), ("line_shuffled", "Cartesian", "cartesian_x", True),
    ("radial", "1D-spherical-radial", "spherical_r", False), ("radial", "1D-spherical-radial", "spherical_r", True),
    ("square_right", "Cartesian", "cartesian_xy", False), ("skewed", "Cartesian", "cartesian_xy", True),
    ("square_crossed", "Cartesian", "cartesian_xy", False), ("unit_square", "Cartesian", "cartesian_xyz", False),
    ("cube", "Cartesian", "cartesian_xyz", False), ("brick", "Cartesian", "cartesian_xyz", True),
    ("line4", "Cartesian", "cartesian_xyz", True), ("line4", "Cartesian", "cartesian_xy", False),
]
PDIM = {"cartesian_x": 1, "cartesian_xy": 2, "cartesian_xyz": 3, "spherical_r": 1}
MENU = {1: [F(k, 8) + F(1, 64) for k in range(8)] + [F(1, 2)], 2: [F(1, 64), F(1, 5), F(1, 3), F(1, 2), F(3, 5), F(4, 5), F(63, 64)],
        3: [F(1, 16), F(2, 5), F(3, 5), F(15, 16)]}
MENU_T = {1: [F(k, 16) + F(1, 64) for k in range(16)] + [F(1, 2)], 2: [F(k, 10) + F(1, 128) * (k < 10) for k in range(11)],
          3: [F(1, 16), F(1, 4), F(2, 5), F(3, 5), F(3, 4), F(15, 16)]}
NAMES = ("uniform", "random", "random_sample", "ranf", "sample", "rand", "normal", "standard_normal", "randn")
_worlds = {}


class Draws(object):
    """Stands in for numpy's generator: uniform draws come from the given script, normal ones are all different."""

    def __init__(self, script, pos):
        self.script, self.pos = list(script), pos
        self.uni = self.nor = 0
        self.z = []

    def u(self, size):
        n = 1 if size is None else int(np.prod(size))
        out = []
        for _ in range(n):
            self.uni += 1
            if self.uni > 20000:
                raise Violation("no position found", "20000 draws and no particle position was accepted")
            out.append(float(self.script.pop(0)) if self.script else 0.5)
        return out[0] if size is None else np.array(out).reshape(size)

    def n(self, size):
        n = 1 if size is None else int(np.prod(size))
        out = []
        for _ in range(n):
            k = len(self.z)
            z = ((k * 37 + 11) % 101 - 50) / 64.0 + k / 8192.0
            self.z.append(z)
            out.append(z)
        return out[0] if size is None else np.array(out).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.u(size)

    def random(self, size=None):
        return self.u(size)

    random_sample = ranf = sample = random

    def rand(self, *d):
        return self.u(d or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.n(size)

    def standard_normal(self, size=None):
        return self.n(size)

    def randn(self, *d):
        return self.n(d or None)

    def __enter__(self):
        self.saved = {k: getattr(np.random, k) for k in NAMES + ("default_rng", "RandomState")}
        for k in NAMES:
            setattr(np.random, k, getattr(self, k))
        np.random.default_rng = np.random.RandomState = lambda *a, **k: self
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def world(mesh, geo):
    if (mesh, geo) not in _worlds:
        _worlds[mesh, geo] = L.World(mesh, coordinate_system=geo)
    return _worlds[mesh, geo]


def region(w, cells):
    from Dolfin_Module import CellSet_C, WholeMesh_C
    if cells is None:
        return WholeMesh_C(w.mesh_M)
    em = w.em
    ms = [tuple(float(sum(em.coords[v][k] for v in em.cells[c])) / len(em.cells[c]) for k in range(em.dim)) for c in cells]

    class Some(CellSet_C):
        def inside(self, x):
            return any(all(abs(x[k] - m[k]) < 1e-9 for k in range(em.dim)) for m in ms)
    return Some(w.mesh_M)


def cell_volume(w, geo, c):
    em = w.em
    if geo == "Cartesian":
        return float(em.volume(c))
    r = sorted(em.coords[v][0] for v in em.cells[c])
    return float(r[1] ** 3 - r[0] ** 3) / 3          # per steradian


def params(sn, npc, pdim, interval=1, density=3.5, thermal=0.75, drift=None):
    return {"species_name": sn, "number_density": density, "thermal_speed": thermal,
            "drift_velocity": np.array((drift or (10.0, 20.0, 40.0))[:pdim]), "velocity_coordinate_system": "x_y_z",
            "number_per_cell": npc, "timestep_interval": interval}


def existing(P, w, n, rep):
    """n particles of each species."""
    for sn, q, m in SPECIES:
        for i in range(n):
            x = [0.25 + 0.0625 * i] * P.particle_dimension
            P.sap_dict[sn].push_back(L.record(P, x, [1.0 + i] * P.particle_dimension, weight=7.0 + i, flags=4, uid=(0 if sn == "ions" else 50) + i, cell=0))


def snapshot(P):
    return {sn: [p.copy() for p in L.items(P, sn)] for sn, q, m in SPECIES}


def check_new(P, w, geo, before, emitted, draws, rep, what):
    """emitted: [(params, cells)] of the sources that were due, in order. before: snapshot."""
    pd, gd = P.particle_dimension, w.dim
    after = snapshot(P)
    used = []
    uids = [int(p["unique_ID"]) for sn, _, _ in SPECIES for p in after[sn]]
    require(len(set(uids)) == len(uids), "identities", lambda: "%s: not distinct: %s" % (what, uids))
    for sn, q, m in SPECIES:
        n0 = len(before[sn])
        require([p.tobytes() for p in after[sn][:n0]] == [p.tobytes() for p in before[sn]], "existing particles changed", lambda: "%s: %s" % (what, sn))
        new = after[sn][n0:]
        want = []                                   # (cell, params)
        for par, cells in emitted:
            if par["species_name"] == sn:
                for c in cells:
                    want += [(c, par)] * par["number_per_cell"]
        require(len(new) == len(want), "number of new particles", lambda: "%s: %d %s, should be %d" % (what, len(new), sn, len(want)))
        require(P.get_species_particle_count(sn) == n0 + len(want), "count", what)
        left = list(want)
        for p in new:
            x = [float(v) for v in list(p.tolist())[:pd]]
            x0 = [float(v) for v in list(p.tolist())[pd:2 * pd]]
            u = [float(v) for v in list(p.tolist())[2 * pd:3 * pd]]
            c = int(p["cell_index"])
            match = [k for k in left if k[0] == c and abs(float(p["weight"]) - weight(w, geo, k)) <= 1e-12 * weight(w, geo, k)
                     and velocity(u, k[1], draws, used)]
            require(match, "new particle", lambda: "%s: cell %d weight %r velocity %s: no such particle was requested (requested: %s)" % (
                what, c, float(p["weight"]), u, [(k[0], weight(w, geo, k), list(k[1]["drift_velocity"]), k[1]["thermal_speed"]) for k in left]))
            left.remove(match[0])
            if match[0][1]["thermal_speed"]:
                used.extend(zs(u, match[0][1]))
            require(0 <= c < len(w.em.cells) and w.em.contains(c, L.fr(x[:gd])), "not in its cell", lambda: "%s: %s is not in cell %d" % (what, x, c))
            require(all(v == 0 for v in x[gd:]), "coordinates beyond the mesh's", lambda: "%s: %s" % (what, x))
            require(x0 == x, "initial position", lambda: "%s: x %s x0 %s" % (what, x, x0))
            require(int(p["crossings"]) == 0, "crossings", what)
            require(not int(p["bitflags"]) & ~P.TRAJECTORY_FLAG, "flags", lambda: "%s: %d" % (what, int(p["bitflags"])))
            rep.note("created")
            rep.step()
    return after


def weight(w, geo, k):
    return cell_volume(w, geo, k[0]) * k[1]["number_density"] / k[1]["number_per_cell"]


def zs(u, par):
    return [round((a - b) / par["thermal_speed"] * 8192) for a, b in zip(u, par["drift_velocity"])]


def velocity(u, par, draws, used):
    if par["thermal_speed"] == 0:
        return all(abs(a - b) < 1e-12 for a, b in zip(u, par["drift_velocity"]))
    if not draws.z:
        return True                    # another source of random numbers
    handed = [round(z * 8192) for z in draws.z]
    z = zs(u, par)
    return all(abs((a - b) / par["thermal_speed"] * 8192 - k) < 1e-6 for a, b, k in zip(u, par["drift_velocity"], z)) and all(
        z.count(k) + used.count(k) <= handed.count(k) for k in z)


def particles(case, w):
    P = L.make_particles(SPECIES, PDIM[case["system"]], case["L"], case["cpp"], system=case["system"])
    P.traj_T = None
    P.pmesh_M = w.mesh_M
    return P


def emit(case, rep):
    """One call of the Maxwellian source."""
    w = world(case["mesh"], case["geo"])
    P = particles(case, w)
    existing(P, w, case["n"], rep)
    cells = list(range(len(w.em.cells))) if case["cells"] is None else case["cells"]
    R = region(w, case["cells"])
    require(sorted(int(c) for c in R.cell_index) == sorted(cells), "harness region")
    par = params(case["species"], case["npc"], P.particle_dimension, density=3.5 if len(cells) % 2 else 7, thermal=case.get("thermal", 0.75))
    before = snapshot(P)
    P.__class__.UNIQUE_ID_COUNTER = 1000
    with Draws([F(v) for v in case["script"]], None) as d:
        P.create_maxwellian_particles(3, 0.5, R, par)
        after = check_new(P, w, case["geo"], before, [(par, cells)], d, rep, "source")
    if d.uni > (case["npc"] - 1) * len(cells) * w.dim:
        rep.note("rejected")
    rep.state((case["mesh"], case["system"], case["cpp"], case["L"], case["n"], case["npc"], tuple(cells), tuple(case["script"][:6])))
    return after, d.uni


def spread(case, rep):
    """Over all draws, the second particle of a cell comes near each of the cell's corners."""
    w = world(case["mesh"], case["geo"])
    menu = MENU_T[w.dim] if w.dim < 3 else [F(k, 9) + F(1, 100) for k in range(9)]
    hit = {}
    drawn = 0
    for c, t in product(range(len(w.em.cells)), product(menu, repeat=w.dim)):
        after, n = emit(dict(case, what="emit", n=0, npc=2, cells=[c], script=[str(v) for v in t]), rep)
        drawn += n
        if n == 0:
            return                       # another source of random numbers
        for p in after[case["species"]]:
            k = int(p["cell_index"])
            b = w.em.bary(k, L.fr(list(p.tolist())[:w.dim]))
            near = [i for i, v in enumerate(b) if v > (F(6, 10) if w.dim < 3 else F(45, 100))]
            hit.setdefault(k, set()).update(near)
    for c in hit:
        require(len(hit[c]) == w.dim + 1, "positions do not cover the cell", lambda: "cell %d of %s: only corners %s are approached" % (c, case["mesh"], sorted(hit[c])))
        rep.note("spread")


def reach(case, rep):
    """In a region of all cells: whichever corner of a cell is chosen, there are draws that put the second particle near it.
    Where the position is an affine function of the draws (this is observed), it is inverted; otherwise the draws are not understood
    and nothing is claimed."""
    w = world(case["mesh"], case["geo"])
    em, d = w.em, w.dim

    def put(c, t):
        """Where the second particle of cell c goes, when the draws for it are t."""
        after, n = emit(dict(case, what="emit", n=0, npc=2, cells=None, script=["0.5"] * (d * c) + [repr(float(v)) for v in t]), rep)
        new = [p for p in after[case["species"]] if int(p["cell_index"]) == c]
        return n, [[float(v) for v in p.tolist()[:d]] for p in new]

    for c in range(len(em.cells)):
        mid = [float(sum(em.coords[v][k] for v in em.cells[c]) / (d + 1)) for k in range(d)]
        size = max(abs(float(em.coords[v][k]) - mid[k]) for v in em.cells[c] for k in range(d))

        def second(t):
            n, xs = put(c, t)
            other = [x for x in xs if x != mid]
            return n, other[0] if other else mid
        n0, x0 = second([0.5] * d)
        eps = 2.0 ** -12
        cols, ok = [], n0 == d * len(em.cells) and all(abs(a - b) < 1e-12 * max(1, size) for a, b in zip(x0, mid))
        for k in range(d):
            n, x = second([0.5 + eps * (j == k) for j in range(d)])
            cols.append([(a - b) / eps for a, b in zip(x, x0)])
            ok = ok and n == n0 and cols[k][k] > 0 and all(abs(v) < 1e-6 * cols[k][k] for j, v in enumerate(cols[k]) if j != k)
        if ok:
            n, x = second([0.5 - eps * (j + 1) / 2 for j in range(d)])
            ok = n == n0 and all(abs(x0[k] - eps * (k + 1) / 2 * cols[k][k] - x[k]) < 1e-6 * eps * cols[k][k] for k in range(d))
        if not ok:
            rep.note("draws not understood")
            continue
        for v in em.cells[c]:
            X = [0.98 * float(em.coords[v][k]) + 0.02 * mid[k] for k in range(d)]
            t = [0.5 + (X[k] - x0[k]) / cols[k][k] for k in range(d)]
            require(all(0 <= a < 1 for a in t), "positions do not cover the cell", lambda: "cell %d of %s: no draws put a particle near its corner %s (positions are within %s of %s)" % (
                c, case["mesh"], [float(a) for a in em.coords[v]], [cols[k][k] / 2 for k in range(d)], x0))
            n, x = second(t)
            require(all(abs(a - b) < 1e-9 * max(1, size) for a, b in zip(x, X)), "positions do not cover the cell", lambda: "cell %d of %s: the draws %s put a particle at %s instead of %s in the cell" % (
                c, case["mesh"], t, x, X))
            rep.note("corners reached")


def schedule(case, rep):
    """add_more_particles called at every step, with several sources."""
    w = world(case["mesh"], case["geo"])
    P = particles(case, w)
    existing(P, w, case["n"], rep)
    P.__class__.UNIQUE_ID_COUNTER = 1000
    ncell = len(w.em.cells)
    srcs = []
    for k, (kind, sn, cells, npc, interval) in enumerate(case["sources"]):
        cells = [c % ncell for c in cells]
        par = params(sn, npc, P.particle_dimension, interval=interval, density=2.0 + k if k % 2 else 3 + k,
                     drift=(10.0 + k, 20.0 - k, 40.0 + 2 * k), thermal=0.0 if kind == "cold" else 0.5)
        srcs.append((kind, par, cells, region(w, cells)))
    negE, ext = object(), object()
    calls = []

    def make(k):
        def create(step, time, domain, paramDict, neg_E_field=None, external_E_field=None):
            calls.append((k, step, time, domain, paramDict, neg_E_field, external_E_field))
        return create
    P.particle_source_dict = {}
    for k, (kind, par, cells, R) in enumerate(srcs):
        P.particle_source_dict["src%d" % (9 - k)] = (par, make(k) if kind == "rec" else P.create_maxwellian_particles, R)
    for step in case["steps"]:
        ctrl = L.control(0.25, nstep=step, time=step * 0.25 + 0.125)
        before = snapshot(P)
        del calls[:]
        with Draws(["0.75", "0.25"], None) as d:
            P.add_more_particles(ctrl, neg_E_field=negE, external_E_field=ext)
            due = [k for k, s in enumerate(srcs) if step % s[1]["timestep_interval"] == 0]
            check_new(P, w, case["geo"], before, [(srcs[k][1], srcs[k][2]) for k in due if srcs[k][0] != "rec"], d, rep, "step %d" % step)
        want = [(k, step, ctrl.time, srcs[k][3], srcs[k][1], negE, ext) for k in due if srcs[k][0] == "rec"]
        require(len(calls) == len(want) and all(len(a) == len(b) and all(x is y or (isinstance(x, (int, float)) and x == y) for x, y in zip(a, b)) for a, b in zip(calls, want)),
                "creation function", lambda: "step %d: called with %s, should be %s" % (step, calls, want))
        rep.note("due", len(due))
        rep.note("not due", len(srcs) - len(due))
    rep.state((case["mesh"], case["L"], case["n"], repr(case["sources"])))


def followed(case, rep):
    """Whichever new particles carry the trajectory flag get a trajectory whose first point is their initial state."""
    from mc import c22
    w = world(case["mesh"], case["geo"])
    P = particles(case, w)
    P.pmesh_M = None
    L.attach(P, w)
    P.traj_T = c22.trajectories(P)
    existing(P, w, case["n"], rep)
    P.__class__.UNIQUE_ID_COUNTER = case["uid"]
    par = params(case["species"], 2, P.particle_dimension)
    with Draws([], None) as d:
        before = snapshot(P)
        P.create_maxwellian_particles(3, 0.5, region(w, None), par)
        after = check_new(P, w, case["geo"], before, [(par, list(range(len(w.em.cells))))], d, rep, "followed")
    T, sn = P.traj_T, case["species"]
    fl = [i for i, p in enumerate(after[sn]) if int(p["bitflags"]) & P.TRAJECTORY_FLAG]
    require([int(i) for i in T.particle_index_list[sn]] == fl and [int(i) for i in T.particle_unique_id_list[sn]] == [int(after[sn][i]["unique_ID"]) for i in fl],
            "followed particles", lambda: "trajectories for %s, flagged %s" % (T.particle_index_list[sn], fl))
    for k, i in enumerate(fl):
        require(int(T.trajectory_length[sn][k]) == 1, "first point not recorded")
        pt = T.data_list[sn][k][0]
        ok = int(pt["step"]) == 3 and float(pt["t"]) == 0.5 and all(float(pt[c]) == float(after[sn][i][c]) for c in P.position_coordinates)
        ok = ok and (sn == "atoms" or all(float(pt["E" + c]) == 0 for c in P.position_coordinates))
        require(ok, "first point", lambda: "%s, particle %s" % (pt, after[sn][i]))
        rep.note("followed")


def jobs(tier):
    for mesh, system in (("flat2", "cartesian_xy"), ("tall3", "cartesian_xyz")):
        for cpp in (False, True):
            yield {"mesh": mesh, "geo": "Cartesian", "system": system, "cpp": cpp, "what": "reach", "L": 2, "cells": None, "species": "ions"}
    for k, (mesh, geo, system, cpp) in enumerate(COMBOS):
        base = {"mesh": mesh, "geo": geo, "system": system, "cpp": cpp}
        d = world(mesh, geo).dim
        menu = (MENU if tier == "quick" else MENU_T)[d]
        for first in menu:
            yield dict(base, what="emit", first=str(first))
        yield dict(base, what="regions")
        yield dict(base, what="schedule")
        if mesh in ("line_uneven", "line_shuffled", "radial", "square_right", "unit_square", "square_crossed", "line4"):
            yield dict(base, what="spread", L=2, cells=None, species="ions")
        yield dict(base, what="reach", L=2, cells=None, species="ions")
        if system[-1] in "xyzr" and (system, mesh) not in (("cartesian_xyz", "line4"), ("cartesian_xy", "line4"), ("cartesian_xyz", "unit_square")) and not (
                cpp and system != "cartesian_xy"):
            yield dict(base, what="followed")


def explore(job, tier, rep):
    q = tier == "quick"
    base = {k: job[k] for k in ("mesh", "geo", "system", "cpp")}
    w = world(job["mesh"], job["geo"])
    d, nc = w.dim, len(w.em.cells)
    if job["what"] == "emit":
        menu = (MENU if q else MENU_T)[d]
        rest = 2 * d - 1 if d < 3 else d - 1
        for t in product(menu, repeat=rest):
            script = [job["first"]] + [str(v) for v in t]
            i = int(sum(v.numerator for v in t)) % nc
            for c in ([i] if d > 1 else range(nc)):
                case = dict(base, what="emit", L=1 + i % 3, n=i % 4, species="ions" if i % 2 else "atoms", npc=2, cells=[c], script=script)
                rep.run(case, lambda: emit(case, rep) and None)
    elif job["what"] == "regions":
        cells = [[c] for c in range(nc)] + [[c, c + 1] for c in range(nc - 1)] + [None]
        for cs in cells:
            for npc in range(1, 4 if q else 5):
                for n in range(4):
                    for L_ in (1, 2, 3):
                        for th in (0.75, 0.0):
                            case = dict(base, what="emit", L=L_, n=n, species="ions", npc=npc, cells=cs, thermal=th,
                                        script=["0.6", "0.45", "0.5", "0.55"])
                            rep.run(case, lambda: emit(case, rep) and None)
    elif job["what"] == "schedule":
        kinds = [[("hot", "ions", [0], 2), ("rec", "ions", [1], 1), ("hot", "atoms", [1, 2], 1)],
                 [("cold", "atoms", [0, 1], 1), ("hot", "ions", [1], 3), ("hot", "ions", [0], 1)],
                 [("rec", "atoms", [0], 1), ("cold", "ions", [2], 2), ("rec", "ions", [1], 2)]]
        m, T = (4, 7) if q else (5, 13)
        for ks in kinds:
            for iv in product(range(1, m + 1), repeat=2 if q else 3):
                for steps in ([list(range(T))] if sum(iv) % 2 else [list(range(T)), [4, 6, 12]]):
                    src = [list(s) + [iv[i % len(iv)] if i < 2 else (iv + (1,))[2]] for i, s in enumerate(ks)]
                    case = dict(base, what="schedule", L=1 + sum(iv) % 3, n=(iv[0] + 2 * iv[1]) % 4, sources=src, steps=steps)
                    rep.run(case, lambda: schedule(case, rep))
        if job["mesh"] in ("line_uneven", "square_right", "radial") and not job["cpp"]:
            ks = [("rec", "atoms", [0], 1), ("cold", "ions", [1], 1)]
            for iv in product(range(1, 13), (1, 5, 7, 10, 12)):
                case = dict(base, what="schedule", L=3, n=1, sources=[list(s) + [i] for s, i in zip(ks, iv)], steps=list(range(25)))
                rep.run(case, lambda: schedule(case, rep))
    elif job["what"] in ("spread", "reach"):
        case = dict(job)
        rep.run(case, lambda: {"spread": spread, "reach": reach}[job["what"]](case, rep))
    else:
        for uid in range(497, 501):
            for n in range(3):
                for sn in ("ions", "atoms"):
                    case = dict(job, uid=uid, n=n, species=sn, L=2)
                    rep.run(case, lambda: followed(case, rep))


def replay(case, rep):
    rep.run(case, lambda: {"emit": emit, "schedule": schedule, "spread": spread, "reach": reach, "followed": followed}[case["what"]](case, rep) and None)
