"""C24: a whole simulation follows the particles it should, step after step."""
from fractions import Fraction as F
from itertools import product
import numpy as np
import dolfin as df
from mc import plib as L
from mc import c17, c18
from mc import flight as T
from mc.geom import mirror
from mc.core import require

TECHNIQUE = "exhaustive enumeration of all subsets of a menu of initial particles of three species x boundary potentials x walls x sources x storage segment lengths, each run for several steps of the whole loop (advance, create, deposit, solve) on the real Python and compiled code, every particle, node and cell of every step compared with an independent reference simulation"
LEVEL_NOTE = "Exhaustive over the menu's subsets and the stated settings; a history is followed until a particle passes within 1e-6 of an edge or facet end point (where the geometry no longer decides)."
BOUNDS = {
    "quick": "6 combinations of mesh, coordinates and implementation (x and xy in Python and compiled, spherical r compiled, xy neutral compiled); all 2^8 subsets of 3 electrons, 3 ions and 2 atoms (2^6 without atoms where no compiled neutral mover exists); 2 pairs of boundary potentials; absorbing walls or one reflecting; no source, an electron source every step, an ion source every second step; segment lengths 1 and 3; 4 steps; the whole menu and the menu without one of the electrons for 12 steps",
    "thorough": "as quick with 3 more meshes, segment lengths 1, 2, 3, 8 steps and both sources together",
}
ORACLE = "independent simulation: exact finite-element response matrices, gradient of the potential in the particle's own cell, velocity kick then straight flight traced in rationals with mirrors and absorbers, barycentric deposits"
ASSUMPTIONS = ["the loop is the one of the examples: advance, create, deposit, solve", "positions and velocities of newly created particles are taken from the run (C18 checks them)"]
EXPECT = {"steps": 10000, "absorbed": 3000, "reflections": 500, "created": 1000, "crossings": 5000}

Q0 = 2.0e-12
SPECIES = [("test_electrons", -Q0, Q0 / 2), ("ions", 1.5 * Q0, 2 * Q0), ("atoms", 0, 1.0)]
DT = 0.5
COMBOS = {  # name -> (mesh, geometry, system, compiled, has atoms)
    "py-x": ("line_uneven", "Cartesian", "cartesian_x", False, True),
    "cpp-x": ("line_uneven", "Cartesian", "cartesian_x", True, False),
    "py-xy": ("skewed", "Cartesian", "cartesian_xy", False, True),
    "cpp-xy": ("skewed", "Cartesian", "cartesian_xy", True, True),
    "cpp-r": ("radial", "1D-spherical-radial", "spherical_r", True, False),
    "cpp-xy-left": ("square_left", "Cartesian", "cartesian_xy", True, True),
    "cpp-x-shuffled": ("line_shuffled", "Cartesian", "cartesian_x", True, False),
    "py-xy-crossed": ("square_crossed", "Cartesian", "cartesian_xy", False, True),
    "cpp-r-shuffled": ("radial_shuffled", "1D-spherical-radial", "spherical_r", True, False),
}
QUICK = ["py-x", "cpp-x", "py-xy", "cpp-xy", "cpp-r", "cpp-xy-left"]
_cache = {}


def world(combo, walls):
    k = (combo, walls)
    if k not in _cache:
        mesh, geo, system, cpp, atoms = COMBOS[combo]
        _cache[k] = L.World(mesh, side_names={"xmin": "rmin"} if walls == "reflect" else None, coordinate_system=geo)
        # the solver's mesh must be the particles' mesh
    return _cache[k]


class Fields(object):
    """Potential, field, charge and densities on one mesh, with the exact discrete problem."""

    def __init__(self, combo, walls, bc):
        from Dolfin_Module import Field_C
        mesh, geo, system, cpp, atoms = COMBOS[combo]
        w = world(combo, walls)
        c17._worlds[mesh] = w
        s = c17.Solver(mesh, bc)
        self.s, self.w, self.ex = s, w, s.ex
        self.den = {sn: Field_C(w.mesh_M, "CG", 1, "scalar") for sn, q, m in SPECIES}
        self.cell = {sn: Field_C(w.mesh_M, "DG", 0, "scalar") for sn, q, m in SPECIES}


def fields(combo, walls, bc):
    k = (combo, walls, tuple(bc), "fields")
    if k not in _cache:
        _cache[k] = Fields(combo, walls, list(bc))
    return _cache[k]


def menu(combo, em):
    """[(species, x, u)]: in general position, spread over the mesh."""
    lo = [min(c[k] for c in em.coords) for k in range(em.dim)]
    hi = [max(c[k] for c in em.coords) for k in range(em.dim)]
    rows = [("test_electrons", (0.13, 0.27), (-1.1, 0.3)), ("test_electrons", (0.52, 0.61), (0.7, -0.9)), ("test_electrons", (0.87, 0.43), (0.2, 0.15)),
            ("ions", (0.21, 0.72), (0.4, 0.2)), ("ions", (0.63, 0.18), (-0.35, 0.8)), ("ions", (0.91, 0.83), (1.3, 0.1)),
            ("atoms", (0.34, 0.39), (0.9, 0.45)), ("atoms", (0.77, 0.66), (-0.6, -1.2))]
    if not COMBOS[combo][4]:
        rows = rows[:6]
    out = []
    for sn, f, u in rows:
        out.append((sn, [float(a + (b - a) * F(int(v * 1000), 1000)) for a, b, v in zip(lo, hi, f)], list(u[:em.dim])))
    return out


class Ref(object):
    """The independent simulation."""

    def __init__(self, combo, walls, bc):
        self.w = world(combo, walls)
        self.em = self.w.em
        self.fs = fields(combo, walls, bc)
        self.ex = self.fs.ex
        self.sys = COMBOS[combo][2]
        self.p = {sn: [] for sn, q, m in SPECIES}
        self.absorbed = self.created = 0
        self.q = {sn: q for sn, q, m in SPECIES}
        self.m = {sn: m for sn, q, m in SPECIES}
        self.phi = None

    def kind(self, sn):
        def f(facet):
            if facet not in self.w.facet_name:
                return None
            if self.w.facet_name[facet] == "rmin" and (sn == "test_electrons" or self.sys == "spherical_r"):
                return "reflect"
            return "absorb"
        return f

    def add(self, sn, uid, x, u, wt, cell):
        self.p[sn].append({"uid": uid, "x": list(x), "u": list(u), "w": wt, "c": cell, "k": 0})
        self.created += 1

    def deposit(self):
        """charge and number per vertex"""
        self.n = {sn: np.zeros(self.ex.n) for sn in self.p}
        self.nc = {sn: np.zeros(len(self.em.cells)) for sn in self.p}
        for sn in self.p:
            for p in self.p[sn]:
                lam = self.em.bary(p["c"], [F(v) for v in p["x"]])
                for v, l in zip(self.em.cells[p["c"]], lam):
                    self.n[sn][v] += p["w"] * float(l)
                self.nc[sn][p["c"]] += p["w"]
        self.charge = sum(self.q[sn] * self.n[sn] for sn in self.p)
        s = self.fs.s
        R = self.ex.inverse(s.fixed)
        self.phi = R.dot(np.array([s.fixed[v] if v in s.fixed else self.charge[v] / c17.eps0() for v in range(self.ex.n)]))

    def E(self, c):
        g = self.ex.grad[c]
        return [-sum(float(g[i][k]) * self.phi[v] for i, v in enumerate(self.em.cells[c])) for k in range(self.em.dim)]

    def step(self, rep):
        """False when a flight is not in general position."""
        for sn in self.p:
            keep = []
            for p in self.p[sn]:
                if self.q[sn]:
                    e = self.E(p["c"])
                    p["u"] = [u + self.q[sn] / self.m[sn] * DT * a for u, a in zip(p["u"], e)]
                x = [F(v) for v in p["x"]]
                d = [F(u * DT) for u in p["u"]]
                tr = self.em.trace(p["c"], x, d, self.kind(sn))
                if not T.generic(self.em, p["c"], tr):
                    return False
                rep.note("crossings", len(tr["events"]))
                if not tr["alive"]:
                    self.absorbed += 1
                    rep.note("absorbed")
                    continue
                u = [F(v) for v in p["u"]]
                for nn in tr["flips"]:
                    u = mirror(u, nn)
                    rep.note("reflections")
                p.update(x=[float(v) for v in tr["end"]], u=[float(v) for v in u], c=tr["cell"], k=len(tr["events"]))
                keep.append(p)
            self.p[sn] = keep
        return True


def simulate(case, rep):
    combo, walls = case["combo"], case["walls"]
    mesh, geo, system, cpp, atoms = COMBOS[combo]
    w = world(combo, walls)
    fs = fields(combo, walls, case["bc"])
    em, s = w.em, fs.s
    dim = em.dim
    species = [x for x in SPECIES if atoms or x[0] != "atoms"]
    names = [x[0] for x in species]
    P = L.make_particles(species, dim, case["L"], cpp, system=system)
    P.traj_T = None
    user = None
    if not cpp:
        from UserParticles_2D_e import UserParticleBoundaryFunctions_C as U
        user = U(P.position_coordinates, P.dx)
    L.attach(P, w, user)
    ref = Ref(combo, walls, case["bc"])
    M = menu(combo, em)
    for i in case["subset"]:
        sn, x, u = M[i]
        c = em.cells_of([F(v) for v in x])[0]
        wt = 1.0 + 0.25 * i
        P.sap_dict[sn].push_back(L.record(P, x, u, weight=wt, flags=0, uid=i, cell=c))
        ref.add(sn, i, x, u, wt, c)
    P.__class__.UNIQUE_ID_COUNTER = 1000
    P.particle_source_dict = {}
    for k, (sn, cells, npc, interval, dens) in enumerate(case["sources"]):
        par = c18.params(sn, npc, dim, interval=interval, density=dens, thermal=0.25, drift=(0.3, -0.2))
        P.particle_source_dict["src%d" % k] = (par, P.create_maxwellian_particles, c18.region(w, cells))
    tol = 1e-8
    for n in range(case["T"] + 1):
        ctrl = L.control(DT, nstep=n, time=n * DT)
        what = "step %d" % n
        if n:
            if not ref.step(rep):
                rep.note("left_out_not_general")
                return
            P.advance_charged_particles_in_E_field(ctrl, neg_E_field=s.S.neg_electric_field)
            if atoms:
                P.advance_neutral_particles(ctrl)
            compare(P, ref, names, dim, tol, what + " after the advance")
            with c18.Draws(["0.3", "0.6", "0.55", "0.2"] if n % 2 else ["0.7", "0.1"], None):
                P.add_more_particles(ctrl, neg_E_field=s.S.neg_electric_field)
            want = sum(c18.cell_volume(w, geo, c) * dens for sn, cells, npc, iv, dens in case["sources"] if n % iv == 0 for c in cells)
            new = 0.0
            for sn in names:
                have = {p["uid"] for p in ref.p[sn]}
                for p in L.items(P, sn):
                    if int(p["unique_ID"]) not in have:
                        v = [float(t) for t in p.tolist()[:3 * dim]]
                        ref.add(sn, int(p["unique_ID"]), v[:dim], v[2 * dim:], float(p["weight"]), int(p["cell_index"]))
                        require(em.contains(int(p["cell_index"]), [F(t) for t in v[:dim]]), "created outside its cell", what)
                        new += float(p["weight"])
                        rep.note("created")
            require(abs(new - want) <= 1e-9 * max(1.0, want), "created weight", lambda: "%s: %r, should be %r" % (what, new, want))
            compare(P, ref, names, dim, tol, what + " after the sources")
        ref.deposit()
        s.charge.set_values(0.0)
        for sn in names:
            fs.den[sn].set_values(0.0)
            fs.cell[sn].set_values(0.0)
        for sn in names:
            P.accumulate_number_density(sn, fs.den[sn], fs.cell[sn])
            s.charge.multiply_add(fs.den[sn], multiplier=P.charge[sn])
        s.S.solve_for_phi(assembled_charge=s.charge)
        check_fields(ref, fs, names, geo, what)
        rep.note("steps")
        rep.step(len(names) * 3)
        rep.state((combo, walls, case["L"], n, tuple((sn, tuple((p["uid"], p["c"]) for p in ref.p[sn])) for sn in names)))
    live = sum(len(v) for v in ref.p.values())
    require(P.get_total_particle_count() == live == ref.created - ref.absorbed, "total count")


def compare(P, ref, names, dim, tol, what):
    for sn in names:
        got = L.items(P, sn)
        want = ref.p[sn]
        require([int(p["unique_ID"]) for p in got] == [p["uid"] for p in want], "wrong particles", lambda: "%s: %s holds %s, should hold %s" % (
            what, sn, [int(p["unique_ID"]) for p in got], [p["uid"] for p in want]))
        require(P.get_species_particle_count(sn) == len(want), "count", what)
        for p, r in zip(got, want):
            v = [float(t) for t in p.tolist()[:3 * dim]]
            sc = 1 + max(abs(t) for t in r["x"] + r["u"])
            where = "%s: %s %d" % (what, sn, r["uid"])
            require(all(abs(a - b) <= tol * sc for a, b in zip(v[:dim], r["x"])), "position", lambda: "%s is at %s, should be at %s" % (where, v[:dim], r["x"]))
            require(all(abs(a - b) <= tol * sc for a, b in zip(v[2 * dim:], r["u"])), "velocity", lambda: "%s has %s, should have %s" % (where, v[2 * dim:], r["u"]))
            require(int(p["cell_index"]) == r["c"], "cell", lambda: "%s is recorded in %d, is in %d" % (where, int(p["cell_index"]), r["c"]))
            require(float(p["weight"]) == r["w"], "weight", where)


def check_fields(ref, fs, names, geo, what):
    s, ex = fs.s, ref.ex
    for sn in names:
        got = np.array(fs.den[sn].function_values.get_local())[s.dof]
        tot = float(ref.n[sn].sum())
        require(np.all(np.abs(got - ref.n[sn]) <= 1e-7 * max(1.0, tot)), "density", lambda: "%s: %s %s, should be %s" % (what, sn, list(got), list(ref.n[sn])))
        require(abs(got.sum() - sum(p["w"] for p in ref.p[sn])) <= 1e-9 * max(1.0, tot), "total number", lambda: "%s: %s %r" % (what, sn, got.sum()))
        cd = fs.cell[sn].function_space.dofmap()
        vals = fs.cell[sn].function_values.get_local()
        for c in range(len(ref.em.cells)):
            v = c18.cell_volume(ref.w, geo, c) * (1.0 if geo == "Cartesian" else 4 * np.pi)
            g, e = float(vals[int(cd.cell_dofs(c)[0])]), ref.nc[sn][c] / v
            require(abs(g - e) <= 1e-9 * max(1.0, e), "cell density", lambda: "%s: %s cell %d: %r, should be %r" % (what, sn, c, g, e))
    got = np.array(s.phi.function_values.get_local())[s.dof]
    sc = max(1.0, float(np.abs(ref.phi).max()))
    require(np.all(np.abs(got - ref.phi) <= 1e-7 * sc), "potential", lambda: "%s: %s, should be %s" % (what, list(got), list(ref.phi)))
    dm = s.E.function_space.dofmap()
    ev = s.E.function_values.get_local()
    for c in range(len(ref.em.cells)):
        e = ref.E(c)
        ds = [int(i) for i in dm.cell_dofs(c)]
        m = 1 + max(abs(float(t)) for g in ex.grad[c] for t in g)
        require(all(abs(ev[d] + a) <= 1e-7 * sc * m for d, a in zip(ds, e)), "electric field", lambda: "%s: cell %d %s, should be %s" % (what, c, [-ev[d] for d in ds], e))


# ------------------------------------------------------------------ enumeration
def jobs(tier):
    for combo in (QUICK if tier == "quick" else COMBOS):
        for walls in ("absorb", "reflect"):
            for bc in ((0.0, 0.0), (2.0, -1.5)):
                for k in range(3 if tier == "quick" else 4):
                    yield {"combo": combo, "walls": walls, "bc": list(bc), "sources": k}


def explore(job, tier, rep):
    combo = job["combo"]
    em = world(combo, job["walls"]).em
    nc = len(em.cells)
    se = ["test_electrons", [0, nc - 1], 1, 1, 1.5]
    si = ["ions", [nc // 2], 2, 2, 2.5]
    sources = [[], [se], [si], [si, se]][job["sources"]]
    n = len(menu(combo, em))
    for L_ in ((1, 3) if tier == "quick" else (1, 2, 3)):
        for bits in product((0, 1), repeat=n):
            case = {"combo": combo, "walls": job["walls"], "bc": job["bc"], "sources": sources, "L": L_, "T": 4 if tier == "quick" else 8,
                    "subset": [i for i in range(n) if bits[i]]}
            rep.run(case, lambda: simulate(case, rep))
    whole = list(range(n))
    for sub in [whole] + [[i for i in whole if i != j] for j in (whole if tier == "thorough" else whole[:2])]:
        case = {"combo": combo, "walls": job["walls"], "bc": job["bc"], "sources": sources, "L": 2, "T": 12, "subset": sub}
        rep.run(case, lambda: simulate(case, rep))


def replay(case, rep):
    rep.run(case, lambda: simulate(case, rep))


def warm():
    c17.warm()
