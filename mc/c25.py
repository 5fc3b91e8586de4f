"""C25: simulations run in one process do not disturb one another."""
import os
import pickle
from fractions import Fraction as F
from itertools import combinations, product
import numpy as np
from mc import plib as L
from mc import c17, c18, c24
from mc.c19 import Scratch
from mc.core import require

TECHNIQUE = "exhaustive enumeration of all interleavings of the operations of two whole simulations (build, start, steps, finish) in one process, and of all sequences of runs, for all ordered pairs of kinds of simulation, on the real Python and compiled code; every intermediate result compared, bit for bit, with the same simulation run alone in a fresh process"
LEVEL_NOTE = "Exhaustive over all interleavings at the level of the loop's operations, for every ordered pair of the listed kinds, with the stated number of switches."
BOUNDS = {
    "quick": "8 kinds of simulation (x and xy in Python and compiled, spherical r compiled, xyz in Python and compiled, xy compiled on another mesh); all 64 ordered pairs on separate meshes and the 14 ordered pairs that can share one mesh object; 6 operations each (build, start, advance, rest of the step, advance, rest and finish), all interleavings with up to 4 switches from one simulation to the other; the two differ in time step, boundary conditions, species order, masses, weights, sources and followed particles; the first to finish is destroyed at once; each one limited to exactly the facet crossings it needs; and, with real random numbers, all sequences of two of the 16 simulations one after the other",
    "thorough": "as quick with all 924 interleavings and all sequences of three",
}
ORACLE = "the same simulation run alone in a forked process: particles, densities, potentials, trajectories and the particle file"
ASSUMPTIONS = ["the segment length (a class constant) is the same in both simulations", "random numbers are supplied where simulations are interleaved (one generator serves the process); a run that starts with its own DTcontrol_C has its own sequence of them", "unique numbers given to created particles may differ, as one counter serves the process"]
EXPECT = {"interleavings": 12000, "operations": 140000, "shared": 1900, "different limits": 8000, "sequences": 300}

KINDS = {  # name -> (mesh, geometry, system, compiled)
    "py-x": ("line_uneven", "Cartesian", "cartesian_x", False),
    "cpp-x": ("line_uneven", "Cartesian", "cartesian_x", True),
    "py-xy": ("skewed", "Cartesian", "cartesian_xy", False),
    "cpp-xy": ("skewed", "Cartesian", "cartesian_xy", True),
    "cpp-r": ("radial", "1D-spherical-radial", "spherical_r", True),
    "cpp-xy-left": ("square_left", "Cartesian", "cartesian_xy", True),
    "py-xyz": ("cube", "Cartesian", "cartesian_xyz", False),
    "cpp-xyz": ("cube", "Cartesian", "cartesian_xyz", True),
}
LISTED = 700000
_worlds, _kits = {}, {}


def world(kind, slot, shared):
    mesh, geo = KINDS[kind][:2]
    k = (mesh, geo, "both" if shared else slot)
    if k not in _worlds:
        _worlds[k] = L.World(mesh, side_names={"xmin": "rmin"} if slot or shared else None, coordinate_system=geo)
    return _worlds[k]


class Kit(object):
    """Fields and solver of one simulation (kept from one case to the next: building function spaces is slow)."""

    def __init__(self, kind, slot, shared):
        from Dolfin_Module import Field_C
        mesh = KINDS[kind][0]
        w = self.w = world(kind, slot, shared)
        self.solver = None
        if w.dim < 3:
            c17._worlds[mesh] = w
            self.solver = c17.Solver(mesh, [2.0, -1.5] if slot else [0.0, 0.0])
            self.negE = self.solver.S.neg_electric_field
        else:
            self.negE = L.zero_E(w)
            self.negE.function.vector()[:] = -0.25 if slot else 0.375
        self.den = [Field_C(w.mesh_M, "CG", 1, "scalar") for _ in range(3)]
        self.cell = [Field_C(w.mesh_M, "DG", 0, "scalar") for _ in range(3)]


def kit(kind, slot, shared):
    k = (kind, slot, shared)
    if k not in _kits:
        _kits[k] = Kit(kind, slot, shared)
    return _kits[k]


def species_of(kind, slot):
    q = c24.Q0
    if kind == "cpp-xyz":
        s = [("atoms", 0, 1.0), ("molecules", 0, 2.0)]
    else:
        s = [("test_electrons", -q, q / 2), ("ions", 1.5 * q, 2 * q)] + ([("atoms", 0, 1.0)] if kind not in ("cpp-x", "cpp-r") else [])
    if slot:
        s = [(n, c, m * 2) for n, c, m in reversed(s)]
    return s


def menu(kind, slot, em):
    lo = [min(c[k] for c in em.coords) for k in range(em.dim)]
    hi = [max(c[k] for c in em.coords) for k in range(em.dim)]
    fs = [(0.13, 0.27, 0.41), (0.52, 0.61, 0.37), (0.87, 0.43, 0.82), (0.21, 0.72, 0.56), (0.63, 0.18, 0.12), (0.91, 0.83, 0.68), (0.34, 0.39, 0.23)]
    us = [(-1.1, 0.3, 0.2), (0.7, -0.9, 0.5), (0.2, 0.15, -0.3), (0.4, 0.2, 0.9), (-0.35, 0.8, -0.7), (1.3, 0.1, 0.15), (-0.6, -1.2, 0.4)]
    g = 0.8 if slot else 1.0
    for f, u in zip(fs, us):
        yield [float(a + (b - a) * F(int(v * 1000), 1000)) for a, b, v in zip(lo, hi, f)], [g * v for v in u[:em.dim]]


def boundary_functions(sim, P):
    """What the user writes: the same class name in both simulations, with other functions."""
    from UserParticles_2D_e import UserParticleBoundaryFunctions_C as Base
    plain = sim.P.particle_dimension > 2 or sim.slot

    class UserParticleBoundaryFunctions_C(object if plain else Base):
        def __init__(self):
            if not plain:
                super().__init__(P.position_coordinates, P.dx)

        def default_bc(self, p, species_name, facet_index, dx_fraction=None, facet_normal=None):
            sim.calls.append(("default", species_name, int(facet_index), float(dx_fraction)))
            p["bitflags"] = p["bitflags"] | P.DELETE_FLAG

        def bc_at_xmax_for_atoms(self, p, species_name, facet_index, dx_fraction=None, facet_normal=None):
            sim.calls.append(("atoms at xmax", species_name, int(facet_index), float(dx_fraction)))
            p["bitflags"] = p["bitflags"] | P.DELETE_FLAG
            p["weight"] *= 1 + sim.slot

    if not sim.slot:
        def default_bc_at_ymin(self, p, species_name, facet_index, dx_fraction=None, facet_normal=None):
            sim.calls.append(("ymin", species_name, int(facet_index), float(dx_fraction)))
            p["bitflags"] = p["bitflags"] | P.DELETE_FLAG
        UserParticleBoundaryFunctions_C.default_bc_at_ymin = default_bc_at_ymin
    return UserParticleBoundaryFunctions_C()


class Sim(object):
    def __init__(self, kind, slot, shared, folder, steps, limit, random=False):
        self.random = random
        self.control = None
        self.limit = limit
        self.calls = []
        self.kind, self.slot, self.shared = kind, slot, shared
        self.path = os.path.join(folder, "p%d.h5part" % slot)
        self.steps = steps
        self.n = 0
        self.log = []
        self.dt = 0.375 if slot else 0.5

    def ops(self):
        """the operations, in order"""
        o = [self.build, self.start]
        for k in range(self.steps):
            o += [self.advance, self.rest]
        o[-1] = self.last
        return o

    def ctrl(self):
        if self.random and self.control is not None:        # (making one sets the random numbers)
            c = self.control
            c.timeloop_count, c.time = self.n, self.n * self.dt
            return c
        c = self.control = L.control(self.dt, nstep=self.n, time=self.n * self.dt, max_cross=self.limit)
        c.title, c.author = "simulation %d" % self.slot, "somebody"
        c.n_timesteps = self.steps
        c.write_trajectory_files = False
        c.particle_output_file = self.path
        c.particle_output_attributes = ("species_index", "weight", "cell_index") if self.slot else ("species_index", "weight", self.first)
        return c

    def build(self):
        mesh, geo, system, cpp = KINDS[self.kind]
        self.kit = kit(self.kind, self.slot, self.shared)
        w = self.w = self.kit.w
        sp = species_of(self.kind, self.slot)
        self.names = [s[0] for s in sp]
        P = self.P = L.make_particles(sp, w.dim, 2, cpp, system=system)
        self.first = P.position_coordinates[0]
        self.ctrl()
        P.traj_T = None
        L.attach(P, w, None if cpp else boundary_functions(self, P))
        self.snap()

    def start(self):
        from RecordedData_Module import TrajectoryInput_C, Trajectory_C
        P, w, slot = self.P, self.w, self.slot
        t = TrajectoryInput_C()
        t.max_points, t.extra_points = None, 6 + slot
        coords = P.position_coordinates
        names = ["step", "t"] + list(coords) + ["u" + c for c in coords]
        t.charged_dict = {"names": names + ["E" + c for c in coords], "formats": [int] + [np.float64] * (1 + 3 * len(coords))}
        t.neutral_dict = {"names": names, "formats": [int] + [np.float64] * (1 + 2 * len(coords))}
        c = self.ctrl()
        P.traj_T = Trajectory_C(t, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
        for i, (x, u) in enumerate(menu(self.kind, slot, w.em)):
            sn = self.names[i % len(self.names)]
            follow = i % 3 == slot
            cell = w.em.cells_of([F(v) for v in x])[0]
            ret = P.sap_dict[sn].push_back(L.record(P, x, u, weight=1.0 + slot + 0.25 * i, flags=2 if follow else 0, uid=LISTED + i, cell=cell))
            if follow:
                P.traj_T.create_trajectory(sn, int(ret[1]), "neutral" if P.charge[sn] == 0 else "charged", unique_id_int=LISTED + i)
        src = self.names[slot % len(self.names)]
        cells = [0, len(w.em.cells) - 1] if slot else [len(w.em.cells) // 2]
        par = c18.params(src, 1 + slot, w.dim, density=2.5 - slot, thermal=0.25, drift=(0.3, -0.2, 0.1))
        P.particle_source_dict = {"source": (par, P.create_maxwellian_particles, c18.region(w, cells))}
        P.check_particle_output_parameters(c)
        P.initialize_particle_output_file(c)
        self.fields()
        P.record_trajectory_data(0, 0.0, neg_E_field=self.kit.negE)
        P.write_particles_to_file(c)
        self.snap()

    def advance(self):
        self.n += 1
        c = self.ctrl()
        P = self.P
        if P.charged_species:
            P.advance_charged_particles_in_E_field(c, neg_E_field=self.kit.negE)
        if P.neutral_species:
            P.advance_neutral_particles(c)
        self.snap()

    def rest(self):
        c = self.ctrl()
        P = self.P
        if self.random:
            P.add_more_particles(c, neg_E_field=self.kit.negE)
        else:
            with c18.Draws(["0.7", "0.1", "0.2"] if (self.n + self.slot) % 2 else ["0.3", "0.6", "0.55", "0.2"], None):
                P.add_more_particles(c, neg_E_field=self.kit.negE)
        self.fields()
        P.record_trajectory_data(self.n, self.n * self.dt, neg_E_field=self.kit.negE)
        P.write_particles_to_file(c)
        self.snap()

    def last(self):
        self.rest()
        self.finish()

    def fields(self):
        P, k = self.P, self.kit
        for i, sn in enumerate(self.names):
            k.den[i].set_values(0.0)
            k.cell[i].set_values(0.0)
            P.accumulate_number_density(sn, k.den[i], k.cell[i])
        self.log.append(("density", [f.function_values.get_local().tolist() for f in k.den[:len(self.names)] + k.cell[:len(self.names)]]))
        if k.solver is not None:
            k.solver.charge.set_values(0.0)
            for i, sn in enumerate(self.names):
                k.solver.charge.multiply_add(k.den[i], multiplier=P.charge[sn])
            k.solver.S.solve_for_phi(assembled_charge=k.solver.charge)
            self.log.append(("potential", k.solver.phi.function_values.get_local().tolist()))
            self.log.append(("field", k.negE.function_values.get_local().tolist()))

    def snap(self):
        P = self.P
        for sn in self.names:
            rows = []
            for p in L.items(P, sn):
                row = list(p.tolist())
                k = p.dtype.names.index("unique_ID")
                if not LISTED <= row[k] < LISTED + 100:
                    row[k] = "created"
                    row[p.dtype.names.index("bitflags")] &= ~2        # (one number is followed for debugging)
                rows.append(row)
            self.log.append((sn, rows))
        self.log.append(("boundary functions called", list(self.calls)))
        self.log.append(("counts", [P.get_species_particle_count(sn) for sn in self.names], P.get_total_particle_count()))

    def finish(self):
        import h5py
        P = self.P
        P.write_particles_to_file(self.ctrl(), close_flag=True)
        t = P.traj_T
        for sn in self.names:
            for i, a in enumerate(t.data_list[sn]):
                if t.particle_unique_id_list[sn][i] >= LISTED:
                    self.log.append(("trajectory", sn, t.particle_unique_id_list[sn][i], t.trajectory_length[sn][i], a[:t.trajectory_length[sn][i]].tolist()))
        with h5py.File(self.path, "r") as f:
            self.log.append(("file", [(k, str(v)) for k, v in sorted(f.attrs.items())]))
            for g in sorted(f.keys()):
                self.log.append(("file", g, float(f[g].attrs["TimeValue"]), [(d, f[g][d][:].tolist()) for d in sorted(f[g].keys())]))
        os.remove(self.path)
        P.traj_T = None


def alone(kind, slot, shared, steps, random, limit):
    """The simulation's results in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = None
        try:
            os.close(r)
            with Scratch() as d:
                s = Sim(kind, slot, shared, d, steps, limit, random)
                for o in s.ops():
                    o()
                    s.log.append(None)
                out = s.log
        except BaseException as e:
            import traceback
            out = "".join(traceback.format_exc()[-2000:])
        with os.fdopen(w, "wb") as f:
            f.write(pickle.dumps(out))
            f.flush()
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else "the simulation ended its process"


_alone = {}


def reference(kind, slot, shared, steps, random=False):
    k = (kind, slot, shared, steps, random)
    if k not in _alone:
        # the smallest limit on facet crossings that this simulation can do with
        for limit in [40] if random else list(range(1, 20)) + [40]:
            out = alone(*(k + (limit,)))
            if isinstance(out, list):
                break
        require(isinstance(out, list), "the simulation failed alone", lambda: "%s %d: %s" % (kind, slot, out))
        _alone[k] = (out, limit)
    return _alone[k]


def interleave(case, rep):
    kinds, shared, steps, first = case["kinds"], case["shared"], case["steps"], set(case["first"])
    refs = [reference(kinds[i], i, shared, steps) for i in (0, 1)]
    if refs[0][1] != refs[1][1]:
        rep.note("different limits")
    limits, refs = [r[1] for r in refs], [r[0] for r in refs]
    with Scratch() as d:
        sims = [Sim(kinds[i], i, shared, d, steps, limits[i]) for i in (0, 1)]
        ops = [s.ops() for s in sims]
        at = [0, 0]
        pos = [0, 0]
        for k in range(sum(map(len, ops))):
            i = 0 if k in first else 1
            ops[i][at[i]]()
            at[i] += 1
            sims[i].log.append(None)
            same(sims[i].log, refs[i], pos, i, lambda: "%s beside %s, operation %d of simulation %d (order %s)" % (
                kinds[i], kinds[1 - i], at[i], i + 1, "".join("1" if j in first else "2" for j in range(k + 1))))
            rep.step()
            rep.note("operations")
            rep.state((tuple(kinds), shared, steps, tuple(at), i))
            if at[i] == len(ops[i]):
                require(len(sims[i].log) == len(refs[i]), "results missing")
                sims[i] = ops[i] = None
    rep.note("interleavings")
    if shared:
        rep.note("shared")


def sequence(case, rep):
    """Runs one after another, with real random numbers: each as if it were the only one."""
    refs = [reference(k, i, case["shared"], case["steps"], True) for k, i in case["runs"]]
    with Scratch() as d:
        for n, (k, i) in enumerate(case["runs"]):
            s = Sim(k, i, case["shared"], d, case["steps"], refs[n][1], True)
            pos = [0]
            for o in s.ops():
                o()
                s.log.append(None)
                same(s.log, refs[n][0], pos, 0, lambda: "%s %d as run %d of %s" % (k, i + 1, n + 1, case["runs"]))
                rep.step()
                rep.note("operations")
            require(len(s.log) == len(refs[n][0]), "results missing")
            rep.state((str(case["runs"][:n + 1]), "random", case["shared"]))
    rep.note("sequences")


def same(log, ref, pos, i, what):
    while pos[i] < len(log):
        a, b = log[pos[i]], ref[pos[i]] if pos[i] < len(ref) else "nothing"
        if a != b and repr(a) != repr(b):
            require(False, "disturbed", "%s: %s\nalone: %s" % (what(), repr(a)[:1200], repr(b)[:1200]))
        pos[i] += 1


# ------------------------------------------------------------------ enumeration
def jobs(tier):
    for a in KINDS:
        for b in KINDS:
            yield {"runs": [a, b]}
            for lead in (0, 1):         # what the process keeps may come from the run that comes first in it
                yield {"kinds": [a, b], "shared": False, "lead": lead}
                if KINDS[a][:2] == KINDS[b][:2]:
                    yield {"kinds": [a, b], "shared": True, "lead": lead}


STEPS = 2


def explore(job, tier, rep):
    if "runs" in job:
        a, b = job["runs"]
        for i, j, shared in product((0, 1), (0, 1), (False, True)):
            if shared and KINDS[a][:2] != KINDS[b][:2]:
                continue
            last = product(KINDS if tier == "thorough" and not shared else [], (0, 1))
            for more in [[]] + [[list(m)] for m in last]:
                case = {"runs": [[a, i], [b, j]] + more, "shared": shared, "steps": STEPS}
                rep.run(case, lambda: sequence(case, rep))
        return
    n = 2 + 2 * STEPS
    orders = [f for f in bounded(n, 4 if tier == "quick" else 2 * n) if (0 in f) == (job["lead"] == 0)]
    for first in orders if job["lead"] == 0 else reversed(orders):
        case = {"kinds": job["kinds"], "shared": job["shared"], "steps": STEPS, "first": list(first)}
        rep.run(case, lambda: interleave(case, rep))


def bounded(n, switches):
    """orders of n and n operations with at most so many switches from one simulation to the other"""
    for first in combinations(range(2 * n), n):
        s = set(first)
        if sum((k in s) != (k + 1 in s) for k in range(2 * n - 1)) <= switches:
            yield first


def replay(case, rep):
    rep.run(case, lambda: sequence(case, rep) if "runs" in case else interleave(case, rep))


def warm():
    c17.warm()
    for k in ("py-xy", "cpp-r", "py-x", "py-xyz", "cpp-xy-left"):
        Kit(k, 0, False)
