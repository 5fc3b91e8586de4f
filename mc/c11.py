"""C11: a trajectory always records the particle it was started for."""
from fractions import Fraction as F
from itertools import product
import numpy as np
from mc import hist as H
from mc import plib as L
from mc import c03
from mc import flight as T
from mc.geom import mirror
from mc.core import require

TECHNIQUE = "exhaustive enumeration of every assignment of (fate, followed or not) to every particle over small populations, steps and capacities, on all real movers with trajectories; every trajectory is compared point by point with a list model after every step"
LEVEL_NOTE = "Exhaustive within the stated population, step, segment-length and capacity bounds."
BOUNDS = {
    "quick": "11 movers; (segment length, initial particles, steps, added per step) = (1,2,2,1) (2,3,2,1) (3,4,1,0) (2,4,1,0), each particle followed or not with every fate; runs of 12 steps with additions every third step; capacities 1..5 points for up to 2 particles over 3 steps; every point limit None,1..12 x 1..25 steps x 3 margins; births of the followed particle at every slot; flights of followed particles across several facets, marked interior facets and reflecting walls, 2 steps, lattice starts and moves on 8 meshes",
    "thorough": "as quick with (1,4,2,1) (2,4,2,1) (3,4,2,1) (2,6,1,0) (3,7,1,0) (2,3,3,1), and 3 particles per capacity",
}
ORACLE = "list model of the points each followed particle must have: one per recording call while it lives, the wall crossing, and its last position"
ASSUMPTIONS = ["the particles are so heavy that the recorded field does not bend their paths measurably"]
EXPECT = {"histories": 1500, "points": 20000, "full": 100, "births": 300, "flights": 2000, "limits": 900}
MOVERS = [m for m in H.MOVERS if "uniform" not in m]
HEAVY = (2.0 ** 52, 2.0 ** 52, 2.0 ** 52)


def field(world):
    """-E with a different value in every cell."""
    f = L.zero_E(world)
    dm = f.function_space.dofmap()
    v = f.function.vector().get_local()
    for c in range(len(world.em.cells)):
        for k, d in enumerate(dm.cell_dofs(c)):
            v[d] = -E_in(c, k)
    f.function.vector().set_local(v)
    f.function.vector().apply("insert")
    return f


def E_in(c, k):
    return 1.0 + c + 100.0 * (k + 1)


def jobs(tier):
    plan = [(1, 2, 2, 1), (2, 3, 2, 1), (3, 4, 1, 0), (2, 4, 1, 0)] if tier == "quick" else [
        (1, 4, 2, 1), (2, 4, 2, 1), (3, 4, 2, 1), (2, 6, 1, 0), (3, 7, 1, 0), (2, 3, 3, 1)]
    for mover in MOVERS:
        for L_, n, T, a in plan:
            parts = (4 if T > 1 and n > 2 else 1) if tier == "quick" else 12
            for part in range(parts):
                yield {"mover": mover, "L": L_, "n": n, "T": T, "a": a, "part": part, "parts": parts}
        yield {"mover": mover, "L": 2, "long": True}
        for cap in range(1, 6):
            yield {"mover": mover, "cap": cap, "n": 2 if tier == "quick" else 3}
    for steps in range(1, 26):
        yield {"steps": steps}
    for mover in ("py-charged-1", "py-charged-2", "py-neutral-1", "cpp-charged-x", "cpp-charged-xy", "cpp-neutral-xyz"):
        for seg in (1, 2, 3):
            yield {"mover": mover, "born": seg}
    for mover in MOVERS:
        for reflect in ((), ("xmin",), ("xmax", "ymin")):
            yield {"mover": mover, "path": True, "mesh": H.MOVERS[mover][2], "reflect": list(reflect)}
    for mover, mesh in (("py-charged-2", "skewed"), ("cpp-charged-xy", "skewed"), ("py-neutral-2", "ell"), ("cpp-neutral-xy", "sheared"),
                        ("py-charged-1", "line_uneven"), ("cpp-charged-x", "line_uneven"), ("cpp-neutral-xyz", "brick"),
                        ("py-charged-3", "brick")):
        yield {"mover": mover, "path": True, "mesh": mesh, "reflect": []}


def follow(r, case):
    from RecordedData_Module import TrajectoryInput_C, Trajectory_C
    t = TrajectoryInput_C()
    t.max_points = None
    coords = r.P.position_coordinates
    names = ["step", "t"] + list(coords) + ["u" + c for c in coords]
    t.charged_dict = {"names": names + ["E" + c for c in coords], "formats": [int] + [np.float64] * (1 + 3 * len(coords))}
    t.neutral_dict = {"names": names, "formats": [int] + [np.float64] * (1 + 2 * len(coords))}
    c = r.ctrl()
    c.title = c.author = "x"
    c.write_trajectory_files = False
    if "cap" in case:
        c.n_timesteps, t.extra_points = case["cap"] - 1, 0
    else:
        c.n_timesteps, t.extra_points = case["T"], 3
    P = r.P
    P.traj_T = Trajectory_C(t, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
    r.cap = P.traj_T.npoints
    require(r.cap >= (case["cap"] if "cap" in case else case["T"] + 4), "capacity", lambda: "%d points" % r.cap)
    r.traj = {s: [] for s in r.species}


def add(r, sn, fate, followed):
    ret = r.add(sn, fate, flags=6 if followed else 4)
    if followed:
        p = r.model[sn][-1]
        r.P.traj_T.create_trajectory(sn, int(ret[1]), "neutral" if r.q[sn] == 0 else "charged", unique_id_int=p["uid"])
        p["points"] = []
        p["extra"] = None
        r.traj[sn].append(p)


def E_at(r, p):
    """Field at the particle, or None when it is on a facet between cells."""
    cs = r.world.em.cells_of(p["x"][:r.world.em.dim])
    return [E_in(cs[0], k) for k in range(r.world.em.dim)] if len(cs) == 1 else None


def put(r, sn, p, x, t, E):
    if len(p["points"]) < r.cap:
        p["points"].append((r.step, t, list(x), list(p["u"]), E if r.q[sn] else None))
    else:
        r.rep.note("full")


def record(r, twice=False):
    for k in range(2 if twice else 1):
        r.P.record_trajectory_data(r.step, float(r.time), neg_E_field=r.E)
    for sn in r.species:
        for p in r.traj[sn]:
            if any(q is p for q in r.model[sn]):
                put(r, sn, p, p["x"], r.time, E_at(r, p))


def advance(r):
    before = {id(p): E_at(r, p) for s in r.species for p in r.model[s] if "points" in p}
    r.advance()
    for sn, p in r.died:
        if "points" not in p:
            continue
        if p["x"][0] > r.hi:
            frac = (r.hi - (p["x"][0] - p["u"][0] * H.DT)) / (p["u"][0] * H.DT)
            put(r, sn, p, [r.hi] + p["x"][1:], r.time - H.DT + frac * H.DT, before[id(p)])
        put(r, sn, p, p["x"], r.time, [0.0] * r.pdim)
        if p["flags"] & 1:
            p["extra"] = True


def check(r, where):
    T = r.P.traj_T
    coords = r.P.position_coordinates
    for sn in r.species:
        tr = r.traj[sn]
        require(len(T.particle_index_list[sn]) == len(tr) == len(T.data_list[sn]) == len(T.trajectory_length[sn]),
                "number of trajectories", lambda: "%s: species %s" % (where, sn))
        require([int(u) for u in T.particle_unique_id_list[sn]] == [p["uid"] for p in tr], "identities", "%s" % where)
        alive = {id(p): i for i, p in enumerate(r.model[sn])}
        for k, p in enumerate(tr):
            idx = int(T.particle_index_list[sn][k])
            want = alive.get(id(p), T.NO_PINDEX)
            require(idx == want, "follows the wrong particle", lambda: "%s: trajectory of uid %d points at slot %d, is in slot %d" % (
                where, p["uid"], idx, want))
            n = int(T.trajectory_length[sn][k])
            require(n == len(p["points"]), "number of points", lambda: "%s: uid %d has %d points, should have %s" % (
                where, p["uid"], n, [(a, float(b)) for a, b, _, _, _ in p["points"]]))
            d = T.data_list[sn][k]
            r.rep.note("points", n)
            for i, (step, t, x, u, E) in enumerate(p["points"]):
                ok = int(d["step"][i]) == step and abs(d["t"][i] - float(t)) < 1e-9
                for j, c in enumerate(coords):
                    ok = ok and abs(d[c][i] - float(x[j])) < 1e-9 and abs(d["u" + c][i] - float(u[j])) < 1e-9
                    ok = ok and (E is None or d["E" + c][i] == E[j])
                require(ok, "wrong point", lambda: "%s: species %s uid %d point %d is %s, should be step %d t %g x %s u %s E %s" % (
                    where, sn, p["uid"], i, d[i], step, float(t), [float(v) for v in x], [float(v) for v in u], E))


def one(case, rep):
    r = H.Run(case, rep, masses=HEAVY, field=field)
    follow(r, case)
    for (f, fol) in case["init"]:
        add(r, "alpha", f, fol)
    add(r, "beta", 0, True)
    add(r, "beta", 1, False)
    add(r, "beta", 0, True)
    for s in r.species[2:]:
        add(r, s, 0, True)
    record(r)
    check(r, "at the start")
    for k in range(case["T"]):
        if k > 0:
            for f, fol in case["adds"][k - 1]:
                add(r, "alpha", f, fol)
        advance(r)
        if case["T"] > 6 and k % 5 != 1:         # long runs: the points stay, so they are compared now and then
            record(r, twice=case.get("twice", False))
            continue
        check(r, "after moving step %d" % (k + 1))
        record(r, twice=case.get("twice", False))
        check(r, "after step %d" % (k + 1))
        r.check_contents("after step %d" % (k + 1))
    rep.note("histories")
    return tuple(len(p["points"]) for p in r.traj["alpha"])


def born(case, rep):
    """A source creates a followed particle (the one whose running number is 500) at any place in the storage."""
    import Particle_Module as PM
    r = H.Run(case, rep, masses=HEAVY, field=field)
    follow(r, case)
    for f in range(case["before"]):
        add(r, "alpha", 0, False)
    if case["looped"]:
        r.advance()
        r.P.get_species_KE("alpha")
    dom = WholeMesh(r.world)
    npc = case["npc"]
    total = dom.ncell * npc
    PM.Particle_C.UNIQUE_ID_COUNTER = 500 - case["which"]
    par = {"species_name": "alpha", "number_density": 8.0, "thermal_speed": 0.0, "velocity_coordinate_system": "x_y_z",
           "drift_velocity": [0.0] * r.pdim, "timestep_interval": 1, "number_per_cell": npc}
    r.P.particle_source_dict = {"s": (par, r.P.create_maxwellian_particles, dom)}
    r.P.add_more_particles(r.ctrl(), neg_E_field=r.E)
    T = r.P.traj_T
    n = len(T.particle_index_list["alpha"])
    require(n == (1 if case["which"] < total else 0), "trajectories created", lambda: "%d" % n)
    if n == 0:
        return
    items = L.items(r.P, "alpha")
    require(len(items) == case["before"] + total, "number created", lambda: "%d" % len(items))
    i = case["before"] + case["which"]
    require(int(T.particle_index_list["alpha"][0]) == i and int(items[i]["unique_ID"]) == 500, "follows the wrong particle",
            lambda: "slot %s, born in slot %d" % (T.particle_index_list["alpha"], i))
    d = T.data_list["alpha"][0]
    require(T.trajectory_length["alpha"][0] == 1, "number of points", lambda: "%s" % T.trajectory_length)
    ok = int(d["step"][0]) == r.step and d["t"][0] == float(r.time)
    for c in r.P.position_coordinates:
        ok = ok and d[c][0] == items[i][c] and d["u" + c][0] == items[i]["u" + c]
    if r.q["alpha"]:
        cell = int(items[i]["cell_index"])
        for k, c in enumerate(r.P.position_coordinates):
            ok = ok and d["E" + c][0] == E_in(cell, k)
    require(ok, "wrong first point", lambda: "recorded %s, born as %s" % (d[0], items[i]))
    rep.note("births")


def limits(case, rep):
    """Every (number of steps, point limit): recording every 'skip' steps, every requested point of a live particle is kept."""
    from RecordedData_Module import TrajectoryInput_C, Trajectory_C
    r = H.Run({"mover": "py-charged-1", "L": 2, "T": 1}, rep)
    t = TrajectoryInput_C()
    t.max_points, t.extra_points = case["max"], case["extra"]
    t.charged_dict = {"names": ["step", "t", "x"], "formats": [int, np.float64, np.float64]}
    t.neutral_dict = {"names": ["step", "x"], "formats": [int, np.float64]}
    c = r.ctrl()
    c.title = c.author = "x"
    c.write_trajectory_files = False
    c.n_timesteps = case["steps"]
    P = r.P
    T = P.traj_T = Trajectory_C(t, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
    r.traj = {s: [] for s in r.species}
    for sn in ("alpha", "beta", "gamma"):
        for k in range(2):
            add(r, sn, 0, True)
    want = []
    for step in range(case["steps"] + 1):
        if step % T.skip == 0:
            P.record_trajectory_data(step, 0.5 * step, neg_E_field=r.E)
            want.append(step)
        rep.step()
    require(case["max"] is None or len(want) <= case["max"], "too many points", lambda: "%s" % want)
    require(case["max"] is not None or len(want) == case["steps"] + 1, "points left out", lambda: "%s" % want)
    for sn in ("alpha", "beta", "gamma"):
        for k in range(2):
            n = int(T.trajectory_length[sn][k])
            got = [int(v) for v in T.data_list[sn][k]["step"][:n]]
            require(got == want, "points recorded", lambda: "%s: %s, should be %s" % (sn, got, want))
            require(len(T.data_list[sn][k]) >= len(want) + case["extra"], "room for crossings", lambda: "%d" % len(T.data_list[sn][k]))
    rep.note("limits")


_path_worlds = {}


def path_world(case):
    """Boundary 'rmin' reflects; interior facets are marked too for the Python movers (they let the particle pass)."""
    cpp, system, _, kind = H.MOVERS[case["mover"]]
    k = (case["mover"], case["mesh"], tuple(case["reflect"]))
    if k not in _path_worlds:
        interior = {}
        if not cpp:
            em = L.World(case["mesh"]).em
            interior = {f: "inner" for f in sorted(em.facet_cells) if f not in em.exterior and f % 2 == 0}
        w = L.World(case["mesh"], side_names={s: "rmin" for s in case["reflect"]}, interior=interior,
                    coordinate_system="1D-spherical-radial" if system == "spherical_r" else "Cartesian")
        _path_worlds[k] = (w, field(w))
    return _path_worlds[k]


def path_kind(case):
    return lambda b: {"rmin": "reflect", "inner": "pass"}.get(b, "absorb")


def paths(case, rep):
    """Followed particles that cross several facets, marked or not, in one step."""
    from RecordedData_Module import TrajectoryInput_C, Trajectory_C
    cpp, system, _, kind = H.MOVERS[case["mover"]]
    w, E = path_world(case)
    em = w.em
    dim = em.dim
    q = 0 if kind == "neutral" else 1.0
    sn = "test_electrons"
    P = L.make_particles([(sn, q, HEAVY[0])], dim, 3, cpp, system=system)
    names = {"default_bc": "absorb", "default_bc_at_rmin": "reflect", "default_bc_at_inner": "pass"}
    L.attach(P, w, None if cpp else T.Recorder(names, P.position_coordinates))
    t = TrajectoryInput_C()
    t.max_points = None
    coords = P.position_coordinates
    nm = ["step", "t"] + list(coords) + ["u" + c for c in coords]
    t.charged_dict = {"names": nm + ["E" + c for c in coords], "formats": [int] + [np.float64] * (1 + 3 * dim)}
    t.neutral_dict = {"names": nm, "formats": [int] + [np.float64] * (1 + 2 * dim)}
    c = L.control(float(H.DT))
    c.title = c.author = "x"
    c.write_trajectory_files = False
    c.n_timesteps, t.extra_points = 2, 60
    P.traj_T = Trajectory_C(t, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
    kd = path_kind(case)
    batch = [(tuple(F(v) for v in x), tuple(F(v) for v in d)) for x, d in case["batch"]]
    want = []
    for i, (x, d) in enumerate(batch):
        tr = T.fly(em, x, d, 2, lambda f: kd(w.facet_name[f]) if f in w.facet_name else None)
        cell = em.cells_of(x)[0]
        ret = P.sap_dict[sn].push_back(L.record(P, x, [v / H.DT for v in d], weight=1, flags=6, uid=i + 1, cell=cell))
        P.traj_T.create_trajectory(sn, int(ret[1]), kind, unique_id_int=i + 1)
        pts = []
        for n, step in enumerate(tr):
            u = list(d) if n == 0 else tr[n - 1]["u"]
            now = H.DT * (n + 1)
            for f, done, pt, k, at, s in step["events"]:
                if f in w.facet_name:
                    pts.append((n + 1, now - H.DT + done * H.DT, pt, [v / H.DT for v in u], [E_in(step["start_cell"], j) for j in range(dim)]))
                if k == "reflect":
                    u = mirror(u, em.outward(at, f))
            if step["alive"]:
                pts.append((n + 1, now, step["end"], [v / H.DT for v in u], [E_in(step["cell"], j) for j in range(dim)]))
            else:
                pts.append((n + 1, now, step["end"], [v / H.DT for v in u], [0.0] * dim))
        want.append(pts)
    for n in range(2):
        ctrl = L.control(float(H.DT), nstep=n + 1, time=float(H.DT) * (n + 1))
        if q == 0:
            P.advance_neutral_particles(ctrl)
        else:
            P.advance_charged_particles_in_E_field(ctrl, neg_E_field=E)
        P.record_trajectory_data(n + 1, float(H.DT) * (n + 1), neg_E_field=E)
        rep.step()
    for i, pts in enumerate(want):
        what = "%s start %s move %s" % (case["mesh"], T.show(batch[i][0]), T.show(batch[i][1]))
        n = int(P.traj_T.trajectory_length[sn][i])
        d = P.traj_T.data_list[sn][i]
        require(n == len(pts), "number of points", lambda: "%s: %d points %s, should be %s" % (what, n, d[:n], [(a, float(b), T.show(x)) for a, b, x, _, _ in pts]))
        rep.note("points", n)
        for k, (step, tm, x, u, Ev) in enumerate(pts):
            ok = int(d["step"][k]) == step and abs(d["t"][k] - float(tm)) < 1e-9
            for j, cc in enumerate(coords):
                ok = ok and abs(d[cc][k] - float(x[j])) < 1e-9 and abs(d["u" + cc][k] - float(u[j])) < 1e-9
                if q:
                    ok = ok and d["E" + cc][k] == Ev[j]
            require(ok, "wrong point", lambda: "%s: point %d is %s, should be step %d t %g x %s u %s E %s" % (
                what, k, d[k], step, float(tm), T.show(x), T.show(u), Ev))
            if len(pts) > 3:
                rep.note("crossing_points")
        rep.state((case["mover"], case["mesh"], n))


def explore_paths(job, tier, rep):
    from mc.c06 import lattice
    w, E = path_world(job)
    kd = path_kind(job)
    st, mv = lattice(w.em, "quick" if w.em.dim > 1 else tier)
    if tier == "quick" and w.em.dim == 3:
        mv = mv[::2]
    todo = list(T.flights(w.em, st, mv, 2, lambda f: kd(w.facet_name[f]) if f in w.facet_name else None, rep))
    for b in range(0, len(todo), 40):
        case = dict(job, batch=[[[str(v) for v in x], [str(v) for v in d]] for x, d in todo[b:b + 40]])
        rep.run(case, lambda: paths(case, rep))
        rep.note("flights", len(case["batch"]))


class WholeMesh(object):
    """Stands for a source region: the whole mesh, in cell order (regions themselves are property C20)."""

    def __init__(self, world):
        import dolfin as df
        self.gdim = world.em.dim
        self.cell_list = list(df.cells(world.dmesh))
        self.ncell = len(self.cell_list)
        self.cell_index = [c.index() for c in self.cell_list]
        self.volume = [c.volume() for c in self.cell_list]
        self.midpoint = [[c.midpoint()[k] for k in range(self.gdim)] for c in self.cell_list]
        self.radius = [0.0 for c in self.cell_list]

    def in_cell(self, point, icell):
        return True


def explore(job, tier, rep):
    if "steps" in job:
        for mx in (None,) + tuple(range(1, 13)):
            for extra in (0, 1, 4):
                case = {"steps": job["steps"], "max": mx, "extra": extra}
                rep.run(case, lambda: limits(case, rep))
        return
    if "path" in job:
        return explore_paths(job, tier, rep)
    if "born" in job:
        for before in range(0, 5):
            for looped in (False, True):
                for npc in (1, 2):
                    for which in range(0, 9):
                        case = {"mover": job["mover"], "L": job["born"], "T": 1, "before": before, "looped": looped,
                                "npc": npc, "which": which}
                        rep.run(case, lambda: born(case, rep))
        return
    if "cap" in job:
        for n in range(1, job["n"] + 1):
            for fates in product((0, 1, 2, 3), repeat=n):
                for twice in (False, True):
                    case = {"mover": job["mover"], "L": 2, "T": 3, "cap": job["cap"], "twice": twice,
                            "init": [[f, True] for f in fates], "adds": [[], [[0, True]]]}
                    rep.run(case, lambda: one(case, rep))
        return
    for k, (init, adds) in enumerate(c03.histories(job)):
        for j, m in enumerate(product((True, False), repeat=len(init))):
            if job.get("long") and j != k % 4:
                continue
            case = {"mover": job["mover"], "L": job["L"], "T": job.get("T", H.LONG_T), "init": [[f, b] for f, b in zip(init, m)],
                    "adds": [[[f, True] for f in a] for a in adds]}
            rep.run(case, lambda: one(case, rep))


def replay(case, rep):
    rep.run(case, lambda: limits(case, rep) if "max" in case else paths(case, rep) if "path" in case else born(case, rep) if "before" in case else one(case, rep))


warm = c03.warm
