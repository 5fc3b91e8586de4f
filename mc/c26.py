"""C26: mistaken input is refused."""
import math
import os
from itertools import product
import numpy as np
import dolfin as df
from mc import plib as L
from mc import c17, c22
from mc.c19 import Scratch
from mc.core import require

TECHNIQUE = "exhaustive enumeration of set-ups with one mistake, at every place where it can be made and next to every number of right entries, and of the same set-ups without it, on the real code; the mistaken one must end in an error, the right one must go through"
LEVEL_NOTE = "Exhaustive over the listed mistakes, places and numbers of right entries around them. Only refusals the code announces are claimed."
BOUNDS = {
    "quick": "mesh descriptions of 1 to 3 dimensions with or without field boundaries, particle boundaries, particle sources; particle coordinate systems (4 known, 11 unknown or missing) x compiled or not or unsaid x 1..3 species; mesh coordinate systems x 5 meshes; lists of 1..4 initial-particle entries, the mistaken type at each place (7 of them); 0..4 particles in each of 2 species with one of them outside, at each place, far away or one rounding step beyond each side, on 8 meshes, Python and compiled storage, segment lengths 1..3; output attribute lists of 1..3 with each of 9 unknown names at each place; trajectories with unknown dynamics, attribute types that cannot be written at each place; every subset of boundary functions x every wall and species a particle meets; source densities of 8 wrong types",
    "thorough": "as quick with up to 5 entries and up to 6 particles per species",
}
ORACLE = "the list of mistakes announced by the code's error messages"
ASSUMPTIONS = ["any exception or end of the program counts as a refusal"]
EXPECT = {"refused": 3000, "accepted": 2000}

SYSTEMS = {"cartesian_x": 1, "cartesian_xy": 2, "cartesian_xyz": 3, "spherical_r": 1}
UNKNOWN = [None, "", "x", "cartesian", "cartesian_y", "cartesian_yx", "cartesian_xyzt", "Cartesian_x", "spherical", "spherical_rz", "cartesian_x "]
SPECIES = [("ions", 1.5, 2.0), ("atoms", 0, 3.0), ("electrons", -1.0, 0.5)]


def decide(fn, good, what, rep):
    """fn must go through when the input is right, and must not when it is not."""
    err = None
    out = None
    try:
        out = fn()
    except (Exception, SystemExit) as e:
        err = e
    rep.step()
    if good:
        require(err is None, "right input refused", lambda: "%s: %s %s" % (what, type(err).__name__, err))
        rep.note("accepted")
    else:
        require(err is not None, "mistake not noticed", what)
        rep.note("refused")
    rep.state(what)
    return out


# ------------------------------------------------------------------ the particles' coordinate system and movers
def system(case, rep):
    from Particle_Module import ParticleInput_C, ParticleSpecies_C, Particle_C
    s, cpp, n = case["system"], case["cpp"], case["n"]
    Particle_C.SEGMENT_LENGTH = 2

    def fn():
        pin = ParticleInput_C()
        pin.precision = pin.force_precision = np.float64
        pin.particle_integration_loop = "loop-on-particles"
        pin.coordinate_system = s
        pin.force_components = {1: ["x"], 2: ["x", "y"], 3: ["x", "y", "z"]}[SYSTEMS.get(s, 1)]
        pin.use_cpp_integrators = cpp
        pin.particle_species = tuple(ParticleSpecies_C(a, q, m, "neutral" if q == 0 else "charged") for a, q, m in SPECIES[:n])
        return Particle_C(pin)
    P = decide(fn, s in SYSTEMS and cpp is not None, "particles in %r, compiled %s, %d species" % (s, cpp, n), rep)
    if P is not None:
        require(list(P.sap_dict) == [a[0] for a in SPECIES[:n]] and P.particle_dimension == SYSTEMS[s], "particles", case)


# ------------------------------------------------------------------ the mesh's coordinate system
MESHES = ["line4", "radial", "square_right", "skewed~", "cube"]


def mesh(case, rep):
    from Dolfin_Module import Mesh_C
    m = L.mesh_of(case["mesh"])
    s = case["system"]
    good = s == "Cartesian" or s == "1D-spherical-radial"
    decide(lambda: Mesh_C(Mesh=m, coordinate_system=s, compute_dictionaries=case["all"], compute_cpp_arrays=False, compute_tree=True),
           good, "mesh %s with coordinates %r %s" % (case["mesh"], s, case["all"]), rep)


# ------------------------------------------------------------------ initial particles
def entries(case, rep):
    P = c22.particles({"system": case["system"], "cpp": case["cpp"], "L": 2, "traj": False})
    d = SYSTEMS[case["system"]]
    made = []
    entry = {}
    for k, t in enumerate(case["types"]):
        sn = SPECIES[k % 3][0]
        par = {"species_name": sn, "initial_distribution_type": t}
        entry["entry %d" % k] = (par, lambda *a, **b: made.append(1), None)
    P.initial_particles_dict = entry
    good = all(t == "function_over_region" for t in case["types"])
    decide(lambda: P.initialize_particles({s[0]: False for s in SPECIES}), good, "entries %s, %s, compiled %s" % (case["types"], case["system"], case["cpp"]), rep)
    if good:
        require(len(made) == len(case["types"]), "functions called", lambda: "%d of %d" % (len(made), len(case["types"])))


# ------------------------------------------------------------------ particles outside the mesh
PLACES = {"line4": "cartesian_x", "line_uneven": "cartesian_x", "radial": "spherical_r", "square_right": "cartesian_xy", "skewed": "cartesian_xy",
          "skewed~": "cartesian_xy", "cube": "cartesian_xyz", "line4~": "cartesian_x"}
_worlds = {}


def world(name):
    if name not in _worlds:
        _worlds[name] = L.World(name, coordinate_system="1D-spherical-radial" if PLACES[name] == "spherical_r" else "Cartesian")
    return _worlds[name]


def points(w):
    """points of the mesh (its vertices and points within), and points that are not in it"""
    X = w.dmesh.coordinates()
    lo, hi = X.min(axis=0), X.max(axis=0)
    inside = [list(map(float, X[c].mean(axis=0))) for c in w.dmesh.cells()][:5]
    out = []
    for k in range(w.dim):
        for edge, to, far in ((lo[k], -math.inf, lo[k] - 10.0), (hi[k], math.inf, hi[k] + 1e6)):
            for v in (float(np.nextafter(edge, to)) if edge else math.copysign(1e-12, to), far):
                p = list(inside[0])
                p[k] = v
                out.append(p)
    return inside, out


def outside(case, rep):
    w = world(case["mesh"])
    P = L.make_particles(SPECIES[:2], w.dim, case["L"], case["cpp"], system=PLACES[case["mesh"]])
    P.initialize_particle_mesh(w.mesh_M)
    inside, out = points(w)
    n = 0
    for s, c in zip(SPECIES, case["counts"]):
        for i in range(c):
            x = inside[(i + n) % len(inside)] if case["at"] != n else out[case["which"]]
            P.sap_dict[s[0]].push_back(L.record(P, x, [0.0] * w.dim, uid=n))
            n += 1
    decide(P.compute_mesh_cell_indices, case["at"] is None, "%s, %s particles, number %s outside at %s, compiled %s, segments of %d" % (
        case["mesh"], case["counts"], case["at"], case["at"] is not None and out[case["which"]], case["cpp"], case["L"]), rep)


def nomesh(case, rep):
    P = L.make_particles(SPECIES, SYSTEMS[case["system"]], 2, case["cpp"], system=case["system"])
    if case["call"] == "initialize":
        decide(lambda: P.initialize_particle_mesh(None), False, "no mesh to initialise, %s %s" % (case["system"], case["cpp"]), rep)
    else:
        decide(lambda: P.accumulate_charge_density_from_particles({s[0]: None for s in SPECIES}, None), False,
               "charge density without a mesh, %s %s" % (case["system"], case["cpp"]), rep)


# ------------------------------------------------------------------ output
def output(case, rep):
    P = L.make_particles(SPECIES[:2], SYSTEMS[case["system"]], 2, case["cpp"], system=case["system"])
    c = L.control(1.0)
    with Scratch() as d:
        c.title = c.author = "somebody"
        c.particle_output_attributes = tuple(case["attrs"])
        c.particle_output_file = os.path.join(d, "p.h5part") if case["file"] else None
        good = case["file"] and all(a == "species_index" or a in P.particle_dtype.names for a in case["attrs"])

        def fn():
            P.check_particle_output_parameters(c)
            P.initialize_particle_output_file(c)
            P.write_particles_to_file(c, close_flag=True)
        decide(fn, good, "output of %s to %s, %s, compiled %s" % (case["attrs"], "a file" if case["file"] else None, case["system"], case["cpp"]), rep)
        if not good:
            require(not os.listdir(d), "file made", lambda: os.listdir(d))
        P.h5_file = None


# ------------------------------------------------------------------ trajectories
def kind(species):
    return "neutral" if species == "atoms" else "charged"


def trajectory(case, rep):
    from RecordedData_Module import TrajectoryInput_C, Trajectory_C
    P = L.make_particles(SPECIES, 1, 2, False)
    with Scratch() as d:
        here = os.getcwd()
        os.chdir(d)
        try:
            t = TrajectoryInput_C()
            t.max_points, t.extra_points = None, 1
            f = {"charged": [int, np.float64, np.float64, np.float64], "neutral": [int, np.float64, np.float64, np.float64]}
            if case.get("place") is not None:
                for k in case["in"]:
                    f[k][case["place"]] = {"complex": np.complex128, "text": "U4", "bool": np.bool_, "object": object, "bytes": "S3",
                                           "float32": np.float32, "int16": np.int16, "uint64": np.uint64, "int": int}[case["type"]]
            t.charged_dict, t.neutral_dict = [{"names": ["step", "t", "x", "ux"], "formats": f[k]} for k in ("charged", "neutral")]
            c = L.control(1.0)
            c.title = c.author = "somebody"
            c.n_timesteps = 3
            c.write_trajectory_files = case.get("write", True)
            fine = case.get("type", "int") in ("float32", "int16", "uint64", "int")
            used = [SPECIES[k][0] for k in case["follow"]] if "type" in case else []
            good = case.get("dynamics", "charged") in ("charged", "neutral") and case.get("write", True) is not None and (
                fine or not any(kind(sn) in case["in"] for sn in used))

            def fn():
                T = Trajectory_C(t, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
                for k in range(case.get("before", 0)):
                    T.create_trajectory(SPECIES[k][0], k, "charged", unique_id_int=k)
                if "type" in case:
                    for k, sn in enumerate(used):
                        T.create_trajectory(sn, k, kind(sn), unique_id_int=k)
                    T.write_trajectories_to_files()
                else:
                    T.create_trajectory(case.get("species", "ions"), 7, case.get("dynamics", "charged"), unique_id_int=77)
            decide(fn, good, "trajectory %s" % sorted(case.items()), rep)
        finally:
            os.chdir(here)


# ------------------------------------------------------------------ boundary functions that were not given
def functions(case, rep):
    w = L.World("line4", side_names={"xmin": "left", "xmax": "right"})
    P = L.make_particles([("a", 0, 1.0), ("b", 0, 2.0)], 1, 2, False)

    def absorb(p, species, facet, dx_fraction=None, facet_normal=None):
        p["bitflags"] = p["bitflags"] | P.DELETE_FLAG

    class User(object):
        pass
    for n in case["given"]:
        setattr(User, n, staticmethod(absorb))
    names = sorted(w.tags)
    L.attach(P, w, User())
    hits = []
    for s, side in zip("ab", case["hits"]):
        if side is None:
            continue
        P.sap_dict[s].push_back(L.record(P, [1.3], [{"left": -5.0, "right": 5.0, "none": 0.5}[side]], cell=1))
        if side != "none":
            hits.append((s, side))
    require(set(names) == {"left", "right"}, "world", names)
    good = all({"default_bc", "default_bc_at_" + side, "bc_at_%s_for_%s" % (side, s)} & set(case["given"]) for s, side in hits)
    P.traj_T = None
    decide(lambda: P.advance_neutral_particles(L.control(1.0, nstep=1, time=1.0)), good, "functions %s, particles meet %s" % (case["given"], hits), rep)


# ------------------------------------------------------------------ source densities
SOURCES = {"none": None, "float": 1.5, "int": 2, "text": "x[0]", "list": [1.0], "tuple": (1.0,), "dict": {"a": 1}, "array": np.ones(3),
           "complex": 1j, "bytes": b"1.0", "function": abs, "float64 array": np.zeros(1)}


def source(case, rep):
    S = c17.Solver(case["mesh"], [0.0, 0.0]).S
    decide(lambda: S.assemble_source_expression(SOURCES[case["source"]]), case["source"] in ("none", "float", "int", "text"), "source density: %s on %s" % (case["source"], case["mesh"]), rep)


# ------------------------------------------------------------------ the user's description of a mesh
def described(case, rep):
    """Field boundaries and particle sources of 2D and 3D Cartesian meshes are announced as not supported."""
    from UserMesh_y_Fields_FE_XYZ_Module import UserMeshInput_C, UserMesh_C
    d = case["dim"]
    tags = {a + b: 1 + i for i, (a, b) in enumerate(product("xyz"[:d], ("min", "max")))}
    u = UserMeshInput_C()
    u.pmin, u.pmax = df.Point(*[0.0] * d), df.Point(*[1.0 + k for k in range(d)])
    u.cells_on_side = tuple([case["n"]] * d)
    u.field_boundary_dict = tags if case["field"] else None
    u.particle_boundary_dict = tags if case["particle"] else None
    u.particle_source_dict = {1: "sourceX1", 2: "sourceX2"} if case["source"] else None
    decide(lambda: UserMesh_C(u, compute_dictionaries=True, compute_tree=False, plot_flag=False), not case["source"] and not (case["field"] and d > 1),
           "mesh description %s" % sorted(case.items()), rep)


WHAT = {"described": described, "system": system, "mesh": mesh, "entries": entries, "outside": outside, "nomesh": nomesh, "output": output, "trajectory": trajectory,
        "functions": functions, "source": source}


# ------------------------------------------------------------------ enumeration
def cases(what, tier):
    q = tier == "quick"
    if what == "system":
        for s, cpp, n in product(list(SYSTEMS) + UNKNOWN, (True, False, None), (1, 2, 3)):
            yield {"system": s, "cpp": cpp, "n": n}
    elif what == "described":
        for d, n, f, p, z in product((1, 2, 3), (1, 2), (False, True), (False, True), (False, True)):
            if d > 1 or not z:
                yield {"dim": d, "n": n, "field": f, "particle": p, "source": z}
    elif what == "mesh":
        for m, a in product(MESHES, (True, False)):
            for s in ["Cartesian", None] + (["cartesian", "", "polar", "1D-spherical", "Cartesian "] if a else []) + (
                    ["1D-spherical-radial"] if m in ("line4", "radial") else []):
                yield {"mesh": m, "system": s, "all": a}
    elif what == "entries":
        wrong = ["", "Listed", "function", "function_over_region ", "list", None, 3]
        for s, cpp, n in product(SYSTEMS, (True, False), range(1, 5 if q else 6)):
            yield {"system": s, "cpp": cpp, "types": ["function_over_region"] * n}
            for k, t in product(range(n), wrong):
                yield {"system": s, "cpp": cpp, "types": ["function_over_region"] * k + [t] + ["function_over_region"] * (n - k - 1)}
    elif what == "outside":
        for m in PLACES:
            for cpp, L_, a, b in product((False, True), (1, 2, 3), range(5 if q else 7), range(5 if q else 7)):
                yield {"mesh": m, "cpp": cpp, "L": L_, "counts": [a, b], "at": None, "which": 0}
                for at in range(a + b):
                    n = len(points(world(m))[1])
                    for which in range(n) if L_ == 2 or a + b < 3 else ((at + a) % n,):
                        yield {"mesh": m, "cpp": cpp, "L": L_, "counts": [a, b], "at": at, "which": which}
    elif what == "nomesh":
        for s, cpp, call in product(SYSTEMS, (True, False), ("initialize", "charge")):
            yield {"system": s, "cpp": cpp, "call": call}
    elif what == "output":
        for s, cpp in product(SYSTEMS, (True, False)):
            right = {"cartesian_x": ["x", "weight", "species_index"], "cartesian_xy": ["y", "species_index", "uy"],
                     "cartesian_xyz": ["species_index", "z", "uz"], "spherical_r": ["r", "ur", "species_index"]}[s]
            wrong = ["", "X", "x ", "species", "q", "index", "positions", "ex", {"cartesian_x": "y", "cartesian_xy": "z", "cartesian_xyz": "r", "spherical_r": "x"}[s]]
            for n in (1, 2, 3):
                for file in (True, False):
                    yield {"system": s, "cpp": cpp, "attrs": right[:n], "file": file}
                for k, t in product(range(n), wrong):
                    yield {"system": s, "cpp": cpp, "attrs": right[:k] + [t] + right[k:n - 1], "file": True}
    elif what == "trajectory":
        for b in range(4):
            for dyn, sn in product(["charged", "neutral", "", None, "Charged", "implicit", "neutrals"], [s[0] for s in SPECIES]):
                yield {"before": b, "dynamics": dyn, "species": sn}
        for place, t in product(range(4), ("complex", "text", "bool", "object", "bytes", "float32", "int16", "uint64")):
            for follow in ((0,), (1,), (0, 1), (1, 0), (0, 2, 1), (0, 0, 1, 1), (2,), ()):
                for k in (["charged"], ["neutral"], ["charged", "neutral"]):
                    yield {"place": place, "type": t, "follow": list(follow), "in": k}
        for wr in (None, True, False):
            yield {"write": wr}
    elif what == "functions":
        menu = ["default_bc", "default_bc_at_left", "default_bc_at_right", "bc_at_left_for_a", "bc_at_right_for_a", "bc_at_left_for_b", "bc_at_right_for_b"]
        for k in range(128):
            for hits in product((None, "left", "right", "none"), repeat=2):
                yield {"given": [n for i, n in enumerate(menu) if k >> i & 1], "hits": list(hits)}
    elif what == "source":
        for m, s in product(("line4", "square_right"), SOURCES):
            yield {"mesh": m, "source": s}


def jobs(tier):
    for what in WHAT:
        parts = {"outside": 8, "functions": 4}.get(what, 1)
        for part in range(parts):
            yield {"what": what, "part": part, "parts": parts}


def explore(job, tier, rep):
    for i, c in enumerate(cases(job["what"], tier)):
        if i % job["parts"] == job["part"]:
            case = dict(c, what=job["what"])
            rep.run(case, lambda: WHAT[job["what"]](case, rep))


def replay(case, rep):
    rep.run(case, lambda: WHAT[case["what"]](case, rep))


def warm():
    c17.warm()
