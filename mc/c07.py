"""C07: reflecting boundaries are specular and lose nothing."""
from fractions import Fraction as F
from itertools import combinations, product
from mc import flight as T
from mc import plib as L

TECHNIQUE = "exhaustive enumeration of all lattice starts x lattice velocities x all choices of which sides reflect, over several steps and with many reflections in one step, through the real Python and compiled movers and their boundary functions, compared with exact rational ray tracing with mirrors"
LEVEL_NOTE = "Exhaustive over the stated lattices, meshes, side choices and steps; flights that pass within 1e-6 of an edge or end on a facet are left out. Reflecting facets are exterior; particles have as many coordinates as the mesh."
BOUNDS = {
    "quick": "meshes: 2 interval + radial, 5 triangle (slanted and non-convex walls), 2 tetrahedron, and 6 of these scaled by 2**-20, 2**20 or 2**30; every subset of reflecting sides in 1D and 2D, 8 subsets in 3D; lattice starts and lattice moves up to 2.5 mesh widths per step, 3 steps; two species, of which the boundary reflects one or both; Python charged and neutral movers, compiled charged x, xy, spherical_r and neutral xy, xyz movers; segment length 5",
    "thorough": "as quick with lattices twice as fine, all 64 subsets of reflecting sides in 3D and 5 steps",
}
ORACLE = "exact rational ray tracing with specular mirrors: survivors, end points, velocities, cells, crossing counts, kinetic energy"
ASSUMPTIONS = ["the reflecting functions are those of UserParticles_1D.py, UserParticles_2D_e.py and of the compiled UserParticleBoundaryFunctions"]
EXPECT = {"reflections": 20000, "multiple_reflections": 2000, "absorbed": 3000}

SIDES = {1: ["xmin", "xmax"], 2: ["xmin", "xmax", "ymin", "ymax"], 3: ["xmin", "xmax", "ymin", "ymax", "zmin", "zmax"]}


def subsets(mesh, dim, tier):
    s = list(SIDES[dim])
    if mesh == "sheared":
        s = ["wall", "ymin", "ymax"]
    if mesh == "ell":
        s = ["wall", "xmin", "ymax"]
    out = [c for n in range(1, len(s) + 1) for c in combinations(s, n)]
    if dim == 3 and tier == "quick":
        out = [("xmin",), ("ymax",), ("zmin",), ("xmin", "xmax"), ("ymin", "zmax"), ("xmax", "ymin", "zmin"),
               ("ymin", "ymax", "zmin", "zmax"), tuple(s)]
    return out


def jobs(tier):
    todo = []
    for m in ("line4", "line_uneven"):
        todo += [(m, 1, "1D", "neutral", False, None), (m, 1, "1D", "charged", False, None), (m, 1, "2D_e", "charged", False, None),
                 (m, 1, "cpp", "charged", True, None)]
    todo += [("radial", 1, "cpp", "charged", True, "spherical_r")]
    for m in ("square_right", "square_crossed", "skewed", "sheared", "ell"):
        todo += [(m, 2, "2D_e", "charged", False, None), (m, 2, "2D_e", "neutral", False, None),
                 (m, 2, "cpp", "charged", True, None), (m, 2, "cpp", "neutral", True, None)]
    for m in ("cube", "brick"):
        todo += [(m, 3, "2D_e", "neutral", False, None), (m, 3, "1D", "charged", False, None), (m, 3, "cpp", "neutral", True, None)]
    for m, d, k, sub in (("line_uneven@-20", 1, "charged", ("xmin", "xmax")), ("skewed@-20", 2, "charged", ("xmin", "ymax")), ("skewed@-20", 2, "neutral", ("xmin", "xmax", "ymin", "ymax")),
                         ("sheared@30", 2, "neutral", ("wall", "ymin", "ymax")), ("cube@-20", 3, "neutral", ("xmin", "ymax", "zmin")), ("line4@30", 1, "charged", ("xmin", "xmax"))):
        for cpp in (False, True):
            if cpp or d > 1 or k == "charged":
                yield {"mesh": m, "dim": d, "user": "cpp" if cpp else "2D_e", "kind": k, "cpp": cpp, "system": None, "sides": list(sub)}
    yield {"mesh": "radial@20", "dim": 1, "user": "cpp", "kind": "charged", "cpp": True, "system": "spherical_r", "sides": ["xmin", "xmax"]}
    for mesh, dim, user, kind, cpp, system in todo:
        for sub in subsets(mesh, dim, tier):
            yield {"mesh": mesh, "dim": dim, "user": user, "kind": kind, "cpp": cpp, "system": system, "sides": list(sub)}


_worlds = {}


def world_of(job):
    k = (job["mesh"], tuple(job["sides"]), job["system"])
    if k not in _worlds:
        _worlds.clear()
        T._fields.clear()
        _worlds[k] = L.World(job["mesh"], side_names={s: "rmin" for s in job["sides"]},
                             coordinate_system="1D-spherical-radial" if job["system"] else "Cartesian")
    return _worlds[k]


def kind_of(job):
    everyone = job["user"] == "1D" or job["system"] == "spherical_r"

    def f(boundary, sn, facet=None):
        return "reflect" if boundary == "rmin" and (everyone or sn == "test_electrons") else "absorb"
    return f


def user_of(job):
    def make(P):
        if job["user"] == "1D":
            from UserParticles_1D import UserParticleBoundaryFunctions_C as U
        else:
            from UserParticles_2D_e import UserParticleBoundaryFunctions_C as U
        return U(P.position_coordinates, P.dx)
    return make


def one(job, batch, steps, rep):
    q = 0 if job["kind"] == "neutral" else 1.0
    T.run(world_of(job), [("test_electrons", q, 1.0), ("ions", q, 2.0)], kind_of(job), job["cpp"], job["system"], 5, steps,
          batch, rep, user=user_of(job), energy=True)


def lattices(dim, tier, cpp):
    big = tier == "thorough"
    if dim == 1:
        return [(F(1, 8) if big else F(1, 4), (F(5, 128),))], [T.move_lattice(1, F(10), F(1, 4) if big else F(1), (F(3, 256),))]
    if dim == 2:
        return [(F(1, 4) if big else F(1, 2), (F(5, 64), F(11, 128)))], [
            T.move_lattice(2, F(3, 2), F(1, 4) if big else F(3, 4), (F(7, 256), F(-13, 512))),
            T.move_lattice(2, F(5), F(5, 2) if big else F(5), (F(9, 256), F(-11, 512)))]
    return [(F(1, 4) if big else F(1, 2), (F(5, 64), F(11, 128), F(9, 64)))], [
        T.move_lattice(3, F(1), F(1, 2) if big else F(1), (F(7, 256), F(-13, 512), F(19, 1024))),
        T.move_lattice(3, F(5, 2), F(5, 2), (F(9, 256), F(-11, 512), F(23, 1024)))]


def scaled(mesh, em, step, shift):
    """The start lattice of the mesh in its own unit."""
    unit = L.unit(mesh)
    if unit == 1:
        return T.start_lattice(em, step, shift)
    return [tuple(v * unit for v in x) for x in T.start_lattice(L.ExactMesh(L.mesh_of(mesh.split("@")[0])), step, shift)]


def explore(job, tier, rep):
    w = world_of(job)
    em = w.em
    steps = 3 if tier == "quick" else 5
    kind = kind_of(job)
    todo = []
    st, mv = lattices(em.dim, tier, job["cpp"])
    for sn in ("test_electrons", "ions"):
        if sn == "ions" and kind("rmin", sn) == "reflect":
            continue
        for step, shift in st:
            for m in mv:
                if sn == "ions":
                    m = m[::3]
                todo += [(sn, x, d) for x, d in T.flights(em, scaled(job["mesh"], em, step, shift), [tuple(v * L.unit(job["mesh"]) for v in p) for p in m], steps,
                                                          lambda f: kind(w.facet_name[f], sn) if f in w.facet_name else None, rep)]
    todo.sort(key=lambda t: (t[1], t[2], t[0]))
    B = 40
    for b in range(0, len(todo), B):
        batch = todo[b:b + B]
        case = {"job": job, "steps": steps, "batch": [[s, [str(v) for v in x], [str(v) for v in d]] for s, x, d in batch]}
        n0 = len(rep.violations)
        rep.run(case, lambda: one(job, batch, steps, rep))
        if len(rep.violations) > n0:
            shrink(rep, case)
        rep.note("flights", len(batch))


def shrink(rep, case):
    from mc.core import Reporter
    for p in case["batch"]:
        r = Reporter()
        replay(dict(case, batch=[p]), r)
        if r.violations:
            rep.violations[-1] = r.violations[0]
            return


def replay(case, rep):
    batch = [(s, tuple(F(v) for v in x), tuple(F(v) for v in d)) for s, x, d in case["batch"]]
    rep.run(case, lambda: one(case["job"], batch, case["steps"], rep))


def warm():
    for n in ("line4", "square_right", "cube"):
        L.zero_E(L.World(n))
