"""C06: boundary crossings call the most specific boundary function, exactly once."""
from fractions import Fraction as F
from itertools import combinations, permutations, product
from mc import flight as T
from mc import plib as L
from mc.c07 import shrink as _shrink

TECHNIQUE = "exhaustive enumeration of (a) every subset of the user's boundary functions for two boundaries and two species and (b) every lattice flight over meshes whose exterior and interior facets are marked in different ways, on the real movers; every call a user function receives is compared with the exact crossing sequence"
LEVEL_NOTE = "Exhaustive over the stated function subsets, markings and lattices; compiled boundary functions cannot be replaced at run time, so for the compiled movers the choice is observed through its effect (absorbed or reflected)."
BOUNDS = {
    "quick": "(a) all 128 subsets of 7 function names, 1D/2D/3D Python movers, charged and neutral species together, with names that are prefixes of each other and tags that are not consecutive; (b) 7 meshes, 4 of them in other units (2**-20, 2**30), x (unmarked interior, each interior facet marked alone, all marked), absorbing or reflecting exterior, lattice flights of 2 steps; (c) compiled: all tag orders for 3 boundaries and 4 similarly named species on 1D/2D/3D meshes; (d) the absorbing functions of UserParticles_1D/2D_e/3D, every pair of boundaries they name x two species x charged and neutral, lattice flights of 2 steps",
    "thorough": "as quick with finer lattices and 3 steps",
}
ORACLE = "exact rational ray tracing for which facets are crossed in which order; the documented lookup order for the function"
ASSUMPTIONS = ["every boundary that is crossed has a function that applies to it", "interior marked facets let the particle pass"]
EXPECT = {"calls": 20000, "subsets": 128, "absorbed": 2000, "cpp_batches": 20, "shipped_batches": 40}


def jobs(tier):
    for mesh in ("line4", "square_right", "cube"):
        for part in range(4):
            yield {"what": "subsets", "mesh": mesh, "part": part}
    for mesh in ("line_uneven", "line_shuffled", "unit_square", "skewed", "ell", "square_crossed", "cube", "brick", "skewed@-20", "ell@30", "cube@-20", "line_shuffled@30"):
        for q in (0, 1):
            for ext in ("absorb", "reflect"):
                yield {"what": "paths", "mesh": mesh, "q": q, "ext": ext}
    for mesh, kind, system in (("line4", "charged", "cartesian_x"), ("square_right", "charged", "cartesian_xy"),
                               ("square_right", "neutral", "cartesian_xy"), ("cube", "neutral", "cartesian_xyz"),
                               ("radial", "charged", "spherical_r"), ("line_uneven@-20", "charged", "cartesian_x"), ("skewed@-20", "charged", "cartesian_xy"),
                               ("skewed@20", "neutral", "cartesian_xy"), ("cube@-20", "neutral", "cartesian_xyz"), ("radial@22", "charged", "spherical_r")):
        yield {"what": "cpp", "mesh": mesh, "kind": kind, "system": system}
    for module, mesh in (("UserParticles_1D", "line4"), ("UserParticles_1D", "line_uneven"), ("UserParticles_2D_e", "square_right"),
                         ("UserParticles_2D_e", "skewed"), ("UserParticles_3D", "cube"), ("UserParticles_3D", "brick")):
        yield {"what": "shipped", "module": module, "mesh": mesh}


_cache = {}


def world_of(mesh, sides, interior, tags, geometry="Cartesian"):
    k = (mesh, str(sides), str(interior), str(tags), geometry)
    if k not in _cache:
        if len(_cache) > 20:
            _cache.clear()
            T._fields.clear()
        _cache[k] = L.World(mesh, side_names=sides, interior=interior, tags=tags, coordinate_system=geometry)
    return _cache[k]


def lattice(em, tier, mesh=""):
    if "@" in mesh:                   # the same lattices in the mesh's own unit
        st, mv = lattice(L.ExactMesh(L.mesh_of(mesh.split("@")[0])), tier)
        return [[tuple(v * L.unit(mesh) for v in x) for x in l] for l in (st, mv)]
    big = tier == "thorough"
    if em.dim == 1:
        return T.start_lattice(em, F(1, 4), (F(5, 128),)), T.move_lattice(1, F(4), F(1, 4) if big else F(1, 2), (F(3, 256),))
    if em.dim == 2:
        return (T.start_lattice(em, F(1, 4) if big else F(1, 2), (F(5, 64), F(11, 128))),
                T.move_lattice(2, F(5, 4), F(1, 4) if big else F(1, 2), (F(7, 256), F(-13, 512))))
    return (T.start_lattice(em, F(1, 4) if big else F(1, 2), (F(5, 64), F(11, 128), F(9, 64))),
            T.move_lattice(3, F(1), F(1, 2) if big else F(1), (F(7, 256), F(-13, 512), F(19, 1024))))


# ------------------------------------------------------------------ (a) every subset of functions
NAMES = ["default_bc", "default_bc_at_r", "default_bc_at_rmin"] + [
    "bc_at_%s_for_%s" % (b, s) for b in ("r", "rmin") for s in ("e", "e_hot")]


def subset_case(case, rep):
    mesh = case["mesh"]
    w = subset_world(mesh)
    em = w.em
    names = {n: (lambda f: "absorb" if f in em.exterior else "pass") for n in case["names"]}
    batch = [(s, tuple(F(v) for v in x), tuple(F(v) for v in d)) for s, x, d in case["batch"]]
    T.run(w, [("e", case["q"][0], 1.0), ("e_hot", case["q"][1], 2.0), ("other", 0, 1.0)],
          lambda b, s, f: "absorb" if f in em.exterior else "pass", False, None, 3, 2, batch, rep,
          user=lambda P: T.Recorder(names, P.position_coordinates), names=names)


def subset_world(mesh):
    em = world_of(mesh, None, None, None).em
    inner = sorted(f for f in em.facet_cells if f not in em.exterior)
    # boundary 'rmin': xmin and one interior facet; boundary 'r': the rest and another interior facet
    interior = {inner[0]: "rmin", inner[-1]: "r"}
    sides = {s: "r" for s in ("xmax", "ymin", "ymax", "zmin", "zmax", "wall")}
    sides["xmin"] = "rmin"
    return world_of(mesh, sides, interior, {"rmin": 7, "r": 3})


def subset_flights(mesh, names):
    w = subset_world(mesh)
    em = w.em
    d = em.dim
    st, _ = lattice(em, "quick")
    st = st[::max(1, len(st) // 4)]
    m = {1: T.move_lattice(1, F(3), F(3), (F(3, 256),)), 2: T.move_lattice(2, F(1), F(1), (F(7, 256), F(-13, 512))),
         3: T.move_lattice(3, F(1), F(1), (F(7, 256), F(-13, 512), F(19, 1024)))[::3]}[d]
    for s in ("e", "e_hot"):
        for x, dd in T.flights(em, st, m, 2, lambda f: "absorb" if f in em.exterior else None):
            path = T.fly(em, x, dd, 2, lambda f: ("absorb" if f in em.exterior else "pass") if f in w.facet_name else None)
            hit = {w.facet_name[e[0]] for tr in path for e in tr["events"] if e[0] in w.facet_name}
            if all(T.expected_function(names, b, s) for b in hit):
                yield s, x, dd


# ------------------------------------------------------------------ (b) every way of marking
def markings(em):
    inner = sorted(f for f in em.facet_cells if f not in em.exterior)
    yield []
    for f in inner:
        yield [f]
    if len(inner) > 1:
        yield inner


def paths_case(case, rep):
    w = world_of(case["mesh"], None, {f: "in%d" % f for f in case["inner"]}, case["tags"])
    names = {"default_bc": case["ext"]}
    for f in case["inner"]:
        names["default_bc_at_in%d" % f] = "pass"
    batch = [(s, tuple(F(v) for v in x), tuple(F(v) for v in d)) for s, x, d in case["batch"]]
    T.run(w, [("one", 1.0 * case["q"], 1.0)], lambda b, s, f: case["ext"] if b == "wall" else "pass", False, None, 7, case["steps"],
          batch, rep, user=lambda P: T.Recorder(names, P.position_coordinates), names=names)


# ------------------------------------------------------------------ (c) compiled
def cpp_case(case, rep):
    w = world_of(case["mesh"], case["sides"], None, case["tags"], case["geometry"])
    q = 0 if case["kind"] == "neutral" else 1.0
    batch = [(s, tuple(F(v) for v in x), tuple(F(v) for v in d)) for s, x, d in case["batch"]]
    T.run(w, [(s, q, 1.0) for s in case["species"]], cpp_kind(case["system"]), True, case["system"], 5, 2, batch, rep)
    rep.note("cpp_batches")


def cpp_kind(system):
    if system == "spherical_r":
        return lambda b, s, f: "reflect" if b == "rmin" else "absorb"
    return lambda b, s, f: "reflect" if b == "rmin" and s == "test_electrons" else "absorb"


# ------------------------------------------------------------------ (d) the functions supplied with the package
# module: {boundary: species it absorbs there; the species it reflects}
SHIPPED = {
    "UserParticles_1D": {"xmin": ("neutral_H", "ions"), "rmax": ("neutral_H", "ions"), "rmin": ("neutral_H",), "far": ("neutral_H", "ions")},
    "UserParticles_2D_e": {"rmin": ("ions",), "far": ("ions", "test_electrons")},
    "UserParticles_3D": {"xmin": ("neutral_H", "ions"), "ymin": ("neutral_H", "ions")},
}
REFLECTED = {("UserParticles_1D", "rmin", "ions"), ("UserParticles_2D_e", "rmin", "test_electrons")}


def shipped_kind(module):
    def kind(b, s, f=None):
        return "reflect" if (module, b, s) in REFLECTED else "absorb"
    return kind


def shipped_user(module):
    def make(P):
        U = __import__(module).UserParticleBoundaryFunctions_C
        return U() if module == "UserParticles_3D" else U(P.position_coordinates, P.dx)
    return make


def shipped_case(case, rep):
    w = world_of(case["mesh"], case["sides"], None, None)
    batch = [(s, tuple(F(v) for v in x), tuple(F(v) for v in d)) for s, x, d in case["batch"]]
    T.run(w, [(s, case["q"], 1.0) for s in case["species"]], shipped_kind(case["module"]), False, None, 5, 2, batch, rep,
          user=shipped_user(case["module"]))
    rep.note("shipped_batches")


def shipped_explore(job, tier, rep):
    module = job["module"]
    species = sorted({s for v in SHIPPED[module].values() for s in v})
    kind = shipped_kind(module)
    bounds = sorted(SHIPPED[module])
    for a, b in product(bounds, bounds):
        sides = {"xmin": a, "xmax": b, "ymin": b, "ymax": a, "zmin": a, "zmax": b, "wall": b}
        w = world_of(job["mesh"], sides, None, None)
        em = w.em
        st, mv = lattice(em, tier, job["mesh"])
        if em.dim > 1 and tier == "quick":
            st, mv = st[::2], mv[::2]
        batch = []
        for s in species:
            batch += [(s, x, d) for x, d in T.flights(em, st, mv, 2, lambda f: kind(w.facet_name[f], s) if f in w.facet_name else None)]
        for q in (0, 1.0):
            go({"what": "shipped", "module": module, "mesh": job["mesh"], "sides": sides, "species": species, "q": q,
                "batch": enc(batch)}, rep)


def run(case, rep):
    {"shipped": shipped_case, "subsets": subset_case, "paths": paths_case, "cpp": cpp_case}[case["what"]](case, rep)


def go(case, rep):
    n0 = len(rep.violations)
    rep.run(case, lambda: run(case, rep))
    if len(rep.violations) > n0:
        from mc.core import Reporter
        for p in case["batch"]:
            r = Reporter()
            replay(dict(case, batch=[p]), r)
            if r.violations:
                rep.violations[-1] = r.violations[0]
                return


def enc(batch):
    return [[s, [str(v) for v in x], [str(v) for v in d]] for s, x, d in batch]


def explore(job, tier, rep):
    if job["what"] == "subsets":
        subs = [c for n in range(len(NAMES) + 1) for c in combinations(NAMES, n)]
        for i, names in enumerate(subs):
            if i % 4 != job["part"]:
                continue
            batch = list(subset_flights(job["mesh"], names))
            for q in ((0, 0), (1.0, -1.0), (1.0, 0)) if job["mesh"] != "cube" else ((0, 1.0),):
                go({"what": "subsets", "mesh": job["mesh"], "names": list(names), "q": q, "batch": enc(batch)}, rep)
            rep.note("subsets")
        return
    if job["what"] == "shipped":
        return shipped_explore(job, tier, rep)
    if job["what"] == "paths":
        steps = 2 if tier == "quick" else 3
        em = world_of(job["mesh"], None, None, None).em
        st, mv = lattice(em, tier, job["mesh"])
        for inner in markings(em):
            tags = {"wall": 4}
            for k, f in enumerate(reversed(inner)):
                tags["in%d" % f] = 11 + 3 * k
            todo = [("one", x, d) for x, d in T.flights(em, st, mv, steps, lambda f: job["ext"] if f in em.exterior else None, rep)]
            if len(inner) == 1 and em.dim > 1:
                todo = todo[::3] if tier == "quick" else todo
            for b in range(0, len(todo), 50):
                go({"what": "paths", "mesh": job["mesh"], "q": job["q"], "ext": job["ext"], "inner": inner, "tags": tags,
                    "steps": steps, "batch": enc(todo[b:b + 50])}, rep)
        return
    geometry = "1D-spherical-radial" if job["system"] == "spherical_r" else "Cartesian"
    species = ["electrons", "test_electrons", "test_electrons2", "test"]
    bounds = ["rmin", "rmin2", "r"]
    for perm in permutations((1, 2, 5)):
        tags = dict(zip(bounds, perm))
        for sides in ({"xmin": "rmin", "xmax": "rmin2", "ymin": "r", "ymax": "rmin", "zmin": "r", "zmax": "rmin2"},
                      {"xmin": "r", "xmax": "rmin", "ymin": "rmin2", "ymax": "r", "zmin": "rmin", "zmax": "rmin"}):
            w = world_of(job["mesh"], sides, None, tags, geometry)
            em = w.em
            st, mv = lattice(em, tier, job["mesh"])
            if em.dim > 1:
                mv = mv[::4]
            kind = cpp_kind(job["system"])
            batch = []
            for s in species:
                batch += [(s, x, d) for x, d in T.flights(em, st, mv, 2,
                                                         lambda f: kind(w.facet_name[f], s, f) if f in w.facet_name else None)]
            for sp in (species, species[::-1]):
                go({"what": "cpp", "mesh": job["mesh"], "kind": job["kind"], "system": job["system"], "sides": sides,
                    "tags": tags, "geometry": geometry, "species": sp, "batch": enc(batch)}, rep)


def replay(case, rep):
    rep.run(case, lambda: run(case, rep))


def warm():
    for n in ("line4", "square_right", "cube"):
        L.zero_E(L.World(n))
