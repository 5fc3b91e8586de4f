"""Building blocks shared by the particle harnesses: small meshes, particle sets, storage access."""
import dt_pybind11_bridge  # noqa: F401
import numpy as np
import dolfin as df
import numpy_types_solib  # noqa: F401
from fractions import Fraction as F

df.set_log_level(50)

from DT_Module import DTcontrol_C
from Dolfin_Module import Mesh_C, Field_C
from Particle_Module import ParticleInput_C, ParticleSpecies_C, Particle_C, ParticleMeshBoundaryConditions_C
from mc.geom import ExactMesh

SYS = {1: "cartesian_x", 2: "cartesian_xy", 3: "cartesian_xyz"}


# ------------------------------------------------------------------ meshes
def make_mesh(coords, cells, kind):
    m = df.Mesh()
    d = {"interval": 1, "triangle": 2, "tetrahedron": 3}[kind]
    e = df.MeshEditor()
    e.open(m, kind, d, d)
    e.init_vertices(len(coords))
    for i, x in enumerate(coords):
        e.add_vertex(i, df.Point(*[float(v) for v in x]))
    e.init_cells(len(cells))
    for i, c in enumerate(cells):
        e.add_cell(i, np.array(c, dtype=np.uintp))
    e.close()
    return m


def unit(name):
    """The scale of a mesh: 'cube@-20' is the cube in units of 2**-20."""
    return F(2) ** int(name.split("@")[1]) if "@" in name else F(1)


def mesh_of(name):
    """A mesh by name; 'name@k' is scaled by 2**k, 'name~' has coordinates that are not short binary fractions."""
    if "@" in name:
        m = mesh_of(name.split("@")[0])
        m.coordinates()[:] *= float(unit(name))
        return m
    if name.endswith("~"):
        m = mesh_of(name[:-1])
        m.coordinates()[:] = m.coordinates() / 3.0 + 0.1
        return m
    if name == "line4":            # uniform
        return df.IntervalMesh(4, 0.0, 4.0)
    if name == "line_uneven":      # cells of length 1, 1/2, 3/2, 1/4
        return make_mesh([(-1,), (0,), (0.5,), (2,), (2.25,)], [(0, 1), (1, 2), (2, 3), (3, 4)], "interval")
    if name == "line_shuffled":    # vertices and cells not numbered from left to right
        return make_mesh([(2,), (0,), (3,), (1,)], [(0, 2), (1, 3), (3, 0)], "interval")
    if name == "radial":
        return make_mesh([(1,), (1.5,), (2.5,), (4,)], [(0, 1), (1, 2), (2, 3)], "interval")
    if name == "radial0":          # from the origin of the sphere
        return make_mesh([(0,), (0.5,), (1.25,), (3,)], [(0, 1), (1, 2), (2, 3)], "interval")
    if name == "radial_shuffled":
        return make_mesh([(3,), (1,), (5,), (2,)], [(0, 2), (1, 3), (3, 0)], "interval")
    if name == "square_right":
        return df.RectangleMesh(df.Point(0, 0), df.Point(2, 2), 2, 2, "right")
    if name == "square_left":
        return df.RectangleMesh(df.Point(-1, -1), df.Point(1, 1), 2, 2, "left")
    if name == "square_crossed":
        return df.RectangleMesh(df.Point(0, 0), df.Point(2, 1), 2, 1, "crossed")
    if name == "skewed":           # 3x2 triangles, moved inner and boundary vertices, sheared
        m = df.RectangleMesh(df.Point(0, 0), df.Point(3, 2), 3, 2, "right/left")
        x = m.coordinates()
        for i in range(len(x)):
            a, b = x[i]
            if (a, b) == (1, 1):
                x[i] = (1.25, 0.875)
            elif (a, b) == (2, 1):
                x[i] = (1.875, 1.3125)
            elif (a, b) == (1, 0):
                x[i] = (0.75, 0)
            elif (a, b) == (2, 2):
                x[i] = (2.375, 2)
        return m
    if name == "sheared":
        m = df.RectangleMesh(df.Point(0, 0), df.Point(2, 2), 2, 2, "right")
        x = m.coordinates()
        x[:, 0] += 0.5 * x[:, 1]
        return m
    if name == "ell":              # an L: not convex
        pts = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2)]
        return make_mesh(pts, [(0, 1, 4), (0, 3, 4), (1, 2, 5), (1, 4, 5), (3, 4, 7), (3, 6, 7)], "triangle")
    if name == "cube":
        return df.BoxMesh(df.Point(0, 0, 0), df.Point(1, 1, 1), 1, 1, 1)
    if name == "brick":            # 2x1x1 boxes, one face's vertices moved
        m = df.BoxMesh(df.Point(0, 0, 0), df.Point(2, 1, 1), 2, 1, 1)
        x = m.coordinates()
        for i in range(len(x)):
            if tuple(x[i]) == (1, 1, 1):
                x[i] = (1.25, 1, 1)
            elif tuple(x[i]) == (1, 0, 0):
                x[i] = (0.875, 0, 0)
        return m
    if name == "box211":
        return df.BoxMesh(df.Point(0, 0, 0), df.Point(2, 1, 1), 2, 1, 1)
    if name == "flat2":            # 2 triangles three times as long as wide
        return df.RectangleMesh(df.Point(0, 0), df.Point(3, 1), 1, 1)
    if name == "tall3":            # 6 tetrahedra three times as high as wide
        return df.BoxMesh(df.Point(0, 0, 0), df.Point(1, 1, 3), 1, 1, 1)
    if name == "wide":             # more cells, facets and vertices than fit in two bytes (vertices: with a sign)
        return df.RectangleMesh(df.Point(0, 0), df.Point(182, 182), 182, 182, "right")
    if name == "long":
        return df.IntervalMesh(66000, 0.0, 66000.0)
    if name == "unit_square":      # 2 triangles
        return df.UnitSquareMesh(1, 1)
    raise KeyError(name)


def exterior_marker(dmesh, em, mark):
    """MeshFunction with mark(facet index) on every facet."""
    d = dmesh.topology().dim()
    mf = df.MeshFunction("size_t", dmesh, d - 1)
    mf.set_all(0)
    for f in em.facet_cells:
        v = mark(f)
        if v:
            mf[f] = v
    return mf


def box_side(em, f):
    """'xmin'... for an exterior facet lying in a side of the mesh's bounding box, else 'wall'."""
    vs = [em.coords[v] for v in em.facet_verts[f]]
    for k in range(em.dim):
        lo, hi = em.lo[k], em.hi[k]
        if all(v[k] == lo for v in vs):
            return "xyz"[k] + "min"
        if all(v[k] == hi for v in vs):
            return "xyz"[k] + "max"
    return "wall"


class World(object):
    """A mesh ready for particles: the real Mesh_C, the exact mesh, and the boundary markers."""

    def __init__(self, name, side_names=None, coordinate_system="Cartesian", interior=None, tags=None):
        """side_names: side -> boundary name (default: every exterior facet is 'wall')."""
        self.name = name
        self.dmesh = mesh_of(name)
        self.mesh_M = Mesh_C(Mesh=self.dmesh, coordinate_system=coordinate_system, compute_dictionaries=True,
                             compute_cpp_arrays=True, compute_tree=True)
        self.em = ExactMesh(self.dmesh)
        self.dim = self.em.dim
        self.facet_name = {}
        for f in self.em.exterior:
            s = box_side(self.em, f)
            self.facet_name[f] = (side_names or {}).get(s, "wall")
        for f, n in (interior or {}).items():
            self.facet_name[f] = n
        names = sorted(set(self.facet_name.values()))
        self.tags = dict(tags) if tags else {n: i + 1 for i, n in enumerate(names)}
        self.mesh_M.particle_boundary_marker = exterior_marker(
            self.dmesh, self.em, lambda f: self.tags[self.facet_name[f]] if f in self.facet_name else 0)
        self.mesh_M.particle_boundary_dict = dict(self.tags)


# ------------------------------------------------------------------ particles
class Absorb(object):
    def default_bc(self, p, species, facet, dx_fraction=None, facet_normal=None):
        p["bitflags"] = p["bitflags"] | Particle_C.DELETE_FLAG


def make_particles(species, pdim, L, cpp, system=None, force=False):
    """species: [(name, charge, mass[, dynamics])]. A Particle_C with segments of length L."""
    Particle_C.SEGMENT_LENGTH = L
    pin = ParticleInput_C()
    pin.precision = np.float64
    pin.particle_integration_loop = "loop-on-particles"
    pin.coordinate_system = system or SYS[pdim]
    coords = {"cartesian_x": ["x"], "cartesian_xy": ["x", "y"], "cartesian_xyz": ["x", "y", "z"],
              "spherical_r": ["r"]}[pin.coordinate_system]
    pin.force_components = coords
    pin.force_precision = np.float64
    pin.use_cpp_integrators = cpp
    pin.particle_species = tuple(ParticleSpecies_C(s[0], s[1], s[2], s[3] if len(s) > 3 else "neutral" if s[1] == 0 else "charged")
                                 for s in species)
    return Particle_C(pin)


UPBF = {"cartesian_x": "user_particle_boundary_functions_cartesian_x_solib",
        "cartesian_xy": "user_particle_boundary_functions_cartesian_xy_solib",
        "cartesian_xyz": "user_particle_boundary_functions_cartesian_xyz_solib",
        "spherical_r": "upbfs_spherical_r_solib"}


def attach(P, world, user_bcs=None):
    """Gives P its mesh, movers and boundary conditions (user_bcs: Python object, Python movers only)."""
    import importlib
    P.initialize_particle_mesh(world.mesh_M)
    P.initialize_particle_integration()
    if P.use_cpp_integrators:
        lib = importlib.import_module(UPBF[P.coordinate_system])
        P._upbf = lib.UserParticleBoundaryFunctions(P.position_coordinates)
        P.pmesh_bcs = P.particle_solib.ParticleMeshBoundaryConditions(P.species_names, world.mesh_M, P._upbf)
    else:
        P.pmesh_bcs = ParticleMeshBoundaryConditions_C(P.species_names, world.mesh_M, user_bcs or Absorb())
    return P


def control(dt, nstep=0, time=0.0, max_cross=100):
    c = DTcontrol_C()
    c.dt, c.timeloop_count, c.time = dt, nstep, time
    c.MAX_FACET_CROSS_COUNT = max_cross
    return c


def record(P, x, u, weight=1.0, flags=0, uid=0, cell=-1, x0=None):
    x0 = x if x0 is None else x0
    return tuple(float(v) for v in x) + tuple(float(v) for v in x0) + tuple(float(v) for v in u) + (
        float(weight), flags, cell, uid, 0)


def push(P, sn, recs):
    """recs: record tuples."""
    for r in recs:
        P.sap_dict[sn].push_back(r)


def items(P, sn):
    """Every live particle of a species, in storage order, as copies of the records."""
    sap = P.sap_dict[sn]
    n = sap.get_number_of_items()
    out = []
    for i in range(n):
        seg, off = sap.get_segment_and_offset(i)
        out.append(seg[off].copy())
    return out


def zero_E(world, P=None):
    f = Field_C(world.mesh_M, "DG", 0, "vector")
    f.function.vector()[:] = 0.0
    return f


def fr(x):
    return tuple(F(float(v)) for v in x)


def lattice(lo, hi, step):
    """Exact multiples of step in [lo, hi]."""
    lo, hi, step = F(lo), F(hi), F(step)
    out, v = [], lo
    while v <= hi:
        out.append(v)
        v += step
    return out
