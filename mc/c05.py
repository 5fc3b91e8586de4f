"""C05: the compiled movers keep every particle in the cell that contains it."""
from mc import track as T

TECHNIQUE = "exhaustive enumeration of all lattice starts x lattice moves x 3 steps on small meshes through the real compiled movers, each step compared with exact rational ray tracing"
LEVEL_NOTE = "Exhaustive over the stated lattices, meshes and step count; moves that graze the exterior through an edge or along a facet are left out because exact geometry gives them no single answer."
BOUNDS = {
    "quick": "meshes: 3 interval + 1 radial, 6 triangle (one not convex), 3 tetrahedron; every lattice start (spacing 1/8 in 1D, 1/4 in 2D, 1/2 in 3D, one lattice in general position and one on vertices and facets) x every lattice move up to about the mesh size; 3 steps; charged x, xy, spherical_r (zero field) and neutral xy, xyz movers, including particles with more coordinates than the mesh; segment length 7; the limit on facet crossings set to exactly what a step needs; some of the meshes also scaled by 2**-40 or 2**30; particles near cells 127, 255, 32767 and 65535 of meshes of 66000 cells",
    "thorough": "as quick with lattices twice as fine",
}
ORACLE = "exact rational ray tracing from vertex coordinates: survival, end point, containing cell, last crossing point"
ASSUMPTIONS = ["coordinates are dyadic, so positions are exact in floating point", "simplicial meshes"]
EXPECT = {"generic": 5000, "absorbed": 3000, "degenerate": 500, "crossing_limit_reached": 1000, "large meshes": 2}


def jobs(tier):
    for mesh, pdim, kind in (("wide", 2, "neutral"), ("wide", 2, "charged"), ("long", 1, "charged")):
        yield {"mesh": mesh, "pdim": pdim, "kind": kind, "cpp": True, "seg": 7, "steps": 3, "batch": 50, "part": 0, "parts": 1}
    todo = [("cube", 3, "neutral", 4, None), ("box211", 3, "neutral", 6, None), ("brick", 3, "neutral", 6, None)]
    for m in ("skewed", "ell", "square_right", "square_left", "square_crossed", "sheared"):
        todo += [(m, 2, "neutral", 3, None), (m, 2, "charged", 3, None)]
    for m in ("line_uneven", "line_shuffled", "line4"):
        todo += [(m, 1, "charged", 2, None), (m, 2, "neutral", 1, None), (m, 3, "neutral", 1, None)]
    todo += [("square_right", 3, "neutral", 2, None), ("radial", 1, "charged", 2, "spherical_r")]
    todo += [("cube@-40", 3, "neutral", 4, None), ("skewed@-40", 2, "neutral", 3, None), ("sheared@30", 2, "charged", 3, None),
             ("line_uneven@-40", 1, "charged", 1, None), ("line_shuffled@30", 3, "neutral", 1, None), ("radial@-20", 1, "charged", 1, "spherical_r")]
    for mesh, pdim, kind, parts, system in todo:
        for part in range(parts):
            yield {"mesh": mesh, "pdim": pdim, "kind": kind, "cpp": True, "seg": 7, "steps": 3, "batch": 50,
                   "part": part, "parts": parts, "system": system,
                   "geometry": "1D-spherical-radial" if system else "Cartesian"}


explore, replay, warm = T.explore, T.replay, T.warm
