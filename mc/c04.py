"""C04: the Python movers keep every particle in the cell that contains it."""
from mc import track as T

TECHNIQUE = "exhaustive enumeration of all lattice starts x lattice moves x 3 steps on small meshes through the real Python movers, each step compared with exact rational ray tracing"
LEVEL_NOTE = "Exhaustive over the stated lattices, meshes and step count; moves that graze the exterior through an edge or along a facet are left out because exact geometry gives them no single answer."
BOUNDS = {
    "quick": "meshes: 3 interval, 6 triangle (one not convex), 3 tetrahedron; every lattice start (spacing 1/8 in 1D, 1/4 in 2D, 1/2 in 3D, one lattice in general position and one on vertices and facets) x every lattice move up to about the mesh size; 3 steps; neutral and charged (zero field) movers; segment length 7; the limit on facet crossings set to exactly what a step needs; some of the meshes also scaled by 2**-40 or 2**30; particles near cells 127, 255, 32767 and 65535 of meshes of 66000 cells",
    "thorough": "as quick with lattices twice as fine",
}
ORACLE = "exact rational ray tracing from vertex coordinates: survival, end point, containing cell, crossings, last crossing point"
ASSUMPTIONS = ["coordinates are dyadic, so positions are exact in floating point", "simplicial meshes"]
EXPECT = {"generic": 5000, "absorbed": 3000, "degenerate": 500, "crossing_limit_reached": 1000, "large meshes": 2}
CPP = False


def jobs(tier):
    for mesh, pdim, kind in (("wide", 2, "neutral"), ("long", 1, "charged")):
        yield {"mesh": mesh, "pdim": pdim, "kind": kind, "cpp": CPP, "seg": 7, "steps": 3, "batch": 50, "part": 0, "parts": 1}
    for mesh, pdim, parts in (("cube", 3, 6), ("box211", 3, 8), ("brick", 3, 8), ("skewed", 2, 4), ("ell", 2, 3), ("square_right", 2, 3),
                              ("square_left", 2, 3), ("square_crossed", 2, 3), ("sheared", 2, 3),
                              ("line_uneven", 1, 2), ("line_shuffled", 1, 2), ("line4", 1, 2),
                              ("line4", 3, 1), ("square_right", 3, 1),
                              ("cube@-40", 3, 6), ("skewed@-40", 2, 3), ("sheared@30", 2, 3), ("line_uneven@-40", 1, 1), ("line_shuffled@30", 1, 1)):
        for kind in ("neutral", "charged"):
            if kind == "charged" and pdim != {"l": 1, "s": 2, "e": 2}.get(mesh[0], 3):
                continue
            for part in range(parts):
                if tier == "quick" and mesh in ("square_left", "sheared", "cube", "cube@-40", "skewed@-40") and kind == "charged":
                    continue
                yield {"mesh": mesh, "pdim": pdim, "kind": kind, "cpp": CPP, "seg": 7, "steps": 3, "batch": 50,
                       "part": part, "parts": parts}


explore, replay, warm = T.explore, T.replay, T.warm
