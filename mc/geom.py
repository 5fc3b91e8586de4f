"""Exact rational geometry of small simplicial meshes: the oracle of the tracking properties.

Everything is computed from the vertex coordinates and the cell-vertex lists alone, in rational arithmetic, so
it shares nothing with the tables and the floating-point search of the code under test.
"""
from fractions import Fraction as F
from itertools import combinations, product
from math import floor


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


class ExactMesh(object):
    """cells: vertex-index tuples; coords: exact coordinates; facet_of: vertex set -> mesh facet index."""

    def __init__(self, dmesh):
        self.dim = d = dmesh.geometry().dim()
        self.coords = [tuple(F(float(x)) for x in row) for row in dmesh.coordinates()]
        self.cells = [tuple(int(v) for v in row) for row in dmesh.cells()]
        dmesh.init(d - 1, 0)
        dmesh.init(d, d - 1)
        conn = dmesh.topology()(d - 1, 0) if d > 1 else None
        self.facet_of = {}
        if d == 1:
            import dolfin
            for f in dolfin.facets(dmesh):
                self.facet_of[frozenset([int(f.entities(0)[0])])] = f.index()
        else:
            for f in range(dmesh.num_entities(d - 1)):
                self.facet_of[frozenset(int(v) for v in conn(f))] = f
        self.facet_verts = {f: vs for vs, f in self.facet_of.items()}
        self.facet_cells = {}
        # planes[c][i] = (A, c0): A.x + c0 is a positive multiple of the barycentric coordinate of vertex i
        self.planes, self.cell_facets = [], []
        for ci, c in enumerate(self.cells):
            pl, fs = [], []
            for i in range(d + 1):
                others = [c[j] for j in range(d + 1) if j != i]
                A, c0 = self._plane([self.coords[v] for v in others])
                val = sum(a * x for a, x in zip(A, self.coords[c[i]])) + c0
                if val < 0:
                    A, c0 = tuple(-a for a in A), -c0
                pl.append((A, c0))
                f = self.facet_of[frozenset(others)]
                fs.append(f)
                self.facet_cells.setdefault(f, []).append(ci)
            self.planes.append(pl)
            self.cell_facets.append(fs)
        self.bins = None
        self.lo = tuple(min(c[k] for c in self.coords) for k in range(d))
        self.hi = tuple(max(c[k] for c in self.coords) for k in range(d))
        self.exterior = {f for f, cs in self.facet_cells.items() if len(cs) == 1}

    def _plane(self, pts):
        d = self.dim
        if d == 1:
            return (F(1),), -pts[0][0]
        if d == 2:
            (x0, y0), (x1, y1) = pts
            A = (y1 - y0, x0 - x1)
        else:
            u = [b - a for a, b in zip(pts[0], pts[1])]
            v = [b - a for a, b in zip(pts[0], pts[2])]
            A = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
        return A, -sum(a * x for a, x in zip(A, pts[0]))

    def neighbour(self, c, f):
        for o in self.facet_cells[f]:
            if o != c:
                return o
        return None

    def sides(self, c, x):
        return [sum(a * xx for a, xx in zip(A, x)) + c0 for A, c0 in self.planes[c]]

    def contains(self, c, x):
        return all(s >= 0 for s in self.sides(c, x))

    def cells_of(self, x):
        return [c for c in self.near(x) if self.contains(c, x)]

    def near(self, x):
        """Cells that may contain x: all of a small mesh; those whose unit boxes overlap x's of a large one."""
        if len(self.cells) < 5000:
            return range(len(self.cells))
        if self.bins is None:
            self.bins = {}
            for c, vs in enumerate(self.cells):
                span = [range(floor(min(self.coords[v][k] for v in vs)), floor(max(self.coords[v][k] for v in vs)) + 1)
                        for k in range(self.dim)]
                for b in product(*span):
                    self.bins.setdefault(b, []).append(c)
        return self.bins.get(tuple(floor(v) for v in x), [])

    def on_exterior(self, x):
        for c in self.cells_of(x):
            for f, s in zip(self.cell_facets[c], self.sides(c, x)):
                if s == 0 and f in self.exterior:
                    return True
        return False

    def volume(self, c):
        vs = [self.coords[v] for v in self.cells[c]]
        m = [[b - a for a, b in zip(vs[0], v)] for v in vs[1:]]
        return abs(det(m)) / (1, 1, 2, 6)[self.dim]

    def bary(self, c, x):
        """Exact barycentric coordinates of x in cell c, per local vertex."""
        out = []
        for i, (A, c0) in enumerate(self.planes[c]):
            top = sum(a * xx for a, xx in zip(A, self.coords[self.cells[c][i]])) + c0
            out.append((sum(a * xx for a, xx in zip(A, x)) + c0) / top)
        return out

    def outward(self, c, f):
        """Outward normal of facet f of cell c, not normalised, exact."""
        return tuple(-a for a in self.planes[c][self.cell_facets[c].index(f)][0])

    def first_exit(self, c, x, d):
        """(s, local indices of the facets reached at s) for the segment x + s d leaving cell c; s None if never."""
        best, who = None, []
        for i, (A, c0) in enumerate(self.planes[c]):
            b = sum(a * y for a, y in zip(A, d))
            if b < 0:
                s = (sum(a * y for a, y in zip(A, x)) + c0) / -b
                if best is None or s < best:
                    best, who = s, [i]
                elif s == best:
                    who.append(i)
        return best, who

    def trace(self, c, x, d, bc, limit=1000):
        """Follows the straight move d from x in cell c. bc(facet) -> 'absorb' | 'reflect' | None (interior: pass).

        Returns a dict: alive, end, cell, events [(facet, fraction of the whole move, point, bc kind, cell, fraction of the move left)],
        flips (list of exact normals the velocity is mirrored by), last (last crossing point or start),
        degenerate (through an edge/vertex, along a facet, or leaving from a facet), slide (along a facet)
        """
        x, d = list(x), list(d)
        ev, flips = [], []
        degenerate = any(sum(a * y for a, y in zip(A, x)) + c0 == 0 and sum(a * y for a, y in zip(A, d)) < 0
                         for A, c0 in self.planes[c])
        done = F(0)
        touched = [tuple(x)] if degenerate else []
        slide = False
        while True:
            s, who = self.first_exit(c, x, d)
            if any(v != 0 for v in d):
                for A, c0 in self.planes[c]:
                    if sum(a * y for a, y in zip(A, d)) == 0 and sum(a * y for a, y in zip(A, x)) + c0 == 0:
                        slide = True
            if s is None or s >= 1:
                end = [a + b for a, b in zip(x, d)]
                if s == 1 and len(who) > 1:
                    degenerate = True
                    touched.append(tuple(end))
                return {"alive": True, "end": tuple(end), "cell": c, "events": ev, "flips": flips, "last": tuple(x),
                        "degenerate": degenerate, "end_on_facet": s == 1, "touched": touched, "slide": slide}
            x = [a + s * b for a, b in zip(x, d)]
            done += s * (1 - done)
            d = [(1 - s) * b for b in d]
            if len(who) > 1:
                degenerate = True
                touched.append(tuple(x))
            f = self.cell_facets[c][who[0]]
            kind = bc(f)
            ev.append((f, done, tuple(x), kind, c, s))
            n = self.neighbour(c, f)
            if kind == "absorb":
                return {"alive": False, "end": tuple(a + b for a, b in zip(x, d)), "cell": None, "events": ev,
                        "flips": flips, "last": tuple(x), "degenerate": degenerate, "end_on_facet": False,
                        "touched": touched, "slide": slide}
            if kind == "reflect":
                nn = self.outward(c, f)
                d = mirror(d, nn)
                flips.append(nn)
            elif n is None:
                raise ValueError("unmarked exterior facet %d" % f)
            else:
                c = n
            if len(ev) > limit:
                raise ValueError("trace does not end")

    def usable(self, x, d, steps, bc, scale=(1,)):
        """No step of the repeated move (scaled step by step) grazes the exterior or runs along a facet, whichever cell holds it."""
        for c in self.cells_of(x):
            tr = self.trace(c, x, [v * scale[0] for v in d], bc)
            if tr["slide"] or not self.clean(tr):
                return False
            if tr["alive"] and steps > 1 and not self.usable(tr["end"], d, steps - 1, bc, scale[1:] + scale[:1]):
                return False
        return True

    def clean(self, tr):
        """A degenerate trace that touches the exterior in a degenerate way has no single right answer."""
        return not any(self.on_exterior(x) for x in tr["touched"])


def mirror(v, n):
    nn = sum(a * a for a in n)
    k = 2 * sum(a * b for a, b in zip(v, n)) / nn
    return [a - k * b for a, b in zip(v, n)]
