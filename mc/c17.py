"""C17: the field solver satisfies its equation and boundary values, repeatably."""
from fractions import Fraction as F
from itertools import product
import numpy as np
import dolfin as df
from mc import plib as L
from mc.core import require

TECHNIQUE = "exhaustive enumeration of unit charges at every node x boundary values x all short sequences of solves, source changes and interleaved solvers, on the real solvers, each solve compared with an exact rational finite-element solution"
LEVEL_NOTE = "Exhaustive within the stated bounds. The discrete problem is linear in charge and boundary values, so unit charges at every node plus unit boundary values span all inputs of a mesh; linearity itself is checked on combinations."
BOUNDS = {
    "quick": "3 solvers on 10 meshes, for single solves and superposition 6 of them scaled by 2**-20 to 2**22 too (1D uniform/uneven/unordered numbering, 2D 4 triangulations incl. skewed, spherical with and without the origin, fixed and natural inner condition): a unit charge at each node, all pairs of nodes, 3x3 boundary values, 4 charge factors, constant and linear source densities; pairs of solutions that are opposite or mirror images of each other; all sequences of 3 operations of an alphabet of 9 per solver, all sequences of 2 over two interleaved solvers, and of 2 with the matrix made anew for each solve",
    "thorough": "as quick with all sequences of 4 operations and of 3 over two interleaved solvers",
}
ORACLE = "exact rational assembly and elimination of the finite-element equations (eps0 from UserUnits), cell gradients in exact rationals"
ASSUMPTIONS = ["a solve given a charge uses that charge (times its factor) alone; a solve without one uses the source last given", "first-degree continuous potential, piecewise-constant field"]
EXPECT = {"mirror": 500, "solves": 20000, "superposition": 200, "two solvers": 500, "natural": 500, "expression": 150, "made anew": 500}

MESHES = {"1D": ("line4", "line_uneven", "line_shuffled"), "2D": ("square_right", "skewed", "square_crossed", "square_left"), "r": ("radial", "radial0", "radial_shuffled")}
BC = ((0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (-2.5, 4.0), (3.0, 3.0), (1.0, -1.0))
_worlds, _exact = {}, {}


def world(mesh):
    if mesh not in _worlds:
        _worlds[mesh] = L.World(mesh, coordinate_system="1D-spherical-radial" if mesh.startswith("radial") else "Cartesian")
    return _worlds[mesh]


SCALED = ("line_uneven@-20", "line_shuffled@20", "skewed@-20", "square_crossed@20", "radial@22", "radial_shuffled@-20")


def kind(mesh):
    mesh = mesh.split("@")[0]
    return [k for k in MESHES if mesh in MESHES[k]][0]


class Exact(object):
    """The discrete problem in rationals, per vertex of the mesh, without eps0."""

    def __init__(self, mesh):
        em = world(mesh).em
        self.em, self.k = em, kind(mesh)
        n = len(em.coords)
        self.n = n
        self.K = [[F(0)] * n for _ in range(n)]
        self.M = [[F(0)] * n for _ in range(n)]       # mass matrix, with the volume element
        self.grad = []
        for vs in em.cells:
            g = self.gradients(vs)
            self.grad.append(g)
            for a in range(len(vs)):
                for b in range(len(vs)):
                    dot = sum(x * y for x, y in zip(g[a], g[b]))
                    self.K[vs[a]][vs[b]] += dot * self.vol(vs)
                    self.M[vs[a]][vs[b]] += self.mass(vs, a, b)
        x = [c[0] for c in em.coords]
        sides = {}
        for f in em.facet_cells:
            if len(em.facet_cells[f]) == 1:
                s = L.box_side(em, f)
                if s in ("xmin", "xmax"):
                    sides.setdefault(s, set()).update(em.facet_verts[f])
        self.sides = sides

    def gradients(self, vs):
        """gradient of each basis function of the cell"""
        em = self.em
        d = em.dim
        p = [em.coords[v] for v in vs]
        if d == 1:
            h = p[1][0] - p[0][0]
            return [(-1 / h,), (1 / h,)]
        (x0, y0), (x1, y1), (x2, y2) = p
        D = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
        return [((y1 - y2) / D, (x2 - x1) / D), ((y2 - y0) / D, (x0 - x2) / D), ((y0 - y1) / D, (x1 - x0) / D)]

    def vol(self, vs):
        if self.k == "r":
            a, b = sorted(self.em.coords[v][0] for v in vs)
            return (b ** 3 - a ** 3) / 3
        p = [self.em.coords[v] for v in vs]
        if self.em.dim == 1:
            return abs(p[1][0] - p[0][0])
        return abs((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])) / 2

    def mass(self, vs, a, b):
        if self.k == "r":
            p = [self.em.coords[v][0] for v in vs]
            h = abs(p[1] - p[0])
            A, B = p[0], p[1]
            # integral over t in 0..1 of h * phi_a phi_b (A(1-t)+Bt)^2
            def beta(i, j):                              # int (1-t)^i t^j
                f = lambda n: 1 if n < 2 else n * f(n - 1)
                return F(f(i) * f(j), f(i + j + 1))
            i0 = (a == 0) + (b == 0)
            j0 = (a == 1) + (b == 1)
            return h * (A * A * beta(i0 + 2, j0) + 2 * A * B * beta(i0 + 1, j0 + 1) + B * B * beta(i0, j0 + 2))
        d = self.em.dim
        return self.vol(vs) * (2 if a == b else 1) / ((d + 1) * (d + 2))

    def solve(self, b, fixed):
        """b: per vertex (Fractions); fixed: {vertex: value}."""
        free = [v for v in range(self.n) if v not in fixed]
        A = [[self.K[i][j] for j in free] + [b[i] - sum(self.K[i][j] * fixed[j] for j in fixed)] for i in free]
        n = len(free)
        for c in range(n):
            p = next(r for r in range(c, n) if A[r][c] != 0)
            A[c], A[p] = A[p], A[c]
            A[c] = [v / A[c][c] for v in A[c]]
            for r in range(n):
                if r != c and A[r][c] != 0:
                    m = A[r][c]
                    A[r] = [x - m * y for x, y in zip(A[r], A[c])]
        phi = dict(fixed)
        for i, v in enumerate(free):
            phi[v] = A[i][-1]
        return [phi[v] for v in range(self.n)]

    def inverse(self, fixed_vertices):
        """exact response to a unit charge / unit boundary value, cached."""
        key = (tuple(sorted(fixed_vertices)),)
        if not hasattr(self, "_inv"):
            self._inv = {}
        if key not in self._inv:
            cols = []
            zero = {v: F(0) for v in fixed_vertices}
            for k in range(self.n):
                if k in zero:
                    cols.append(self.solve([F(0)] * self.n, {**zero, k: F(1)}))
                else:
                    cols.append(self.solve([F(int(i == k)) for i in range(self.n)], zero))
            self._inv[key] = np.array([[float(v) for v in c] for c in cols]).T
        return self._inv[key]


def exact(mesh):
    if mesh not in _exact:
        _exact[mesh] = Exact(mesh)
    return _exact[mesh]


def eps0():
    return 8.854187817e-12


class Solver(object):
    """One real solver and its model."""

    def __init__(self, mesh, bc, natural=False, withE=True, again=False):
        from Dolfin_Module import Field_C
        w = world(mesh)
        self.w, self.mesh, self.ex, self.bc = w, mesh, exact(mesh), bc
        k = kind(mesh)
        self.phi = Field_C(w.mesh_M, "CG", 1, "scalar")
        self.E = Field_C(w.mesh_M, "DG", 0, "vector") if withE else None
        self.charge = Field_C(w.mesh_M, "CG", 1, "scalar")
        mf = L.exterior_marker(w.mesh_M.mesh, w.em, lambda f: {"xmin": 3, "xmax": 7}.get(L.box_side(w.em, f) if len(w.em.facet_cells[f]) == 1 else "", 0))
        if k == "1D":
            from UserMesh_y_Fields_FE_XYZ_Module import UserPoissonSolve1D_C as S
            names = ("xmin", "xmax")
        elif k == "2D":
            from UserMesh_y_Fields_FE2D_Module import UserPoissonSolve2DCirc_C as S
            names = ("rmin", "rmax")
        else:
            from UserMesh_y_Fields_Spherical1D_Module import UserPoissonSolve1DS_C as S
            names = ("rmin", "rmax")
        bcs = {names[0]: [3, "unset" if natural else bc[0]], names[1]: [7, bc[1]]}
        self.marker = mf
        self.S = S(self.phi, "lu", None, mf, bcs, neg_electric_field=self.E) if withE else S(self.phi, "lu", None, mf, bcs)
        df.set_log_level(50)
        if again:
            self.S.pde_has_constant_coeffs = False          # the documented switch: the matrix is made anew for each solve
        self.fixed = {v: bc[1] for v in self.ex.sides["xmax"]}
        if not natural:
            self.fixed.update({v: bc[0] for v in self.ex.sides["xmin"]})
        V = self.phi.function_space
        X = np.array(V.tabulate_dof_coordinates()).reshape(-1, w.dim)
        co = np.array([[float(v) for v in c] for c in w.em.coords])
        self.dof = [int(np.argmin(np.abs(X - c).sum(axis=1))) for c in co]      # vertex -> value
        self.b = np.zeros(self.ex.n)
        self.solved = None

    def put_charge(self, q):
        a = np.zeros(self.ex.n)
        for v in range(self.ex.n):
            a[self.dof[v]] = q[v]
        self.charge.function_values.set_local(a)
        self.charge.function_values.apply("insert")
        return a

    def source(self, rho):
        """rho: number, None, or [string, function of coordinates] for a linear density"""
        if isinstance(rho, list):
            self.S.assemble_source_expression(rho[0])
            nodal = [rho[1] + sum(c * float(x) for c, x in zip(rho[2:], p)) for p in self.w.em.coords]
        else:
            self.S.assemble_source_expression(rho)
            nodal = [0.0 if rho is None else float(rho)] * self.ex.n
        M = np.array([[float(v) for v in r] for r in self.ex.M])
        self.b = M.dot(nodal)

    def run(self, q=None, factor=None, rep=None, what=""):
        if q is not None:
            a = self.put_charge(q)
            self.S.solve_for_phi(assembled_charge=self.charge, **({} if factor is None else {"assembled_charge_factor": factor}))
            now = np.array(self.charge.function_values.get_local())
            require(np.array_equal(now, a), "the caller's charge was changed", lambda: "%s: from %s to %s" % (what, list(a), list(now)))
            self.b = np.array(q, dtype=float) * (1.0 if factor is None else factor)
        else:
            self.S.solve_for_phi()
        self.check(rep, what)

    def check(self, rep, what):
        ex = self.ex
        R = ex.inverse(self.fixed)
        rhs = np.array([self.fixed[v] if v in self.fixed else self.b[v] / eps0() for v in range(ex.n)])
        want = R.dot(rhs)
        scale = np.abs(R).dot(np.abs(rhs)).max() + 1e-300
        vec = np.array(self.phi.function.vector().get_local())
        require(np.array_equal(vec, np.array(self.phi.function_values.get_local())), "potential and its values disagree", what)
        got = vec[self.dof]
        for v in self.fixed:
            require(abs(got[v] - self.fixed[v]) <= 1e-9 * (1e-3 * scale + abs(self.fixed[v])), "boundary value", lambda: "%s: node %s has %r, should be %r" % (
                what, [str(t) for t in self.w.em.coords[v]], got[v], self.fixed[v]))
        bad = [v for v in range(ex.n) if abs(got[v] - want[v]) > 1e-9 * scale]
        require(not bad, "potential", lambda: "%s: at node %s it is %r, the discrete equation gives %r" % (
            what, [str(t) for t in self.w.em.coords[bad[0]]], got[bad[0]], want[bad[0]]))
        self.solved = got
        if self.E is not None:
            ev = np.array(self.E.function.vector().get_local())
            ea = np.array(self.E.function_values.get_local())
            require(np.array_equal(ev, ea), "field and its values disagree", lambda: "%s: function %s values %s" % (what, list(ev)[:4], list(ea)[:4]))
            dm = self.E.function_space.dofmap()
            for c, vs in enumerate(ex.em.cells):
                g = ex.grad[c]
                ds = [int(i) for i in dm.cell_dofs(c)]
                for k in range(ex.em.dim):
                    e = sum(float(g[i][k]) * got[v] for i, v in enumerate(vs))
                    m = sum(abs(float(g[i][k])) for i in range(len(vs))) * scale
                    require(abs(ev[ds[k]] - e) <= 1e-9 * m, "negative electric field", lambda: "%s: cell %d component %d is %r, the gradient of the potential is %r" % (
                        what, c, k, ev[ds[k]], e))
        if rep:
            rep.note("solves")
            rep.step()


Q = 1.0e-11          # of the order of eps0


def unit(n, *nodes):
    q = [0.0] * n
    for k, v in enumerate(nodes):
        q[v] += Q * (1 + 2 * k)
    return q


def inputs(case, rep):
    """One fresh solver, one solve."""
    s = Solver(case["mesh"], case["bc"], case.get("natural", False), case.get("E", True))
    if case.get("natural"):
        rep.note("natural")
    n = s.ex.n
    if "rho" in case:
        s.source(case["rho"])
        if isinstance(case["rho"], list):
            rep.note("expression")
        s.run(None, None, rep, "solve")
    else:
        s.run(unit(n, *case["nodes"]) if case["nodes"] is not None else None, case.get("factor"), rep, "solve")
    rep.state((case["mesh"], tuple(np.round(s.solved, 7))))


def superpose(case, rep):
    """linearity: bc and charge of two solves add up"""
    mesh, nat = case["mesh"], case.get("natural", False)
    n = exact(mesh).n
    (a, b), (u, v) = case["bcs"], case["nodes"]
    out = []
    for bc, q in ((a, unit(n, u)), (b, unit(n, v)), ([a[0] + b[0], a[1] + b[1]], [x + y for x, y in zip(unit(n, u), unit(n, v))])):
        s = Solver(mesh, bc, nat)
        s.run(q, None, rep, "solve")
        out.append(s.solved)
    m = np.abs(out[0]) + np.abs(out[1]) + np.abs(out[2])
    require(np.all(np.abs(out[0] + out[1] - out[2]) <= 1e-9 * m.max()), "superposition", lambda: str([list(o) for o in out]))
    rep.note("superposition")


def apply(s, op, rep, what):
    n = s.ex.n
    if op[0] == "solve":
        s.run(None, None, rep, what)
    elif op[0] == "charge":
        s.run(unit(n, *[v % n for v in op[1]]), op[2], rep, what)
    else:
        s.source(op[1])


def sequence(case, rep):
    ss = [Solver(case["mesh"], bc, case.get("natural", False), again=case.get("again", False)) for bc in case["bcs"]]
    for i, (k, op) in enumerate(case["ops"]):
        apply(ss[k], op, rep, "operation %d %s" % (i, op))
        for j, t in enumerate(ss):
            if j != k and t.solved is not None:
                now = np.array(t.phi.function_values.get_local())[t.dof]
                require(np.array_equal(now, t.solved), "another solver's potential changed", str(op))
    for k, s in enumerate(ss):
        apply(s, ["solve"], rep, "final solve")
    if len(ss) > 1:
        rep.note("two solvers")
    rep.state((case["mesh"], repr(case["ops"])))


def alphabet(mesh):
    n = exact(mesh).n
    free = [v for v in range(n) if v not in exact(mesh).sides["xmin"] | exact(mesh).sides["xmax"]]
    a = [["solve"], ["charge", [free[0]], None], ["charge", [free[-1]], 0.5], ["charge", [free[0], free[-1]], -2.0], ["charge", [], None],
         ["source", 0.0], ["source", 3 * Q], ["source", None], ["source", ["%r*(1+x[0])" % Q, Q, Q]]]
    return a


def variants(mesh):
    return [{}, {"natural": True}] if kind(mesh) == "r" else [{}]


def jobs(tier):
    for k in MESHES:
        for mesh in MESHES[k]:
            for v in variants(mesh):
                if mesh == "radial0" and not v:
                    continue                      # a fixed value at the origin of a sphere is not a meaningful condition
                b = dict(v, mesh=mesh)
                yield dict(b, what="inputs")
                yield dict(b, what="superpose")
                yield dict(b, what="mirror")
                for i in range(len(alphabet(mesh))):
                    yield dict(b, what="seq", first=i)
                    yield dict(b, what="two", first=i)


    for mesh in SCALED:
        for v in variants(mesh):
            yield dict(v, mesh=mesh, what="inputs")
            yield dict(v, mesh=mesh, what="superpose")


def explore(job, tier, rep):
    mesh = job["mesh"]
    b = {k: job[k] for k in ("mesh", "natural") if k in job}
    n = exact(mesh).n
    if job["what"] == "inputs":
        for bc in BC:
            for nodes in [None, []] + [[i] for i in range(n)] + [[i, j] for i in range(n) for j in range(i)]:
                for factor in ((None, 0.0, -3.0, 1.0) if nodes else (None,)):
                    for E in ((True, False) if len(nodes or []) < 2 else (True,)):
                        case = dict(b, what="inputs", bc=list(bc), nodes=nodes, factor=factor, E=E)
                        rep.run(case, lambda: inputs(case, rep))
            for rho in (0, 1, -1, -3, 2, 0.0, Q, 1.5, -0.25, -2.5 * Q, None, ["%r" % Q, Q], ["%r*x[0]" % Q, 0.0, Q], ["%r*(2-x[0])" % Q, 2 * Q, -Q]) + (
                    (["%r*(x[0]-3*x[1]+0.5)" % Q, 0.5 * Q, Q, -3 * Q],) if kind(mesh) == "2D" else ()):
                case = dict(b, what="inputs", bc=list(bc), rho=rho)
                rep.run(case, lambda: inputs(case, rep))
    elif job["what"] == "mirror":               # solutions that are the opposite of one another, or mirror images
        free = [v for v in range(n) if v not in exact(mesh).sides["xmin"] | exact(mesh).sides["xmax"]]
        A = [["charge", [v], f] for v in free[:3] + free[3:][-1:] for f in (1.0, -1.0)] + [["source", 3 * Q], ["source", -3 * Q], ["source", 0]]
        for ops in product(A, repeat=2):
            for bc in ([0.0, 0.0], [2.0, -2.0]):
                case = dict(b, what="seq", bcs=[bc], ops=[[0, op] for op in ops])
                rep.run(case, lambda: sequence(case, rep))
                rep.note("mirror")
    elif job["what"] == "superpose":
        for x, y in product(range(len(BC)), repeat=2):
            for u, v in ((0, n - 1), (n // 2, 1), (n // 3, n // 3)):
                case = dict(b, what="superpose", bcs=[list(BC[x]), list(BC[y])], nodes=[u, v])
                rep.run(case, lambda: superpose(case, rep))
    else:
        A = alphabet(mesh)
        depth = {"seq": 3, "two": 2}[job["what"]] + (tier != "quick")
        bcs = [[-2.5, 4.0]] if job["what"] == "seq" else [[1.0, 0.0], [-2.5, 4.0]]
        letters = [[k, op] for k in range(len(bcs)) for op in A]
        for t in product(letters, repeat=depth - 1):
            case = dict(b, what="seq", bcs=bcs, ops=[[0, A[job["first"]]]] + list(t))
            rep.run(case, lambda: sequence(case, rep))
        if job["what"] == "seq":
            for t in product(letters, repeat=depth - 2):
                case = dict(b, what="seq", bcs=bcs, ops=[[0, A[job["first"]]]] + list(t), again=True)
                rep.run(case, lambda: sequence(case, rep))
                rep.note("made anew")


def warm():
    for k in MESHES:
        for mesh in MESHES[k]:
            s = Solver(mesh, [1.0, 2.0])
            s.S.solve_for_phi()


def replay(case, rep):
    rep.run(case, lambda: {"inputs": inputs, "superpose": superpose, "seq": sequence}[case["what"]](case, rep))
