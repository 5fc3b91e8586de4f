"""C21: field arithmetic touches exactly the selected values; evaluation at points is exact and in order."""
from fractions import Fraction as F
from itertools import product, combinations
import numpy as np
import dolfin as df
from mc import plib as L
from mc.c18 import Draws, region
from mc.core import require, Violation

TECHNIQUE = "explicit-state exploration: every sequence of field operations up to a depth, over every region of small meshes and every element type, on the real field class, each state compared with an independent per-value model; exhaustive evaluation at all lattice points against exact interpolation"
LEVEL_NOTE = "Exhaustive within the stated bounds. Random draws are enumerated stand-ins (all different), so distributions are not claimed, only where each draw goes."
BOUNDS = {
    "quick": "6 meshes (1D/2D/3D, unordered numbering) x {DG0,CG1,CG2} scalar and {DG0,CG1} vector; all sequences of 2 operations from an alphabet of 12 operation kinds with general and special factors (0, 1, -1), with every non-empty region of meshes of up to 4 cells and every single/adjacent pair/whole region otherwise, and all sequences of 3 over a reduced alphabet; evaluation at every point of a lattice of step 1/4 (1/3 in 3D) of every cell, in 5 selections and orders, in 3 kinds of array; single operations and evaluation with values of sizes 2**-64 to 2**64; and by the compiled evaluator for piecewise-constant fields in each particle type",
    "thorough": "as quick with sequences of 3 operations over the full alphabet on meshes of up to 4 cells, sequences of 4 over the reduced one, lattice step 1/8 (1/4 in 3D)",
}
ORACLE = "one number per degree of freedom, its position and its cells computed by exact geometry; barycentric interpolation in exact rationals"
ASSUMPTIONS = ["set_values and set_gaussian_values with a region set the rest of the field to zero (documented)"]
EXPECT = {"sequences": 20000, "points": 3000, "random points": 100, "gaussian": 1000, "shared values": 1000, "compiled points": 300}

MESHES = ("line4", "line_shuffled", "unit_square", "square_crossed", "ell", "cube")
ELEMENTS = (("DG", 0, "scalar"), ("CG", 1, "scalar"), ("DG", 0, "vector"), ("CG", 1, "vector"), ("CG", 2, "scalar"))
_worlds, _fields, _regions = {}, {}, {}


def world(mesh):
    if mesh not in _worlds:
        _worlds[mesh] = L.World(mesh)
    return _worlds[mesh]


class Layout(object):
    """Where the values of a field live, from exact geometry."""

    def __init__(self, w, fld, el):
        em = w.em
        self.el = el
        X = np.array(fld.function_space.tabulate_dof_coordinates()).reshape(-1, em.dim)
        snap = (lambda v: F(v).limit_denominator(48))
        self.x = [tuple(snap(v) for v in r) for r in X]
        self.cells = []
        for x in self.x:
            if el[0] == "DG":
                c = [c for c in range(len(em.cells)) if tuple(sum(em.coords[v][k] for v in em.cells[c]) / F(len(em.cells[c])) for k in range(em.dim)) == x]
                if len(c) != 1:
                    raise RuntimeError("harness: DG0 value at %s" % (x,))
                self.cells.append(set(c))
            else:
                self.cells.append({c for c in range(len(em.cells)) if em.contains(c, x)})
        n = len(self.x)
        if el[2] == "vector" and em.dim > 1:
            self.comp = [None] * n
            for k in range(em.dim):
                for i in fld.function_space.sub(k).dofmap().dofs():
                    self.comp[int(i)] = k
        else:
            self.comp = [0] * n

    def of(self, cells):
        s = set(cells)
        return [i for i in range(len(self.x)) if self.cells[i] & s]


def fields(mesh, el, k=2):
    key = (mesh, el)
    if key not in _fields:
        from Dolfin_Module import Field_C
        w = world(mesh)
        kind = "".join(list(el[2]))          # not an interned literal: a name read from a file is as good
        fs = [Field_C(w.mesh_M, el[0], el[1], kind) for _ in range(k)]
        _fields[key] = fs, Layout(w, fs[0], el)
    return _fields[key]


def reg(mesh, cells):
    key = (mesh, tuple(cells))
    if key not in _regions:
        _regions[key] = region(world(mesh), list(cells))
    return _regions[key]


def regions(mesh):
    n = len(world(mesh).em.cells)
    if n <= 4:
        return [list(c) for k in range(1, n + 1) for c in combinations(range(n), k)]
    return [[c] for c in range(n)] + [[c, c + 1] for c in range(n - 1)] + [list(range(n))]


def values(f):
    return np.array(f.function_values.get_local())


def start(f, seed, size=1.0):
    n = f.function_len
    v = np.array([(1 + (i * 7 + seed * 5) % 13) / 4.0 * (-1) ** (i + seed) for i in range(n)]) * size
    f.function_values.set_local(v)
    f.function_values.apply("insert")
    return v


def used_up(handed, out, scale, require_distinct, what):
    """every ratio is scale times some handed-out draw"""
    pool = [round(z * 8192) for z in handed]
    for o in out:
        k = o / scale * 8192
        require(abs(k - round(k)) < 1e-6 and round(k) in pool, "random value", lambda: "%s: %r is not %r times a normal draw" % (what, o, scale))
        if require_distinct:
            pool.remove(round(k))


def sequence(case, rep):
    mesh, el = case["mesh"], tuple(case["el"])
    (f, g), lay = fields(mesh, el)
    size = 2.0 ** case.get("size", 0)            # fields are of every magnitude: densities of 1e18, charges of 1e-19
    m = start(f, 1, size)
    gv = start(g, 2, size)
    n = len(m)
    require(f.function_len == n == len(lay.x), "length")
    for op in case["ops"]:
        k, S = op[0], op[-1] if isinstance(op[-1], list) else None
        kw = {} if S is None else {"subdomain": reg(mesh, S)}
        sel = list(range(n)) if S is None else lay.of(S)
        rest = [i for i in range(n) if i not in set(sel)]
        before = values(f)
        with Draws([], None) as d:
            if k == "set":
                f.set_values(op[1] * size, **kw)
                m = np.zeros(n)
                m[sel] = op[1] * size
            elif k == "mul":
                f.multiply_values(op[1], **kw)
                m = m.copy()
                m[sel] *= op[1]
                if S is not None and any(len(lay.cells[i] & set(S)) > 1 for i in sel):
                    rep.note("shared values")
            elif k == "add":
                f.multiply_add(g, **({} if op[1] is None else {"multiplier": op[1]}))
                m = m + gv * (1.0 if op[1] is None else op[1])
            elif k == "self":
                f.multiply_add(f, **({} if op[1] is None else {"multiplier": op[1]}))
                m = m + m * (1.0 if op[1] is None else op[1])
            elif k == "gset":
                f.set_gaussian_values(op[1] * size, **kw)
                now = values(f)
                if d.z:
                    used_up(d.z, now[sel], op[1] * size, S is None, "set_gaussian_values")
                m = np.zeros(n)
                m[sel] = now[sel]
                rep.note("gaussian")
            elif k == "gmul":
                f.multiply_values(op[1], gaussian=True, **kw)
                now = values(f)
                nz = [i for i in sel if before[i] != 0]
                if d.z:
                    used_up(d.z, [now[i] / before[i] for i in nz], op[1], True, "multiply_values(gaussian)")
                m = m.copy()
                m[nz] = now[nz]
                rep.note("gaussian")
        now = values(f)
        bad = [i for i in range(n) if abs(now[i] - m[i]) > 1e-12 * (size + abs(m[i])) or (i in rest and now[i] != m[i])]
        require(not bad, "field value", lambda: "%s after %s: value %d at %s is %r, should be %r" % (
            mesh, op, bad[0], [str(v) for v in lay.x[bad[0]]], now[bad[0]], m[bad[0]]))
        require(np.array_equal(np.array(f.function.vector().get_local()), now), "function and values disagree", str(op))
        require(np.array_equal(values(g), gv), "another field changed", str(op))
        m = now
        rep.step()
    rep.note("sequences")
    rep.state((mesh, el, tuple(np.round(m, 9))))


def shape(em, c, x, el):
    """[(position of the value, weight)] in cell c at point x."""
    b = em.bary(c, x)
    vs = em.cells[c]
    if el[0] == "DG":
        return [(tuple(sum(em.coords[v][k] for v in vs) / F(len(vs)) for k in range(em.dim)), F(1))]
    if el[1] == 1:
        return [(tuple(em.coords[v]), b[i]) for i, v in enumerate(vs)]
    out = [(tuple(em.coords[v]), b[i] * (2 * b[i] - 1)) for i, v in enumerate(vs)]
    for i, j in combinations(range(len(vs)), 2):
        out.append((tuple((em.coords[vs[i]][k] + em.coords[vs[j]][k]) / 2 for k in range(em.dim)), 4 * b[i] * b[j]))
    return out


def at(em, lay, v, c, x):
    nc = em.dim if lay.el[2] == "vector" else 1
    where = {(lay.x[i], lay.comp[i]): v[i] for i in range(len(v))}
    out = [0.0] * nc
    for p, w in shape(em, c, x, lay.el):
        for k in range(nc):
            out[k] += float(w) * where[p, k]
    return out


def points_of(mesh, el, step):
    """(cell, exact point) on a lattice of every cell; on faces too when the field is continuous."""
    em = world(mesh).em
    out = []
    for c in range(len(em.cells)):
        vs = em.cells[c]
        for b in product(range(step + 1), repeat=len(vs) - 1):
            if sum(b) > step or (el[0] == "DG" and (0 in b or sum(b) == step)):
                continue
            bb = [F(step - sum(b), step)] + [F(k, step) for k in b]
            out.append((c, tuple(sum(bb[i] * em.coords[v][k] for i, v in enumerate(vs)) for k in range(em.dim))))
    return out


def arrays(kind, pts, d, nc):
    n = len(pts)
    if kind == "particle":
        P = np.zeros(n, dtype=[("x", float), ("y", float), ("z", float), ("ux", float), ("weight", float), ("cell_index", np.int32)])
        for i, (c, x) in enumerate(pts):
            for k, nm in enumerate("xyz"):
                P[i][nm] = float(x[k]) if k < d else 77.0
            P[i]["ux"] = 5.0
            P[i]["cell_index"] = c
    elif kind == "list":
        P = np.array([[float(v) for v in x] + [99.0] * (3 - d) for c, x in pts]).reshape(n, 3)
    else:
        P = np.array([[float(v) for v in x] for c, x in pts]).reshape(n, d)
    out = np.full(n + 2, -8.0, dtype=float).view([("f0", float)]) if nc == 1 else np.zeros(n + 2, dtype=[("f%d" % k, float) for k in range(nc)])
    for i in range(n + 2):
        for k in range(nc):
            out[i]["f%d" % k] = -8.0 - k
    return P, out


def evaluate(case, rep):
    mesh, el = case["mesh"], tuple(case["el"])
    (f, g), lay = fields(mesh, el)
    em = world(mesh).em
    size = 2.0 ** case.get("size", 0)
    v = start(f, case["seed"], size)
    if case.get("zero") is not None:            # nothing but zero in all components, or in one
        v[[i for i in range(len(v)) if case["zero"] in (-1, lay.comp[i])]] = 0.0
        f.function_values.set_local(v)
        f.function_values.apply("insert")
    nc = em.dim if el[2] == "vector" else 1
    pts = points_of(mesh, el, case["step"])
    pts = {"up": pts, "down": pts[::-1], "mixed": pts[1::2] + pts[0::2], "one": pts[:1], "none": []}[case["order"]]
    P, out = arrays(case["array"], pts, em.dim, nc)
    keep = P.copy()
    if case.get("random"):
        with Draws([], None) as d:
            f.interpolate_random_field_to_points(P, out)
        pool = [round(z * 8192) for z in d.z]
    else:
        f.interpolate_field_to_points(P, out)
    for i, (c, x) in enumerate(pts):
        got = [float(out[i]["f%d" % k]) for k in range(nc)]
        want = at(em, lay, v, c, x)
        if case.get("random"):
            big = max(range(nc), key=lambda k: abs(want[k]))
            if abs(want[big]) < 1e-9 * size:
                require(all(abs(a) < 1e-6 * size for a in got), "random field where the field is zero", lambda: str(got))
                continue
            z = got[big] / want[big]
            if d.z:
                k = z * 8192
                require(abs(k - round(k)) < 1e-5 and round(k) in pool, "random multiplier", lambda: "point %d: factor %r is not a normal draw of its own" % (i, z))
                pool.remove(round(k))
            want = [z * a for a in want]
            rep.note("random points")
        require(all(abs(a - b) < 1e-9 * (size + abs(b)) for a, b in zip(got, want)), "field at point",
                lambda: "%s %s point %d at %s (cell %d): %s, should be %s" % (mesh, el, i, [str(t) for t in x], c, got, want))
        rep.note("points")
        rep.step()
    for i in range(len(pts), len(pts) + 2):
        require(all(float(out[i]["f%d" % k]) == -8.0 - k for k in range(nc)), "output beyond the points changed")
    require(P.tobytes() == keep.tobytes(), "points changed")
    require(np.array_equal(values(f), v), "field changed by evaluating it")
    rep.state((mesh, el, case["order"], case["array"], case["seed"]))


def compiled(case, rep):
    """The compiled evaluation of a piecewise-constant field at particles (by their cell)."""
    import importlib
    mesh, el, system = case["mesh"], tuple(case["el"]), case["system"]
    (f, g), lay = fields(mesh, el)
    em = world(mesh).em
    size = 2.0 ** case.get("size", 0)
    v = start(f, case["seed"], size)
    nc = em.dim if el[2] == "vector" else 1
    mod = importlib.import_module("dolfin_functions_solib")
    P = L.make_particles([("a", 1.0, 1.0)], {"cartesian_x": 1, "cartesian_xy": 2, "cartesian_xyz": 3}[system], 2, True, system=system)
    pts = points_of(mesh, el, case["step"])
    pts = {"up": pts, "down": pts[::-1], "mixed": pts[1::2] + pts[0::2], "one": pts[:1], "none": []}[case["order"]]
    n = len(pts)
    rec = np.zeros(n + 1, dtype=P.particle_dtype)
    for i, (c, x) in enumerate(pts):
        for k, nm in enumerate("xyz"[:P.particle_dimension]):
            rec[i][nm] = float(x[k]) if k < em.dim else 77.0
        rec[i]["cell_index"] = c
        rec[i]["unique_ID"] = 40 + i
    out = np.full((n + 2, nc), -8.0)
    keep = rec.copy()
    getattr(mod, "interpolate_field_to_points_" + system)(f, rec, n, out)
    for i, (c, x) in enumerate(pts):
        want = at(em, lay, v, c, x)
        require(list(out[i]) == want, "compiled field at point", lambda: "%s point %d (cell %d): %s, should be %s" % (mesh, i, c, list(out[i]), want))
        rep.note("compiled points")
        rep.step()
    require(np.all(out[n:] == -8.0), "output beyond the points changed")
    require(rec.tobytes() == keep.tobytes() and np.array_equal(values(f), v), "points or field changed")


def alphabet(mesh, small=False):
    R = regions(mesh)
    if small:
        R = [R[0], R[-1], R[len(R) // 2]]
    a = [["set", 2.5], ["mul", -1.5], ["add", None], ["add", 0.75], ["self", None], ["self", -0.5], ["gset", 0.5], ["gmul", 1.25]]
    for S in R:
        a += [["set", -3.0, S], ["mul", 0.5, S], ["gset", 2.0, S], ["gmul", 0.75, S]]
    if not small:
        a += [["set", 0.0], ["mul", 0.0], ["mul", 1.0], ["set", 1.0], ["self", 0.0], ["self", -1.0], ["add", 0.0], ["add", -1.0], ["add", 1.0]]
        for S in R:
            a += [["set", 0.0, S]]
        for S in (R[0], R[-1], R[len(R) // 2]):
            a += [["set", 1.0, S], ["mul", 0.0, S], ["mul", 1.0, S]]
    return a


def jobs(tier):
    for mesh in MESHES:
        for el in ELEMENTS:
            b = {"mesh": mesh, "el": list(el)}
            n = len(world(mesh).em.cells)
            for i in range(len(alphabet(mesh))):
                yield dict(b, what="seq2", first=i)
            for i in range(len(alphabet(mesh, True))):
                yield dict(b, what="seq3" if tier == "quick" or n > 4 else "seq4", first=i)
            if tier != "quick" and n <= 4:
                for i in range(len(alphabet(mesh))):
                    yield dict(b, what="full3", first=i)
            yield dict(b, what="points")
            yield dict(b, what="sizes")


def explore(job, tier, rep):
    b = {k: job[k] for k in ("mesh", "el")}
    if job["what"] == "points":
        d = world(job["mesh"]).dim
        step = (4 if d < 3 else 3) if tier == "quick" else (8 if d < 3 else 4)
        if job["el"][0] == "DG" and d == 3:
            step += 1
        for seed in (1, 2, 3):
            for order in ("up", "down", "mixed", "one", "none"):
                for arr in ("particle", "list", "plain"):
                    for rnd in (False, True):
                        for zero in [None, -1] + (list(range(d)) if d > 1 and job["el"][2] == "vector" else []):
                            case = dict(b, what="points", seed=seed, order=order, array=arr, step=step, random=rnd, zero=zero)
                            rep.run(case, lambda: evaluate(case, rep))
                for system in ("cartesian_x", "cartesian_xy", "cartesian_xyz")[d - 1:] if job["el"][0] == "DG" else ():
                    case = dict(b, what="compiled", seed=seed, order=order, step=step, system=system)
                    rep.run(case, lambda: compiled(case, rep))
        return
    if job["what"] == "sizes":
        d = world(job["mesh"]).dim
        A = alphabet(job["mesh"], True)
        for size in (-64, -30, 30, 64):
            for t in product(A, repeat=1 if tier == "quick" else 2):
                case = dict(b, what="seq", ops=list(t), size=size)
                rep.run(case, lambda: sequence(case, rep))
            for order, arr, rnd, zero in product(("up", "mixed"), ("particle", "plain"), (False, True), (None, -1, 0)):
                case = dict(b, what="points", seed=1, order=order, array=arr, step=4 if d < 3 else 3 + (job["el"][0] == "DG"), random=rnd, zero=zero, size=size)
                rep.run(case, lambda: evaluate(case, rep))
            for system in ("cartesian_x", "cartesian_xy", "cartesian_xyz")[d - 1:] if job["el"][0] == "DG" else ():
                case = dict(b, what="compiled", seed=1, order="up", step=4, system=system, size=size)
                rep.run(case, lambda: compiled(case, rep))
        return
    A = alphabet(job["mesh"], job["what"] in ("seq3", "seq4"))
    for t in product(A, repeat={"seq2": 1, "seq3": 2, "full3": 2, "seq4": 3}[job["what"]]):
        case = dict(b, what="seq", ops=[A[job["first"]]] + list(t))
        rep.run(case, lambda: sequence(case, rep))


def warm():
    for mesh in MESHES:
        for el in ELEMENTS:
            fields(mesh, el)


def replay(case, rep):
    rep.run(case, lambda: {"points": evaluate, "compiled": compiled, "seq": sequence}[case["what"]](case, rep))
