"""C15: charged particles are accelerated by the field at their own position."""
from fractions import Fraction as F
from itertools import product
import numpy as np
from mc import flight as T
from mc import plib as L
from mc.c18 import Draws
from mc.core import require

TECHNIQUE = "exhaustive enumeration of all lattice starts x lattice velocities over meshes with a different field in every cell, several segments and steps with deaths in between, and of every on/off combination of the solved and external fields per species and of acceleration-only calls, on the real Python and compiled movers, compared with exact rational kicks, drifts and ray tracing"
LEVEL_NOTE = "Exhaustive over the stated lattices, meshes, switches and steps. The compiled movers accept piecewise-constant fields only and have no external field; the random factor of the external field is replaced by a known one."
BOUNDS = {
    "quick": "7 meshes (3 interval/radial, 3 triangle, 1 tetrahedron); piecewise-constant field different in every cell and (Python) a field linear in position; two species of different charge/mass; lattice starts and velocities, 3 steps, segment length 3; all 6 settings of the solved field x 6 of the external field x acceleration-only x followed or not; the same motion in 6 other systems of units (velocities, charges, masses and fields from 2**-160 to 2**100 times as large); every pair of species declared with 3 charges x 3 kinds of dynamics",
    "thorough": "as quick with finer lattices and 4 steps",
}
ORACLE = "exact rational kick (q/m)(E_solved + E_external) dt at the particle's own position, then drift and ray tracing"
ASSUMPTIONS = ["a particle on a facet between cells is left out (its own cell is ambiguous)", "the random draw is replaced by a fixed sequence"]
EXPECT = {"particles": 5000, "kicks": 15000, "switches": 300, "absorbed": 500, "declared": 100}

MOVERS = {
    "py1": (False, None, "line_uneven", 1), "py2": (False, None, "skewed", 2), "py3": (False, None, "cube", 3),
    "py2b": (False, None, "ell", 2),
    "x": (True, "cartesian_x", "line_uneven", 1), "xy": (True, "cartesian_xy", "skewed", 2),
    "xyb": (True, "cartesian_xy", "ell", 2), "r": (True, "spherical_r", "radial", 1),
}
SPECIES = [("plus", 1.0, 1.0), ("minus", -2.0, 8.0)]
QM = {"plus": F(1), "minus": F(-1, 4)}
DT = F(1, 2)
# (velocities, charges, masses) in powers of 2: electrons in SI units, ions in SI units, tiny fields, fast, slow
SIZES = ((40, -62, -98), (30, -60, -84), (0, 0, -60), (50, 0, 0), (-40, 0, 0), (0, 60, 0))
DTS = (DT, DT / 2, DT, DT / 4, DT)            # the timestep may change between steps


def Es(c, k):
    return F(2 * c + 1 + 17 * k, 64) * (-1) ** c


def Ex(c, k):
    return F(3 * c + 2 + 5 * k, 32) * (-1) ** k


def lin(x, k, which):
    """A field linear in position."""
    s = F(1, 8) if which == "solved" else F(-1, 16)
    return s * (1 + k) + sum((F(j + 1, 16) if which == "solved" else F(2 - j, 32)) * (1 if j == k else -1) * v for j, v in enumerate(x))


def field_at(case, which, c, x, k):
    if case["field"] == "DG":
        return (Es if which == "solved" else Ex)(c, k)
    return lin(x, k, which)


_cache = {}


def setup(case):
    cpp, system, mesh, dim = MOVERS[case["mover"]]
    size = 2.0 ** sizes(case)[3]
    k = (mesh, system, case["field"], size)
    if k not in _cache:
        from Dolfin_Module import Field_C
        w = L.World(mesh, coordinate_system="1D-spherical-radial" if system == "spherical_r" else "Cartesian")
        out = []
        for which, sign in (("solved", -1), ("ext", 1)):
            if case["field"] == "DG":
                f = Field_C(w.mesh_M, "DG", 0, "vector")
                dm = f.function_space.dofmap()
                v = f.function.vector().get_local()
                for c in range(len(w.em.cells)):
                    for kk, d in enumerate(dm.cell_dofs(c)):
                        v[d] = size * sign * float((Es if which == "solved" else Ex)(c, kk))
                f.function.vector().set_local(v)
            else:
                f = Field_C(w.mesh_M, "Lagrange", 1, "vector")
                dm = f.function_space.dofmap()
                v = f.function.vector().get_local()
                nv = dim + 1
                for c in range(len(w.em.cells)):
                    ds = dm.cell_dofs(c)
                    for kk in range(dim):
                        for i in range(nv):
                            v[ds[kk * nv + i]] = size * sign * float(lin(w.em.coords[w.em.cells[c][i]], kk, which))
                f.function.vector().set_local(v)
            f.function.vector().apply("insert")
            out.append(f)
        _cache[k] = (w, out[0], out[1])
    return _cache[k]


def sizes(case):
    """Powers of 2 for velocity (and 1/time), charge, mass and field: the same motion in other units."""
    a, b, c = case.get("size", (0, 0, 0))
    return a, b, c, 2 * a - b + c


def on(setting, sn):
    """Is a field with this setting (None, 'absent', or a dict of flags) applied to the species?"""
    if setting == "absent":
        return False
    return True if setting == "default" else setting[sn]


def exact(case, em, sn, x, d, steps):
    """Exact states after every step: [(alive, x, u, cell)], or None when not in general position."""
    u = [v / DT for v in d]
    cs = em.cells_of(x)
    if len(cs) != 1 or min(em.bary(cs[0], x)) < T.MARGIN:
        return None
    c, out = cs[0], []
    for n in range(steps):
        E = [F(0)] * em.dim
        if on(case["solved"], sn):
            E = [a + field_at(case, "solved", c, x, k) for k, a in enumerate(E)]
        if on(case["ext"], sn):
            E = [a + field_at(case, "ext", c, x, k) * F(case["factor"]) for k, a in enumerate(E)]
        u = [a + QM[sn] * DTS[n] * b for a, b in zip(u, E)]
        if not case["accel_only"]:
            tr = em.trace(c, x, [v * DTS[n] for v in u], lambda f: "absorb" if f in em.exterior else None)
            if not T.generic(em, c, tr):
                return None
            if not tr["alive"]:
                out.append((False, tr["end"], u, None))
                return out
            x, c = tr["end"], tr["cell"]
        out.append((True, x, u, c))
    return out


class FixedNormal(Draws):
    """Stands in for the random generator: every normal draw is the same."""

    def __init__(self, value):
        Draws.__init__(self, [], None)
        self.value = value

    def n(self, size):
        return self.value if size is None else np.full(size, self.value)


def follow(P, dim):
    from RecordedData_Module import TrajectoryInput_C, Trajectory_C
    t = TrajectoryInput_C()
    t.max_points, t.extra_points = None, 6
    co = P.position_coordinates
    nm = ["step", "t"] + list(co) + ["u" + c for c in co]
    t.charged_dict = {"names": nm + ["E" + c for c in co], "formats": [int] + [np.float64] * (1 + 3 * dim)}
    t.neutral_dict = {"names": nm, "formats": [int] + [np.float64] * (1 + 2 * dim)}
    c = L.control(float(DT))
    c.title = c.author = "x"
    c.write_trajectory_files = False
    c.n_timesteps = 5
    P.traj_T = Trajectory_C(t, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)


def one(case, rep):
    cpp, system, mesh, dim = MOVERS[case["mover"]]
    w, Fs, Fe = setup(case)
    em = w.em
    sa, sq, sm, se = sizes(case)
    fast = 2.0 ** sa
    P = L.make_particles([(s, q * 2.0 ** sq, m * 2.0 ** sm) for s, q, m in SPECIES], dim, 3, cpp, system=system)
    L.attach(P, w)
    P.traj_T = None
    if case["follow"]:
        follow(P, dim)
    steps = case["steps"]
    want = {}
    for i, (sn, x, d) in enumerate(case["batch"]):
        x, d = [F(v) for v in x], [F(v) for v in d]
        path = exact(case, em, sn, x, d, steps)
        if path is None:
            rep.note("left_out_not_general")
            continue
        fl = 6 if case["follow"] and i % 2 == 0 else 4
        ret = P.sap_dict[sn].push_back(L.record(P, x, [float(v / DT) * fast for v in d], weight=1 + i, flags=fl, uid=i, cell=em.cells_of(x)[0]))
        if fl == 6:
            P.traj_T.create_trajectory(sn, int(ret[1]), "charged", unique_id_int=i)
        want[i] = (sn, path, fl, "species %s start %s velocity %s" % (sn, T.show(x), T.show([v / DT for v in d])))
        rep.note("particles")
    for n in range(steps):
        ctrl = L.control(float(DTS[n]) / fast, nstep=n + 1, time=float(sum(DTS[:n + 1])) / fast)
        ctrl.apply_solved_electric_field = case["solved"] if isinstance(case["solved"], dict) else None
        ctrl.apply_random_external_electric_field = case["ext"] if isinstance(case["ext"], dict) else None
        kw = {}
        if case["solved"] != "absent":
            kw["neg_E_field"] = Fs
        if case["ext"] != "absent":
            kw["external_E_field"] = Fe
        with FixedNormal(case["factor"]):
            P.advance_charged_particles_in_E_field(ctrl, accel_only=case["accel_only"], **kw)
        got = {}
        for s in QM:
            its = L.items(P, s)
            require([int(p["unique_ID"]) for p in its] == sorted(int(p["unique_ID"]) for p in its), "order", s)
            for p in its:
                got[int(p["unique_ID"])] = p
        for i, (sn, path, fl, what) in want.items():
            if n >= len(path):
                require(i not in got, "resurrected", what)
                continue
            alive, x, u, c = path[n]
            rep.note("kicks")
            rep.step()
            if not alive:
                rep.note("absorbed")
                require(i not in got, "not absorbed", lambda: "%s step %d" % (what, n + 1))
                continue
            require(i in got, "lost", lambda: "%s step %d: should be at %s" % (what, n + 1, T.show(x)))
            p = got[i]
            gu = [float(p[2 * dim + k]) / fast for k in range(dim)]
            require(T.close(gu, u), "wrong velocity", lambda: "%s step %d: velocity %s, should be %s" % (what, n + 1, gu, T.show(u)))
            gx = [float(p[k]) for k in range(dim)]
            require(T.close(gx, x), "wrong position", lambda: "%s step %d: at %s, should be at %s" % (what, n + 1, gx, T.show(x)))
            require(int(p["cell_index"]) == c, "wrong cell", lambda: "%s step %d: cell %d, should be %d" % (what, n + 1, int(p["cell_index"]), c))
            require(p["weight"] == 1 + i and int(p["bitflags"]) == fl, "record altered", what)
            rep.state((case["mover"], sn, c, n, str(case["solved"]), str(case["ext"])))
        require(set(got) <= set(want), "unknown particle")


KINDS = [(q, d) for q in (1.0, 0, -2.0) for d in ("charged", "neutral", "explicit")]


def declared(case, rep):
    """Whatever charge and dynamics the species are declared with, each is moved once per step, and accelerated iff it is charged."""
    cpp, system, mesh, dim = MOVERS[case["mover"]]
    w, Fs, Fe = setup(case)
    em = w.em
    sp = [("s%d" % i,) + (KINDS[k][0], 2.0 ** i, KINDS[k][1]) for i, k in enumerate(case["kinds"])]
    P = L.make_particles(sp, dim, 2, cpp, system=system)
    L.attach(P, w)
    P.traj_T = None
    want = {}
    for sn, q, m, dyn in sp:
        acts = q if dyn != "neutral" else 0.0        # a species declared neutral has its charge ignored
        require(P.charge[sn] == acts and P.qom[sn] == acts / m, "charge", lambda: "%s declared %s with charge %r has charge %r" % (sn, dyn, q, P.charge[sn]))
        require(P.charged_species.count(sn) == (acts != 0) and P.neutral_species.count(sn) == (acts == 0), "kind of species", lambda: "%s declared %s, %r" % (sn, dyn, q))
        for i, c in enumerate(range(len(em.cells))):
            x = em.centroid(c) if hasattr(em, "centroid") else [sum(em.coords[v][k] for v in em.cells[c]) / len(em.cells[c]) for k in range(dim)]
            u = [F(1 + i + k, 64) for k in range(dim)]
            P.sap_dict[sn].push_back(L.record(P, x, u, weight=1 + i, flags=4, uid=i, cell=c))
            u1 = [a + F(acts) / F(m) * DT * Es(c, k) for k, a in enumerate(u)]
            tr = em.trace(c, x, [v * DT for v in u1], lambda f: "absorb" if f in em.exterior else None)
            if not T.generic(em, c, tr):
                return
            want[sn, i] = (u1, tr)
    ctrl = L.control(float(DT), nstep=1, time=float(DT))
    P.advance_charged_particles_in_E_field(ctrl, neg_E_field=Fs)
    P.advance_neutral_particles(ctrl)
    for sn, q, m, dyn in sp:
        got = {int(p["unique_ID"]): p for p in L.items(P, sn)}
        for i in range(len(em.cells)):
            u1, tr = want[sn, i]
            what = "species declared %s with charge %r, cell %d" % (dyn, q, i)
            require((i in got) == tr["alive"], "survives", what)
            if tr["alive"]:
                gx, gu = [float(got[i][k]) for k in range(dim)], [float(got[i][2 * dim + k]) for k in range(dim)]
                require(T.close(gu, u1), "wrong velocity", lambda: "%s: %s, should be %s" % (what, gu, T.show(u1)))
                require(T.close(gx, tr["end"]), "wrong position", lambda: "%s: %s, should be %s" % (what, gx, T.show(tr["end"])))
            rep.step()
    rep.note("declared")


def settings(names):
    out = ["absent", "default"]
    for a, b in product((True, False), repeat=2):
        out.append({names[0]: a, names[1]: b})
    return out


def jobs(tier):
    for m in MOVERS:
        yield {"mover": m, "what": "switches"}
        yield {"mover": m, "what": "sizes"}
        if m in ("py1", "py2", "py3", "xy"):
            yield {"mover": m, "what": "declared"}
        parts = 2 if tier == "quick" else 6
        for part in range(parts):
            yield {"mover": m, "what": "lattice", "field": "DG", "part": part, "parts": parts}
            if m.startswith("py"):
                yield {"mover": m, "what": "lattice", "field": "CG", "part": part, "parts": parts}


def particles(em, tier):
    from mc.c06 import lattice
    st, mv = lattice(em, tier)
    for s in ("plus", "minus"):
        for x in st:
            for d in mv:
                yield s, x, d


def enc(b):
    return [[s, [str(v) for v in x], [str(v) for v in d]] for s, x, d in b]


def explore(job, tier, rep):
    cpp, system, mesh, dim = MOVERS[job["mover"]]
    base = {"mover": job["mover"], "field": job.get("field", "DG"), "solved": "default", "ext": "absent", "accel_only": False,
            "follow": False, "factor": 1.0, "steps": 3 if tier == "quick" else 4}
    em = setup(base)[0].em
    if job["what"] == "declared":
        for kinds in product(range(len(KINDS)), repeat=2):
            case = {"mover": job["mover"], "field": "DG", "kinds": list(kinds)}
            rep.run(case, lambda: declared(case, rep))
        return
    allp = list(particles(em, tier))
    if job["what"] == "lattice":
        mine = allp[job["part"]::job["parts"]]
        for b in range(0, len(mine), 40):
            case = dict(base, batch=enc(mine[b:b + 40]))
            rep.run(case, lambda: one(case, rep))
        return
    if job["what"] == "sizes":
        few = enc(allp[::max(1, len(allp) // 200)])
        for size in SIZES:
            for b in range(0, len(few), 40):
                for e, factor, fld in [("absent", 1.0, "DG")] + ([("default", 1.0, "DG"), ("default", -0.5, "CG")] if not cpp else []):
                    case = dict(base, batch=few[b:b + 40], size=list(size), ext=e, factor=factor, field=fld)
                    rep.run(case, lambda: one(case, rep))
                    if e != "absent":
                        case2 = dict(case, solved="absent")
                        rep.run(case2, lambda: one(case2, rep))
        return
    few = enc(allp[::max(1, len(allp) // 24)])
    sp = ["plus", "minus"]
    solved = settings(sp)
    ext = settings(sp) if not cpp else ["absent"]
    for s, e, acc, fol in product(solved, ext, (False, True), (False, True)):
        for factor in ((1.0,) if e == "absent" else (1.0, -0.5)):
            for take in ((few, few[:2], few[:4]) if factor == 1.0 else (few,)):     # full and partly filled segments
                case = dict(base, solved=s, ext=e, accel_only=acc, follow=fol, factor=factor, batch=take)
                rep.run(case, lambda: one(case, rep))
                rep.note("switches")


def replay(case, rep):
    rep.run(case, lambda: declared(case, rep) if "kinds" in case else one(case, rep))


def warm():
    for m in ("py1", "py2", "py3"):
        for f in ("DG", "CG"):
            setup({"mover": m, "field": f})
