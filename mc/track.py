"""Free-streaming of every lattice particle through a mesh, against exact ray tracing (C04, C05)."""
from fractions import Fraction as F
from itertools import product
from mc import plib as L
from mc.core import require

TOL = 1e-9
DT = F(1, 2)
DTS = (DT, DT / 2, DT)            # the timestep may change between steps


def starts(em, step, shift):
    """Points of the shifted lattice that lie in the mesh, with the cells that contain them."""
    d = em.dim
    axes = []
    for k in range(d):
        lo, hi = min(c[k] for c in em.coords), max(c[k] for c in em.coords)
        axes.append(L.lattice(lo + shift[k], hi, step))
    for x in product(*axes):
        cs = em.cells_of(x)
        if cs:
            yield x, cs


def moves(d, span, step, shift):
    ax = [[v + shift[k] for v in L.lattice(-span, span, step)] for k in range(d)]
    return [m for m in product(*ax)]


def run_batch(world, pdim, kind, cpp, seg, batch, nsteps, rep, system=None):
    """batch: list of (x, displacement per step) exact, mesh dimensions; extra coordinates stream freely."""
    em = world.em
    sn = "one"
    unit = L.unit(world.name)
    tol = TOL * float(unit)
    P = L.make_particles([(sn, 0 if kind == "neutral" else 1.0, 1.0)], pdim, seg, cpp, system=system)
    L.attach(P, world)
    pad = [F(3, 4) * unit, F(5, 8) * unit][:pdim - em.dim]
    padu = [F(1, 4) * unit, F(-1, 2) * unit][:pdim - em.dim]
    for i, (x, dx) in enumerate(batch):
        u = [v / DT for v in dx] + padu
        L.push(P, sn, [L.record(P, list(x) + pad, u, weight=1 + i, flags=4, uid=1000 + i)])
    P.compute_mesh_cell_indices()
    E = L.zero_E(world) if kind == "charged" else None
    want = []
    for i, p in enumerate(L.items(P, sn)):
        c = int(p["cell_index"])
        require(0 <= c < len(em.cells) and em.contains(c, batch[i][0]), "wrong starting cell",
                lambda: "particle at %s given cell %d" % (show(batch[i][0]), c))
        want.append({"i": i, "x": tuple(batch[i][0]), "d": tuple(batch[i][1]), "c": c, "alive": True,
                     "pad": list(pad)})
    time = F(0)
    for n in range(nsteps):
        dt = DTS[n % len(DTS)]
        time += dt
        traces = {w["i"]: em.trace(w["c"], w["x"], [v * dt / DT for v in w["d"]],
                                   lambda f: "absorb" if f in em.exterior else None) for w in want if w["alive"]}
        # The limit on facet crossings is exactly what the batch needs, when geometry says what it needs.
        need = 100 if any(t["degenerate"] for t in traces.values()) else max([1] + [len(t["events"]) for t in traces.values()])
        ctrl = L.control(float(dt), nstep=n + 1, time=float(time), max_cross=need)
        if need < 100:
            rep.note("crossing_limit_reached")
        if kind == "neutral":
            P.advance_neutral_particles(ctrl)
        else:
            P.advance_charged_particles_in_E_field(ctrl, neg_E_field=E)
        got = {int(p["unique_ID"]) - 1000: p for p in L.items(P, sn)}
        order = [int(p["unique_ID"]) - 1000 for p in L.items(P, sn)]
        require(order == sorted(order), "storage order", lambda: "order after step %d: %s" % (n + 1, order))
        for w in want:
            if not w["alive"]:
                continue
            d = [v * dt / DT for v in w["d"]]
            tr = traces[w["i"]]
            rep.step(1 + len(tr["events"]))
            p = got.get(w["i"])
            what = "%s start %s move %s step %d" % (world.name, show(w["x"]), show(d), n + 1)
            if not tr["alive"]:
                rep.note("absorbed")
                require(p is None, "not absorbed", lambda: "%s should be absorbed; got %s" % (what, p))
                w["alive"] = False
                continue
            require(p is not None, "lost", lambda: "%s should end at %s, was removed" % (what, show(tr["end"])))
            x = [float(p[k]) for k in range(pdim)]
            w["pad"] = [a + b * dt for a, b in zip(w["pad"], padu)]
            full = list(tr["end"]) + w["pad"]
            require(all(abs(a - float(b)) < tol for a, b in zip(x, full)), "wrong end point",
                    lambda: "%s: at %s, should be at %s" % (what, x, show(full)))
            c = int(p["cell_index"])
            require(0 <= c < len(em.cells) and em.contains(c, tr["end"]), "wrong cell",
                    lambda: "%s: ends at %s, recorded in cell %d, contained in %s" % (
                        what, show(tr["end"]), c, em.cells_of(tr["end"])))
            u = [float(p[2 * pdim + k]) for k in range(pdim)]
            require(all(a == float(b / DT) for a, b in zip(u, w["d"])), "velocity changed",
                    lambda: "%s: velocity %s" % (what, u))
            require(p["weight"] == 1 + w["i"] and int(p["bitflags"]) == 4, "record altered", lambda: "%s: %s" % (what, p))
            if not tr["degenerate"]:
                k = int(p["crossings"])
                require(k == len(tr["events"]), "crossings",
                        lambda: "%s: %d crossings recorded, %d made" % (what, k, len(tr["events"])))
                x0 = [float(p[pdim + k]) for k in range(em.dim)]
                require(all(abs(a - float(b)) < tol for a, b in zip(x0, tr["last"])), "last crossing point",
                        lambda: "%s: x0 is %s, entered the cell at %s" % (what, x0, show(tr["last"])))
                rep.note("generic")
            else:
                rep.note("degenerate")
            rep.state((world.name, pdim, kind, w["c"], c, len(tr["events"])))
            w["x"], w["c"] = tr["end"], c
        require(set(order) <= {w["i"] for w in want if w["alive"]}, "resurrected", "")
    n = P.get_species_particle_count(sn)
    require(n == len(L.items(P, sn)), "count")
    return n


def show(x):
    return "(" + ", ".join("%g" % float(v) for v in x) + ")"


def plan(world_name, em, tier):
    """(starts, moves) lattices for a mesh: one in general position and one through vertices and along facets."""
    big = tier == "thorough"
    if em.dim == 1:
        s = [list(starts(em, F(1, 8), (F(0),))), list(starts(em, F(1, 8), (F(5, 128),)))]
        m = moves(1, F(4), F(1, 8), (F(0),))
        return [(s[0], m), (s[1], moves(1, F(4), F(1, 8), (F(3, 256),)))]
    if em.dim == 2:
        gen = (list(starts(em, F(1, 8) if big else F(1, 4), (F(5, 64), F(11, 128)))),
               moves(2, F(9, 4), F(1, 4) if big else F(1, 2), (F(7, 256), F(-13, 512)))
               + moves(2, F(3, 4), F(1, 8) if big else F(1, 4), (F(9, 256), F(-11, 512))))
        deg = (list(starts(em, F(1, 4) if big else F(1, 2), (F(0), F(0)))),
               moves(2, F(2), F(1, 4) if big else F(1, 2), (F(0), F(0))))
        return [gen, deg]
    gen = (list(starts(em, F(1, 4) if big else F(1, 2), (F(5, 64), F(11, 128), F(9, 64)))),
           moves(3, F(5, 4), F(1, 4) if big else F(1, 2), (F(7, 256), F(-13, 512), F(19, 1024)))
           + moves(3, F(1, 2), F(1, 4), (F(9, 256), F(-11, 512), F(23, 1024))))
    deg = (list(starts(em, F(1, 4) if big else F(1, 2), (F(0), F(0), F(0)))),
           moves(3, F(1), F(1, 4) if big else F(1, 2), (F(0), F(0), F(0))))
    return [gen, deg]


LARGE = ("wide", "long")


def large_cells(em):
    n = len(em.cells)
    return sorted({0, 1, n - 2, n - 1} | {k + j for k in (128, 256, 32768, 65536) for j in (-1, 0, 1) if k + j < n})


def large_particles(em):
    """Particles at the cells where the numbers of cells, facets or vertices need one more byte or bit."""
    for c in large_cells(em):
        vs = [em.coords[v] for v in em.cells[c]]
        x = tuple(sum(v[k] for v in vs) / len(vs) for k in range(em.dim))
        x = tuple(F(round(v * 64), 64) + F(k, 256) for k, v in enumerate(x))
        for d in product((F(-9, 8), F(1, 16), F(5, 4)), repeat=em.dim):
            yield x, tuple(v + F(k, 128) for k, v in enumerate(d))


def all_particles(name, em, tier):
    if name in LARGE:
        yield from large_particles(em)
        return
    unit = L.unit(name)
    if unit != 1:
        em = L.ExactMesh(L.mesh_of(name.split("@")[0]))
    for st, mv in plan(None, em, tier):
        for x, cs in st:
            for d in mv:
                yield tuple(v * unit for v in x), tuple(v * unit for v in d)


def explore(job, tier, rep):
    if job["mesh"] in LARGE:
        rep.note("large meshes")
    world = L.World(job["mesh"], coordinate_system=job.get("geometry", "Cartesian"))
    ext = world.em.exterior
    todo = []
    for k, p in enumerate(all_particles(job["mesh"], world.em, tier)):
        if k % job["parts"] == job["part"]:
            if world.em.usable(p[0], p[1], job["steps"], lambda f: "absorb" if f in ext else None, tuple(t / DT for t in DTS)):
                todo.append(p)
            else:
                rep.note("left_out_grazing")
    B = job["batch"]
    for b in range(0, len(todo), B):
        batch = todo[b:b + B]
        case = {"mesh": job["mesh"], "pdim": job["pdim"], "kind": job["kind"], "cpp": job["cpp"], "seg": job["seg"],
                "steps": job["steps"], "system": job.get("system"), "geometry": job.get("geometry", "Cartesian"),
                "batch": [[[str(v) for v in x], [str(v) for v in d]] for x, d in batch]}
        n0 = len(rep.violations)
        rep.run(case, lambda: run_batch(world, job["pdim"], job["kind"], job["cpp"], job["seg"], batch, job["steps"],
                                        rep, system=job.get("system")))
        if len(rep.violations) > n0 and B > 1:
            shrink(rep, case)
        rep.note("particles", len(batch))


def shrink(rep, case):
    """Replaces a failing batch by its first particle that fails alone, if one does."""
    from mc.core import Reporter
    for p in case["batch"]:
        one = dict(case, batch=[p])
        r = Reporter()
        replay(one, r)
        if r.violations:
            rep.violations[-1] = r.violations[0]
            return


def replay(case, rep):
    world = L.World(case["mesh"], coordinate_system=case.get("geometry", "Cartesian"))
    batch = [(tuple(F(v) for v in x), tuple(F(v) for v in d)) for x, d in case["batch"]]
    rep.run(case, lambda: run_batch(world, case["pdim"], case["kind"], case["cpp"], case["seg"], batch, case["steps"],
                                    rep, system=case.get("system")))


def warm():
    for n in ("line4", "square_right", "cube"):
        L.zero_E(L.World(n))
