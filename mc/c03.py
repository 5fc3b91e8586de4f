"""C03: time-stepping loses, duplicates, reorders and alters no particle."""
import ctypes
import os
from fractions import Fraction as F
from itertools import product
from mc import hist as H
from mc import plib as L
from mc.core import require, Violation

TECHNIQUE = "exhaustive enumeration of every assignment of fates (lives, flies into the wall at step k, is flagged at step k) to every particle of every small population over several steps with additions between steps, on all 13 real movers"
LEVEL_NOTE = "Exhaustive within the stated population, step and segment-length bounds; each step of each history is compared with a list model."
BOUNDS = {
    "quick": "segment lengths 1,2,3; up to 4 initial particles with up to 1 added between 2 steps, up to 5 over 2 steps, up to 7 over 1 step; every fate assignment; 13 movers; runs of 12 steps with additions every third step, 3 initial particles, segment lengths 2 and 5; plus bystander species; one step of up to 3 particles that cross 0..3 facets or are absorbed after crossing some, under every limit on facet crossings from 0 to 4: the program stops, or nothing is lost",
    "thorough": "segment lengths 1..4; up to 5 initial particles over 2 steps with up to 2 added, and up to 4 over 3 steps with up to 1 added between steps; every fate assignment; 13 movers",
}
ORACLE = "list model: the particles created and not yet absorbed or deleted, in order, with their fields"
ASSUMPTIONS = ["fates are realised by straight flight into the far wall and by the delete flag"]
EXPECT = {"histories": 3000, "deaths": 3000, "limits": 5000, "over_the_limit": 2000}


def plans(tier):
    if tier == "quick":
        return [(1, 4, 2, 1), (2, 4, 2, 1), (3, 4, 2, 1), (2, 5, 2, 0), (2, 6, 1, 0), (3, 7, 1, 0)]
    return [(1, 5, 2, 2), (2, 5, 2, 2), (3, 5, 2, 1), (4, 5, 2, 1), (1, 4, 3, 1), (2, 4, 3, 1), (3, 4, 3, 1), (2, 7, 1, 0), (3, 8, 1, 0)]


def jobs(tier):
    for mover in H.MOVERS:
        for seg, n, T, a in plans(tier):
            parts = 3 if tier == "quick" else 8
            for part in range(parts):
                yield {"mover": mover, "L": seg, "n": n, "T": T, "a": a, "part": part, "parts": parts}
        for seg in (2, 5):
            yield {"mover": mover, "L": seg, "long": True}
        if H.MOVERS[mover][2]:
            for seg in ((1, 2) if tier == "quick" else (1, 2, 3)):
                yield {"mover": mover, "L": seg, "limit": True, "n": 3 if seg == 2 or tier != "quick" else 2}


def fates_ok(mover, init, adds):
    """The uniform-field movers know no walls; elsewhere both kinds of ending are possible but one kind per history
    is enough beyond three particles."""
    al = list(init) + [f for a in adds for f in a]
    if mover == "cpp-uniform":     # this mover removes nothing
        return all(f == 0 for f in al)
    if mover == "py-uniform":
        return all(f <= 0 for f in al)
    if len(al) > 3:
        return all(f >= 0 for f in al)
    return True


def histories(job):
    if job.get("long"):
        for h in H.long_histories(job["mover"], job["L"]):
            yield h
        return
    k = 0
    for init, adds in H.compositions(job["L"], job["n"], job["T"], job["a"], True):
        if fates_ok(job["mover"], init, adds):
            if k % job["parts"] == job["part"]:
                yield init, adds
            k += 1


def one(case, rep):
    r = H.Run(case, rep)
    r.populate(case["init"])
    r.check_contents("at the start")
    for k in range(case["T"]):
        if k > 0:
            for f in case["adds"][k - 1]:
                r.add("alpha", f)
            r.check_contents("after adding before step %d" % (k + 1))
        r.advance()
        rep.note("deaths", len(r.died))
        r.check_contents("after step %d" % (k + 1))
    rep.note("histories")
    return tuple(p["uid"] for p in r.model["alpha"])


_menu = {}


def menu(mover):
    """One start and displacement for each number of facets crossed, and some that end in a wall."""
    if mover in _menu:
        return _menu[mover]
    cpp, system, mesh, kind = H.MOVERS[mover]
    em = H.world_of(mesh, system).em
    d = em.dim
    lo = [min(c[k] for c in em.coords) for k in range(d)]
    size = [max(c[k] for c in em.coords) - lo[k] for k in range(d)]
    shift = [F(5, 64), F(11, 128), F(9, 64)]
    keys = [(True, k) for k in range(4)] + [(False, 1), (False, 3)]
    found = {}
    n = {1: 32, 2: 8, 3: 4}[d]
    for s in product(range(n), repeat=d):
        x = tuple(lo[k] + size[k] * (F(s[k], n) + shift[k] / n) for k in range(d))
        cs = em.cells_of(x)
        if len(cs) != 1:
            continue
        for m in product(range(-n, n + 1, 1 if d == 1 else 3), repeat=d):
            dx = tuple(size[k] * (F(m[k], n) + F(1 + k, 256)) for k in range(d))
            tr = em.trace(cs[0], x, dx, lambda f: "absorb" if f in em.exterior else None)
            if tr["degenerate"] or not em.usable(x, dx, 1, lambda f: "absorb" if f in em.exterior else None, (F(1),)):
                continue
            found.setdefault((tr["alive"], len(tr["events"])), (x, dx, cs[0], len(tr["events"]), tr["alive"]))
            if all(k in found for k in keys):
                break
    _menu[mover] = [found[k] for k in keys if k in found]
    return _menu[mover]


def step_under_limit(case, rep):
    cpp, system, mesh, kind = H.MOVERS[case["mover"]]
    world = H.world_of(mesh, system)
    what = [menu(case["mover"])[k] for k in case["pick"]]
    pdim = H.PDIM[system]
    P = L.make_particles([("alpha", 0 if kind == "neutral" else 1.0, 1.0)], pdim, case["L"], cpp, system=system)
    P.traj_T = None
    L.attach(P, world)
    for i, (x, dx, c, n, alive) in enumerate(what):
        pad = [F(0)] * (pdim - world.em.dim)
        L.push(P, "alpha", [L.record(P, list(x) + pad, [v / H.DT for v in dx] + pad, weight=1 + i, flags=4, uid=70 + i, cell=c)])
    k = (mesh, system, None)
    if k not in H._fields:
        H._fields[k] = L.zero_E(world)
    ctrl = L.control(float(H.DT), nstep=1, time=float(H.DT), max_cross=case["limit"])
    over = max(w[3] for w in what) > case["limit"]

    def go():
        if kind == "neutral":
            P.advance_neutral_particles(ctrl)
        else:
            P.advance_charged_particles_in_E_field(ctrl, neg_E_field=H._fields[k])

    def contents():
        want = [(70 + i, 1.0 + i, 4, w[3]) for i, w in enumerate(what) if w[4]]
        got = [(int(p["unique_ID"]), float(p["weight"]), int(p["bitflags"]), int(p["crossings"])) for p in L.items(P, "alpha")]
        require(got == want, "particles lost or altered", lambda: "limit %d: (identity, weight, flags, crossings) are %s, should be %s" % (case["limit"], got, want))
        require(P.get_species_particle_count("alpha") == len(want), "count", "")

    rep.note("limits")
    rep.step(len(what))
    rep.state((case["mover"], case["L"], tuple(case["pick"]), case["limit"]))
    if not over:
        go()
        contents()
        return "within"
    rep.note("over_the_limit")
    if not cpp:
        try:
            go()
        except (RuntimeError, SystemExit):
            return "stopped"
        contents()
        return "went on"
    r, w = os.pipe()        # the compiled movers leave the process
    pid = os.fork()
    if pid == 0:
        os.close(r)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        ctypes.CDLL(None).on_exit(ctypes.CDLL(None)._exit, None)        # exit() must not run the parent's handlers (MPI)
        try:
            go()
            try:
                contents()
                os.write(w, b"went on")
            except Violation as v:
                os.write(w, ("!" + str(v.detail))[:3000].encode())
        except BaseException:
            pass
        os._exit(0)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    os.waitpid(pid, 0)
    require(not out.startswith(b"!"), "particles lost or altered", out.decode()[1:])
    return out.decode() or "stopped"


def explore(job, tier, rep):
    if "limit" in job:
        m = len(menu(job["mover"]))
        for n in range(1, job["n"] + 1):
            for pick in product(range(m), repeat=n):
                for limit in range(5):
                    case = {"mover": job["mover"], "L": job["L"], "pick": list(pick), "limit": limit}
                    rep.run(case, lambda: step_under_limit(case, rep))
        return
    for init, adds in histories(job):
        case = {"mover": job["mover"], "L": job["L"], "T": job.get("T", H.LONG_T), "init": init, "adds": adds}
        rep.run(case, lambda: one(case, rep))


def replay(case, rep):
    rep.run(case, lambda: step_under_limit(case, rep) if "limit" in case else one(case, rep))


def warm():
    for n in ("line4", "square_right", "cube"):
        L.zero_E(L.World(n))
