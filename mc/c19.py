"""C19: particle output files hold exactly the live particles."""
import os
import shutil
import tempfile
from itertools import combinations, product
import numpy as np
from mc import c03
from mc import hist as H
from mc import plib as L
from mc.core import require

TECHNIQUE = "exhaustive enumeration of every small history of adding, moving, removing and writing particles (every subset of the moments at which a snapshot can be written), of every attribute subset and of every point at which the run can stop; the file's bytes on disk after every write are opened and compared with the storage and a list model"
LEVEL_NOTE = "Exhaustive within the stated population, step and segment-length bounds."
BOUNDS = {
    "quick": "populations of up to 66000; segment lengths 1,2,3; up to 3 initial particles over 2 steps with up to 1 added between, every fate assignment, every subset of the 3 moments written, 4 movers; runs of 12 steps with 13 snapshots; every subset of attributes in 1D; populations of 0..7 particles in every split over 2 species; stop after every write, with and without close; second file in the same run; second call on the same step",
    "thorough": "as quick with 4 initial particles, 3 steps and 9 movers",
}
ORACLE = "storage contents read by index, and the list model of who is alive"
ASSUMPTIONS = ["a run that stops leaves the file as it is on disk at that moment (process kill, not power loss)"]
EXPECT = {"many": 6, "histories": 500, "snapshots": 2000, "stops": 2000}
MOVERS_Q = ("py-charged-1", "cpp-charged-x", "py-neutral-2", "cpp-neutral-xyz")
MOVERS_T = MOVERS_Q + ("py-charged-3", "cpp-charged-xy", "cpp-charged-r", "py-uniform", "py-charged-2")


class Scratch(object):
    def __enter__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.d = tempfile.mkdtemp(prefix="dtmc-", dir=base)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


class Out(object):
    """A particle file being written, and what it should contain."""

    def __init__(self, P, ctrl, path, attrs):
        self.P, self.path, self.attrs = P, path, list(attrs)
        self.want = []
        ctrl.particle_output_file = path
        ctrl.title, ctrl.author = "the title", "somebody"
        ctrl.particle_output_attributes = tuple(attrs)
        P.check_particle_output_parameters(ctrl)
        P.initialize_particle_output_file(ctrl)

    def snapshot(self, time):
        P = self.P
        snap = {"time": time, "n": 0, "data": {a: [] for a in self.attrs}}
        for sn in P.species_names:
            for p in L.items(P, sn):
                snap["n"] += 1
                for a in self.attrs:
                    snap["data"][a].append(P.species_index[sn] if a == "species_index" else p[a].item())
        self.want.append(snap)

    def write(self, ctrl, close=False, again=False):
        """again: the snapshot of this step is already in the file."""
        P = self.P
        ctrl.particle_output_attributes = tuple(self.attrs)
        before = {sn: [p.tobytes() for p in L.items(P, sn)] for sn in P.species_names}
        if not again:
            self.snapshot(ctrl.time)
        P.write_particles_to_file(ctrl, close_flag=close) if close else P.write_particles_to_file(ctrl)
        require({sn: [p.tobytes() for p in L.items(P, sn)] for sn in P.species_names} == before, "writing changed the particles")
        if close:
            require(not P.particle_output_handle, "file not closed", "close was requested with the last write")

    def check(self, rep, where):
        """The file as it is on disk now."""
        import h5py
        copy = self.path + ".copy"
        shutil.copyfile(self.path, copy)
        with h5py.File(copy, "r") as f:
            P = self.P
            a = dict(f.attrs)
            require(a.get("Title:") == "the title" and a.get("Author:") == "somebody" and int(a.get("NumParticleTypes:", -1)) == len(P.species_names), "header", lambda: "%s: %s" % (where, a))
            for sn in P.species_names:
                i = str(P.species_index[sn])
                require(a.get("particle_type_" + i) == sn and a.get("mass_" + i) == P.mass[sn] and a.get("charge_" + i) == P.charge[sn], "header", lambda: "%s: species %s: %s" % (where, sn, a))
            require(sorted(f.keys()) == sorted("Step#%d" % k for k in range(len(self.want))), "snapshots in the file", lambda: "%s: %s, %d were written" % (where, sorted(f.keys()), len(self.want)))
            for k, w in enumerate(self.want):
                g = f["Step#%d" % k]
                require(float(g.attrs["TimeValue"]) == w["time"], "time", lambda: "%s: snapshot %d: %r, should be %r" % (where, k, g.attrs["TimeValue"], w["time"]))
                require(sorted(g.keys()) == sorted(self.attrs), "attributes", lambda: "%s: %s" % (where, sorted(g.keys())))
                for name in self.attrs:
                    d = g[name][:]
                    isint = name == "species_index" or P.particle_dtype[name].kind in "iu"
                    require((d.dtype.kind in "iu") == isint, "type of the values", lambda: "%s: snapshot %d: %s is stored as %s" % (where, k, name, d.dtype))
                    require(d.tolist() == w["data"][name], "values", lambda: "%s: snapshot %d: %s is %s, should be %s" % (where, k, name, d.tolist(), w["data"][name]))
                rep.note("snapshots")
        os.remove(copy)
        rep.note("stops")


def names(P):
    return ["species_index"] + list(P.particle_dtype.names)


def history(case, rep):
    with Scratch() as d:
        r = H.Run(case, rep)
        r.populate(case["init"], also=case.get("also", True))
        c = r.ctrl()
        out = Out(r.P, c, os.path.join(d, "p.h5part"), names(r.P))
        out.check(rep, "before any snapshot")
        m = case["moments"]
        close = case["close"]
        for k in range(case["T"] + 1):
            if k > 0:
                if k > 1:
                    for f in case["adds"][k - 2]:
                        r.add("alpha", f)
                r.advance()
            if k in m:
                c = r.ctrl()
                last = k == max(m)
                out.write(c, close=last and close == "with")
                ids = [q["uid"] for s in r.P.species_names for q in r.model[s]]
                require(out.want[-1]["data"]["unique_ID"] == ids, "live particles", lambda: "%s, should be %s" % (out.want[-1]["data"]["unique_ID"], ids))
                out.check(rep, "after the snapshot of step %d" % k)
                if last and close == "after":
                    out.write(r.ctrl(), close=True, again=True)
                    out.check(rep, "after closing")
                elif not last and close != "with":
                    out.write(r.ctrl(), again=True)
                    out.check(rep, "after a second call on step %d" % k)
        rep.state((case["mover"], case["L"], tuple(case["init"]), repr(case["adds"]), tuple(m), close))
        rep.note("histories")
        if r.P.particle_output_handle:
            r.P.particle_output_handle.close()


def plain(case):
    P = L.make_particles([("one", 1.0, 2.0), ("two", 0, 3.0)], H.PDIM[case["system"]], case["L"], case["cpp"], system=case["system"])
    fill(P, 0, case["counts"])
    return P


def fill(P, start, counts):
    uid = start
    for sn, n in zip(("one", "two"), counts):
        for i in range(n):
            uid += 1
            d = P.particle_dimension
            P.sap_dict[sn].push_back(tuple(0.1 + 10 * uid + j / 7.0 for j in range(3 * d + 1)) + (uid % 8, uid + 1000, uid, uid + 2000))


def counts(case, rep):
    """A population of every size; then more particles, then a second file."""
    with Scratch() as d:
        P = plain(case)
        c = L.control(1.0, nstep=0, time=0.25)
        out = Out(P, c, os.path.join(d, "a.h5part"), case["attrs"] or names(P))
        out.write(c)
        out.check(rep, "first snapshot")
        fill(P, 100, case["more"])
        c.timeloop_count, c.time = 3, 1.75
        out.write(c, close=True)
        out.check(rep, "second snapshot")
        c2 = L.control(1.0, nstep=3, time=1.75)
        out2 = Out(P, c2, os.path.join(d, "b.h5part"), names(P)[::-1])
        out2.write(c2)
        out2.check(rep, "second file")
        out.check(rep, "first file, afterwards")
        P.particle_output_handle.close()
        rep.state((case["system"], case["cpp"], case["L"], tuple(case["counts"]), tuple(case["more"]), repr(case["attrs"])))


def refused(case, rep):
    P = plain(case)
    c = L.control(1.0)
    c.particle_output_attributes = tuple(case["attrs"])
    good = all(a in names(P) for a in case["attrs"])
    try:
        P.check_particle_output_parameters(c)
    except RuntimeError:
        require(not good, "available attribute refused", case["attrs"])
    else:
        require(good, "unavailable attribute accepted", case["attrs"])


def jobs(tier):
    q = tier == "quick"
    for mover in (MOVERS_Q if q else MOVERS_T):
        for L_, n, T, a in ([(1, 3, 2, 1), (2, 3, 2, 1), (3, 3, 2, 0)] if q else [(1, 4, 2, 1), (2, 4, 2, 1), (3, 4, 2, 1), (2, 3, 3, 1)]):
            for part in range(4):
                yield {"what": "history", "mover": mover, "L": L_, "n": n, "T": T, "a": a, "part": part, "parts": 4}
        yield {"what": "history", "mover": mover, "L": 2, "long": True}
    for system in H.PDIM:
        for cpp in (False, True):
            yield {"what": "counts", "system": system, "cpp": cpp}
    for cpp in (False, True):
        yield {"what": "many", "cpp": cpp}
    for part in range(8):
        yield {"what": "attributes", "part": part}


def explore(job, tier, rep):
    q = tier == "quick"
    if job["what"] == "many":
        for L_, now, more in ((1, [130, 140], [130, 0]), (100, [33000, 300], [33000, 1]), (128, [1, 65536], [0, 129])):
            case = {"system": "cartesian_x", "cpp": job["cpp"], "L": L_, "counts": now, "more": more, "attrs": None}
            rep.run(case, lambda: counts(case, rep))
            rep.note("many")
        return
    if job["what"] == "history":
        for i, (init, adds) in enumerate(c03.histories(job)):
            T = job.get("T", H.LONG_T)
            if job.get("long"):
                if q and i % 4:
                    continue
                case = {"what": "history", "mover": job["mover"], "L": job["L"], "T": T, "init": init, "adds": adds, "moments": list(range(T + 1)),
                        "close": ("with", "after", "never")[i // 4 % 3], "also": i // 4 % 2 == 0}
                rep.run(case, lambda: history(case, rep))
                continue
            subsets = [list(s) for k in range(1, T + 2) for s in combinations(range(T + 1), k)]
            for j, m in enumerate(subsets):
                case = {"what": "history", "mover": job["mover"], "L": job["L"], "T": T, "init": init, "adds": adds, "moments": m,
                        "close": ("with", "after", "never")[(i + j) % 3], "also": (i + j) % 2 == 0}
                if q and (i + j) % 2 and len(m) < 3:
                    continue
                rep.run(case, lambda: history(case, rep))
    elif job["what"] == "counts":
        for L_ in (1, 2, 3):
            for n in product(range(5 if q else 8), repeat=2):
                for more in ((0, 0), (1, 0), (0, 2), (3, 3)):
                    case = {"what": "counts", "system": job["system"], "cpp": job["cpp"], "L": L_, "counts": list(n), "more": list(more), "attrs": None}
                    rep.run(case, lambda: counts(case, rep))
        for attrs in (["x"], ["r"], ["y"], ["ux", "nope"], ["species_index"], ["unique_ID", "weight"], [], ["Weight"]):
            case = {"what": "refused", "system": job["system"], "cpp": job["cpp"], "L": 2, "counts": [1, 1], "attrs": attrs}
            rep.run(case, lambda: refused(case, rep))
    else:
        al = ["species_index", "x", "x0", "ux", "weight", "bitflags", "cell_index", "unique_ID", "crossings"]
        for mask in range(1, 512):
            if mask % 8 != job["part"]:
                continue
            attrs = [a for i, a in enumerate(al) if mask >> i & 1]
            case = {"what": "counts", "system": "cartesian_x", "cpp": mask % 3 == 0, "L": 2, "counts": [3, 2], "more": [2, 0], "attrs": attrs[::-1] if mask % 2 else attrs}
            rep.run(case, lambda: counts(case, rep))


def replay(case, rep):
    rep.run(case, lambda: {"history": history, "counts": counts, "refused": refused}[case["what"]](case, rep))


warm = c03.warm
