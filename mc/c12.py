"""C12: trajectory files hold exactly the recorded trajectories."""
import os
from itertools import product
import numpy as np
from mc import c03
from mc import c11
from mc import c19
from mc import hist as H
from mc import plib as L
from mc.core import require

TECHNIQUE = "exhaustive enumeration of every combination of species, numbers of followed particles and recorded lengths up to a bound, and of every small history of followed particles that move and die, on the real recording and writing code; the files are read back and compared with what was recorded"
LEVEL_NOTE = "Exhaustive within the stated bounds. Followed particles of a species have distinct identities, as the creation code gives them."
BOUNDS = {
    "quick": "capacity 4: every assignment of 0..3 trajectories with lengths 0..4 to one charged species beside 0..2 of a neutral and a second charged species; capacity 13 with lengths 0,1,9,10,11,13; 6 attribute layouts; writing twice with every growth of the lengths; every way three consecutive points can agree in any one component, all but one, all or none, with zero and extreme values; histories: up to 3 followed or unfollowed particles over 2 steps, every fate, 4 movers",
    "thorough": "as quick with 4 trajectories, capacity 5, and all 11 movers with meshes",
}
ORACLE = "copies of the recorded points; for histories, the list model of C11"
ASSUMPTIONS = []
EXPECT = {"files": 3000, "points": 8000, "histories": 300}

LAYOUTS = [
    (["step", "t", "x", "ux", "Ex"], [int, np.float64, np.float64, np.float64, np.float64]),
    (["step", "t", "x"], [np.int32, np.float32, np.float32]),
    (["t", "x", "step"], [np.float64, np.float64, int]),
    (["step", "t", "unique_ID", "x", "crossings", "weight"], [int, np.float32, np.int32, np.float64, np.int64, np.float32]),
    (["x", "t"], [np.float64, np.float64]),
    (["t", "x"], [np.float32, np.int64]),          # (the neutral species' when the charged ones have the line above)
    (["x", "t", "step"], [np.int32, np.int16, np.float64]),
    (["step", "t", "x", "y", "z", "ux", "uy", "uz", "Ex", "Ey", "Ez"], [int] + [np.float32] * 10),
]


class Here(object):
    """A scratch directory that is the current directory, which is where the files are written."""

    def __enter__(self):
        self.s = c19.Scratch()
        self.d = self.s.__enter__()
        self.old = os.getcwd()
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        self.s.__exit__()


def read_back(want, P, rep, where):
    """want: {(species, uid): [row dict]}, title/author 'x'. Checks every file of the current directory."""
    import h5py
    names = {"traj-%s-uid%d.h5part" % k: k for k in want}
    require(sorted(os.listdir(".")) == sorted(names), "files written", lambda: "%s: %s, should be %s" % (where, sorted(os.listdir(".")), sorted(names)))
    for fn, (sn, uid) in names.items():
        rows = want[sn, uid]
        with h5py.File(fn, "r") as f:
            i = str(P["index"][sn])
            a = dict(f.attrs)
            require(a == {"Title:": "x", "Author:": "x", "particle_type_" + i: sn, "mass_" + i: P["mass"][sn], "charge_" + i: P["charge"][sn]},
                    "file header", lambda: "%s: %s: %s" % (where, fn, a))
            require(sorted(f.keys()) == sorted("Step#%d" % k for k in range(len(rows))), "number of points", lambda: "%s: %s has %s, %d recorded" % (where, fn, sorted(f.keys()), len(rows)))
            for k, row in enumerate(rows):
                g = f["Step#%d" % k]
                require(sorted(g.keys()) == sorted(row), "components", lambda: "%s: %s: %s" % (where, fn, sorted(g.keys())))
                require(float(g.attrs["TimeValue"]) == row["t"], "time", lambda: "%s: %s point %d: %r" % (where, fn, k, g.attrs["TimeValue"]))
                for n, v in row.items():
                    got = g[n][()]
                    require(got.shape == () and got == v and (got.dtype.kind in "iu") == isinstance(v, int), "value", lambda: "%s: %s point %d: %s is %r, should be %r" % (where, fn, k, n, got, v))
                rep.note("points")
            rep.note("files")
        rep.step()


def control(n):
    c = L.control(1.0)
    c.title = c.author = "x"
    c.write_trajectory_files = True
    c.n_timesteps = n
    return c


def lengths(case, rep):
    from RecordedData_Module import TrajectoryInput_C, Trajectory_C
    lay, layn = LAYOUTS[case["layout"]], LAYOUTS[(case["layout"] + 1) % len(LAYOUTS)]
    t = TrajectoryInput_C()
    t.max_points, t.extra_points = None, 0
    t.charged_dict = {"names": lay[0], "formats": lay[1]}
    t.neutral_dict = {"names": layn[0], "formats": layn[1]}
    sp = {"ions": 1, "electrons": 2, "atoms": 3}
    mass, charge = {"ions": 2.0, "electrons": 0.5, "atoms": 3.0}, {"ions": 1.5, "electrons": -1.0, "atoms": 0.0}
    P = {"index": sp, "mass": mass, "charge": charge}
    T = Trajectory_C(t, control(case["cap"] - 1), ["ions", "electrons"], ["atoms"], sp, mass, charge)
    require(T.npoints == case["cap"], "harness capacity")
    made = []
    for j, sn in enumerate(("ions", "electrons", "atoms")):
        for i, n in enumerate(case["n"][j]):
            uid = 7 + 3 * i                     # the same identities in every species
            T.create_trajectory(sn, 10 * i, "neutral" if sn == "atoms" else "charged", unique_id_int=np.int32(uid) if i % 2 else uid)
            made.append((sn, i, uid, n))
    for d in [d for l in T.data_list.values() for d in l]:
        for name in d.dtype.names:
            d[name] = -12345                     # unused capacity
    written = {}

    def grow(sn, i, uid, n):
        d = T.data_list[sn][i]
        for k in range(int(T.trajectory_length[sn][i]), n):
            row = {}
            for m, name in enumerate(d.dtype.names):
                pat = case["pat"][k] if "pat" in case and i == 0 else "n"
                old = written[sn, uid][k - 1][name] if k else 0
                keep_old = pat == "=" or (isinstance(pat, int) and (pat == m or (pat < 0 and -pat - 1 != m)))
                if pat == "0":
                    v = 0
                elif pat == "big":
                    v = (np.iinfo if d.dtype[name].kind == "i" else np.finfo)(d.dtype[name]).max
                elif keep_old and k:
                    v = old
                else:
                    v = (100 * uid + 10 * k + m + 1000 * sp[sn]) if d.dtype[name].kind == "i" else (0.1 + uid + k / 8.0 + m / 3.0 + sp[sn] * 100)
                d[name][k] = v
                row[name] = d[name][k].item()
            written.setdefault((sn, uid), []).append(row)
        T.trajectory_length[sn][i] = n
        written.setdefault((sn, uid), [])
    with Here():
        for sn, i, uid, n in made:
            grow(sn, i, uid, n)
        keep = {k: [d.copy() for d in v] for k, v in T.data_list.items()}
        T.write_trajectories_to_files()
        read_back(written, P, rep, "first writing")
        if case.get("twice"):
            for sn, i, uid, n in made:
                grow(sn, i, uid, min(case["cap"], n + (1 + i) * (sn != "electrons")))
            keep = {k: [d.copy() for d in v] for k, v in T.data_list.items()}
            T.write_trajectories_to_files()
            read_back(written, P, rep, "second writing")
        require(all(a.tobytes() == b.tobytes() for k in keep for a, b in zip(keep[k], T.data_list[k])), "writing changed the trajectories")
    rep.state((case["layout"], case["cap"], repr(case["n"]), bool(case.get("twice"))))


def history(case, rep):
    """A run with followed particles, written to files at the end."""
    r = H.Run(case, rep, masses=c11.HEAVY, field=c11.field)
    c11.follow(r, case)
    for f, fol in case["init"]:
        c11.add(r, "alpha", f, fol)
    c11.add(r, "beta", 0, True)
    for s in r.species[2:]:
        c11.add(r, s, 0, True)
    c11.record(r)
    for k in range(case["T"]):
        if k > 0:
            for f, fol in case["adds"][k - 1]:
                c11.add(r, "alpha", f, fol)
        c11.advance(r)
        c11.record(r)
    T = r.P.traj_T
    want = {}
    for sn in r.species:
        for k, p in enumerate(r.traj[sn]):
            require(int(T.trajectory_length[sn][k]) == len(p["points"]), "number of points recorded", lambda: "%s uid %d" % (sn, p["uid"]))
            d = T.data_list[sn][k]
            want[sn, p["uid"]] = [{n: d[n][i].item() for n in d.dtype.names} for i in range(len(p["points"]))]
    with Here():
        T.write_trajectories_to_files()
        read_back(want, {"index": r.P.species_index, "mass": r.P.mass, "charge": r.P.charge}, rep, "after the run")
        import h5py
        for sn in r.species:                     # and with the model, directly
            for p in r.traj[sn]:
                with h5py.File("traj-%s-uid%d.h5part" % (sn, p["uid"]), "r") as f:
                    for i, (step, t, x, u, E) in enumerate(p["points"]):
                        g = f["Step#%d" % i]
                        ok = int(g["step"][()]) == step and abs(g["t"][()] - float(t)) < 1e-9
                        for j, c in enumerate(r.P.position_coordinates):
                            ok = ok and abs(g[c][()] - float(x[j])) < 1e-9 and abs(g["u" + c][()] - float(u[j])) < 1e-9
                        require(ok, "point in the file", lambda: "%s uid %d point %d: step %s t %s, should be %s %s" % (sn, p["uid"], i, g["step"][()], g["t"][()], step, float(t)))
    rep.note("histories")
    rep.state((case["mover"], case["L"], repr(case["init"]), repr(case["adds"])))


MQ = ("py-charged-1", "cpp-charged-x", "py-neutral-2", "cpp-neutral-xy")


def jobs(tier):
    q = tier == "quick"
    for lay in range(len(LAYOUTS)):
        for part in range(4):
            yield {"what": "lengths", "layout": lay, "part": part}
        yield {"what": "lengths", "layout": lay, "long": True}
        yield {"what": "lengths", "layout": lay, "pat": True}
    for mover in (MQ if q else [m for m in H.MOVERS if "uniform" not in m]):
        for L_ in (1, 2):
            for part in range(2 if q else 6):
                yield {"what": "history", "mover": mover, "L": L_, "n": 3, "T": 2, "a": 1, "part": part, "parts": 2 if q else 6}


def explore(job, tier, rep):
    q = tier == "quick"
    if job["what"] == "lengths":
        if job.get("long"):
            for ions in product((0, 1, 9, 10, 11, 13), repeat=2):
                for other in ([[], [12]], [[11, 3, 0, 13], []]):
                    case = {"what": "lengths", "layout": job["layout"], "cap": 13, "n": [list(ions)] + other, "twice": sum(ions) % 2 == 0}
                    rep.run(case, lambda: lengths(case, rep))
            return
        if job.get("pat"):
            n = len(LAYOUTS[job["layout"]][0])
            some = ["n", "=", "0", "big"] + list(range(n)) + [-k - 1 for k in range(n)]
            for first in ("n", "0", "big"):
                for a, b in product(some, repeat=2):
                    if q and n > 6 and not {a, b} & {"n", "="}:
                        continue
                    case = {"what": "lengths", "layout": job["layout"], "cap": 3, "n": [[3, 2], [], [3] if a == b else []], "pat": [first, a, b], "twice": False}
                    rep.run(case, lambda: lengths(case, rep))
            return
        cap, m = (4, 3) if q else (5, 4)
        i = 0
        for k in range(m + 1):
            for ions in product(range(cap + 1), repeat=k):
                for other in ([[], []], [[1], []], [[], [2, 0]], [[0, cap], [1]]):
                    i += 1
                    if i % 4 != job["part"] or (q and k == 3 and (i // 4 + job["layout"]) % 3):
                        continue
                    case = {"what": "lengths", "layout": job["layout"], "cap": cap, "n": [list(ions)] + other, "twice": (i // 4) % 2 == 0}
                    rep.run(case, lambda: lengths(case, rep))
        return
    for i, (init, adds) in enumerate(c03.histories(job)):
        al = len(init) + sum(len(a) for a in adds)
        for mask in range(2 ** al):
            if q and al > 2 and (mask + i) % 4:
                continue
            bits = [bool(mask >> b & 1) for b in range(al)]
            it = iter(bits)
            case = {"what": "history", "mover": job["mover"], "L": job["L"], "T": job["T"], "init": [[f, next(it)] for f in init],
                    "adds": [[[f, next(it)] for f in a] for a in adds]}
            rep.run(case, lambda: history(case, rep))


def replay(case, rep):
    rep.run(case, lambda: {"lengths": lengths, "history": history}[case["what"]](case, rep))


warm = c03.warm
