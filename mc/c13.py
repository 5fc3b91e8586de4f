"""C13: counts, numbers, kinetic energies and histories are those of the live particles."""
import numpy as np
from mc import hist as H
from mc import c03
from mc import plib as L
from mc.core import require

TECHNIQUE = "exhaustive enumeration of every fate assignment over small populations and steps with additions; after every operation the reported counts, numbers, energies and history rows are compared with a list model, on Python and compiled storage"
LEVEL_NOTE = "Exhaustive within the stated population, step and segment-length bounds."
BOUNDS = {
    "quick": "segment lengths 1,2,3; up to 4 initial particles over 2 steps with up to 1 added between; every fate assignment; some with weights scaled by 2**-70 or 2**60; 6 movers covering both storages and every coordinate system; runs of 12 steps with additions every third step; every history limit None,1..12 x 1..25 steps",
    "thorough": "segment lengths 1..4; up to 5 initial particles over 2 steps with up to 1 added, up to 4 over 3 steps; every fate assignment; 13 movers",
}
ORACLE = "exact sums over the list model"
ASSUMPTIONS = ["history values are stored in single precision, so they are compared to 1e-6 relative"]
EXPECT = {"histories": 1500, "rows": 3000, "scaled weights": 300}
QUICK = ("py-charged-1", "py-neutral-2", "cpp-charged-x", "cpp-charged-r", "cpp-charged-xy", "cpp-neutral-xyz", "py-uniform")


def jobs(tier):
    for mover in (QUICK if tier == "quick" else list(H.MOVERS)):
        for L_, n, T, a in ([(1, 3, 2, 1), (2, 4, 2, 1), (3, 4, 2, 1)] if tier == "quick"
                            else [(1, 5, 2, 1), (2, 5, 2, 1), (3, 5, 2, 1), (4, 5, 2, 1), (2, 4, 3, 1)]):
            parts = 2 if tier == "quick" else 8
            for part in range(parts):
                yield {"mover": mover, "L": L_, "n": n, "T": T, "a": a, "part": part, "parts": parts}
        yield {"mover": mover, "L": 3, "long": True}
        for k in (-70, 60):
            yield {"mover": mover, "L": 2, "n": 3, "T": 2, "a": 1, "part": 0, "parts": 1, "wscale": k}
    for n in range(1, 26):
        yield {"limits": n}


def expected(r):
    num = {s: float(sum(p["w"] for p in r.model[s])) for s in r.species}
    ke = {s: float(sum(p["w"] * sum(u * u for u in p["u"]) for p in r.model[s])) * 0.5 * r.m[s] for s in r.species}
    cnt = {s: len(r.model[s]) for s in r.species}
    return cnt, num, ke


def near(a, b, tol):
    return abs(float(a) - float(b)) <= tol * abs(float(b))


def check(r, where):
    cnt, num, ke = expected(r)
    r.rep.state((r.case["mover"], r.case["L"], r.step, tuple(tuple(p["fate"] for p in r.model[s]) for s in r.species)))
    for s in r.species:
        for what, got, want in (("count", r.P.get_species_particle_count(s), cnt[s]),
                                ("number", r.P.get_species_number(s), num[s]),
                                ("kinetic energy", r.P.get_species_KE(s), ke[s])):
            require(near(got, want, 1e-12), what, lambda: "%s: species %s: %s reported %r, is %r" % (where, s, what, got, want))
    t = r.P.get_total_particle_count()
    require(t == sum(cnt.values()), "total count", lambda: "%s: %s, is %d" % (where, t, sum(cnt.values())))


def one(case, rep):
    from RecordedData_Module import ParticleHistoryInput_C, ParticleHistory_C
    r = H.Run(case, rep)
    r.populate(case["init"])
    hin = ParticleHistoryInput_C()
    hin.max_points = None
    hin.scalar_histories = ["count", "KE"]
    c = r.ctrl()
    c.n_timesteps = case["T"]
    r.P.histories = ParticleHistory_C(hin, c, r.P.history_function_dict, r.P.species_names)
    rows = []

    def row():
        r.P.record_history_data(r.step, float(r.time))
        rows.append((r.step, float(r.time)) + expected(r))
        d = r.P.histories.data_array
        require(r.P.histories.counter == len(rows), "history length")
        for i, (st, t, cnt, num, ke) in enumerate(rows):     # also: earlier rows are not disturbed
            rep.note("rows")
            ok = int(d["step"][i]) == st and near(d["t"][i], t, 1e-6)
            for name, v in (("count", cnt), ("KE", ke)):
                ok = ok and near(d[name][i], sum(v.values()), 1e-6)
                for s in r.species:
                    ok = ok and near(d[s + "_" + name][i], v[s], 1e-6)
                    ok = ok and near(d[s + "_ppp_" + name][i], v[s] / (num[s] or 1.0), 1e-6)
            require(ok, "history row", lambda: "row %d is %s; counts %s numbers %s energies %s" % (i, d[i], cnt, num, ke))

    check(r, "at the start")
    row()
    for k in range(case["T"]):
        if k > 0:
            for f in case["adds"][k - 1]:
                r.add("alpha", f)
            check(r, "after adding before step %d" % (k + 1))
        r.advance()
        check(r, "after step %d" % (k + 1))
        row()
    r.check_contents("at the end")
    rep.note("histories")
    return expected(r)[0]["alpha"]


def limits(case, rep):
    """Every (number of steps, point limit): a run that records every 'skip' steps fits its storage and keeps all rows."""
    from RecordedData_Module import ParticleHistoryInput_C, ParticleHistory_C
    r = H.Run({"mover": "py-charged-1", "L": 2, "T": 1}, rep)
    r.populate([0, 0, 0])
    hin = ParticleHistoryInput_C()
    hin.max_points = case["max"]
    hin.scalar_histories = ["count"]
    c = r.ctrl()
    c.n_timesteps = case["steps"]
    h = r.P.histories = ParticleHistory_C(hin, c, r.P.history_function_dict, r.P.species_names)
    want = []
    for step in range(case["steps"] + 1):
        if step % h.skip == 0:
            r.P.record_history_data(step, 0.5 * step)
            want.append(step)
        rep.step()
    require(case["max"] is None or len(want) <= case["max"], "too many points", lambda: "%s" % want)
    require(case["max"] is not None or len(want) == case["steps"] + 1, "points left out", lambda: "%s" % want)
    got = [int(v) for v in h.data_array["step"][:h.counter]]
    require(got == want, "rows", lambda: "%s, should be %s" % (got, want))
    require(all(int(v) == 8 for v in h.data_array["count"][:h.counter]), "values", lambda: "%s" % h.data_array)


def explore(job, tier, rep):
    if "limits" in job:
        for mx in (None,) + tuple(range(1, 13)):
            case = {"steps": job["limits"], "max": mx}
            rep.run(case, lambda: limits(case, rep))
        return
    for init, adds in c03.histories(job):
        case = {"mover": job["mover"], "L": job["L"], "T": job.get("T", H.LONG_T), "init": init, "adds": adds}
        if "wscale" in job:
            case["wscale"] = job["wscale"]
            rep.note("scaled weights")
        rep.run(case, lambda: one(case, rep))


def replay(case, rep):
    rep.run(case, lambda: limits(case, rep) if "max" in case else one(case, rep))


warm = c03.warm
