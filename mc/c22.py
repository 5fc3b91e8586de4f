"""C22: particles are created exactly as listed by the user."""
import importlib
from itertools import product
import numpy as np
from mc import plib as L
from mc.core import require

TECHNIQUE = "exhaustive enumeration of every list length, flag pattern and sequence of initialisation entries up to a bound, on the real initialisation code over both storages, compared with the user's lists field by field"
LEVEL_NOTE = "Exhaustive within the stated list lengths, flag alphabets and entry sequences. Identity, cell and crossings of a listed particle are the values the user lists."
BOUNDS = {
    "quick": "segment lengths 1..3, 4 coordinate systems x 2 storages; lists of 0..5 particles with every trajectory/other-flag pattern, 6..8 with every trajectory pattern, 33, 70 and 150 with 4 patterns; every sequence of up to 3 entries from {listed, function} x {charged, neutral} and unknown types; with and without trajectories; every shipped distribution",
    "thorough": "as quick with lists to 6 with all four flag values and to 11 with every trajectory pattern, sequences of up to 4 entries, segment lengths 1..5",
}
ORACLE = "the user's lists, concatenated in the order of the entries"
ASSUMPTIONS = []
EXPECT = {"lists": 3000, "sequences": 500, "shipped": 6, "trajectories": 2000}

SYSTEMS = ["cartesian_x", "cartesian_xy", "cartesian_xyz", "spherical_r"]
PDIM = {"cartesian_x": 1, "cartesian_xy": 2, "cartesian_xyz": 3, "spherical_r": 1}
SPECIES = [("ions", 1.5, 2.0), ("atoms", 0, 3.0), ("electrons", -1.0, 0.5)]


def particles(case):
    P = L.make_particles(SPECIES, PDIM[case["system"]], case["L"], case["cpp"], system=case["system"])
    P.traj_T = trajectories(P) if case["traj"] else None
    return P


def trajectories(P):
    from RecordedData_Module import TrajectoryInput_C, Trajectory_C
    t = TrajectoryInput_C()
    t.max_points, t.extra_points = None, 1
    co = list(P.position_coordinates)
    t.charged_dict = {"names": ["step", "t"] + co + ["E" + c for c in co], "formats": [int] + [np.float64] * (1 + 2 * len(co))}
    t.neutral_dict = {"names": ["step", "t"] + co, "formats": [int] + [np.float64] * (1 + len(co))}
    c = L.control(1.0)
    c.title = c.author = "x"
    c.write_trajectory_files = False
    c.n_timesteps = 3
    return Trajectory_C(t, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)


def listed(sn, flags, pdim, start):
    """Records of which every attribute of every particle is different."""
    out = []
    base = 1000 * (1 + [s[0] for s in SPECIES].index(sn)) + start
    for i, f in enumerate(flags):
        k = base + 17 * i
        out.append(tuple(0.1 + k + j / 7.0 for j in range(3 * pdim + 1)) + (f, k + 1, k + 2, k + 3))
    return out


def check(P, want, traj, rep):
    for sn, _, _ in SPECIES:
        w = want[sn]
        got = [tuple(p.tolist()) for p in L.items(P, sn)]
        require(P.get_species_particle_count(sn) == len(w), "count", lambda: "%s: %d stored, %d listed" % (sn, P.get_species_particle_count(sn), len(w)))
        require(got == [tuple(r) for r in w], "stored values", lambda: "%s: stored %s, listed %s" % (sn, got, w))
        if P.traj_T is None:
            continue
        T = P.traj_T
        fl = [i for i, r in enumerate(w) if r[-4] & P.TRAJECTORY_FLAG and traj[sn][i]]
        idx = [int(i) for i in T.particle_index_list[sn]]
        uid = [int(i) for i in T.particle_unique_id_list[sn]]
        require(idx == fl, "followed particles", lambda: "%s: trajectories for %s, flagged are %s" % (sn, idx, fl))
        require(uid == [w[i][-2] for i in fl], "trajectory identities", lambda: "%s: %s" % (sn, uid))
        require(list(T.trajectory_length[sn]) == [0] * len(fl) and len(T.data_list[sn]) == len(fl), "trajectory storage", sn)
        names = (T.neutral_dict if P.charge[sn] == 0 else T.charged_dict)["names"]
        require(all(list(d.dtype.names) == names for d in T.data_list[sn]), "trajectory kind", sn)
        rep.note("trajectories", len(fl))


def user_class(lists):
    ns = {}
    for sn, recs in lists.items():
        def f(type, recs=recs):
            assert type == "listed", type
            return len(recs), tuple(recs)
        ns[sn] = staticmethod(f)
    return type("UserParticleDistributions_C", (object,), ns)


def one_list(case, rep):
    P = particles(case)
    sn = case["species"]
    recs = listed(sn, case["flags"], P.particle_dimension, 0)
    P.user_particles_class = user_class({sn: recs})
    if case["direct"]:
        P.create_from_list(sn)
    else:
        P.initial_particles_dict = {"some": ({"species_name": sn, "initial_distribution_type": "listed"},)}
        P.initialize_particles({s[0]: False for s in SPECIES})
    want = {s[0]: recs if s[0] == sn else [] for s in SPECIES}
    check(P, want, {s: [True] * len(v) for s, v in want.items()}, rep)
    rep.note("lists")
    rep.step(len(recs))
    rep.state((case["system"], case["cpp"], case["L"], sn, tuple(case["flags"]), case["traj"]))


def sequence(case, rep):
    P = particles(case)
    d = P.particle_dimension
    lists = {s[0]: listed(s[0], case["flags"], d, 0) for s in SPECIES}
    P.user_particles_class = user_class(lists)
    want, traj = {s[0]: [] for s in SPECIES}, {s[0]: [] for s in SPECIES}
    calls, expect = [], []
    region, E = object(), object()
    entries = {}
    bad = False
    for k, (kind, sn) in enumerate(case["entries"]):
        par = {"species_name": sn, "initial_distribution_type": {"list": "listed", "func": "function_over_region"}.get(kind, kind)}
        if bad:
            pass
        elif kind == "list":
            want[sn] += lists[sn]
            traj[sn] += [True] * len(lists[sn])
        elif kind == "func":
            new = listed(sn, case["flags"][:2] + [4], d, 300 + k)
            want[sn] += new
            traj[sn] += [False] * len(new)           # the creation function here makes no trajectories
            expect.append((0, 0.0, region, id(par), E))
        else:
            bad = True

        def fn(step, time, domain, paramDict, neg_E_field=None, external_E_field=None, k=k, sn=sn):
            calls.append((step, time, domain, id(paramDict), neg_E_field))
            for r in listed(sn, case["flags"][:2] + [4], d, 300 + k):
                P.sap_dict[sn].push_back(r)
        entries["entry%d" % (len(case["entries"]) - k)] = (par, fn, region) if kind == "func" else (par,)
    P.initial_particles_dict = entries
    flags = {s[0]: False for s in SPECIES}
    try:
        P.initialize_particles(flags, neg_E_field=E)
    except RuntimeError:
        require(bad, "refused", case["entries"])
    else:
        require(not bad, "unknown type accepted", case["entries"])
    require(calls == expect, "creation functions called", lambda: "%s, should be %s" % (calls, expect))
    check(P, want, traj, rep)
    rep.note("sequences")
    rep.step(len(entries))
    rep.state((case["system"], case["cpp"], case["L"], repr(case["entries"]), tuple(case["flags"])))


SHIPPED = [("UserParticles_1D", "neutral_H", 0, "cartesian_x"), ("UserParticles_2D_e", "trajelectrons", -1, "cartesian_xy"),
           ("UserParticles_2D_e", "test_electrons", -1, "cartesian_xy"), ("UserParticles_2D_e", "two_electrons", -1, "cartesian_xy"),
           ("UserParticles_3D", "neutral_H", 0, "cartesian_xyz"), ("UserParticles_H_He_e", "plasma_electrons", -1, "cartesian_xyz"),
           ("UserParticles_H_He_e", "H_plus", 1, "cartesian_xyz"), ("UserParticles_H_He_e", "one_electron", -1, "cartesian_xyz")]


def shipped(case, rep):
    mod, sn, q, system = SHIPPED[case["which"]]
    user = importlib.import_module(mod).UserParticleDistributions_C
    P = L.make_particles([(sn, q, 1.0)], PDIM[system], case["L"], case["cpp"], system=system)
    P.traj_T = trajectories(P)
    P.user_particles_class = user
    uid = P.__class__.UNIQUE_ID_COUNTER
    try:
        n, recs = getattr(user, sn)(type="listed")
        P.__class__.UNIQUE_ID_COUNTER = uid
        P.initial_particles_dict = {"some": ({"species_name": sn, "initial_distribution_type": "listed"},)}
        P.initialize_particles({sn: False})
    finally:
        P.__class__.UNIQUE_ID_COUNTER = uid
    got = [tuple(p.tolist()) for p in L.items(P, sn)]
    require(len(got) == n == len(recs) and got == [tuple(r) for r in recs], "stored values", lambda: "%s: stored %s, listed %s" % (sn, got, recs))
    fl = [i for i, r in enumerate(recs) if r[-4] & P.TRAJECTORY_FLAG]
    require([int(i) for i in P.traj_T.particle_index_list[sn]] == fl and
            [int(i) for i in P.traj_T.particle_unique_id_list[sn]] == [recs[i][-2] for i in fl], "followed particles", sn)
    d = P.particle_dimension
    require(all(tuple(r[:d]) == tuple(r[d:2 * d]) and r[-1] == 0 for r in recs) and len(set(r[-2] for r in recs)) == n, "listed values", lambda: repr(recs))
    rep.note("shipped")


def jobs(tier):
    for system in SYSTEMS:
        for cpp in (False, True):
            for L_ in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)):
                yield {"system": system, "cpp": cpp, "L": L_, "what": "lists"}
                yield {"system": system, "cpp": cpp, "L": L_, "what": "sequences"}
    yield {"what": "shipped"}


def explore(job, tier, rep):
    q = tier == "quick"
    if job["what"] == "shipped":
        for w in range(len(SHIPPED)):
            for cpp in (False, True):
                for L_ in (1, 2, 3):
                    case = {"what": "shipped", "which": w, "cpp": cpp, "L": L_}
                    rep.run(case, lambda: shipped(case, rep))
        return
    base = dict(job)
    if job["what"] == "lists":
        n4, n2 = (5, 8) if q else (6, 11)
        for n in range(n2 + 1):
            for flags in product((0, 2, 4, 6) if n <= n4 else (0, 2), repeat=n):
                for sn in ("ions", "atoms"):
                    for traj in ((True, False) if n <= 3 else (True,)):
                        case = dict(base, flags=list(flags), species=sn, traj=traj, direct=(sum(flags) // 2 + n) % 2 == 0)
                        rep.run(case, lambda: one_list(case, rep))
        for n in (33, 70, 150):
            for k in (2, 3, 7, 1000):
                for sn in ("ions", "atoms"):
                    case = dict(base, flags=[2 * (i % k == 1) for i in range(n)], species=sn, traj=True, direct=k == 3)
                    rep.run(case, lambda: one_list(case, rep))
        return
    kinds = [("list", "ions"), ("list", "atoms"), ("func", "ions"), ("func", "atoms"), ("list", "electrons"), ("unheard_of", "ions")]
    for m in range(4 if q else 5):
        for entries in product(kinds, repeat=m):
            for flags in ([], [2], [0, 2], [2, 0, 6]) if m < 3 or not q else ([0, 2], [6, 4, 2]):
                case = dict(base, entries=[list(e) for e in entries], flags=list(flags), traj=True)
                rep.run(case, lambda: sequence(case, rep))


def replay(case, rep):
    rep.run(case, lambda: {"lists": one_list, "sequences": sequence, "shipped": shipped}[case["what"]](case, rep))
