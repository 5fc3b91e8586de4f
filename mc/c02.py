"""C02: the compiled segmented storage is a list, for every particle type."""
from mc import sapmodel as S

COORDS = {"cartesian_x": ["x"], "cartesian_xy": ["x", "y"], "cartesian_xyz": ["x", "y", "z"], "spherical_r": ["r"]}


def fields(t):
    c = COORDS[t]
    names = c + [q + "0" for q in c] + ["u" + q for q in c] + ["weight"]
    return [(n, "f8") for n in names] + [(n, "i4") for n in ("bitflags", "cell_index", "unique_ID", "crossings")]


TECHNIQUE = "explicit-state exploration of all bounded operation histories on the real compiled storage, in lockstep with a list model"
LEVEL_NOTE = "Exhaustive within the stated history length and segment lengths; the real class is executed, so no model gap beyond the list oracle."
BOUNDS = {
    "quick": "particle types x, xy, xyz, r; segment length 1,2,3; every operation sequence of length 3 over the wide alphabet (as C01; pushes cycle through tuple, list and record-array arguments), of length 4 for xyz with length 2, and of length 6 over the narrow alphabet; segment lengths 1,2,4,5,8 with pushes of 1, 2L-1 and 6L+1 (up to 14 segments), read passes, structured update masks and truncation, length 3; 128..257 segments and 32768 or 65536 items (or segments) followed by two operations; each followed by a refill across a boundary and an update pass",
    "thorough": "as quick with lengths 4 (wide; 5 for xyz, length 2) 8 (narrow) and 4 (long storages)",
}
ORACLE = "a Python list of tuples, plus segment accounting, compared after every operation through all accessors"
ASSUMPTIONS = ["segment lengths other than 1-5, 8, 100 and 128 behave as these do",
               "the raw-pointer variants of the loop functions are exercised by the compiled movers (C03, C05), not here"]
DEPTHS = {"quick": (3, 4, 6), "thorough": (4, 5, 8)}


MOST = {"cartesian_xyz": [[100, 32768], [128, 65536]], "cartesian_xy": [[1, 32768]], "cartesian_x": [[100, 32768]],
        "spherical_r": [[1, 32768]]}
BIG = {"quick": 3, "thorough": 4}


def jobs(tier):
    wide, deep, narrow = DEPTHS[tier]
    for t in ("cartesian_xyz", "cartesian_xy", "cartesian_x", "spherical_r"):
        for L in (2, 3, 1):
            d = deep if (t, L) == ("cartesian_xyz", 2) else wide
            for first in S.alphabet(0, L, True):
                yield {"t": t, "L": L, "prefix": [first], "depth": d - 1, "wide": True}
            for first in S.alphabet(0, L, False):
                n1 = S.count_after(0, first)
                for second in S.alphabet(n1, L, False):
                    yield {"t": t, "L": L, "prefix": [first, second], "depth": narrow - 2, "wide": False}


        for L in (8, 5, 4, 2, 1):
            for first in S.alphabet(0, L, "big"):
                yield {"t": t, "L": L, "prefix": [first], "depth": BIG[tier] - 1, "wide": "big"}
        for first in reversed(S.MANY):
            if first[1] < 1000 or first in MOST[t]:
                yield {"t": t, "many": first}


def one(case, rep):
    t = case["t"]
    return S.run_history(lambda L, f: S.CppSap(L, f, t), case["L"], fields(t), 3, case["h"], rep)


def explore(job, tier, rep):
    if "many" in job:
        for L, h in S.many(job["many"]):
            case = {"t": job["t"], "L": L, "h": h}
            rep.run(case, lambda: one(case, rep))
            rep.note("many")
        return
    for h in S.histories(job["prefix"], job["L"], job["depth"], job["wide"]):
        case = {"t": job["t"], "L": job["L"], "h": h}
        rep.run(case, lambda: one(case, rep))
    rep.note("histories_" + job["t"], rep.executions)


def replay(case, rep):
    rep.run(case, lambda: one(case, rep))


EXPECT = dict({"histories_" + t: 500 for t in COORDS}, many=700)
