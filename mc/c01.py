"""C01: the Python segmented storage is a list."""
from mc import sapmodel as S

FIELDS = [("x", "f8"), ("ux", "f8"), ("weight", "f8"), ("bitflags", "i4"), ("unique_ID", "i4")]
TECHNIQUE = "explicit-state exploration of all bounded operation histories on the real Python storage, in lockstep with a list model"
LEVEL_NOTE = "Exhaustive within the stated history length and segment lengths; the real class is executed, so no model gap beyond the list oracle."
BOUNDS = {
    "quick": "segment length 1,2,3; every operation sequence of length 4 over the wide alphabet (push 1/L/L+1/2L, whole and abandoned read pass, update pass with every keep/drop mask up to 4 items and 11 structured masks above, truncate, indexed write) and of length 7 over the narrow alphabet; segment lengths 1,2,4,5,8 with pushes of 1, 2L-1 and 6L+1 (up to 14 segments), read passes, structured update masks and truncation, length 3; 128..257 segments and 32768 or 65536 items (or segments) followed by two operations; each followed by a refill across a boundary and an update pass",
    "thorough": "as quick with lengths 5 (wide), 9 (narrow) and 4 (long storages)",
}
ORACLE = "a Python list of tuples, plus ceil(count/length) segment accounting, compared after every operation"
ASSUMPTIONS = ["segment lengths other than 1-5, 8, 100 and 128 behave as these do", "one pass at a time (passes are not nested)"]
DEPTHS = {"quick": (4, 7), "thorough": (5, 9)}
BIG = {"quick": 3, "thorough": 4}
make = S.PySap


def jobs(tier):
    wide, narrow = DEPTHS[tier]
    for L in (2, 3, 1):
        for first in S.alphabet(0, L, True):
            n1 = S.count_after(0, first)
            for second in S.alphabet(n1, L, True):
                yield {"L": L, "prefix": [first, second], "depth": wide - 2, "wide": True}
        for first in S.alphabet(0, L, False):
            n1 = S.count_after(0, first)
            for second in S.alphabet(n1, L, False):
                n2 = S.count_after(n1, second)
                for third in S.alphabet(n2, L, False):
                    yield {"L": L, "prefix": [first, second, third], "depth": narrow - 3, "wide": False}


    for L in (8, 5, 4, 2, 1):
        for first in S.alphabet(0, L, "big"):
            n1 = S.count_after(0, first)
            for second in S.alphabet(n1, L, "big"):
                yield {"L": L, "prefix": [first, second], "depth": BIG[tier] - 2, "wide": "big"}
    for first in reversed(S.MANY):
        yield {"many": first}


def explore(job, tier, rep):
    if "many" in job:
        for L, h in S.many(job["many"]):
            case = {"L": L, "h": h}
            rep.run(case, lambda: S.run_history(make, L, FIELDS, 2, h, rep))
            rep.note("many")
        return
    for h in S.histories(job["prefix"], job["L"], job["depth"], job["wide"]):
        case = {"L": job["L"], "h": h}
        rep.run(case, lambda: S.run_history(make, job["L"], FIELDS, 2, h, rep))
    rep.note("histories", rep.executions)


def replay(case, rep):
    rep.run(case, lambda: S.run_history(make, case["L"], FIELDS, 2, case["h"], rep))


EXPECT = {"histories": 1000, "many": 200}
