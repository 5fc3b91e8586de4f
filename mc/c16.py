"""C16: uniform-field stepping is exact for any particle count."""
from fractions import Fraction as F
from itertools import product
from mc import plib as L
from mc.hist import Vec
from mc.core import require

TECHNIQUE = "exhaustive enumeration of all histories of births and uniform-field steps (every species, field, timestep choice) up to a depth and of all particle counts x segment lengths x step counts, on the real Python and compiled movers, compared exactly with a rational list model"
LEVEL_NOTE = "Exhaustive within the stated depth, counts and field/timestep menu; the values of the histories are dyadic, so agreement there is exact equality; for the physical-value menu it is 1e-14 of the summed magnitudes."
BOUNDS = {
    "quick": "257 to 66000 particles in up to 517 segments; segment lengths 1,2,3; all histories of up to 6 operations from {birth in either of 2 species, step of either species with one of 2 fields/timesteps}; all counts 0..13 with segment lengths 1..4 and 1..4 steps; 1, 5, 13 particles for 20 steps; 37 and 70 particles; 27 field vectors x 3 timesteps; 4 species in SI units x 3 fields x 4 timesteps x 9 phase-space points, 1 and 3 steps, in full double precision",
    "thorough": "histories of up to 7 operations; counts 0..40 with segment lengths 1..7 and up to 6 steps",
}
ORACLE = "exact rational list model: u += (q/m) E dt, then x += u dt"
ASSUMPTIONS = ["the record's starting-position field is not part of the claim (the two movers differ in it)", "no particle carries the delete flag"]
EXPECT = {"many": 10, "histories": 5000, "particles": 20000}
SPECIES = [("a", 2.0, 4.0), ("b", -3.0, 1.0), ("c", 1.0, 8.0)]
QM = {"a": F(1, 2), "b": F(-3), "c": F(1, 8)}
FIELDS = [((F(1, 4), F(-1, 2), F(3, 8)), F(1, 2)), ((F(-2), F(0), F(1)), F(1, 4))]


class Run(object):
    def __init__(self, cpp, L_, rep):
        self.P = L.make_particles(SPECIES, 3, L_, cpp)
        self.cpp, self.L, self.rep = cpp, L_, rep
        self.model = {s[0]: [] for s in SPECIES}
        self.uid = 0

    def push(self, s):
        k = self.uid
        self.uid += 1
        x = [F(k, 4), F(-k, 8), F(k + 3, 16)]
        u = [F(3 - k, 8), F(k, 2), F(-1 - k, 4)]
        rec = L.record(self.P, x, u, weight=F(k + 1, 2), flags=4 * (k % 2), uid=k, cell=k % 5)
        self.P.sap_dict[s].push_back(rec)
        self.model[s].append([x, u, float(F(k + 1, 2)), 4 * (k % 2), k, k % 5])

    def step(self, s, E, dt):
        c = L.control(float(dt))
        c.E0 = Vec(*[float(v) for v in E])
        if self.cpp:
            self.P.particle_solib.advance_charged_species_in_uniform_fields(self.P, s, c)
        else:
            self.P.advance_charged_species_in_uniform_fields(s, c)
        for p in self.model[s]:
            p[1] = [u + QM[s] * dt * e for u, e in zip(p[1], E)]
            p[0] = [x + dt * u for x, u in zip(p[0], p[1])]
        self.rep.step()

    def check(self, where):
        for s, m in self.model.items():
            n = self.P.sap_dict[s].get_number_of_items()
            require(n == len(m), "count", lambda: "%s: species %s has %d, should have %d" % (where, s, n, len(m)))
            for i, (g, p) in enumerate(zip(L.items(self.P, s), m)):
                self.rep.note("particles")
                got = ([float(g[k]) for k in range(3)], [float(g[6 + k]) for k in range(3)], float(g["weight"]), int(g["bitflags"]),
                       int(g["unique_ID"]), int(g["cell_index"]), int(g["crossings"]))
                want = ([float(v) for v in p[0]], [float(v) for v in p[1]], p[2], p[3], p[4], p[5], 0)
                require(got == want, "particle", lambda: "%s: species %s particle %d is %s, should be %s" % (where, s, i, got, want))
        self.rep.state((self.cpp, self.L, tuple((s, len(m), str(m[-1][:2]) if m else "") for s, m in self.model.items())))


def history(case, rep):
    r = Run(case["cpp"], case["L"], rep)
    r.push("c")
    for op in case["ops"]:
        if op[0] == "+":
            r.push(op[1])
        else:
            E, dt = FIELDS[int(op[2])]
            r.step(op[1], E, dt)
    r.check(" ".join(case["ops"]))
    rep.note("histories")


def count(case, rep):
    r = Run(case["cpp"], case["L"], rep)
    for i in range(case["n"]):
        r.push("a")
    r.push("b")
    E = [F(v) for v in case["E"]]
    for k in range(case["steps"]):
        r.step("a", E, F(case["dt"]))
        r.check("%d particles, step %d" % (case["n"], k + 1))


PHYSICAL = [("electron", -1.602176634e-19, 9.1093837015e-31), ("proton", 1.602176634e-19, 1.67262192369e-27),
            ("alpha", 2 * 1.602176634e-19, 6.6446573357e-27), ("unit", 1.0, 3.0)]
POINTS = [(0.1, -0.3, 0.7), (1e-9 / 3, 1e9 / 7, -1.0 / 3), (0.0, 1e-300, -123456.789)]
SPEEDS = [(1e5 / 7, -2.9e7, 1.0 / 3), (0.0, -1e-7 / 3, 0.2), (3.3e-3, 5.0e5 / 3, -1e8 / 7)]
STRENGTHS = [(1234.5678, -1e5 / 3, 0.1), (0.0, 1e-3 / 7, -7.7e6), (1e-12 / 3, 0.3, 1e4 / 9)]
TIMESTEPS = [1e-9 / 3, 0.1, 7.7e-6, -1e-12 / 7]


def physical(case, rep):
    """Values a simulation would use: full double precision is kept through several steps."""
    s, E, dt = PHYSICAL[case["species"]], STRENGTHS[case["E"]], TIMESTEPS[case["dt"]]
    P = L.make_particles([s], 3, case["L"], case["cpp"])
    c = L.control(dt)
    c.E0 = Vec(*E)
    model = []
    for i, (x, u) in enumerate(product(POINTS, SPEEDS)):
        P.sap_dict[s[0]].push_back(L.record(P, list(x), list(u), weight=1.0 / (3 + i), flags=0, uid=i, cell=i % 3))
        model.append([[F(v) for v in x], [F(v) for v in u], [abs(F(v)) for v in x], [abs(F(v)) for v in u]])
    for _ in range(case["steps"]):
        if case["cpp"]:
            P.particle_solib.advance_charged_species_in_uniform_fields(P, s[0], c)
        else:
            P.advance_charged_species_in_uniform_fields(s[0], c)
        rep.step()
        for p in model:
            for k in range(3):
                kick = F(s[1]) / F(s[2]) * F(dt) * F(E[k])
                p[1][k] += kick
                p[3][k] += abs(kick)
                p[0][k] += p[1][k] * F(dt)
                p[2][k] += p[3][k] * abs(F(dt))
    got = L.items(P, s[0])
    require(len(got) == len(model), "count", lambda: "%d particles instead of %d" % (len(got), len(model)))
    for i, (g, p) in enumerate(zip(got, model)):
        rep.note("particles")
        for k in range(3):
            for what, v, w, size in (("position", float(g[k]), p[0][k], p[2][k]), ("velocity", float(g[6 + k]), p[1][k], p[3][k])):
                require(abs(F(v) - w) <= size * F(1, 10 ** 14), what,
                        lambda: "%s in field %s, dt %s, %d steps: %s component %d of particle %d is %r, should be %r"
                        % (s[0], E, dt, case["steps"], what, k, i, v, float(w)))
        require(float(g["weight"]) == 1.0 / (3 + i) and int(g["unique_ID"]) == i, "record", lambda: "particle %d is now %s" % (i, g))
    rep.state((case["cpp"], s[0], case["E"], case["dt"], case["steps"], str([p[0] for p in model[:2]])[:200]))


OPS = ["+a", "+b", "a0", "a1", "b0", "b1"]
for _o in OPS:
    assert len(_o) == 2


def decode(ops):
    return [o if o[0] == "+" else "s" + o for o in ops]


def jobs(tier):
    q = tier == "quick"
    for cpp in (False, True):
        for L_ in ((1, 2, 3) if q else (1, 2, 3, 4)):
            for first in OPS[:2]:
                yield {"what": "histories", "cpp": cpp, "L": L_, "first": first, "depth": 6 if q else 7}
            yield {"what": "histories", "cpp": cpp, "L": L_, "first": None, "depth": 4}
        for L_ in range(1, 5 if q else 8):
            yield {"what": "counts", "cpp": cpp, "L": L_}
        yield {"what": "fields", "cpp": cpp}
        yield {"what": "many", "cpp": cpp}
        yield {"what": "physical", "cpp": cpp}


def explore(job, tier, rep):
    q = tier == "quick"
    if job["what"] == "histories":
        for n in range(1, job["depth"] + 1):
            for rest in product(OPS, repeat=n - (job["first"] is not None)):
                ops = ([job["first"]] if job["first"] else []) + list(rest)
                if ops[-1][0] == "+" or (job["first"] is None and ops[0][0] == "+"):
                    continue
                case = {"cpp": job["cpp"], "L": job["L"], "ops": decode(ops)}
                rep.run(case, lambda: history(case, rep))
    elif job["what"] == "counts":
        for n in range(14 if q else 41):
            for steps in ((1, 2, 3, 4) if q else (1, 3, 6)):
                case = {"cpp": job["cpp"], "L": job["L"], "n": n, "steps": steps, "E": ["1/4", "-1/2", "3/8"], "dt": "1/2"}
                rep.run(case, lambda: count(case, rep))
        for n, steps in ((1, 20), (5, 20), (13, 20), (37, 2), (70, 2)):
            case = {"cpp": job["cpp"], "L": job["L"], "n": n, "steps": steps, "E": ["1/4", "-1/2", "3/8"], "dt": "1/2"}
            rep.run(case, lambda: count(case, rep))
    elif job["what"] == "many":
        for n, L_ in ((257, 1), (512, 2), (1000, 100), (33000, 100), (66000, 128)):
            case = {"cpp": job["cpp"], "L": L_, "n": n, "steps": 2 if n < 60000 else 1, "E": ["1/4", "-1/2", "3/8"], "dt": "1/2"}
            rep.run(case, lambda: count(case, rep))
            rep.note("many")
    elif job["what"] == "physical":
        for s, E, dt, L_, steps in product(range(len(PHYSICAL)), range(len(STRENGTHS)), range(len(TIMESTEPS)), (4, 100) if q else (1, 4, 5, 100), (1, 3) if q else (1, 2, 3, 10)):
            case = {"cpp": job["cpp"], "species": s, "E": E, "dt": dt, "L": L_, "steps": steps}
            rep.run(case, lambda: physical(case, rep))
    else:
        for E in product(("-1", "0", "3/4"), repeat=3):
            for dt in ("1/2", "2", "-1/4"):
                for L_ in (1, 3):
                    case = {"cpp": job["cpp"], "L": L_, "n": 4, "steps": 3, "E": list(E), "dt": dt}
                    rep.run(case, lambda: count(case, rep))


def replay(case, rep):
    rep.run(case, lambda: physical(case, rep) if "species" in case else count(case, rep) if "n" in case else history(case, rep))
