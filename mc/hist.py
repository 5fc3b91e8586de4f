"""Histories of adding, moving and removing particles, with every assignment of fates (C03, C11, C13, C19).

A fate says how a particle ends: 0 never, k > 0 it flies into the absorbing wall during step k, -k the user sets its
delete flag just before step k.
"""
from fractions import Fraction as F
from itertools import product
import numpy as np
from mc import plib as L
from mc.core import require

DT = F(1, 2)
MOVERS = {  # name -> (compiled, system, mesh, kind)
    "py-neutral-1": (False, "cartesian_x", "line4", "neutral"),
    "py-neutral-2": (False, "cartesian_xy", "square_right", "neutral"),
    "py-neutral-3": (False, "cartesian_xyz", "cube", "neutral"),
    "py-charged-1": (False, "cartesian_x", "line4", "charged"),
    "py-charged-2": (False, "cartesian_xy", "square_right", "charged"),
    "py-charged-3": (False, "cartesian_xyz", "cube", "charged"),
    "cpp-charged-x": (True, "cartesian_x", "line4", "charged"),
    "cpp-charged-xy": (True, "cartesian_xy", "square_right", "charged"),
    "cpp-charged-r": (True, "spherical_r", "radial", "charged"),
    "cpp-neutral-xy": (True, "cartesian_xy", "square_right", "neutral"),
    "cpp-neutral-xyz": (True, "cartesian_xyz", "cube", "neutral"),
    "py-uniform": (False, "cartesian_xyz", None, "uniform"),
    "cpp-uniform": (True, "cartesian_xyz", None, "uniform"),
}
PDIM = {"cartesian_x": 1, "cartesian_xy": 2, "cartesian_xyz": 3, "spherical_r": 1}
NCOORD = PDIM
_worlds = {}
_fields = {}


def world_of(mesh, system):
    k = (mesh, system)
    if k not in _worlds:
        _worlds[k] = L.World(mesh, coordinate_system="1D-spherical-radial" if system == "spherical_r" else "Cartesian")
    return _worlds[k]


def compositions(L_, nmax, T, addmax, flags):
    """Every (init, adds) with 0..nmax initial particles and up to addmax added before each of steps 2..T."""
    def fates(first):
        f = [0] + list(range(first, T + 1))
        if flags:
            f += [-k for k in range(first, T + 1)]
        return f

    def groups(n, first):
        return product(fates(first), repeat=n)

    for n in range(nmax + 1):
        for init in groups(n, 1):
            for counts in product(range(addmax + 1), repeat=T - 1):
                for adds in product(*[list(groups(c, k + 2)) for k, c in enumerate(counts)]):
                    yield list(init), [list(a) for a in adds]


LONG_T = 12


def long_histories(mover, L_, nmax=3):
    """Twelve steps; one particle is added before every third step; ends early, in the middle and at the last step."""
    fates = {"cpp-uniform": (0,), "py-uniform": (0, -5, -12)}.get(mover, (0, 4, 11, 12, -7))
    for init in product(fates, repeat=nmax):
        if len(init) > 2 and list(init) != sorted(init, key=lambda f: (abs(f), f)) and init[0] <= init[-1]:
            continue            # keep sorted orders and their reverses
        late = [f for f in fates if abs(f) > 10 or f == 0]
        for k, f in enumerate(late):
            yield list(init), [[late[(k + j) % len(late)]] if j % 3 == 0 and j < LONG_T - 3 else [] for j in range(LONG_T - 1)]


class Vec(object):
    def __init__(self, x, y, z):
        self.x, self.y, self.z = x, y, z


class Run(object):
    """One history, on the real code and on the model (a list of particles per species)."""

    def __init__(self, case, rep, masses=(1.0, 2.0, 4.0), field=None):
        """field: world -> Field_C with -E (default: zero field)."""
        self.case, self.rep = case, rep
        self.cpp, self.system, mesh, self.kind = MOVERS[case["mover"]]
        self.pdim = PDIM[self.system]
        self.T = case["T"]
        q = 0 if self.kind == "neutral" else 1.0
        sp = [("alpha", q, masses[0]), ("beta", q, masses[1])]
        other = self.kind != "uniform" and (not self.cpp or self.system == "cartesian_xy")
        if other:
            sp.append(("gamma", 1.0 if q == 0 else 0, masses[2]))
        elif self.kind == "uniform":
            sp.append(("gamma", -1.0, masses[2]))
        self.species = [s[0] for s in sp]
        self.q = {s[0]: s[1] for s in sp}
        self.m = {s[0]: s[2] for s in sp}
        self.P = L.make_particles(sp, self.pdim, case["L"], self.cpp, system=self.system)
        self.P.traj_T = None
        self.E = None
        if mesh:
            self.world = world_of(mesh, self.system)
            L.attach(self.P, self.world)
            em = self.world.em
            self.hi = max(c[0] for c in em.coords)
            self.lo = min(c[0] for c in em.coords)
            k = (mesh, self.system, field)
            if k not in _fields:
                _fields[k] = (field or L.zero_E)(self.world)
            self.E = _fields[k]         # only read by the movers
        else:
            self.world, self.hi, self.lo = None, F(1), F(0)
            self.P.initialize_particle_integration() if not self.cpp else None
        self.model = {s: [] for s in self.species}
        self.uid = 100
        self.step = 0
        self.time = F(0)

    # -- building
    def fate_state(self, fate, k):
        """Start position and velocity of a particle created now (after self.step steps) with the given fate."""
        dl = (self.hi - self.lo) / (16 if self.T <= 6 else 32)
        if fate > 0:
            left = fate - self.step
            x, u = self.hi - dl * (2 * left - 1), 2 * dl / DT
        else:
            x, u = self.lo + dl + dl * F(k % 7, 8), F(k % 5, 64) * dl / DT
        return x, u

    def add(self, sn, fate, flags=4):
        k = self.uid
        x, u = self.fate_state(fate, k)
        self.uid += 1
        xs = [x] + [F(5, 32), F(3, 32)][:self.pdim - 1]
        us = [u] + [F(0), F(0)][:self.pdim - 1]
        if self.world is not None:
            cell = self.world.em.cells_of(xs)[0]
        else:
            cell = 0
        w = F(k - 99, 4) * F(2) ** self.case.get("wscale", 0)
        rec = L.record(self.P, xs, us, weight=w, flags=flags, uid=k, cell=cell)
        ret = self.P.sap_dict[sn].push_back(rec)
        self.model[sn].append({"uid": k, "x": xs, "u": us, "w": w, "flags": flags, "fate": fate})
        self.rep.step()
        return ret

    def flag_due(self, sn):
        """Sets the delete flag of every particle of sn whose fate says so before the coming step."""
        for i, p in enumerate(self.model[sn]):
            if p["fate"] == -(self.step + 1):
                seg, off = self.P.sap_dict[sn].get_segment_and_offset(i)
                seg[off]["bitflags"] = int(seg[off]["bitflags"]) | 1
                p["flags"] |= 1

    def moved_species(self):
        if self.kind == "uniform":
            return ["alpha"]
        return [s for s in self.species if (self.q[s] == 0) == (self.kind == "neutral")]

    def ctrl(self):
        return L.control(float(DT), nstep=self.step, time=float(self.time))

    def advance(self):
        for sn in self.species:
            self.flag_due(sn) if sn in self.moved_species() else None
        self.step += 1
        self.time += DT
        c = self.ctrl()
        before = {s: [p.tobytes() for p in L.items(self.P, s)] for s in self.species if s not in self.moved_species()}
        if self.kind == "neutral":
            self.P.advance_neutral_particles(c)
        elif self.kind == "charged":
            self.P.advance_charged_particles_in_E_field(c, neg_E_field=self.E)
        else:
            c.E0 = Vec(0.0, 0.0, 0.0)
            for sn in self.moved_species():
                if not self.model[sn]:
                    continue           # the callers of the uniform movers skip empty species
                if self.cpp:
                    self.P.particle_solib.advance_charged_species_in_uniform_fields(self.P, sn, c)
                else:
                    self.P.advance_charged_species_in_uniform_fields(sn, c)
        self.rep.step()
        for s, b in before.items():
            require([p.tobytes() for p in L.items(self.P, s)] == b, "other species changed",
                    lambda: "advancing %s changed species %s" % (self.moved_species(), s))
        self.died = []
        for sn in self.moved_species():
            keep = []
            for p in self.model[sn]:
                p["x"] = [a + b * DT for a, b in zip(p["x"], p["u"])]
                gone = p["flags"] & 1 or (self.kind != "uniform" and p["x"][0] > self.hi)
                assert bool(gone) == (p["fate"] != 0 and abs(p["fate"]) == self.step), p
                if gone:
                    self.died.append((sn, p))
                else:
                    keep.append(p)
            self.model[sn] = keep

    # -- checking
    def check_contents(self, where):
        for sn in self.species:
            want = self.model[sn]
            n = self.P.get_species_particle_count(sn)
            require(n == len(want), "particle count",
                    lambda: "%s: species %s: count %d, %d particles live" % (where, sn, n, len(want)))
            got = L.items(self.P, sn)
            require([int(p["unique_ID"]) for p in got] == [p["uid"] for p in want], "wrong particles",
                    lambda: "%s: species %s holds %s, should hold %s" % (
                        where, sn, [int(p["unique_ID"]) for p in got], [p["uid"] for p in want]))
            for p, w in zip(got, want):
                ok = float(p["weight"]) == float(w["w"]) and int(p["bitflags"]) == w["flags"]
                d = self.pdim
                ok = ok and all(abs(float(p[k]) - float(w["x"][k])) < 1e-9 for k in range(d))
                ok = ok and all(abs(float(p[2 * d + k]) - float(w["u"][k])) < 1e-9 for k in range(d))
                require(ok, "record altered", lambda: "%s: species %s: %s, should be %s" % (
                    where, sn, p, {k: (str(v) if k != "x" else [float(z) for z in v]) for k, v in w.items()}))
        tot = self.P.get_total_particle_count()
        require(tot == sum(len(v) for v in self.model.values()), "total count", lambda: "%s: %d" % (where, tot))
        self.rep.state((self.case["mover"], self.case["L"], self.step,
                        tuple(tuple(p["fate"] for p in self.model[s]) for s in self.species)))

    def populate(self, init, also=True):
        for f in init:
            self.add("alpha", f)
        if also:
            flag = 1 if self.kind == "uniform" else -1
            self.add("beta", 0)
            self.add("beta", 0 if flag == 1 else 1)
            self.add("beta", 0)
            for s in self.species[2:]:
                self.add(s, 0)
                self.add(s, 0)
