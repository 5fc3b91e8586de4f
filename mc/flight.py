"""Flights of particles against marked facets: boundary calls (C06), reflection (C07), recorded crossings (C11).

Every flight is compared with exact ray tracing (mc.geom).  Only flights in general position are used: no crossing
within MARGIN of an edge, no end point within MARGIN of a facet.
"""
from fractions import Fraction as F
from itertools import product
import numpy as np
from mc import plib as L
from mc.geom import mirror
from mc.core import require

TOL = 1e-9
MARGIN = F(1, 10 ** 6)
DT = F(1, 2)
_fields = {}


def zero_field(world):
    if id(world) not in _fields:
        _fields[id(world)] = (world, L.zero_E(world))
    return _fields[id(world)][1]


def generic(em, c, tr):
    if tr["degenerate"] or tr["slide"]:
        return False
    for f, done, x, kind, cell, s in tr["events"]:
        b = sorted(em.bary(cell, x))
        if em.dim > 1 and b[1] < MARGIN:
            return False
        if s < MARGIN:
            return False
    return not tr["alive"] or min(em.bary(tr["cell"], tr["end"])) > MARGIN


def fly(em, x, d, steps, bc):
    """Exact traces of the repeated move, or None when one of them is not in general position."""
    cs = em.cells_of(x)
    if len(cs) != 1 or min(em.bary(cs[0], x)) < MARGIN:
        return None
    c, out = cs[0], []
    for n in range(steps):
        tr = em.trace(c, x, d, bc)
        if not generic(em, c, tr):
            return None
        tr["start_cell"] = c
        tr["u"] = list(d)
        for nn in tr["flips"]:
            tr["u"] = mirror(tr["u"], nn)
        out.append(tr)
        if not tr["alive"]:
            break
        c, x, d = tr["cell"], tr["end"], tr["u"]
    return out


class Recorder(object):
    """User boundary functions that write down how they were called. names: function name -> what it does."""

    def __init__(self, names, coords):
        self.calls = []
        for n, act in names.items():
            setattr(self, n, self.make(n, act, coords))

    def make(self, name, act, coords):
        dim = len(coords)

        def f(p, species, facet, dx_fraction=None, facet_normal=None):
            self.calls.append((name, int(p["unique_ID"]), str(species), int(facet), float(dx_fraction),
                               [float(v) for v in facet_normal], [float(p[k]) for k in range(dim)],
                               [float(p[dim + k]) for k in range(dim)], [float(p[2 * dim + k]) for k in range(dim)]))
            todo = act(int(facet)) if callable(act) else act
            if todo == "absorb":
                p["bitflags"] = p["bitflags"] | 1
            elif todo == "reflect":
                n = [float(v) for v in facet_normal]
                out = [float(p[k] - p[dim + k]) for k in range(dim)]
                a = 2 * sum(i * j for i, j in zip(n, out))
                b = 2 * sum(i * float(p[2 * dim + k]) for k, i in enumerate(n))
                for k, c in enumerate(coords):
                    p[c] -= a * n[k]
                    p["u" + c] -= b * n[k]
        return f


def expected_function(names, boundary, species):
    for n in ("bc_at_%s_for_%s" % (boundary, species), "default_bc_at_%s" % boundary, "default_bc"):
        if n in names:
            return n
    return None


def run(world, species, kind_of, cpp, system, seg, steps, batch, rep, user=None, names=None, tags=None, energy=False):
    """species: [(name, q, m)]; kind_of(boundary, species, facet) -> absorb/reflect/pass; batch: [(species, x, d)] exact.

    user: P -> the Python user object (Python movers); names: the recorder's functions, to check the calls."""
    em = world.em
    pdim = em.dim
    P = L.make_particles(species, pdim, seg, cpp, system=system)
    P.traj_T = None
    obj = None if cpp else user(P)
    L.attach(P, world, obj)
    size = float(L.unit(world.name))
    q = {s[0]: s[1] for s in species}
    state = {}
    for i, (sn, x, d) in enumerate(batch):
        def bc(f, sn=sn):
            return kind_of(world.facet_name[f], sn, f) if f in world.facet_name else None
        path = fly(em, x, d, steps, bc)
        assert path is not None
        uid = 1000 + i
        L.push(P, sn, [L.record(P, x, [v / DT for v in d], weight=1 + i, flags=4, uid=uid, cell=em.cells_of(x)[0])])
        state[uid] = (sn, path, "%s species %s start %s move %s" % (world.name, sn, show(x), show(d)), x)
    for n in range(steps):
        ctrl = L.control(float(DT), nstep=n + 1, time=float(DT) * (n + 1))
        if names is not None:
            obj.calls.clear()
        if any(v == 0 for v in q.values()):
            P.advance_neutral_particles(ctrl)
        if any(v != 0 for v in q.values()):
            P.advance_charged_particles_in_E_field(ctrl, neg_E_field=zero_field(world))
        got = {}
        for sn in q:
            for p in L.items(P, sn):
                got[int(p["unique_ID"])] = (sn, p)
        if names is not None:
            check_calls(world, em, obj.calls, state, n, names, rep)
        for uid, (sn, path, what, x) in state.items():
            if n >= len(path):
                require(uid not in got, "resurrected", lambda: "%s step %d" % (what, n + 1))
                continue
            tr = path[n]
            rep.step(1 + len(tr["events"]))
            if not tr["alive"]:
                rep.note("absorbed")
                require(uid not in got, "not absorbed", lambda: "%s step %d: should be absorbed" % (what, n + 1))
                continue
            require(uid in got and got[uid][0] == sn, "lost", lambda: "%s step %d: should end at %s, was removed" % (
                what, n + 1, show(tr["end"])))
            p = got[uid][1]
            g = [float(p[k]) for k in range(pdim)]
            require(close(g, tr["end"], size), "wrong end point", lambda: "%s step %d: at %s, should be at %s" % (
                what, n + 1, g, show(tr["end"])))
            u = [float(p[2 * pdim + k]) for k in range(pdim)]
            require(close(u, [v / DT for v in tr["u"]], size), "wrong velocity", lambda: "%s step %d: velocity %s, should be %s" % (
                what, n + 1, u, show([v / DT for v in tr["u"]])))
            require(int(p["cell_index"]) == tr["cell"], "wrong cell", lambda: "%s step %d: ends at %s, in cell %d, recorded in %d" % (
                what, n + 1, show(tr["end"]), tr["cell"], int(p["cell_index"])))
            require(p["weight"] == 1 + uid - 1000 and int(p["bitflags"]) == 4, "record altered", lambda: "%s: %s" % (what, p))
            require(int(p["crossings"]) == len(tr["events"]), "crossings", lambda: "%s step %d: %d crossings recorded, %d made" % (
                what, n + 1, int(p["crossings"]), len(tr["events"])))
            if energy:
                e0 = sum(float(v / DT) ** 2 for v in path[0]["u"])
                require(abs(sum(v * v for v in u) - e0) <= 1e-9 * (size * size + e0), "energy changed", lambda: what)
            rep.note("reflections", len(tr["flips"]))
            if len(tr["flips"]) > 1:
                rep.note("multiple_reflections")
            rep.state((world.name, system, cpp, tr["start_cell"], tuple(e[0] for e in tr["events"]), tr["cell"]))
        for uid, (sn, p) in got.items():
            require(uid in state, "unknown particle", "")
    return len(got)


def check_calls(world, em, calls, state, n, names, rep):
    per = {}
    for c in calls:
        per.setdefault(c[1], []).append(c)
    for uid in per:
        require(uid in state, "call for an unknown particle", lambda: "%s" % (per[uid],))
    for uid, (sn, path, what, x0) in state.items():
        have = per.get(uid, [])
        want = [] if n >= len(path) else [e for e in path[n]["events"] if e[0] in world.facet_name]
        wn = [expected_function(names, world.facet_name[e[0]], sn) for e in want]
        require([h[0] for h in have] == wn, "wrong boundary function", lambda: "%s step %d: calls %s, should be %s (facets %s)" % (
            what, n + 1, [h[0] for h in have], wn, [e[0] for e in want]))
        rep.note("calls", len(have))
        for h, (f, done, pt, kind, cell, s) in zip(have, want):
            where = "%s step %d: %s" % (what, n + 1, h[0])
            require(h[2] == sn, "wrong species passed", lambda: "%s: got %s" % (where, h[2]))
            require(h[3] == f, "wrong facet passed", lambda: "%s: got facet %d, crossed %d" % (where, h[3], f))
            require(abs(h[4] - float(s)) < TOL, "wrong fraction passed", lambda: "%s: got %g, should be %g" % (where, h[4], float(s)))
            nn = em.outward(cell, f)
            ln = float(sum(v * v for v in nn)) ** 0.5
            require(close(h[5], [float(v) / ln for v in nn]), "wrong normal passed", lambda: "%s: got %s, should be %s" % (
                where, h[5], [float(v) / ln for v in nn]))
            require(close(h[7], pt, float(L.unit(world.name))), "wrong crossing point passed", lambda: "%s: got %s, should be %s" % (where, h[7], show(pt)))


def close(a, b, size=1.0):
    return all(abs(x - float(y)) < TOL * size for x, y in zip(a, b))


def show(x):
    return "(" + ", ".join("%g" % float(v) for v in x) + ")"


def flights(em, starts, moves, steps, bc, rep=None):
    """Every (x, d) of the product that is in general position."""
    for x in starts:
        for d in moves:
            try:
                path = fly(em, x, d, steps, bc)
            except ValueError:
                path = None
            if path is None:
                if rep is not None:
                    rep.note("left_out_not_general")
                continue
            yield x, d


def start_lattice(em, step, shift):
    axes = []
    for k in range(em.dim):
        lo, hi = min(c[k] for c in em.coords), max(c[k] for c in em.coords)
        axes.append(L.lattice(lo + shift[k], hi, step))
    return [x for x in product(*axes) if em.cells_of(x)]


def move_lattice(dim, span, step, shift):
    return list(product(*[[v + shift[k] for v in L.lattice(-span, span, step)] for k in range(dim)]))
