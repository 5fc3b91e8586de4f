"""Exhaustive operation histories on a segmented array pair, against a plain Python list.

An operation is a short list:
  ["p", k]        add k items (alternating the accepted kinds of argument)
  ["R"]           whole read pass: every segment visited, every item modified in place
  ["r"]           read pass abandoned after its first segment
  ["U", mask]     update pass: item i is kept (and modified) iff mask[i] == "1"
  ["S", n]        truncate to the first n items
  ["W", i]        write item i through its (segment, offset)
After every operation the complete observable content is compared with the list.
"""
import itertools

import numpy as np

from mc.core import require


class PySap(object):
    """Adapter for SegmentedArrayPair_Module.SegmentedArrayPair_C"""

    def __init__(self, L, fields):
        import SegmentedArrayPair_Module as M
        self.dtype = np.dtype({"names": [f for f, _ in fields], "formats": [t for _, t in fields]})
        self.sap = M.SegmentedArrayPair_C(L, self.dtype)

    def push(self, item, kind):
        if kind == 0:
            return self.sap.push_back(item)
        a = np.empty(1, dtype=self.dtype)
        a[0] = item
        return self.sap.push_back(a)

    def views(self, i):
        """Every way the interface offers of reading item i."""
        yield tuple(self.sap.get_item(i))
        yield tuple(self.sap[i])

    def next_out(self):
        return self.sap.get_next_out_segment()

    def write(self, i, item):
        self.sap[i] = item


class CppSap(object):
    """Adapter for segmented_array_pair_solib.SegmentedArrayPair_<type>"""

    def __init__(self, L, fields, typename):
        import dt_pybind11_bridge  # noqa: F401
        import numpy_types_solib  # noqa: F401
        import segmented_array_pair_solib as S
        self.dtype = np.dtype({"names": [f for f, _ in fields], "formats": [t for _, t in fields]})
        self.names = [f for f, _ in fields]
        self.sap = getattr(S, "SegmentedArrayPair_" + typename)(L)

    def push(self, item, kind):
        if kind == 0:
            return self.sap.push_back(item)
        if kind == 1:
            return self.sap.push_back(list(item))
        a = np.empty(1, dtype=self.dtype)
        a[0] = item
        return self.sap.push_back(a)

    def views(self, i):
        yield tuple(self.sap.get_as_tuple(i))
        yield tuple(self.sap.get_as_list(i))
        d = self.sap.get_item(i)
        require(sorted(d) == sorted(self.names), "item-fields", d)
        yield tuple(d[n] for n in self.names)

    def next_out(self):
        t = self.sap.get_next_out_segment()
        return t[0]

    def write(self, i, item):
        seg, off = self.sap.get_segment_and_offset(i)
        seg[off] = item


def make_item(serial, fields):
    """Field values that are all different, across fields and items."""
    out = []
    for j, (_, t) in enumerate(fields):
        v = 1000 * (serial + 1) + j
        out.append(v if np.dtype(t).kind == "i" else v + 0.25)
    return tuple(out)


class Machine(object):
    """Runs operations on the real storage and on the list; compares after each."""

    def __init__(self, make, L, fields, nkinds, rep):
        self.L, self.fields, self.nkinds, self.rep = L, fields, nkinds, rep
        self.a = make(L, fields)
        self.s = self.a.sap
        self.items = []
        self.serial = 0
        self.nseg = [1, 1]          # [in, out]
        self.names = [f for f, _ in fields]
        self.mark = self.names.index("weight")
        self.itembytes = self.a.dtype.itemsize

    def bump(self, t):
        """What a pass does to an item: change one field."""
        t = list(t)
        t[self.mark] += 0.5
        return tuple(t)

    def check_seg(self, seg, n, base, what):
        for o in range(n):
            require(tuple(seg[o]) == self.items[base + o], what, lambda: "item %d: %s, expected %s" % (
                base + o, tuple(seg[o]), self.items[base + o]))

    def expected_chunks(self):
        n, L = len(self.items), self.L
        return [(b, min(L, n - b)) for b in range(0, n, L)]

    def check(self):
        n, L, s = len(self.items), self.L, self.s
        got = s.get_number_of_items()
        require(got == n, "item-count", "reported %s, expected %d" % (got, n))
        for i in range(n):
            for v in self.a.views(i):
                require(v == self.items[i], "item-value", lambda: "item %d is %s, expected %s" % (i, v, self.items[i]))
            seg, off = s.get_segment_and_offset(i)
            require(tuple(seg[off]) == self.items[i], "segment-and-offset",
                    lambda: "item %d is %s, expected %s" % (i, tuple(seg[off]), self.items[i]))
        ns = tuple(s.get_number_of_segments())
        require(ns == tuple(self.nseg), "segment-count", "%s, expected %s (in, out)" % (ns, self.nseg))
        cap = tuple(s.get_capacity())
        require(cap == (ns[0] * L, ns[1] * L) and cap[1] >= n, "capacity", "%s for %d items in %s segments" % (cap, n, ns))
        mb = tuple(s.get_number_of_mbytes())
        want = tuple(k * L * self.itembytes / 1.0e6 for k in ns)
        require(all(abs(x - y) < 1e-12 for x, y in zip(mb, want)), "mbytes", "%s, expected %s" % (mb, want))
        self.rep.state((type(self.a).__name__, self.L, n, tuple(self.nseg), tuple(i[-1] for i in self.items)))

    def op(self, o):
        self.rep.step()
        getattr(self, "op_" + o[0])(*o[1:])
        self.check()

    def op_p(self, k):
        for _ in range(k):
            item = make_item(self.serial, self.fields)
            r = self.a.push(item, self.serial % self.nkinds)
            self.serial += 1
            i = len(self.items)
            self.items.append(item)
            self.nseg[1] = max(self.nseg[1], i // self.L + 1)
            require(tuple(r) == (i % self.L, i), "push-index", lambda: "push returned %s, expected %s" % (r, (i % self.L, i)))

    def op_R(self, stop=None):
        s, L = self.s, self.L
        chunks = self.expected_chunks()
        n, seg = s.init_out_loop()
        k = 0
        while seg is not None:
            require(k < len(chunks), "read-pass", "extra segment %d with %d items" % (k, n))
            base, want = chunks[k]
            require(n == want, "read-pass", "segment %d has %d items, expected %d" % (k, n, want))
            self.check_seg(seg, n, base, "read-pass")
            for o in range(n):
                require(s.get_full_index(o, "out") == base + o, "full-index-out", lambda: "%s, expected %d" % (
                    s.get_full_index(o, "out"), base + o))
                self.items[base + o] = self.bump(self.items[base + o])
                seg[o] = self.items[base + o]
            k += 1
            if stop is not None and k >= stop:
                return
            n, seg = s.get_next_segment("out")
        require(n == 0 and k == len(chunks), "read-pass", "stopped after %d of %d segments" % (k, len(chunks)))

    def op_r(self):
        self.op_R(stop=1)

    def op_U(self, mask):
        """The protocol every mover follows."""
        s, L = self.s, self.L
        chunks = self.expected_chunks()
        n, seg, out = s.init_inout_loop()
        require((seg is None) == (not chunks), "update-pass", "starts with %s for %d items" % (n, len(self.items)))
        if seg is None:
            require(n == 0, "update-pass", "%d items reported in empty storage" % n)
            s.set_number_of_items("out", 0)
            return
        self.nseg.reverse()
        old, new = self.items, []
        k = 0
        ipout = 0
        oseg = 0
        while seg is not None:
            require(k < len(chunks), "update-pass", "extra segment %d with %d items" % (k, n))
            base, want = chunks[k]
            require(n == want, "update-pass", "segment %d has %d items, expected %d" % (k, n, want))
            for i in range(n):
                require(tuple(seg[i]) == old[base + i], "update-pass-in", lambda: "item %d is %s, expected %s" % (
                    base + i, tuple(seg[i]), old[base + i]))
                if ipout == L:
                    out = self.a.next_out()
                    ipout = 0
                    oseg += 1
                    self.nseg[1] = max(self.nseg[1], oseg + 1)
                out[ipout] = seg[i]
                require(s.get_full_index(i, "in") == base + i, "full-index-in", "%s, expected %d" % (
                    s.get_full_index(i, "in"), base + i))
                fi = tuple(s.get_full_indices(i, ipout))
                require(fi == (base + i, oseg * L + ipout), "full-indices", lambda: "%s, expected %s" % (
                    fi, (base + i, oseg * L + ipout)))
                cur = s.get_current_out_segment()
                require(tuple(cur[ipout]) == tuple(out[ipout]), "current-out-segment",
                        lambda: "%s, expected %s" % (tuple(cur[ipout]), tuple(out[ipout])))
                if mask[base + i] == "1":
                    out[ipout] = self.bump(old[base + i])
                    new.append(self.bump(old[base + i]))
                    ipout += 1
            k += 1
            n, seg = s.get_next_segment("in")
        require(n == 0 and k == len(chunks), "update-pass", "stopped after %d of %d segments" % (k, len(chunks)))
        s.set_number_of_items("out", len(new))
        self.items = new

    def op_S(self, n):
        self.s.set_number_of_items("out", n)
        del self.items[n:]

    def op_W(self, i):
        self.items[i] = make_item(self.serial, self.fields)
        self.serial += 1
        self.a.write(i, self.items[i])


def masks(n, L, full):
    """Keep/drop patterns for n items: all of them up to `full` items, else the structured ones."""
    if n == 0:
        return [""]
    if n <= full:
        return ["".join(m) for m in itertools.product("10", repeat=n)]
    pats = [lambda i: 1, lambda i: 0, lambda i: i > 0, lambda i: i < n - 1, lambda i: i % 2, lambda i: i == 0,
            lambda i: i == n - 1, lambda i: i >= L, lambda i: i < (n - 1) // L * L, lambda i: i < L,
            lambda i: i // L != 1]
    return list(dict.fromkeys("".join("1" if p(i) else "0" for i in range(n)) for p in pats))


def count_after(n, o):
    return {"p": lambda: n + o[1], "U": lambda: o[1].count("1"), "S": lambda: o[1]}.get(o[0], lambda: n)()


def alphabet(n, L, wide):
    """Operations enabled with n items stored."""
    if wide == "big":
        ops = [["p", k] for k in dict.fromkeys((1, 2 * L - 1, 6 * L + 1)) if n + k <= 14 * L]
        ops += [["R"]] + ([["r"]] if n else [])
        ops += [["U", m] for m in masks(n, L, 0)]
        return ops + [["S", k] for k in (n - 1,) if n]
    ops = [["p", 1]]
    if wide:
        ops += [["p", k] for k in (L, L + 1, 2 * L) if k > 1 and n + k <= 5 * L]
    ops += [["R"]]
    if n:
        ops += [["r"]]
    if wide:
        ops += [["U", m] for m in masks(n, L, 4)]
        ops += [["S", k] for k in sorted({0, n - 1, n - n % L}) if 0 <= k < n]
        ops += [["W", k] for k in sorted({0, n - 1}) if 0 <= k < n]
    else:
        ops += [["U", m] for m in dict.fromkeys(("1" * n, "0" * n, "0" + "1" * (n - 1) if n else "",
                                                "1" * (n - 1) + "0" if n else ""))]
    return ops


def histories(prefix, L, depth, wide):
    """All maximal histories extending prefix: every op sequence of the given length."""
    n = 0
    for o in prefix:
        n = count_after(n, o)

    def rec(h, n, d):
        if d == 0:
            yield h
            return
        for o in alphabet(n, L, wide):
            for x in rec(h + [o], count_after(n, o), d - 1):
                yield x
    for x in rec(list(prefix), n, depth):
        yield x


def many(first):
    """Storages with more segments, or more items, than a byte or two bytes can count.

    (segment length, history) for the group of histories that begin with `first` = [segment length, items]."""
    L, k = first
    n = k
    if n > 1000:
        odd = "10" * (n // 2) + "1" * (n % 2)
        for tail in ([["R"], ["p", 1], ["U", odd + "1"]], [["U", "0" + "1" * (n - 1)], ["S", n - 2]]):
            yield L, [["p", k]] + tail
        return
    for o in [["p", 1], ["R"], ["r"], ["S", n - 1], ["W", n - 1]] + [["U", m] for m in masks(n, L, 0)]:
        for o2 in [["p", 1], ["R"]] + [["U", m] for m in masks(count_after(n, o), L, 0)[:4]]:
            yield L, [["p", k], o, o2]


MANY = [[1, 128], [1, 257], [2, 257], [100, 32768], [128, 65536], [1, 32768]]


def run_history(make, L, fields, nkinds, hist, rep):
    m = Machine(make, L, fields, nkinds, rep)
    m.check()
    for o in hist:
        m.op(o)
    # The storage must be fully usable afterwards: fill past a boundary, then read it all.
    m.op(["p", L + 1])
    m.op(["U", "1" * len(m.items)])
    return (L, tuple(i[-1] for i in m.items), tuple(m.nseg))
