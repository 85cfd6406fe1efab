"""Fault injection on the library's live circuits, many scenarios per execution."""
from __future__ import annotations

from mon.codes import data_of, make
from mon.common import nqubits
from mon.place import placed, where
from mon.sim import Tableau, counts_key, frames, qidx, walk


class Run:
    """reset, `rounds` rounds, readout of one logical qubit, with the event positions of interest."""

    def __init__(self, code, basis, rounds, readout, rng, flip=False, elsewhere=0.25):
        self.code, self.basis, self.rounds, self.readout = code, basis, rounds, readout
        self.rng = rng
        q = self.q = placed(code, rng) if rng.random() < elsewhere else make(code)
        before = len(q.circ.cregs)
        self.spec = {"code": repr(code), "basis": basis, "rounds": rounds, "readout": readout, "flip": flip,
                     "circuit": where(q)}
        b = basis.lower()
        getattr(q, "reset_" + b)()
        if flip:
            (q.x if basis == "Z" else q.z)()
        marks = [len(q.circ.data)]
        for _ in range(rounds):
            q.stabilize()
            marks.append(len(q.circ.data))
        getattr(q, ("lattice_readout_" if readout == "lattice" else "readout_") + b)()
        self.ev = walk(q.circ)
        # gap[r]: index of the last event before / after round r-1; faults are injected after it
        total = len(self.ev)
        self.gap = [total - len(walk(q.circ, m)) - 1 for m in marks]
        self.data = data_of(q)
        self.expected = 1 if flip else 0
        cm = {bit: i for i, bit in enumerate(q.circ.clbits)}
        self.cregs = [[cm[bit] for bit in reg] for reg in q.circ.cregs[before:]]

    def reference(self):
        tab = Tableau(self.rng)
        tab.run(self.ev)
        return tab.bits

    def meas_event(self, r, i_typ):
        """Event index measuring plaquette (typ, i) in round r."""
        cl = self.cregs[r][self.code.bit(*i_typ)]
        for i, e in enumerate(self.ev):
            if e.op == "measure" and e.c[0] == cl:
                return i
        return None

    def execute(self, scenarios):
        """scenarios: list of [(event index, qubit, 'X'/'Y'/'Z'/'M')]. Returns readout strings."""
        by = {}
        for s, sc in enumerate(scenarios):
            for i, qb, p in sc:
                key = (i, qb, p)
                by[key] = by.get(key, 0) ^ (1 << s)
        f = {}
        for (i, qb, p), m in by.items():
            f.setdefault(i, []).append((qb, p, m))
        out = frames(self.ev, max(1, len(scenarios)), f)
        ref = self.reference()
        cols = {c: out.get(c, 0) for c in ref}
        res = []
        cl_of = [reg for reg in self.cregs]
        for s in range(len(scenarios)):
            parts = []
            for reg in reversed(cl_of):
                parts.append("".join(str(ref.get(c, 0) ^ (cols.get(c, 0) >> s & 1)) for c in reversed(reg)))
            res.append(" ".join(parts))
        return res

    def data_fault(self, gap, k, pauli):
        """Pauli on data qubit k after `gap` rounds (gap 0: before the first)."""
        return (self.gap[gap], self.data[k], pauli)

    def meas_fault(self, r, typ, i):
        e = self.meas_event(r, (typ, i))
        return (e, self.ev[e].q[0], "M")


def min_weight_logical(columns, limit):
    """columns: [(qubit, hits frozenset, flips)]. Fewest columns whose hits cancel with an odd flip.

    Exact shortest path on the doubled graph if every column has at most two hits, else level by level
    up to `limit`. Returns (weight or None if more than limit, list of columns)."""
    from collections import deque
    if all(len(h) <= 2 for _, h, _ in columns):
        adj = {}
        for c in columns:
            _, h, f = c
            a, b = (sorted(h) + ["B", "B"])[:2]
            adj.setdefault(a, []).append((b, f, c))
            adj.setdefault(b, []).append((a, f, c))
        best = None
        # every odd closed walk visits either the boundary or only interior nodes
        for src in adj:
            dist = {(src, 0): (0, None, None)}
            dq = deque([(src, 0)])
            while dq and (src, 1) not in dist:
                u = dq.popleft()
                if best is not None and dist[u][0] + 1 >= best[0]:
                    break
                for v, f, c in adj[u[0]]:
                    n = (v, u[1] ^ f)
                    if n not in dist:
                        dist[n] = (dist[u][0] + 1, u, c)
                        dq.append(n)
            if (src, 1) in dist:
                w = dist[src, 1][0]
                if best is None or w < best[0]:
                    path, n = [], (src, 1)
                    while dist[n][1] is not None:
                        path.append(dist[n][2])
                        n = dist[n][1]
                    best = (w, path)
        return best if best else (None, None)
    ids = {}
    for _, h, _ in columns:
        for x in h:
            ids.setdefault(x, len(ids))
    vec = [(sum(1 << ids[x] for x in h), f, c) for c in columns for _, h, f in [c]]
    level = {(0, 0): ()}
    seen = dict(level)
    for w in range(1, limit + 1):
        nxt = {}
        for (m, f), cs in level.items():
            for v, g, c in vec:
                n = (m ^ v, f ^ g)
                if n not in seen:
                    seen[n] = nxt[n] = cs + (c,)
        if (0, 1) in nxt:
            return w, list(nxt[0, 1])
        level = nxt
        if len(seen) > 3_000_000:
            return None, None
    return None, None
