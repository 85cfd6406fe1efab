"""Independent decoding oracles, on graphs derived from the code geometry only."""
from __future__ import annotations

import math
from collections import deque
from functools import lru_cache

from mon.codes import plaquettes

INF = float("inf")


@lru_cache(maxsize=None)
def graph(dh, dw, typ, T):
    """Decoding graph with node labels as documented: (t, i, j), boundary nodes (-1, i, j).

    Every data qubit in two plaquettes is an edge; one in a single plaquette is an edge to the mirror
    image of that plaquette; a measurement fault joins a plaquette to itself one round later.
    Returns (adj: node -> {node: set(causes)}, virtual nodes, crossing: the virtual nodes whose edges
    carry data qubits of the readout).
    """
    pl = plaquettes(dh, dw, typ)
    logical = set(range(0, dh * dw, dw)) if typ == "X" else set(range(dw))
    adj, virt, cross = {}, set(), set()

    def edge(a, b, why):
        adj.setdefault(a, {}).setdefault(b, set()).add(why)
        adj.setdefault(b, {}).setdefault(a, set()).add(why)

    owner = {}
    for i, (pos, sup) in enumerate(pl):
        for k in sup:
            owner.setdefault(k, []).append(pos)
    for t in range(T):
        for (i, j), _ in pl:
            adj.setdefault((t, i, j), {})
        for k, o in owner.items():
            if len(o) == 2:
                edge((t,) + o[0], (t,) + o[1], ("data", t, k))
            else:
                r, c = divmod(k, dw)
                v = (-1, 2 * r - o[0][0], 2 * c - o[0][1])
                virt.add(v)
                if k in logical:
                    cross.add(v)
                edge((t,) + o[0], v, ("data", t, k))
        if t + 1 < T:
            for (i, j), _ in pl:
                edge((t, i, j), (t + 1, i, j), ("meas", t + 1, (i, j)))
    return adj, frozenset(virt), frozenset(cross)


@lru_cache(maxsize=200000)
def bfs(dh, dw, typ, T, src, through_virtual=True):
    """Distances and number of shortest paths from src."""
    adj, virt, _ = graph(dh, dw, typ, T)
    dist, num = {src: 0}, {src: 1}
    dq = deque([src])
    while dq:
        u = dq.popleft()
        if u in virt and not through_virtual and u != src:
            continue
        for v in adj.get(u, ()):
            if v not in dist:
                dist[v] = dist[u] + 1
                num[v] = 0
                dq.append(v)
            if dist[v] == dist[u] + 1:
                num[v] += num[u]
    return dist, num


def class_minima(dh, dw, typ, T, hits):
    """(w0, w1): fewest faults explaining the hits without / with a flip of the readout."""
    _, virt, cross = graph(dh, dw, typ, T)
    hits = [tuple(h) for h in hits]
    m = len(hits)
    pair = [[0] * m for _ in range(m)]
    bd = []
    for a in range(m):
        dist, _ = bfs(dh, dw, typ, T, hits[a], False)
        for b in range(m):
            pair[a][b] = dist.get(hits[b], INF)
        bd.append((min((dist.get(v, INF) for v in virt - cross), default=INF),
                   min((dist.get(v, INF) for v in cross), default=INF)))
    full = (1 << m) - 1
    best = [[INF, INF] for _ in range(1 << m)]
    best[0][0] = 0
    for s in range(full):
        b0, b1 = best[s]
        if b0 == INF and b1 == INF:
            continue
        a = 0
        while s >> a & 1:
            a += 1
        sa = s | 1 << a
        t = best[sa]
        t[0] = min(t[0], b0 + bd[a][0], b1 + bd[a][1])
        t[1] = min(t[1], b1 + bd[a][0], b0 + bd[a][1])
        for b in range(a + 1, m):
            if not s >> b & 1:
                t = best[sa | 1 << b]
                w = pair[a][b]
                t[0] = min(t[0], b0 + w)
                t[1] = min(t[1], b1 + w)
    # hits explained with an extra logical error on top: the lightest chain across the whole lattice
    w0, w1 = best[full]
    span = INF
    for v in cross:
        dist, _ = bfs(dh, dw, typ, T, v, False)
        span = min([span] + [dist[u] for u in virt - cross if u in dist])
    return min(w0, w1 + span), min(w1, w0 + span)


def edge_weight(dh, dw, typ, T, a, b, p=None):
    """Documented weight of joining a and b: distance, less ln(degeneracy)/ln((1-p)/p)."""
    _, virt, _ = graph(dh, dw, typ, T)
    if a in virt and b in virt:
        return 0.0
    if a in virt:
        a, b = b, a
    dist, num = bfs(dh, dw, typ, T, a, True)
    d = dist[b]
    if not p:
        return float(d)
    deg = sum(num[v] for v in virt if v in dist and dist[v] == d) if b in virt else num[b]
    return d - math.log(deg) / (math.log(1 - p) - math.log(p))


def weighted_minima(dh, dw, typ, T, hits, p):
    """Exact minimum weight perfect matching of hits + boundary nodes (each used at most once, spare
    boundary nodes joined to each other for free) by parity of boundary nodes across the readout.
    Exponential: for small instances only."""
    _, virt, cross = graph(dh, dw, typ, T)
    hits = [tuple(h) for h in hits]
    virt = sorted(virt)
    m, nv = len(hits), len(virt)
    pair = [[edge_weight(dh, dw, typ, T, a, b, p) if a != b else 0 for b in hits] for a in hits]
    bd = [[edge_weight(dh, dw, typ, T, a, v, p) for v in virt] for a in hits]
    spare_ok = lambda used: True  # any number of spare boundary nodes can be paired off (odd: dummy)
    cur = {(0, 0, 0): 0.0}  # (hit set, used virtual set, parity) -> weight
    full = (1 << m) - 1
    for _ in range(m):
        nxt = {}
        done = True
        for (s, u, par), w in cur.items():
            if s == full:
                k = (s, u, par)
                if w < nxt.get(k, INF):
                    nxt[k] = w
                continue
            done = False
            a = 0
            while s >> a & 1:
                a += 1
            sa = s | 1 << a
            for v in range(nv):
                if not u >> v & 1:
                    k = (sa, u | 1 << v, par ^ (virt[v] in cross))
                    x = w + bd[a][v]
                    if x < nxt.get(k, INF):
                        nxt[k] = x
            for b in range(a + 1, m):
                if not s >> b & 1:
                    k = (sa | 1 << b, u, par)
                    x = w + pair[a][b]
                    if x < nxt.get(k, INF):
                        nxt[k] = x
        cur = nxt
        if done:
            break
    out = [INF, INF]
    for (s, u, par), w in cur.items():
        if s == full:
            out[par] = min(out[par], w)
    return tuple(out)


# --- many hits: minimum-weight perfect matchings by the blossom algorithm (rustworkx) ---
SCALE = 10 ** 9


def _matching(n, weights):
    """Minimum weight of a perfect matching; weights: {(a, b): float} with infinite ones left out."""
    import rustworkx as rx
    if n == 0:
        return 0.0
    if n % 2:
        return INF
    g = rx.PyGraph(multigraph=False)
    g.add_nodes_from(range(n))
    g.add_edges_from([(a, b, w) for (a, b), w in weights.items() if w != INF])
    top = max([w for w in weights.values() if w != INF], default=0.0) + 1.0
    m = rx.max_weight_matching(g, max_cardinality=True, weight_fn=lambda w: round((top - w) * SCALE))
    if 2 * len(m) < n:
        return INF
    return sum(g.get_edge_data(a, b) for a, b in m)


@lru_cache(maxsize=20000)
def _contracted(dh, dw, typ, T, src):
    """Distances from src when the boundary is one node at the readout ('c') and one away from it ('k')."""
    adj, virt, cross = graph(dh, dw, typ, T)
    name = lambda u: ("c" if u in cross else "k") if u in virt else u
    starts = [u for u in virt if name(u) == src] if src in ("c", "k") else [src]
    if not starts:
        return {}
    dist = {src: 0}
    dq = deque([src])
    members = {"c": sorted(cross), "k": sorted(virt - cross)}
    while dq:
        u = dq.popleft()
        for x in members.get(u, [u]):
            for v in adj.get(x, ()):
                v = name(v)
                if v not in dist:
                    dist[v] = dist[u] + 1
                    dq.append(v)
    return dist


def class_minima_big(dh, dw, typ, T, hits):
    """class_minima for any number of hits: a set of faults has even degree everywhere except at the hits, and the
    parity of its degree at the contracted boundary of the readout is the flip (minimum T-join)."""
    out = []
    for f in (0, 1):
        ends = [tuple(h) for h in hits] + (["c"] if f else [])
        if len(ends) % 2:
            ends.append("k")
        w = {}
        for a in range(len(ends)):
            dist = _contracted(dh, dw, typ, T, ends[a])
            for b in range(a + 1, len(ends)):
                w[a, b] = dist.get(ends[b], INF)
        out.append(_matching(len(ends), w))
    return tuple(out)


def weighted_minima_big(dh, dw, typ, T, hits, p):
    """weighted_minima for any number of hits. Boundary nodes of the two sides are not joined to each other, and a
    filler takes up the odd one of a side, so that the number of matches at the readout side has the wanted parity."""
    _, virt, cross = graph(dh, dw, typ, T)
    hits = [tuple(h) for h in hits]
    m = len(hits)
    sides = [sorted(virt - cross), sorted(cross)]
    base = {}
    for a in range(m):
        for b in range(a + 1, m):
            base[a, b] = edge_weight(dh, dw, typ, T, hits[a], hits[b], p)
    n = m
    groups = []
    for s in sides:
        groups.append(list(range(n, n + len(s))))
        for k, v in zip(groups[-1], s):
            for a in range(m):
                base[a, k] = edge_weight(dh, dw, typ, T, hits[a], v, p)
        for x in groups[-1]:
            for y in groups[-1]:
                if x < y:
                    base[x, y] = 0.0
        n += len(s)
    out = []
    for f in (0, 1):
        w, size = dict(base), n
        for g, par in ((groups[1], f), (groups[0], (m + f) % 2)):
            if (len(g) - par) % 2:
                for x in g:
                    w[x, size] = 0.0
                size += 1
        out.append(_matching(size, w))
    return tuple(out)
