"""Shared pieces of the checks."""
from __future__ import annotations

import copy

from mon.codes import Code, data_of, family, make
from mon.sim import Tableau, counts_key, qidx, walk


def rows(tab):
    """[(pauli dict, sign bit)] of the stabilizer generators."""
    out = []
    for r in range(tab.n):
        p = {}
        for q in range(tab.n):
            x, z = tab.XS[q] >> r & 1, tab.ZS[q] >> r & 1
            if x or z:
                p[q] = (x, z)
        out.append((p, tab.RS >> r & 1))
    return out


def state_diff(actual, ideal):
    """None if both tableaus hold the same state, else a generator of `ideal` that `actual` violates."""
    for p, s in rows(ideal):
        e = actual.expect(p)
        if e != (-1 if s else 1):
            return {"generator": {q: "?XZY"[x + 2 * z] for q, (x, z) in p.items()}, "sign": s,
                    "expectation": e}
    return None


def clone(tab):
    return copy.deepcopy(tab)


def bell(tab, a, b):
    tab.h(a)
    tab.cx(a, b)


def nqubits(circ):
    return len(circ.qubits)


def random_clifford(tab, rng, qs, depth):
    for _ in range(depth):
        r = rng.random()
        if r < 0.5 or len(qs) < 2:
            getattr(tab, rng.choice("hsxzy"))(rng.choice(qs))
        else:
            tab.cx(*rng.sample(qs, 2))


def pname(p):
    return {str(q): "?XZY"[x + 2 * z] for q, (x, z) in p.items()}


def new_chunk(circ, bits, before):
    """Value string of the classical registers added since `before` registers existed."""
    cmap = {b: i for i, b in enumerate(circ.clbits)}
    return ["".join(str(bits.get(cmap[b], 0)) for b in reversed(list(reg))) for reg in circ.cregs[before:]]


def prepare_code_state(tab, code, data, rng, signs=None):
    """Project data into the code space with random (or given) plaquette signs; returns the signs."""
    out = {}
    for t, i, p in code.stabs(data):
        out[t, i] = tab.project(p, None if signs is None else signs[t, i])[0]
    return out


def mul_pauli(*ps):
    out = {}
    for p in ps:
        for q, (x, z) in p.items():
            a, b = out.get(q, (0, 0))
            out[q] = (a ^ x, b ^ z)
    return {q: v for q, v in out.items() if v != (0, 0)}


def logical_pauli(code, data, x, z):
    """(Pauli string, sign bit) of the logical Pauli X^x Z^z (Y = iXZ) on the data qubits."""
    if not (x and z):
        return code.logical("X" if x else "Z", data), 0
    lx, lz = code.logical("X", data), code.logical("Z", data)
    (both,) = [q for q in lx if q in lz]  # i * (Z-like)(X-like) = -Y there
    return mul_pauli(lx, lz), int(lx[both] == (0, 1))
