"""Reference model of the codes, written from the documentation and geometry, not from the library.

Data qubit k of a dh x dw lattice sits at (k // dw, k % dw). Plaquettes sit at half-integer points and
act on their (up to four) corner data qubits. "Z" plaquettes have rows 0.5..dh-1.5 and columns
-0.5..dw-0.5, "X" plaquettes the transpose, in checkerboard order.
"""
from __future__ import annotations

import itertools
from functools import lru_cache


@lru_cache(maxsize=None)
def plaquettes(dh, dw, typ):
    """Row-major list of ((i, j), support tuple)."""
    out = []
    rows = range(0, dh - 1) if typ == "Z" else range(-1, dh)
    cols = range(-1, dw) if typ == "Z" else range(0, dw - 1)
    for r in rows:
        for c in cols:
            if (r + c) % 2 != (0 if typ == "Z" else 1):
                continue
            sup = tuple(a * dw + b for a in (r, r + 1) for b in (c, c + 1)
                        if 0 <= a < dh and 0 <= b < dw)
            if len(sup) < 2:
                continue
            out.append(((r + 0.5, c + 0.5), sup))
    return tuple(out)


class Code:
    """kind: XXZZ, XZZX, REP (bit flip) or REPP (phase flip protected)."""

    def __init__(self, kind, dh, dw):
        self.kind, self.dh, self.dw = kind, dh, dw
        self.n = dh * dw
        self.pl = {t: plaquettes(dh, dw, t) for t in "XZ"}
        self.nx, self.nz = len(self.pl["X"]), len(self.pl["Z"])
        self.nsyn = self.nx + self.nz

    def __repr__(self):
        return f"{self.kind}{(self.dh, self.dw)}"

    def letter(self, typ, k):
        """The Pauli that a `typ` plaquette (or logical operator) applies to data qubit k."""
        if self.kind == "XZZX":
            return ("X" if k % 2 == 0 else "Z") if typ == "Z" else ("Z" if k % 2 == 0 else "X")
        return typ

    def pauli(self, typ, sup, data):
        """Pauli dict on flat qubit indices data[k]."""
        return {data[k]: ((1, 0) if self.letter(typ, k) == "X" else (0, 1)) for k in sup}

    def logical_support(self, typ):
        return tuple(range(0, self.n, self.dw)) if typ == "X" else tuple(range(self.dw))

    def logical(self, typ, data):
        return self.pauli(typ, self.logical_support(typ), data)

    def stabs(self, data):
        """[(typ, index, pauli)] of all plaquettes."""
        return [(t, i, self.pauli(t, sup, data)) for t in "XZ" for i, (_, sup) in enumerate(self.pl[t])]

    def distance(self, basis):
        """Number of data qubits in the lightest undetectable error flipping a `basis` readout."""
        return self.dh if basis == "Z" else self.dw

    def bit(self, typ, i):
        """Position (from the right) of plaquette i in a syndrome string X_N..X_0Z_N..Z_0."""
        return i if typ == "Z" else self.nz + i

    def params(self):
        p = {"d": (self.dh, self.dw)}
        if self.kind == "REPP":
            p["phase-flip-protected"] = True
        return p

    def flips(self, typ, k, err):
        """Does Pauli err on data qubit k anticommute with typ operators there?"""
        return err != self.letter(typ, k)

    def hits_of(self, typ, errs):
        """Plaquettes (indices) of a type flipped by errors [(k, 'X'/'Y'/'Z')]."""
        odd = {k for k, e in self._net(errs) if self.flips(typ, k, e)}
        return {i for i, (_, sup) in enumerate(self.pl[typ]) if len(odd & set(sup)) % 2}

    def flips_logical(self, typ, errs):
        odd = {k for k, e in self._net(errs) if self.flips(typ, k, e)}
        return len(odd & set(self.logical_support(typ))) % 2

    @staticmethod
    def _net(errs):
        net = {}
        v = {"X": 1, "Z": 2, "Y": 3}
        for k, e in errs:
            net[k] = net.get(k, 0) ^ v[e]
        return [(k, "?XZY"[m]) for k, m in net.items() if m]

    def basis_err(self, basis, k):
        """A Pauli that flips `basis` plaquettes and readout at data qubit k."""
        return "Z" if self.letter(basis, k) == "X" else "X"


def encoder_cls(kind):
    import qtcodes
    return {"XXZZ": qtcodes.XXZZQubit, "XZZX": qtcodes.XZZXQubit, "REP": qtcodes.RepetitionQubit,
            "REPP": qtcodes.RepetitionQubit}[kind]


def ctype(kind):
    from qtcodes.common import constants as k
    return {"XXZZ": k.XXZZ, "XZZX": k.XZZX, "REP": k.REPETITION, "REPP": k.REPETITION}[kind]


def make(code, name="tq", circ=None):
    return encoder_cls(code.kind)(code.params(), name, circ) if circ is not None \
        else encoder_cls(code.kind)(code.params(), name)


def make_decoder(code, T, **extra):
    import qtcodes
    cls = qtcodes.RepetitionDecoder if code.kind in ("REP", "REPP") else qtcodes.RotatedDecoder
    return cls({**code.params(), "T": T, **extra})


class Decoders:
    """Decoders that serve both types of hits again and again, and now and then a new one."""

    def __init__(self, rng):
        self.rng, self.made = rng, {}

    def of(self, code, T):
        key = (repr(code), T)
        if key not in self.made or self.rng.random() < 0.2:
            self.made[key] = make_decoder(code, T)
        return self.made[key]


def decoder_keys(code):
    return {"REP": "Z", "REPP": "X"}.get(code.kind, "XZ")


def data_of(q):
    """Flat indices of the data qubits of a topological qubit in its circuit."""
    from mon.sim import qidx
    return qidx(q.circ, q.lattice.qregisters["data"])


def family(max_data, kinds=("XXZZ", "XZZX", "REP", "REPP"), max_side=99):
    """All codes with at most max_data data qubits, odd sides, more than one data qubit."""
    out = []
    for kind in kinds:
        for dh in range(1, max_side + 1, 2):
            for dw in range(1, max_side + 1, 2):
                if dh * dw > max_data or dh * dw == 1:
                    continue
                if kind == "REP" and dw != 1 or kind == "REPP" and dh != 1:
                    continue
                out.append(Code(kind, dh, dw))
                if dh * dw > max_data:
                    break
    return out


def syndrome_string(code, flags):
    """flags: set of (typ, i) that are 1."""
    v = 0
    for t, i in flags:
        v |= 1 << code.bit(t, i)
    return format(v, "b").zfill(code.nsyn)


@lru_cache(maxsize=None)
def ref_graph(dh, dw, typ, T):
    """Independent decoding graph: adjacency of nodes ('s', t, i) and boundary crossings.

    Returns (adj, bnd): adj[node] = set of neighbour nodes; bnd[node] = {'flip': count, 'keep': count}
    number of single data faults that connect the node to the boundary across / away from the readout.
    """
    pl = plaquettes(dh, dw, typ)
    n = dh * dw
    logical = set(range(0, n, dw)) if typ == "X" else set(range(dw))
    owner = {k: [i for i, (_, sup) in enumerate(pl) if k in sup] for k in range(n)}
    adj = {}
    bnd = {}
    for t in range(T):
        for i in range(len(pl)):
            adj.setdefault((t, i), {})
            bnd.setdefault((t, i), {"flip": [], "keep": []})
    for t in range(T):
        for k in range(n):
            o = owner[k]
            if len(o) == 2:
                adj[(t, o[0])].setdefault((t, o[1]), []).append(k)
                adj[(t, o[1])].setdefault((t, o[0]), []).append(k)
            elif len(o) == 1:
                bnd[(t, o[0])]["flip" if k in logical else "keep"].append(k)
        if t + 1 < T:
            for i in range(len(pl)):
                adj[(t, i)].setdefault((t + 1, i), []).append("m")
                adj[(t + 1, i)].setdefault((t, i), []).append("m")
    return adj, bnd
