"""Execution monitors for Clifford circuits, independent of qiskit-aer.

`walk`     turns a live QuantumCircuit object into a flat event stream.
`Tableau`  runs that stream as one shot of a stabilizer simulation and lets a monitor peek at the
           expectation value of any Pauli operator without disturbing the state.
`frames`   runs the stream for many shots at once as Pauli frames (one bit of a Python int per
           shot), so that hundreds of thousands of fault scenarios cost a few bigint operations.
"""
from __future__ import annotations


class Unsupported(Exception):
    """The circuit contains something these monitors cannot execute (inconclusive, never a verdict)."""


ONE = {"h", "x", "y", "z", "s", "sdg", "id", "sx", "sxdg", "reset"}
TWO = {"cx", "cz", "cy", "swap"}


class Ev:
    """One executed instruction: op name, flat qubit indices, flat clbit indices, classical condition."""

    __slots__ = ("op", "q", "c", "cond")

    def __init__(self, op, q, c, cond):
        self.op, self.q, self.c, self.cond = op, q, c, cond

    def __repr__(self):
        s = f"{self.op}{self.q}"
        if self.c:
            s += f"->{self.c}"
        if self.cond:
            s += f" if {self.cond}"
        return s


def _cond(cond, cmap):
    if cond is None:
        return ()
    target, val = cond
    try:
        bits = tuple(cmap[b] for b in target)
    except TypeError:
        bits = (cmap[target],)
    return ((bits, int(val)),)


def _emit(out, op, qs, cs, conds, qmap, cmap, depth=0):
    name = op.name
    if name in ("barrier", "delay", "snapshot", "save_state"):
        return
    if depth > 12:
        raise Unsupported(f"instruction nesting too deep at {name}")
    if name == "if_else":
        cond = _cond(op.condition, cmap)
        blocks = op.params
        body = blocks[0]
        _inner(out, body, qs, cs, conds + cond, depth)
        if len(blocks) > 1 and blocks[1] is not None:
            raise Unsupported("else branch")
        return
    conds = conds + _cond(getattr(op, "condition", None), cmap)
    if name in ONE or name in TWO:
        out.append(Ev(name, tuple(qs), (), conds))
    elif name == "measure":
        out.append(Ev("measure", tuple(qs), tuple(cs), conds))
    else:
        body = op.definition
        if body is None:
            raise Unsupported(f"instruction {name}")
        _inner(out, body, qs, cs, conds, depth)


def _inner(out, body, qs, cs, conds, depth):
    qm = {b: qs[i] for i, b in enumerate(body.qubits)}
    cm = {b: cs[i] for i, b in enumerate(body.clbits)}
    for ins in body.data:
        _emit(out, ins.operation, [qm[b] for b in ins.qubits], [cm[b] for b in ins.clbits],
              conds, qm, cm, depth + 1)


def walk(circ, start=0):
    """Flat events of circ.data[start:]."""
    qmap = {b: i for i, b in enumerate(circ.qubits)}
    cmap = {b: i for i, b in enumerate(circ.clbits)}
    out = []
    for ins in circ.data[start:]:
        _emit(out, ins.operation, [qmap[b] for b in ins.qubits], [cmap[b] for b in ins.clbits],
              (), qmap, cmap)
    return out


def qidx(circ, reg):
    """Flat indices of a register's bits (quantum or classical) in circ."""
    qmap = {b: i for i, b in enumerate(circ.qubits)}
    if len(reg) and reg[0] in qmap:
        return [qmap[b] for b in reg]
    cmap = {b: i for i, b in enumerate(circ.clbits)}
    return [cmap[b] for b in reg]


def counts_key(circ, bits):
    """Format classical bits as qiskit's get_counts does: last register leftmost, bit 0 rightmost."""
    cmap = {b: i for i, b in enumerate(circ.clbits)}
    parts = []
    for reg in reversed(circ.cregs):
        parts.append("".join(str(bits.get(cmap[b], 0)) for b in reversed(list(reg))))
    return " ".join(parts)


class Tableau:
    """Aaronson-Gottesman tableau stored by column: XS[q] has one bit per stabilizer row, and so on."""

    def __init__(self, rng, n=0):
        self.n = 0
        self.rng = rng
        self.XS, self.ZS, self.XD, self.ZD = [], [], [], []
        self.RS = 0
        self.bits = {}
        self.log = []  # (clbit, value, was_random)
        self.grow(n)

    def grow(self, n):
        while self.n < n:
            r = self.n
            self.XS.append(0)
            self.ZS.append(1 << r)
            self.XD.append(1 << r)
            self.ZD.append(0)
            self.n += 1

    # --- gates: signs only matter for stabilizer rows ---
    def h(self, q):
        self.RS ^= self.XS[q] & self.ZS[q]
        self.XS[q], self.ZS[q] = self.ZS[q], self.XS[q]
        self.XD[q], self.ZD[q] = self.ZD[q], self.XD[q]

    def s(self, q):
        self.RS ^= self.XS[q] & self.ZS[q]
        self.ZS[q] ^= self.XS[q]
        self.ZD[q] ^= self.XD[q]

    def x(self, q):
        self.RS ^= self.ZS[q]

    def z(self, q):
        self.RS ^= self.XS[q]

    def y(self, q):
        self.RS ^= self.ZS[q] ^ self.XS[q]

    def cx(self, a, b):
        XS, ZS = self.XS, self.ZS
        self.RS ^= XS[a] & ZS[b] & ~(XS[b] ^ ZS[a])
        XS[b] ^= XS[a]
        ZS[a] ^= ZS[b]
        self.XD[b] ^= self.XD[a]
        self.ZD[a] ^= self.ZD[b]

    def gate(self, op, q):
        if op == "cx":
            self.cx(*q)
        elif op == "h":
            self.h(q[0])
        elif op == "x":
            self.x(q[0])
        elif op == "z":
            self.z(q[0])
        elif op == "y":
            self.y(q[0])
        elif op == "id":
            pass
        elif op == "cz":
            self.h(q[1]); self.cx(*q); self.h(q[1])
        elif op == "cy":
            self.z(q[1]); self.s(q[1]); self.cx(*q); self.s(q[1])
        elif op == "swap":
            a, b = q
            for col in (self.XS, self.ZS, self.XD, self.ZD):
                col[a], col[b] = col[b], col[a]
        elif op == "s":
            self.s(q[0])
        elif op == "sdg":
            self.z(q[0]); self.s(q[0])
        elif op == "sx":
            self.h(q[0]); self.s(q[0]); self.h(q[0])
        elif op == "sxdg":
            self.h(q[0]); self.z(q[0]); self.s(q[0]); self.h(q[0])
        else:
            raise Unsupported(op)

    # --- Pauli observables: dict qubit -> (x, z), standing for i^{xz} X^x Z^z ---
    def _anti(self, pauli, X, Z):
        m = 0
        for q, (x, z) in pauli.items():
            if x:
                m ^= Z[q]
            if z:
                m ^= X[q]
        return m

    def expect(self, pauli):
        """+1/-1 if the state is an eigenstate of the Pauli product, 0 if the outcome is random."""
        if self._anti(pauli, self.XS, self.ZS):
            return 0
        M = self._anti(pauli, self.XD, self.ZD)
        ph = 2 * ((self.RS & M).bit_count() & 1)
        for q in range(self.n):
            xs = self.XS[q] & M
            zs = self.ZS[q] & M
            if xs and zs:
                ph += (xs & zs).bit_count()
                pre = zs << 1  # exclusive prefix parity of zs
                sh = 1
                while sh <= self.n:
                    pre ^= pre << sh
                    sh <<= 1
                ph += 2 * ((pre & xs).bit_count() & 1)
        for q, (x, z) in pauli.items():
            if x and z:
                ph -= 1
        ph %= 4
        assert ph in (0, 2), "tableau monitor internal error"
        return 1 if ph == 0 else -1

    def project(self, pauli, force=None):
        """Measure a Pauli product. Returns (bit, was_random)."""
        anti = self._anti(pauli, self.XS, self.ZS)
        if not anti:
            return (0 if self.expect(pauli) == 1 else 1), False
        p = (anti & -anti).bit_length() - 1
        bit_p = 1 << p
        ms = anti ^ bit_p
        md = self._anti(pauli, self.XD, self.ZD) & ~bit_p
        XS, ZS, XD, ZD = self.XS, self.ZS, self.XD, self.ZD
        c0 = c1 = 0
        for q in range(self.n):
            x1 = (XS[q] >> p) & 1
            z1 = (ZS[q] >> p) & 1
            if not (x1 or z1):
                continue
            x2 = XS[q] & ms
            z2 = ZS[q] & ms
            if x1 and z1:
                pl, mi = z2 & ~x2, x2 & ~z2
            elif x1:
                pl, mi = z2 & x2, z2 & ~x2
            else:
                pl, mi = x2 & ~z2, x2 & z2
            c1 ^= c0 & pl
            c0 ^= pl
            c1 ^= ~c0 & mi
            c0 ^= mi
            if x1:
                XS[q] ^= ms
                XD[q] ^= md
            if z1:
                ZS[q] ^= ms
                ZD[q] ^= md
        assert c0 == 0, "tableau monitor internal error"
        self.RS ^= c1 & ms
        if (self.RS >> p) & 1:
            self.RS ^= ms
        # destabilizer p <- old stabilizer p ; stabilizer p <- pauli
        clear = ~bit_p
        for q in range(self.n):
            XD[q] = (XD[q] & clear) | (XS[q] & bit_p)
            ZD[q] = (ZD[q] & clear) | (ZS[q] & bit_p)
            XS[q] &= clear
            ZS[q] &= clear
        for q, (x, z) in pauli.items():
            if x:
                XS[q] |= bit_p
            if z:
                ZS[q] |= bit_p
        bit = self.rng.getrandbits(1) if force is None else force
        self.RS = (self.RS & clear) | (bit_p if bit else 0)
        return bit, True

    def run(self, events, hook=None):
        """Execute events; hook(i, ev, tableau), called after each, may inject faults."""
        for i, ev in enumerate(events):
            if ev.q and max(ev.q) >= self.n:
                self.grow(max(ev.q) + 1)
            ok = True
            for bits, val in ev.cond:
                if sum(self.bits.get(b, 0) << k for k, b in enumerate(bits)) != val:
                    ok = False
            if ok:
                if ev.op == "measure":
                    v, rnd = self.project({ev.q[0]: (0, 1)})
                    self.bits[ev.c[0]] = v
                    self.log.append((ev.c[0], v, rnd))
                elif ev.op == "reset":
                    v, _ = self.project({ev.q[0]: (0, 1)})
                    if v:
                        self.x(ev.q[0])
                else:
                    self.gate(ev.op, ev.q)
            if hook is not None:
                hook(i, ev, self)


def frames(events, shots, faults, rng=None):
    """Propagate Pauli frames for `shots` scenarios at once.

    faults: dict event index -> list of (qubit, pauli 'X'/'Y'/'Z'/'M', shot mask) applied after
    that event (index -1: before the first). 'M' flips the recorded outcome of that measure event.
    Returns dict clbit -> mask of shots whose recorded outcome differs from the fault-free run
    with the same random choices. Only a Pauli conditioned on one bit may be conditional here.
    """
    X, Z = {}, {}
    out = {}

    def gauge():
        # a qubit in a Z eigenstate may carry any Z frame: randomising it makes every comparison that
        # is not deterministic in the fault-free circuit visibly random instead of silently constant
        return rng.getrandbits(shots) if rng is not None else 0

    if rng is not None:
        for ev in events:
            for qq in ev.q:
                if qq not in Z:
                    Z[qq] = gauge()

    def inject(i):
        for q, p, m in faults.get(i, ()):
            if p in ("X", "Y"):
                X[q] = X.get(q, 0) ^ m
            if p in ("Z", "Y"):
                Z[q] = Z.get(q, 0) ^ m

    inject(-1)
    for i, ev in enumerate(events):
        op, q = ev.op, ev.q
        if ev.cond:
            # a Pauli conditioned on one bit: the shots that see the other value differ by that Pauli
            if op not in ("x", "y", "z", "id") or len(ev.cond) > 1 or len(ev.cond[0][0]) > 1:
                raise Unsupported("condition in frame simulation")
            m = out.get(ev.cond[0][0][0], 0)
            if op in ("x", "y"):
                X[q[0]] = X.get(q[0], 0) ^ m
            if op in ("z", "y"):
                Z[q[0]] = Z.get(q[0], 0) ^ m
        elif op == "cx":
            a, b = q
            xa, zb = X.get(a, 0), Z.get(b, 0)
            if xa:
                X[b] = X.get(b, 0) ^ xa
            if zb:
                Z[a] = Z.get(a, 0) ^ zb
        elif op in ("h",):
            X[q[0]], Z[q[0]] = Z.get(q[0], 0), X.get(q[0], 0)
        elif op == "measure":
            f = X.get(q[0], 0)
            for fq, p, m in faults.get(i, ()):
                if p == "M":
                    f ^= m
            out[ev.c[0]] = f
            Z[q[0]] = gauge()
        elif op == "reset":
            X[q[0]] = 0
            Z[q[0]] = gauge()
        elif op in ("x", "y", "z", "id"):
            pass
        elif op == "cz":
            a, b = q
            xa, xb = X.get(a, 0), X.get(b, 0)
            Z[b] = Z.get(b, 0) ^ xa
            Z[a] = Z.get(a, 0) ^ xb
        elif op in ("s", "sdg"):
            Z[q[0]] = Z.get(q[0], 0) ^ X.get(q[0], 0)
        elif op in ("sx", "sxdg"):
            X[q[0]] = X.get(q[0], 0) ^ Z.get(q[0], 0)
        elif op == "cy":
            a, b = q
            xa = X.get(a, 0)
            Z[a] = Z.get(a, 0) ^ Z.get(b, 0) ^ X.get(b, 0)
            X[b] = X.get(b, 0) ^ xa
            Z[b] = Z.get(b, 0) ^ xa
        elif op == "swap":
            a, b = q
            X[a], X[b] = X.get(b, 0), X.get(a, 0)
            Z[a], Z[b] = Z.get(b, 0), Z.get(a, 0)
        else:
            raise Unsupported(op)
        inject(i)
    return out
