"""Circumstances in which users have a logical qubit: alone, in a circuit with other registers (some with similar names),
next to other logical qubits, in a register of many; fresh or after a history of operations."""
from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
from qtcodes import TopologicalRegister

from mon.codes import Code, ctype, encoder_cls, make

SMALL = [Code("XXZZ", 3, 1), Code("XZZX", 1, 3), Code("REP", 3, 1), Code("REPP", 1, 3)]
HISTORY = ["reset_x", "reset_z", "x", "z", "stabilize", "stabilize", "readout_x", "readout_z", "lattice_readout_x",
           "lattice_readout_z", "id", "id_data"]


def foreign(circ, name, rng):
    """Registers of the user whose names resemble those of a logical qubit."""
    for tail in rng.sample(["_flags", "_c", "_readout_0_copy", "_lattice_readout_0_x", "_c0_", "_data_2", "0", "_mz_",
                            "_readout", "2_c0", "_readout_10_", "_c12x"], rng.randint(1, 3)):
        if name + tail in {r.name for r in circ.qregs + circ.cregs}:
            continue
        if rng.random() < 0.6:
            circ.add_register(ClassicalRegister(rng.randint(1, 3), name + tail))
        else:
            circ.add_register(QuantumRegister(rng.randint(1, 2), name + tail))


def prelude(circ, rng):
    """Sometimes: a long program of the user on qubits of their own, before there is a logical qubit."""
    if rng.random() < 0.12:
        name = f"mine{len(circ.qregs)}"
        reg, res = QuantumRegister(2, name), ClassicalRegister(2, name + "_bits")
        circ.add_register(reg, res)
        for k in range(rng.choice([3, 60, 500, 1100])):
            (circ.barrier if k % 50 == 7 else circ.x if k % 3 else circ.z)(reg[k % 2])
        circ.measure(reg, res)


def placed(code, rng, history=True, many=0.06):
    """A logical qubit of this code somewhere; q.circ tells the circuit."""
    r = rng.random()
    if r < 0.4:
        q = make(code)
    elif r < 0.8:
        circ = QuantumCircuit()
        name = rng.choice(["tq", "q", "a", "q_1", "lattice", "x", "data", "q 1"])
        if rng.random() < 0.7:
            foreign(circ, name, rng)
        prelude(circ, rng)
        near = [(rng.choice(SMALL), name + t) for t in ("0", "_1") if rng.random() < 0.3]
        at = rng.randint(0, len(near))
        others = [encoder_cls(c.kind)(c.params(), n, circ) for c, n in near[:at]]
        q = encoder_cls(code.kind)(code.params(), name, circ)
        others += [encoder_cls(c.kind)(c.params(), n, circ) for c, n in near[at:]]
        for o in others:
            if history and rng.random() < 0.5:
                getattr(o, rng.choice(HISTORY))()
    else:
        n = 13 if rng.random() < many / 0.2 else rng.randint(2, 3)
        i = rng.choice([0, 1, n - 1, rng.randrange(n)])
        codes = [rng.choice(SMALL) for _ in range(n)]
        codes[i] = code
        circ = QuantumCircuit()
        prelude(circ, rng)
        treg = TopologicalRegister(circ=circ, ctypes=[ctype(c.kind) for c in codes], params=[c.params() for c in codes])
        q = treg[i]
        for _ in range(rng.randint(0, 3) if history else 0):
            getattr(treg[rng.choice([i, rng.randrange(n)])], rng.choice(HISTORY))()
    if history and rng.random() < 0.5:
        for _ in range(rng.randint(1, 5)):
            getattr(q, rng.choice(HISTORY))()
    return q


def where(q):
    """For replays: the registers around the qubit and how many instructions went before."""
    return {"name": q.name, "qregs": [r.name for r in q.circ.qregs], "cregs": [r.name for r in q.circ.cregs],
            "instructions_before": len(q.circ.data)}
