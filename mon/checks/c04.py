"""C04: topological circuits are built by the library and executed on the tableau monitor from a state in
which every logical qubit is maximally entangled with a reference qubit; after every operation all
generators of the ideal logical state are measured on the real data qubits (complete state comparison)."""
from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
from qtcodes import TopologicalCircuit, TopologicalRegister

from mon import place
from mon.codes import Code, ctype, data_of, family
from mon.common import *
from mon.sim import Tableau, qidx, walk

META = dict(rule="one evaluation = one logical CX executed and compared completely; distinct by (codes, program so "
                 "far, measurement branch)", min_nontrivial=300)


def code_for(kind, rng, maxn):
    return rng.choice([c for c in CODES if c.kind == kind and c.n <= maxn])


CODES = family(25)
BIG = [Code(k, a, b) for k in ("XXZZ", "XZZX") for a, b in ((7, 7), (5, 7), (7, 5), (3, 9), (9, 3), (1, 31), (31, 1), (5, 9))] + \
    [Code("REP", 51, 1), Code("REPP", 1, 51), Code("REP", 33, 1)]


def build(ctx, codes, program, by_object, ancilla, late=()):
    """late: qubits that are only added to the register when the program first uses them."""
    first = [c for i, c in enumerate(codes) if i not in late]
    rng = ctx.rng
    qc = QuantumCircuit()
    if rng.random() < 0.2:  # the user has registers like the ones that a CX needs
        for name in rng.sample(["m1", "m2", "m3", "m1_0", "cnot_readout"], 3):
            qc.add_register(QuantumRegister(1, name) if name[0] == "c" else ClassicalRegister(rng.randint(1, 2), name))
        ctx.count("similar_registers")
    treg = TopologicalRegister(circ=qc, ctypes=[ctype(c.kind) for c in first], params=[c.params() for c in first])
    circ = TopologicalCircuit(treg)
    circs, others = [circ], []
    if rng.random() < 0.2:  # several circuit objects for the same qubits
        circs += [TopologicalCircuit(treg) for _ in range(rng.randint(1, 2))]
        ctx.count("several_circuits")
    if rng.random() < 0.2:  # another register with a circuit object of its own on the same circuit
        small = [rng.choice(place.SMALL) for _ in range(2)]
        others = [TopologicalCircuit(TopologicalRegister(circ=qc, ctypes=[ctype(c.kind) for c in small],
                                                         params=[c.params() for c in small], name="another"))]
        ctx.count("several_registers")
    if rng.random() < 0.3:  # and a program that has nothing to do with this one
        apart = TopologicalCircuit(TopologicalRegister(ctypes=[ctype(c.kind) for c in place.SMALL[:2]],
                                                       params=[c.params() for c in place.SMALL[:2]]))
        apart.reset_x(0)
        apart.cx(0, 1)
        ctx.count("programs_apart")
    marks = [len(qc.data)]
    keep = []
    index = {i: n for n, i in enumerate(i for i in range(len(codes)) if i not in late)}
    tq = {i: treg[n] for i, n in index.items()}

    def add(i):
        treg.add_tqubit("data", ctype(codes[i].kind), codes[i].params())
        index[i] = max(treg["data"])
        tq[i] = treg[index[i]]

    addr = lambda i: tq[i] if by_object else index[i]
    explicit = {m for m in range(2, 40) if ctx.rng.random() < 0.3}  # later gates that leave the ancilla to the circuit
    for op, *a in program:
        for i in a:
            if i not in tq:
                add(i)
        for o in others:
            if rng.random() < 0.5:
                o.cx(*rng.sample([0, 1], 2))
        circ = rng.choice(circs)
        if op == "cx":
            if ancilla is None or (len(marks) in explicit):
                circ.cx(addr(a[0]), addr(a[1]))
            else:
                circ.cx(addr(a[0]), addr(a[1]), ctype(ancilla.kind), ancilla.params())
        else:
            getattr(circ, op)(addr(a[0]))
        marks.append(len(circ.circ.data))
        keep.append(circ.circ.cregs[-1] if circ.circ.cregs else None)
    for i in range(len(codes)):
        if i not in tq:
            add(i)
    return circ, [tq[i] for i in range(len(codes))], marks, keep


def case(ctx, codes, program, by_object=False, ancilla=None):
    rng = ctx.rng
    late = sorted(rng.sample(range(len(codes)), rng.randint(1, len(codes) - 1))) if rng.random() < 0.4 else []
    spec = dict(codes=[repr(c) for c in codes], program=program, by_object=by_object, ancilla=repr(ancilla), late=late)
    with ctx.guard(**spec):
        circ, tq, marks, keep = build(ctx, codes, program, by_object, ancilla, late)
        ctx.count("programs_with_late_qubits", bool(late))
        ev = walk(circ.circ)
        n = nqubits(circ.circ)
        data = [data_of(t) for t in tq]
        bounds = [len(ev) - len(walk(circ.circ, m)) for m in marks]
    k = len(codes)
    ref = list(range(n, n + k))
    tab = Tableau(rng, n + k)
    signs = []
    for c, d, r in zip(codes, data, ref):
        signs.append(prepare_code_state(tab, c, d, rng))
        xr = dict(c.logical("X", d))
        xr[r] = (1, 0)
        zr = dict(c.logical("Z", d))
        zr[r] = (0, 1)
        if tab.project(xr, 0)[0]:
            tab.z(r)
        if tab.project(zr, 0)[0]:
            tab.x(r)
        assert tab.expect(xr) == tab.expect(zr) == 1
    model = Tableau(rng, 2 * k)
    for i in range(k):
        bell(model, i, k + i)

    def compare(step):
        for p, s in rows(model):
            parts = []
            for q, (x, z) in p.items():
                if q >= k:
                    parts.append({ref[q - k]: (x, z)})
                else:
                    pauli, minus = logical_pauli(codes[q], data[q], x, z)
                    parts.append(pauli)
                    s ^= minus
                    ctx.count("logical_Y", x & z)
            e = tab.expect(mul_pauli(*parts))
            ctx.count("generators_compared")
            ctx.expect(e == (-1 if s else 1), "logical state differs from the ideal one", step=step,
                       generator=pname(p), sign=s, expectation=e,
                       branch={b: tab.bits[b] for b in sorted(tab.bits)})
        for c, d, sg in zip(codes, data, signs):
            for t, i, p in c.stabs(d):
                want = sg[t, i]
                if want is None:
                    continue
                e = tab.expect(p)
                ctx.expect(e == (-1 if want else 1), "an operation moved a logical qubit out of its code space",
                           step=step, code=repr(c), plaquette=(t, i), sign=want, expectation=e)

    with ctx.guard(**spec):
        for j, (op, *a) in enumerate(program):
            if op in ("reset_x", "reset_z"):
                # a reset discards the qubit: fix which trajectory of it both simulations follow
                v, _ = tab.project(codes[a[0]].logical("Z", data[a[0]]))
                model.project({a[0]: (0, 1)}, v)
            nlog = len(tab.log)
            tab.run(ev[bounds[j]: bounds[j + 1]])
            i = a[0]
            if op == "cx":
                model.cx(*a)
                branch = tuple(v for _, v, _ in tab.log[nlog:])[-3:]
                ctx.count("branch_" + "".join(map(str, branch)))
                ctx.case((repr(codes), tuple(map(tuple, program[: j + 1])), branch),
                         sample={"codes": [repr(c) for c in codes], "program": program[: j + 1], "branch": branch})
            elif op == "x":
                model.x(i)
            elif op == "z":
                model.z(i)
            elif op in ("measure_x", "measure_z"):
                b = op[-1].upper()
                pauli = {i: (1, 0) if b == "X" else (0, 1)}
                c = qidx(circ.circ, keep[j])[0]
                mine = [e for e in tab.log[nlog:] if e[0] == c]
                ctx.expect(len(mine) == 1, "measurement result register", writes=tab.log[nlog:])
                e = model.expect(pauli)
                ctx.expect((e == 0) == mine[0][2] and (e == 0 or mine[0][1] == (e < 0)),
                           "logical measurement differs from ideal", step=j, ideal=e, got=mine[0])
                model.project(pauli, mine[0][1])
            elif op in ("reset_x", "reset_z"):
                v, _ = model.project({i: (0, 1)})
                if v:
                    model.x(i)
                if op == "reset_x":
                    model.h(i)
                typ = op[-1].upper()
                c = codes[i]
                signs[i] = {(t, m): (0 if t == typ else None) for t, m, _ in c.stabs(data[i])}
            elif op == "stabilize":
                for t, m, p in codes[i].stabs(data[i]):
                    if signs[i][t, m] is None:
                        signs[i][t, m] = 0 if tab.expect(p) > 0 else 1
            compare(j)


def run(ctx):
    rng = ctx.rng
    kinds = ["XXZZ", "XZZX", "REP", "REPP"]
    small = {k: [c for c in CODES if c.kind == k and c.n <= 9] for k in kinds}
    # every pair of families, both directions, repeated until all branches are met
    for a in kinds:
        for b in kinds:
            for rep in range(8 if ctx.quick else 20):
                codes = [rng.choice(small[a]), rng.choice(small[b])]
                case(ctx, codes, [["cx", 0, 1], ["cx", 0, 1], ["cx", 1, 0]], by_object=rep % 2 == 1)
    n = 0
    while n < (700 if ctx.quick else 4000) and not (n > 30 and ctx.out_of_time(0.9)):
        k = rng.choice([2, 2, 3, 3, 4])
        codes = [code_for(rng.choice(kinds), rng, 15 if rng.random() < 0.85 else 25) for _ in range(k)]
        program = []
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.5:
                program.append(["cx"] + rng.sample(range(k), 2))
            else:
                program.append([rng.choice(["x", "z", "stabilize", "stabilize", "id", "id_data", "measure_x", "measure_z",
                                            "reset_x", "reset_z"]), rng.randrange(k)])
        if n % 12 == 5:  # many gates on many small qubits
            k = rng.choice([2, 5, 12])
            codes = [rng.choice([c for c in CODES if c.n <= 5]) for _ in range(k)]
            program = [["cx"] + rng.sample(range(k), 2) if rng.random() < 0.7 else
                       [rng.choice(["x", "z", "stabilize", "measure_x", "measure_z"]), rng.randrange(k)]
                       for _ in range(24)]
            ctx.count("long_programs")
        elif n % 12 == 3:  # larger lattices
            k = 2
            codes = [rng.choice(BIG), rng.choice(BIG + CODES)]
            rng.shuffle(codes)
            program = program[:0] + [["cx"] + rng.sample(range(2), 2), ["stabilize", rng.randrange(2)],
                                     ["cx"] + rng.sample(range(2), 2)]
            ctx.count("large_lattices")
        elif n % 12 == 9:  # after many rounds, gates and readouts
            k = rng.choice([2, 3])
            codes = [rng.choice([c for c in CODES if c.n <= 9]) for _ in range(k)]
            late = [["stabilize", i] for i in range(k)] * rng.randint(5, 20)
            late += [[rng.choice(["x", "z", "id", "measure_x", "measure_z"]), rng.randrange(k)] for _ in range(rng.randrange(12))]
            rng.shuffle(late)
            program = late + [["cx"] + rng.sample(range(k), 2) for _ in range(3)]
            ctx.count("late_programs")
        anc = None if rng.random() < 0.5 else code_for(rng.choice(kinds), rng, 15)
        case(ctx, codes, program, by_object=rng.random() < 0.5, ancilla=anc)
        n += 1
