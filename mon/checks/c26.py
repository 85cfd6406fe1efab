"""C26: circuits built by the library are run on the simulator as they are, copied, composed, transpiled, routed, or exported
and read back. A monitor reads every shot: memory experiments are parsed and decoded, programs of several logical qubits
are replayed shot by shot on ideal qubits, and every readout that is fixed there has to be right, every other to vary."""
import contextlib
import copy
import io

from qiskit import Aer, QuantumCircuit, transpile, qpy
from qiskit.transpiler import CouplingMap
from qtcodes import TopologicalBenchmark, TopologicalCircuit, TopologicalRegister

from mon.codes import Code, ctype, data_of, decoder_keys, family, make, make_decoder
from mon.sim import Tableau

META = dict(rule="one evaluation = one circuit in one form run and all its shots read; distinct by (code, T, basis, readout, "
                 "errors, form) resp. (program, form)", min_nontrivial=200)

GATES = ["h", "s", "sdg", "x", "y", "z", "cx", "cz", "id", "reset", "measure"]
FORMS = ["built", "copy", "deepcopy", "composed", "qasm", "qpy", "level0", "level1", "level2", "level3", "routed",
         "qasm+level1", "twice"]


def changed(form, circ, rng):
    """The circuit as a user may run it."""
    if form == "copy":
        return circ.copy()
    if form == "deepcopy":
        return copy.deepcopy(circ)
    if form == "composed":
        return QuantumCircuit(*circ.qregs, *circ.cregs).compose(circ)
    if form == "qpy":
        f = io.BytesIO()
        qpy.dump(circ, f)
        f.seek(0)
        return qpy.load(f)[0]
    if form.startswith("qasm"):
        c = QuantumCircuit.from_qasm_str(circ.qasm())
        return transpile(c, basis_gates=GATES, optimization_level=1, seed_transpiler=1) if "level" in form else c
    if form.startswith("level"):
        return transpile(circ, basis_gates=GATES, optimization_level=int(form[-1]), seed_transpiler=rng.randrange(1000))
    if form == "routed":
        return transpile(circ, basis_gates=GATES, coupling_map=CouplingMap.from_line(circ.num_qubits + 1),
                         optimization_level=1, seed_transpiler=rng.randrange(1000))
    return circ


def shots_of(circ, shots, seed):
    circ = transpile(circ, basis_gates=GATES, optimization_level=0)
    r = Aer.get_backend("aer_simulator").run(circ, shots=shots, method="stabilizer", seed_simulator=seed).result()
    if not r.success:
        raise ValueError(f"the simulator refused the circuit: {r.status}")
    return r.get_counts()


def run_as(ctx, form, circ, shots, seed):
    try:
        circ = changed(form, circ, ctx.rng)
        return circ, shots_of(circ, shots, seed)
    except (MemoryError, OSError):
        raise
    except Exception as e:
        ctx.fail("the circuit cannot be exported, changed or run", form=form, error=repr(e)[:300])


def exported(ctx, form, circ):
    try:
        return changed(form, circ, ctx.rng)
    except (MemoryError, OSError):
        raise
    except Exception as e:
        ctx.fail("the circuit cannot be exported and read back", form=form, error=repr(e)[:300])


def memory(ctx, code, T, basis, readout, value, forms):
    """Encode, rounds with errors, readout; every shot decodes to the encoded value."""
    rng = ctx.rng
    t = (code.distance(basis) - 1) // 2
    errors = []
    if rng.random() < 0.6:
        errors = [(rng.randrange(T), rng.randrange(code.n), rng.choice("XYZ")) for _ in range(rng.randint(0, t))]
    spec = dict(code=repr(code), T=T, basis=basis, readout=readout, value=value, errors=errors)
    with ctx.guard(**spec):
        q = make(code)
        data = data_of(q)
        b = basis.lower()
        getattr(q, "reset_" + b)()
        if value:
            (q.x if basis == "Z" else q.z)()
        q.stabilize()
        for r in range(T):
            for k in [e for e in errors if e[0] == r]:
                getattr(q.circ, k[2].lower())(q.circ.qubits[data[k[1]]])
            if r < T - 1 or readout == "ancilla":
                q.stabilize()
            if rng.random() < 0.3:
                q.id_data()
        getattr(q, ("readout_" if readout == "ancilla" else "lattice_readout_") + b)()
        dec = make_decoder(code, T)
        rounds = T + 1 if readout == "ancilla" else T
        seen = {}
        for form in forms:
            seed = rng.randrange(1 << 30)
            circ, counts = run_as(ctx, form, q.circ, 20, seed)
            if form == "twice":  # running does not use a circuit up
                counts = shots_of(circ, 20, seed + 1)
            ctx.expect(sum(counts.values()) == 20, "shots are missing", counts=counts, form=form)
            for key in counts:
                widths = [len(c) for c in key.split(" ")]
                ctx.expect(widths == [1 if readout == "ancilla" else code.n] + [code.nsyn] * rounds,
                           "the counts' keys are not readout strings", key=key, form=form)
                logical, hits = q.parse_readout(key, basis)
                got = int(dec.correct_readout(key, basis))
                if not errors:
                    ctx.expect(not hits["X"] and not hits["Z"] and logical == value, "a run without errors shows hits "
                               "or another value", key=key, hits=hits, value_=logical, form=form)
                ctx.expect(got == value, "a run does not decode to the encoded value", key=key, decoded=got, form=form)
                seen.setdefault(form, set()).add((logical, tuple(sorted(hits[basis]))))
                ctx.count("keys")
            first = seen[forms[0]]
            ctx.expect(len(first) == 1 and seen[form] == first, "the same circuit shows other hits or values in another "
                       "form", form=form, first=first, now=seen[form])
            if basis == "Z":
                rate = TopologicalBenchmark(decoder=dec, circ=circ, correct_logical_value=value).logical_error_rate(counts)
                ctx.expect(rate == 0, "the benchmark counts logical errors in runs that decode rightly", rate=rate, form=form)
            ctx.case((repr(code), T, basis, readout, tuple(errors), form), sample={**spec, "form": form, "keys": list(counts)[:2]})
            ctx.count(form)


OPS = ["x", "z", "stabilize", "id", "measure_x", "measure_z", "measure_z", "reset_x", "reset_z", "x_c_if", "z_c_if",
       "measure_lattice_x", "measure_lattice_z"]


def program(ctx, forms):
    """Several logical qubits; each shot replayed on ideal ones."""
    rng = ctx.rng
    codes = [rng.choice([Code("XXZZ", 3, 3), Code("XZZX", 3, 3), Code("REP", 3, 1), Code("REPP", 1, 3), Code("XZZX", 1, 3),
                         Code("XXZZ", 3, 1), Code("XZZX", 3, 5)]) for _ in range(rng.randint(1, 3))]
    k = len(codes)
    steps = []
    spec = dict(codes=[repr(c) for c in codes], steps=steps)
    with ctx.guard(**spec):
        treg = TopologicalRegister(ctypes=[ctype(c.kind) for c in codes], params=[c.params() for c in codes])
        tc = TopologicalCircuit(treg)
        circ = tc.circ
        results = []  # the classical registers of the readouts
        start = [(rng.choice(["reset_x", "reset_z"]), i) for i in range(k)]
        todo = start + [("cx", *rng.sample(range(k), 2)) if k > 1 and rng.random() < 0.25 else
                        (rng.choice(OPS), rng.randrange(k)) for _ in range(rng.randint(4, 14))]
        todo += [("measure_" + rng.choice("xz"), i) for i in range(k)]
        full = []
        for op, *a in todo:  # a later reset follows a readout, which tells the ideal qubits' branch
            full += ([("measure_z", a[0])] if op.startswith("reset") and len(full) >= k else []) + [(op, *a)]
            if op.startswith("measure_lattice"):  # the next life of this qubit
                full.append((rng.choice(["reset_x", "reset_z"]), a[0]))
        for i in range(k):
            if rng.random() < 0.4:
                full.append(("measure_lattice_" + rng.choice("xz"), i))
        for op, *a in full:
            if op.endswith("c_if"):
                if not results:
                    continue
                j = rng.randrange(len(results))
                reg = circ.cregs[results[j][0]]
                v = rng.randrange(2) if len(reg) == 1 else rng.randrange(1 << len(reg))
                getattr(treg[a[0]], op)(reg, v)
                steps.append((op, a[0], j, v))
            elif op == "cx":
                tc.cx(*a)
                steps.append((op, *a))
            else:
                getattr(tc, op)(a[0])
                steps.append((op, a[0]))
                if op.startswith("measure"):
                    sup = codes[a[0]].logical_support(op[-1].upper()) if "lattice" in op else [0]
                    results.append((len(circ.cregs) - 1, sup))
        n = len(circ.cregs)
        for form in ("qasm", "qpy"):
            again = exported(ctx, form, circ)
            ctx.expect([(r.name, len(r)) for r in again.cregs] == [(r.name, len(r)) for r in circ.cregs] and
                       [i.operation.name for i in again.data] == [i.operation.name for i in circ.data],
                       "a circuit that is exported and read back has other registers or operations", form=form)
            ctx.count("exports")
        for form in forms:
            _, counts = run_as(ctx, form, circ, 60, rng.randrange(1 << 30))
            free = {}
            for key, c in counts.items():
                chunks = key.split(" ")[::-1]
                ctx.expect(len(chunks) == n, "the counts' keys do not show every register", key=key, registers=n, form=form)
                values = [(int(chunks[r], 2), sum(int(chunks[r][-1 - i]) for i in sup) % 2) for r, sup in results]
                replay(ctx, k, steps, values, free, c, dict(form=form, key=key))
            for j, (zeros, ones) in free.items():
                if zeros + ones >= 45:
                    ctx.expect(zeros and ones, "a readout that is random on ideal qubits never varies", readout=j,
                               zeros=zeros, ones=ones, form=form)
                    ctx.count("random_readouts")
            ctx.case((repr(codes), tuple(steps), form), sample={**spec, "form": form, "keys": list(counts)[:2]})
            ctx.count("programs")


def replay(ctx, k, steps, bits, free, count, detail):
    m = Tableau(ctx.rng, k)
    j = 0
    for op, *a in steps:
        if op == "cx":
            m.cx(*a)
        elif op in ("x", "z"):
            getattr(m, op)(a[0])
        elif op.endswith("c_if"):
            if bits[a[1]][0] == a[2]:
                getattr(m, op[0])(a[0])
        elif op.startswith("reset"):
            v, _ = m.project({a[0]: (0, 1)})
            if v:
                m.x(a[0])
            if op[-1] == "x":
                m.h(a[0])
        elif op.startswith("measure"):
            p = {a[0]: (1, 0) if op[-1] == "x" else (0, 1)}
            e = m.expect(p)
            if e:
                ctx.expect(bits[j][1] == (e < 0), "a shot shows a readout that ideal qubits exclude", readout=j, step=(op, *a),
                           ideal=int(e < 0), values=bits, **detail)
                ctx.count("fixed_readouts")
            else:
                z = free.setdefault(j, [0, 0])
                z[bits[j][1]] += count
            m.project(p, bits[j][1])
            j += 1


def run(ctx):
    rng = ctx.rng
    codes = [c for c in family(9) if c.n > 1] + [Code("XXZZ", 3, 5), Code("XZZX", 5, 3), Code("XXZZ", 5, 5), Code("XZZX", 5, 5)]
    BIG = [Code(k, a, b) for k in ("XXZZ", "XZZX") for a, b in ((7, 7), (5, 7), (9, 3), (3, 9), (21, 1))] + \
        [Code("REP", 51, 1), Code("REPP", 1, 41)]
    n = 0
    while n < (150 if ctx.quick else 1500) and not (n > len(codes) and ctx.out_of_time(0.9)):
        code = codes[n % len(codes)] if n < 2 * len(codes) else rng.choice(codes)
        if n % 15 == 8:
            code = rng.choice(BIG)
            ctx.count("large_lattices")
        basis = rng.choice(decoder_keys(code))
        forms = ["built"] + rng.sample(FORMS[1:], 3)
        if code.n > 9:
            forms = [f for f in forms if f not in ("routed", "level3")]
        memory(ctx, code, rng.choice([1, 2, 3]) if n % 9 else 12, basis, rng.choice(["ancilla", "lattice"]),
               rng.randrange(2), forms)
        program(ctx, ["built"] + rng.sample(FORMS[1:-1], 1))
        n += 1
