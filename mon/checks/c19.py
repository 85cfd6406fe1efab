"""C19: every instruction that every operation appends is watched for identity gates; then errors are attached to the
identities found, in the frame monitor and in Aer's noise model, and the parsed readouts compared with the geometry."""
import qtcodes
from qiskit import Aer, ClassicalRegister, execute
from qiskit.providers.aer.noise import NoiseModel
from qiskit.providers.aer.noise.errors import pauli_error
from qtcodes import TopologicalCircuit, TopologicalRegister

from mon.codes import Code, ctype, data_of, family, make
from mon.place import placed
from mon.sim import Tableau, frames, walk

META = dict(rule="one evaluation = one operation watched, or one noisy scenario compared; non-trivial: identities "
                 "inserted or errors attached to them; distinct by (codes, history position, operation) or (code, errors)",
            min_nontrivial=800)

OPS = ["reset_x", "reset_z", "x", "z", "stabilize", "readout_x", "readout_z", "lattice_readout_x", "lattice_readout_z",
       "x_c_if", "z_c_if"]


def all_names(circ, start):
    """(name, qubits) of every instruction at any depth since start."""
    qm = {b: i for i, b in enumerate(circ.qubits)}

    def rec(op, qs, out):
        out.append((op.name, tuple(qs)))
        d = getattr(op, "definition", None)
        if op.name not in ("barrier", "id", "x", "z", "h", "cx", "measure", "reset", "cz", "s", "sdg", "y") and d is not None:
            m = {b: qs[i] for i, b in enumerate(d.qubits)}
            for ins in d.data:
                rec(ins.operation, [m[b] for b in ins.qubits], out)

    out = []
    for ins in circ.data[start:]:
        rec(ins.operation, [qm[b] for b in ins.qubits], out)
    return out


BIG = [Code(k, a, b) for k in ("XXZZ", "XZZX") for a, b in ((7, 7), (5, 7), (7, 5), (3, 11), (11, 3), (9, 9), (1, 31), (31, 1))] + \
    [Code("REP", 51, 1), Code("REPP", 1, 51)]


def watch(ctx, k, steps=25, many=None):
    """Random histories in shared circuits: who emits identities, and on which qubits."""
    rng = ctx.rng
    codes = [rng.choice(family(15)) for _ in range(rng.randint(1, 3))]
    if k % 10 == 4:
        codes[0] = rng.choice(BIG)
    if many:
        codes = [rng.choice(family(5)) for _ in range(many)]
    with ctx.guard(history=k, codes=[repr(c) for c in codes]):
        reg = TopologicalRegister()
        own = []
        for c in codes:
            before = len(reg.circ.qubits)
            reg.add_tqubit("data", ctype(c.kind), c.params())
            own.append(set(range(before, len(reg.circ.qubits))))
        tc = TopologicalCircuit(reg)
        cond = ClassicalRegister(1, "cond")
        tc.circ.add_register(cond)
        for step in range(steps):
            n = rng.randrange(len(codes))
            q = reg[n]
            r = rng.random()
            mark = len(tc.circ.data)
            if r < 0.35:
                op = rng.choice(["id", "id_data"])
                if rng.random() < 0.5:
                    getattr(q, op)()
                else:
                    getattr(tc, op)(rng.choice([n, q]))
                want = own[n] if op == "id" else set(data_of(q))
            elif r < 0.42 and len(codes) > 1:
                op = "cx"
                m = rng.choice([x for x in range(len(codes)) if x != n])
                tc.cx(n, m)
                want = set()
            else:
                op = rng.choice(OPS)
                getattr(q, op)(*((cond, 1) if op.endswith("c_if") else ()))
                want = set()
            names = all_names(tc.circ, mark)
            ids = [qs for name, qs in names if name == "id"]
            flat = [x for qs in ids for x in qs]
            ctx.expect(sorted(flat) == sorted(want), "identities on other qubits than exactly the requested ones",
                       operation=op, qubit=n, step=step, identities=sorted(flat), expected=sorted(want))
            if want:
                other = [nm for nm, _ in names if nm not in ("id", "barrier")]
                ctx.expect(not other, "inserting identities inserts other operations", operation=op, others=other)
                ctx.count("insertions")
            ctx.case((k, step, op, repr(codes[n])), nontrivial=bool(want),
                     sample={"codes": [repr(c) for c in codes], "operation": op, "identities_on": sorted(flat)})
            ctx.count("operations")


def attached(ctx, code, basis):
    """Errors at the data identities between rounds: exactly their hits, at their time."""
    rng = ctx.rng
    b = basis.lower()
    with ctx.guard(code=repr(code), basis=basis):
        q = placed(code, rng) if rng.random() < 0.4 else make(code)
        start, before = len(q.circ.data), len(q.circ.cregs)
        getattr(q, "reset_" + b)()
        flip = rng.random() < 0.5
        if flip:
            (q.x if basis == "Z" else q.z)()
        rounds = rng.randint(2, 4) if rng.random() < 0.85 else rng.randint(8, 20)
        spans = []
        for r in range(rounds):
            q.stabilize()
            mark = len(q.circ.data)
            (q.id_data if r < rounds - 1 or rng.random() < 0.5 else q.id)()
            spans.append((mark, len(q.circ.data)))
        lattice = rng.random() < 0.5
        getattr(q, ("lattice_readout_" if lattice else "readout_") + b)()
        ev = walk(q.circ)
        past = len(ev) - len(walk(q.circ, start))
        pos = {}
        index = {x: i for i, x in enumerate(data_of(q))}
        base = [len(ev) - len(walk(q.circ, m)) for m, _ in spans] + [len(ev)]
        for i, e in enumerate(ev):
            if i >= past and e.op == "id" and e.q[0] in index:
                r = max(x for x in range(rounds) if base[x] <= i)
                pos[r, index[e.q[0]]] = i
        ctx.expect(len(pos) == rounds * code.n, "not one identity per data qubit and insertion", found=len(pos))
        tab = Tableau(rng)
        tab.run(ev)
        cm = {x: i for i, x in enumerate(q.circ.clbits)}
        cregs = [[cm[x] for x in reg] for reg in q.circ.cregs[before:]]
        scen = [[(r, k, p)] for r in range(rounds) for k in range(code.n) for p in "XYZ"]
        rng.shuffle(scen)
        scen = scen[:60]
        slots = sorted(pos)
        for _ in range(20):
            scen.append([(r, k, rng.choice("XYZ")) for r, k in rng.sample(slots, rng.randint(1, min(6, len(slots))))])
        faults = {}
        for n, sc in enumerate(scen):
            for r, k, p in sc:
                faults.setdefault(pos[r, k], []).append((ev[pos[r, k]].q[0], p, 1 << n))
        out = frames(ev, len(scen), faults)
        for n, sc in enumerate(scen):
            s = " ".join("".join(str(tab.bits[c] ^ (out.get(c, 0) >> n & 1)) for c in reversed(reg)) for reg in reversed(cregs))
            val, hits = q.parse_readout(s, basis)
            # an error after the last round reaches an ancilla readout without another round
            want_v = int(flip) ^ code.flips_logical(basis, [(k, p) for _, k, p in sc])
            want = []
            for t in "XZ":
                for r in range(rounds):
                    if r == rounds - 1 and not (lattice and t == basis):
                        continue
                    want += [(t, r) + code.pl[t][i][0] for i in code.hits_of(t, [(k, p) for rr, k, p in sc if rr == r])]
            have = sorted((t,) + tuple(h) for t in "XZ" for h in hits[t])
            ctx.expect(int(val) == want_v, "errors on data identities give another readout flip", errors=sc, string=s,
                       got=val, expected=want_v)
            ctx.expect(have == sorted(want), "errors on data identities give other hits", errors=sc, string=s, hits=have,
                       expected=sorted(want))
            ctx.case((repr(code), basis, lattice, rounds, tuple(sc)),
                     sample={"code": repr(code), "errors": sc, "string": s, "hits": have})
        ctx.count("noisy_circuits")


def in_aer(ctx, code, basis):
    """The same with Aer's noise model attached to the gate name."""
    rng = ctx.rng
    b = basis.lower()
    with ctx.guard(code=repr(code), basis=basis, simulator="aer"):
        q = make(code)
        getattr(q, "reset_" + b)()
        q.stabilize()
        q.id_data()
        q.stabilize()
        getattr(q, "readout_" + b)()
        data = data_of(q)
        errs = [(k, rng.choice("XYZ")) for k in rng.sample(range(code.n), rng.randint(0, code.n))]
        m = NoiseModel()
        for k, p in errs:
            m.add_quantum_error(pauli_error([(p, 1.0)]), "id", [data[k]])
        counts = execute(q.circ, Aer.get_backend("aer_simulator", method="stabilizer"), noise_model=m,
                         optimization_level=0, shots=8, seed_simulator=rng.randrange(10 ** 6)).result().get_counts()
        want_v = code.flips_logical(basis, errs)
        want = sorted((t, 0) + code.pl[t][i][0] for t in "XZ" for i in code.hits_of(t, errs))
        for s in counts:
            val, hits = q.parse_readout(s, basis)
            have = sorted((t,) + tuple(h) for t in "XZ" for h in hits[t])
            ctx.expect(int(val) == want_v and have == want, "noise attached to identities in the simulator acts otherwise",
                       errors=errs, string=s, hits=have, expected=want)
        ctx.case((repr(code), basis, tuple(errs), "aer"), nontrivial=bool(errs))
        ctx.count("aer_runs")


def run(ctx):
    for k in range(200 if ctx.quick else 400):
        watch(ctx, k, 120 if k % 25 == 7 else 25, 12 if k % 25 == 13 else None)
        if ctx.out_of_time(0.4):
            break
    codes = family(15) + [Code("XXZZ", 5, 5), Code("XZZX", 5, 5)]
    for rep in range(5 if ctx.quick else 12):
        for code in ctx.order(codes):
            for basis in "XZ":
                attached(ctx, code, basis)
            if ctx.out_of_time(0.7):
                break
    for rep in range(4 if ctx.quick else 10):
        for code in ctx.order([c for c in codes if c.n <= 9]):
            for basis in "XZ":
                in_aer(ctx, code, basis)
            if ctx.out_of_time(0.95):
                return
