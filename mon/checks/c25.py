"""C25: CXs between logical and physical qubits, on the tableau from a state in which every logical and physical qubit is
maximally entangled with a reference qubit; after each step all generators of the ideal state are measured on the real one."""
from qiskit import QuantumCircuit, QuantumRegister
from qtcodes import TopologicalRegister

from mon.codes import Code, ctype, data_of, encoder_cls, family
from mon.common import *
from mon.sim import Tableau, qidx, walk

META = dict(rule="one evaluation = one CX between a logical and a physical qubit, executed and compared completely; distinct "
                 "by (codes, program so far, outcomes)", min_nontrivial=400)

CODES = family(25)


def refused(ctx, q, circ, phys):
    """Neither or both of control and target: refused, nothing appended."""
    p = ctx.rng.sample(list(phys), 2) if len(phys) > 1 else [phys[0], phys[0]]
    for kw in ({}, {"control": p[0], "target": p[1]}, {"control": None, "target": None}):
        before = (len(circ.data), len(circ.qubits), len(circ.clbits), len(circ.cregs))
        try:
            q.cx(**kw)
        except Exception:
            now = (len(circ.data), len(circ.qubits), len(circ.clbits), len(circ.cregs))
            ctx.expect(now == before, "a refused CX changed the circuit", request=sorted(kw), before=before, after=now)
            ctx.count("refused")
            continue
        ctx.fail("a CX without exactly one of control and target was not refused", request=sorted(k for k in kw if kw[k]))


def case(ctx, codes, m, program):
    """program: ("cx", "c"/"t", logical, physical), (op, logical), or ("phys", gate, physical)."""
    rng = ctx.rng
    how = rng.choice(["register", "plain"])
    spec = dict(codes=[repr(c) for c in codes], physical=m, program=program, how=how)
    k = len(codes)
    with ctx.guard(**spec):
        circ = QuantumCircuit()
        preg = QuantumRegister(m, "phys")
        early = rng.random() < 0.5
        if early:
            circ.add_register(preg)
        if how == "register":
            treg = TopologicalRegister(circ=circ, ctypes=[ctype(c.kind) for c in codes], params=[c.params() for c in codes])
            tq = [treg[i] for i in range(k)]
        else:
            tq = [encoder_cls(c.kind)(c.params(), f"q{i}", circ) for i, c in enumerate(codes)]
        if not early:
            circ.add_register(preg)
        marks, keep = [], []
        for op, *a in program:
            if op == "cx":
                side, i, p = a
                style = rng.random()
                if side == "c":
                    tq[i].cx(preg[p]) if style < 0.3 else tq[i].cx(control=preg[p])
                else:
                    tq[i].cx(None, preg[p]) if style < 0.3 else tq[i].cx(target=preg[p])
            elif op == "phys":
                getattr(circ, a[0])(preg[a[1]])
            elif op == "refused":
                refused(ctx, tq[a[0]], circ, preg)
            else:
                getattr(tq[a[0]], op)()
            marks.append(len(circ.data))
            keep.append(circ.cregs[-1] if circ.cregs else None)
        ev = walk(circ)
        n = nqubits(circ)
        bounds = [0] + [len(ev) - len(walk(circ, x)) for x in marks]
        data = [data_of(t) for t in tq]
        phys = qidx(circ, preg)
    w = k + m  # model qubits: logical ones, physical ones, then their references
    tab = Tableau(rng, n + w)
    signs = []
    for i, (c, d) in enumerate(zip(codes, data)):
        signs.append(prepare_code_state(tab, c, d, rng))
        xr, zr = dict(c.logical("X", d)), dict(c.logical("Z", d))
        xr[n + i], zr[n + i] = (1, 0), (0, 1)
        if tab.project(xr, 0)[0]:
            tab.z(n + i)
        if tab.project(zr, 0)[0]:
            tab.x(n + i)
    for j, p in enumerate(phys):
        bell(tab, p, n + k + j)
    model = Tableau(rng, 2 * w)
    for i in range(w):
        bell(model, i, w + i)

    def compare(step):
        for p, s in rows(model):
            parts = []
            for q, (x, z) in p.items():
                if q >= w:
                    parts.append({n + q - w: (x, z)})
                elif q >= k:
                    parts.append({phys[q - k]: (x, z)})
                else:
                    pauli, minus = logical_pauli(codes[q], data[q], x, z)
                    parts.append(pauli)
                    s ^= minus
                    ctx.count("logical_Y", x & z)
            e = tab.expect(mul_pauli(*parts))
            ctx.count("generators_compared")
            ctx.expect(e == (-1 if s else 1), "logical and physical qubits are not in the ideal state", step=step,
                       generator=pname(p), sign=s, expectation=e)
        for c, d, sg in zip(codes, data, signs):
            for t, i, p in c.stabs(d):
                if sg[t, i] is None:
                    continue
                e = tab.expect(p)
                ctx.expect(e == (-1 if sg[t, i] else 1), "an operation moved a logical qubit out of its code space",
                           step=step, code=repr(c), plaquette=(t, i), sign=sg[t, i], expectation=e)

    with ctx.guard(**spec):
        done = []
        for j, (op, *a) in enumerate(program):
            nlog = len(tab.log)
            tab.run(ev[bounds[j]: bounds[j + 1]])
            new = tab.log[nlog:]
            done.append((op, *a))
            if op == "cx":
                side, i, p = a
                model.cx(*((k + p, i) if side == "c" else (i, k + p)))
                ctx.expect(not new, "a CX with a physical qubit measures something", step=j, outcomes=new)
                ctx.count("control" if side == "c" else "target")
                ctx.case((repr(codes), m, tuple(done), tuple(sorted(tab.bits.items()))),
                         sample={"codes": [repr(c) for c in codes], "program": [list(x) for x in done[-6:]]})
            elif op == "phys":
                getattr(model, a[0])(k + a[1])
            elif op in ("x", "z"):
                getattr(model, op)(a[0])
            elif op in ("readout_x", "readout_z"):
                i = a[0]
                pauli = {i: (1, 0) if op[-1] == "x" else (0, 1)}
                c = qidx(circ, keep[j])[0]
                mine = [e for e in new if e[0] == c]
                ctx.expect(len(mine) == 1, "a readout does not write one result", writes=new)
                e = model.expect(pauli)
                ctx.expect((e == 0) == mine[0][2] and (e == 0 or mine[0][1] == (e < 0)),
                           "logical readout differs from the ideal one", step=j, ideal=e, got=mine[0])
                model.project(pauli, mine[0][1])
            compare(j)


def run(ctx):
    rng = ctx.rng
    big = [Code("XXZZ", 7, 7), Code("XZZX", 7, 7), Code("XXZZ", 3, 11), Code("XZZX", 11, 3), Code("REP", 31, 1),
           Code("REPP", 1, 31), Code("XZZX", 1, 27)]
    # every code, both directions
    for c in CODES + big:
        case(ctx, [c], 2, [["cx", "c", 0, 0], ["refused", 0], ["cx", "t", 0, 1], ["stabilize", 0], ["cx", "t", 0, 0],
                           ["cx", "c", 0, 1], ["readout_" + rng.choice("xz"), 0]])
    n = 0
    while n < (500 if ctx.quick else 5000) and not (n > 60 and ctx.out_of_time(0.9)):
        k, m = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3])
        codes = [rng.choice([c for c in CODES if c.n <= (15 if rng.random() < 0.85 else 25)]) for _ in range(k)]
        program = []
        for _ in range(rng.randint(3, 12) if n % 15 else 40):
            r = rng.random()
            if r < 0.55:
                program.append(["cx", rng.choice("ct"), rng.randrange(k), rng.randrange(m)])
            elif r < 0.65:
                program.append(["phys", rng.choice(["h", "x", "z"]), rng.randrange(m)])
            elif r < 0.67:
                program.append(["refused", rng.randrange(k)])
            else:
                program.append([rng.choice(["x", "z", "stabilize", "id", "id_data", "readout_x", "readout_z"]), rng.randrange(k)])
        if n % 15 == 8:  # after many rounds, gates and readouts
            late = [["stabilize", i] for i in range(k)] * rng.randint(5, 20)
            late += [[rng.choice(["x", "z", "id", "readout_x", "readout_z"]), rng.randrange(k)] for _ in range(rng.randrange(12))]
            rng.shuffle(late)
            codes = [rng.choice([c for c in CODES if c.n <= 9]) for _ in range(k)]
            program = late + program[:6]
            ctx.count("late_programs")
        case(ctx, codes, m, program)
        n += 1
