"""C05: history monitor over shared circuits. Every instruction appended by an operation is attributed to the
operation and checked against ownership of qubits and classical bits, and against the instructions that the
same history on a lone qubit produces (differential oracle)."""
import copy

import qtcodes
from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
from qtcodes import TopologicalCircuit, TopologicalRegister

from mon.codes import Code, ctype, encoder_cls, family, make
from mon import place
from mon.sim import walk

META = dict(rule="one evaluation = one operation attributed and compared; non-trivial: in a circuit of two or more "
                 "logical qubits; distinct by (codes, sharing, addressing, position in history, operation)",
            min_nontrivial=1000)

OPS = ["reset_x", "reset_z", "x", "z", "stabilize", "stabilize", "stabilize", "id", "id_data", "readout_x", "readout_z",
       "readout_x", "readout_z", "lattice_readout_x", "lattice_readout_z", "x_c_if", "z_c_if"]
CIRC_NAME = {"readout_x": "measure_x", "readout_z": "measure_z", "lattice_readout_x": "measure_lattice_x",
             "lattice_readout_z": "measure_lattice_z"}
CODES = family(9) + [Code("XXZZ", 3, 5), Code("XZZX", 5, 3), Code("XXZZ", 5, 5)]
BIG = [Code(k, a, b) for k in ("XXZZ", "XZZX") for a, b in ((7, 7), (5, 7), (7, 5), (3, 11), (11, 3), (9, 9), (1, 31), (31, 1))] + \
    [Code("REP", 51, 1), Code("REPP", 1, 51)]


class Owned:
    """One logical qubit in a circuit, with the qubits that its creation added."""

    def __init__(self, q, circ, qubits):
        self.q, self.circ = q, circ
        index = {b: i for i, b in enumerate(circ.qubits)}
        self.qubits = [index[b] for b in qubits]
        self.pos = {x: i for i, x in enumerate(self.qubits)}


def creation(circ, make):
    before = len(circ.qubits)
    q = make()
    return Owned(q, circ, circ.qubits[before:])


def call(obj, tcirc, index, op, args, by):
    """Perform op through the qubit, or through the circuit by index or object."""
    if by == "qubit" or op.endswith("c_if"):
        return getattr(obj.q, op)(*args)
    name = CIRC_NAME.get(op, op)
    return getattr(tcirc, name)(index if by == "index" else obj.q, *args)


def signature(circ, mark, pos, clmark, known):
    """Instructions appended since mark, in coordinates relative to the qubit and the new registers."""
    out = []
    for e in walk(circ, mark):
        q = tuple(pos.get(x, ("foreign", x)) for x in e.q)
        rel = lambda c: ("new", c - clmark) if c >= clmark else known.get(c, ("old", c))
        out.append((e.op, q, tuple(rel(c) for c in e.c),
                    tuple((tuple(rel(b) for b in bits), v) for bits, v in e.cond)))
    return out


def used_params(code, rng):
    q = make(code)
    for op in rng.sample(["stabilize", "readout_z", "lattice_readout_x", "readout_x", "lattice_readout_z"], 3):
        getattr(q, op)()
    return copy.deepcopy(q.lattice.params)


def history(ctx, k, length, ops=OPS, codes=None):
    rng = ctx.rng
    mode = rng.choice(["treg", "treg", "plain"])
    codes = codes or [rng.choice(CODES) for _ in range(k)]
    if k > 1 and rng.random() < 0.06:
        codes[rng.randrange(k)] = rng.choice(BIG)
    share = rng.random() < 0.5
    if share:  # one dictionary object for all
        base = rng.choice(codes)
        codes = [base if base.kind in ("REP", "REPP") else Code(rng.choice(["XXZZ", "XZZX"]), base.dh, base.dw)
                 for _ in range(k)]
        shared = codes[0].params()
        dicts = [shared] * k
    else:
        dicts = [c.params() for c in codes]
    if rng.random() < 0.4:
        for d in {id(d): d for d in dicts}.values():
            if rng.random() < 0.5:
                d["T"] = rng.randint(0, 4)  # e.g. a decoder's parameters
            else:  # the parameters of a logical qubit that has been in use
                c = next(c for c, e in zip(codes, dicts) if e is d)
                d.update(used_params(c, rng))
    keep = copy.deepcopy(dicts)
    log = []
    spec = dict(codes=[repr(c) for c in codes], mode=mode, shared=share, log=log)
    with ctx.guard(**spec):
        objs, tcirc = [], None
        if mode == "treg":
            if rng.random() < 0.5:
                circ = QuantumCircuit()
                treg = TopologicalRegister(circ=circ, name=rng.choice(["treg", "r"]))
            else:
                treg = TopologicalRegister()
                circ = treg.circ
            if rng.random() < 0.3:  # registers of the user, named like the ones that a CX needs
                circ.add_register(ClassicalRegister(1, rng.choice(["m1", "m3", "m10", "m2_0"])),
                                  QuantumRegister(2, rng.choice(["cnot_readout", "readout", "cnot_readout_a", "my_cnot_readout",
                                                                 "cnot", "ancilla", "treg_ancilla"])))
            tcirc = TopologicalCircuit(treg)
            if rng.random() < 0.3:  # a program of its own
                apart = TopologicalCircuit(TopologicalRegister(ctypes=[ctype(c.kind) for c in place.SMALL[:2]],
                                                               params=[c.params() for c in place.SMALL[:2]]))
                apart.stabilize(0)
                apart.cx(0, 1)
            tcircs = [tcirc] + [TopologicalCircuit(treg) for _ in range(rng.choice([0, 0, 1, 2]))]
            ctx.expect(tcirc.circ is circ and treg.circ is circ, "register and circuit must share the given circuit")
            for i, c in enumerate(codes):
                objs.append(creation(circ, lambda: (treg.add_tqubits("data", [ctype(c.kind)], [dicts[i]]), treg[i])[1]))
        else:
            circ = QuantumCircuit()
            place.prelude(circ, rng)
            for i, c in enumerate(codes):
                if rng.random() < 0.15:
                    place.foreign(circ, f"q{i}", rng)
                objs.append(creation(circ, lambda: encoder_cls(c.kind)(dicts[i], f"q{i}", circ)))
        lone = []
        for i, c in enumerate(codes):
            lc = QuantumCircuit()
            lone.append(creation(lc, lambda: encoder_cls(c.kind)(c.params(), "lone", lc)))
        for o, l in zip(objs, lone):
            ctx.expect(o.q.circ is circ, "logical qubit does not use the circuit it was given")
            ctx.expect(len(o.qubits) == len(l.qubits), "number of qubits depends on the surrounding circuit")
        if rng.random() < 0.4:  # the user's own registers, with similar names
            for o in rng.sample(objs, min(k, 3)):
                if not any(r.name.startswith(o.q.name) for r in circ.cregs):
                    place.foreign(circ, o.q.name, rng)
        given = {}
        for i in range(k):
            for side, c in (("real", circ), ("lone", lone[i].circ)):
                reg = ClassicalRegister(1, f"given{i}")
                c.add_register(reg)
                given[i, side] = reg
        written, helper = {}, set()
        owner_of = {x: i for i, o in enumerate(objs) for x in o.qubits}
        ctx.expect(len(owner_of) == sum(len(o.qubits) for o in objs), "logical qubits share physical qubits")
        owner_of.update({x: "user" for x in range(len(circ.qubits)) if x not in owner_of})
        for n in range(length):
            i = rng.randrange(k)
            op = rng.choice(ops)
            if tcirc is not None and k > 1 and rng.random() < 0.12:
                cx_step(ctx, rng.choice(tcircs), objs, codes, owner_of, rng, log, helper)
                continue
            by = rng.choice(["qubit", "index", "object"]) if tcirc is not None else "qubit"
            use_given = op in ("readout_x", "readout_z") and rng.random() < 0.3
            log.append([i, op, by, use_given])
            sig = []
            for side, o in (("real", objs[i]), ("lone", lone[i])):
                reg = given[i, side]
                clidx = {b: j for j, b in enumerate(o.circ.clbits)}
                known = {clidx[reg[0]]: "given"}
                mark, clmark, regmark = len(o.circ.data), len(o.circ.clbits), len(o.circ.cregs)
                if op.endswith("c_if"):
                    args = (reg, n % 2)
                elif use_given:
                    args = (reg,)
                else:
                    args = ()
                if side == "real":
                    call(o, tcirc, i, op, args, by)
                else:
                    getattr(o.q, op)(*args)
                new = [(r.name.replace(o.q.name, "@"), len(r)) for r in o.circ.cregs[regmark:]]
                sig.append((signature(o.circ, mark, o.pos, clmark, known), len(o.circ.clbits) - clmark, new))
                if side == "real":
                    events = walk(o.circ, mark)
                    for e in events:
                        foreign = [x for x in e.q if x not in o.pos]
                        ctx.expect(not foreign, "operation acts on qubits that are not its own", op=repr(e),
                                   qubits=[str(o.circ.qubits[x]) for x in foreign])
                        for c in e.c:
                            mine = c >= clmark or c in known
                            ctx.expect(mine, "operation overwrites an earlier result", op=repr(e),
                                       clbit=str(o.circ.clbits[c]))
                            ctx.expect(c in known or c not in written, "a result bit is written twice", clbit=c)
                            written[c] = n
            ctx.expect(sig[0] == sig[1], "operation adds other instructions in a shared circuit than on its own",
                       op=op, by=by, shared=str(sig[0])[:400], alone=str(sig[1])[:400])
            ctx.expect(dicts == keep, "a parameter dictionary passed in was modified", now=dicts, before=keep)
            ctx.case((repr(codes), share, mode, by, n, i, op, use_given), nontrivial=k > 1,
                     sample={"codes": [repr(c) for c in codes], "history": [x for x in log[-6:]]})
        names = [r.name for r in circ.qregs] + [r.name for r in circ.cregs]
        ctx.expect(len(set(names)) == len(names), "register names collide")
        # parsing by index / by object / by qubit
        if tcirc is not None:
            for i, c in enumerate(codes):
                s = " ".join(["1"] + ["".join(rng.choice("01") for _ in range(c.nsyn)) for _ in range(3)])
                b = rng.choice("XZ")
                r = [tcirc.parse_readout(i, s, b), tcirc.parse_readout(objs[i].q, s, b), objs[i].q.parse_readout(s, b),
                     lone[i].q.parse_readout(s, b)]
                ctx.expect(all(x == r[0] for x in r), "parsing depends on addressing", results=r)


def cx_step(ctx, tcirc, objs, codes, owner_of, rng, log, helper):
    a, b = rng.sample(range(len(objs)), 2)
    circ = tcirc.circ
    by = rng.choice(["index", "object", "mixed"])
    log.append(["cx", a, b, by])
    mark = len(circ.data)
    old = len(circ.clbits)
    tcirc.cx(objs[a].q if by == "object" else a, objs[b].q if by in ("object", "mixed") else b)
    helper.update(range(old, len(circ.clbits)))  # result bits that CX made for itself
    touched = set()
    for e in walk(circ, mark):
        for x in e.q:
            touched.add(owner_of.get(x, "helper"))
        for c in e.c:
            ctx.expect(c in helper, "CX overwrites an earlier result", clbit=str(circ.clbits[c]))
    ctx.expect(touched <= {a, b, "helper"}, "CX acts on other logical qubits or the user's qubits", touched=sorted(map(str, touched)))
    ctx.case((repr(codes), "cx", a, b, by, len(log)))
    ctx.count("cx")


def addressing(ctx):
    """The same program by index and by object gives the same circuit."""
    rng = ctx.rng
    codes = [rng.choice(CODES) for _ in range(3)]
    prog = []
    for _ in range(12):
        r = rng.random()
        if r < 0.2:
            prog.append(("cx",) + tuple(rng.sample(range(3), 2)))
        else:
            prog.append((rng.choice([CIRC_NAME.get(o, o) for o in OPS if not o.endswith("c_if")]), rng.randrange(3)))
    with ctx.guard(codes=[repr(c) for c in codes], program=prog):
        res = []
        for by in ("index", "object"):
            treg = TopologicalRegister(ctypes=[ctype(c.kind) for c in codes], params=[c.params() for c in codes])
            tc = TopologicalCircuit(treg)
            objs = [treg[i] for i in range(3)]
            for op, *a in prog:
                getattr(tc, op)(*[objs[i] if by == "object" else i for i in a])
            res.append([repr(e) for e in walk(tc.circ)])
        ctx.expect(res[0] == res[1], "addressing by index and by object build different circuits")
    ctx.case(("addressing", repr(codes), tuple(prog)))


def defaults(ctx):
    """Default-constructed qubits do not share state."""
    for kind in ("XXZZ", "XZZX", "REP"):
        with ctx.guard(defaults=kind):
            cls = encoder_cls(kind)
            a, b = cls(), cls()
            a.stabilize()
            a.readout_z()
            a.lattice_readout_x()
            c = cls()
            for q in (b, c):
                q.stabilize()
                q.readout_z()
                q.lattice_readout_x()
            ev = [[repr(e) for e in walk(q.circ)] for q in (a, b, c)]
            ctx.expect(a.circ is not b.circ, "default circuits are shared")
            ctx.expect(ev[0] == ev[1] == ev[2], "default-constructed qubits influence each other")
            ctx.expect([[r.name for r in q.circ.cregs] for q in (a, b)][0] == [r.name for r in b.circ.cregs],
                       "register numbering leaks between qubits")
        ctx.case(("defaults", kind))


def run(ctx):
    defaults(ctx)
    # hundreds of results on one or two qubits
    for ops in (["readout_x", "readout_z"], ["readout_z"], ["readout_x"], ["stabilize"],
                ["lattice_readout_x", "lattice_readout_z", "readout_z", "stabilize"]):
        small = ctx.rng.choice([Code("XXZZ", 1, 3), Code("XZZX", 3, 1), Code("REP", 3, 1), Code("REPP", 1, 3)])
        k = ctx.rng.choice([1, 2])
        history(ctx, k, (150 if len(ops) == 1 else 300) * k, ops, [small] * k)
    n = 0
    while n < (700 if ctx.quick else 6000) and not (n > 60 and ctx.out_of_time(0.9)):
        if n % 20 == 3:
            history(ctx, 12, 60)
        elif n % 20 == 9:
            history(ctx, ctx.rng.choice([1, 2]), 160)
        else:
            history(ctx, ctx.rng.choice([1, 2, 2, 3, 4]), ctx.rng.randint(4, 22))
        addressing(ctx)
        n += 1
