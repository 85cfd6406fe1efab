"""C07: the executing circuit is observed just before and at a lattice readout: plaquettes and logical operator of the
state, a real last round and ancilla readout, and the parsed lattice readout must tell the same; then errors are
injected before and at the readout."""
from qtcodes import TopologicalCircuit, TopologicalRegister

from mon.codes import Code, ctype, data_of, family, make
from mon.common import new_chunk
from mon.faults import Run
from mon.place import placed
from mon.sim import Tableau, walk

META = dict(rule="one evaluation = one executed lattice readout compared; non-trivial: at least one plaquette or the "
                 "logical value changed before it; distinct by (code, basis, history or error set)",
            min_nontrivial=1500)


class Driver:
    """The qubit alone, or one of three in a topological circuit."""

    def __init__(self, code, shared, rng):
        if shared:
            others = [Code("XXZZ", 3, 3), Code("REP", 3, 1)]
            self.pos = rng.randrange(3)
            codes = others[:self.pos] + [code] + others[self.pos:]
            reg = TopologicalRegister(ctypes=[ctype(c.kind) for c in codes], params=[c.params() for c in codes])
            self.tc = TopologicalCircuit(reg)
            self.q = reg[self.pos]
            self.circ = self.tc.circ
        else:
            self.tc = None
            self.q = placed(code, rng) if rng.random() < 0.4 else make(code)
            self.circ = self.q.circ

    def do(self, op):
        """Apply an operation; returns (events it added, registers before)."""
        n, c = len(self.circ.data), len(self.circ.cregs)
        if self.tc is None:
            getattr(self.q, op)()
        else:
            name = {"readout_x": "measure_x", "readout_z": "measure_z", "lattice_readout_x": "measure_lattice_x",
                    "lattice_readout_z": "measure_lattice_z"}.get(op, op)
            getattr(self.tc, name)(self.pos)
        return walk(self.circ, n), c

    def parse(self, s, basis):
        return self.q.parse_readout(s, basis) if self.tc is None else self.tc.parse_readout(self.pos, s, basis)


def history_case(ctx, code, basis, shared):
    rng = ctx.rng
    b = basis.lower()
    ops = [rng.choice(["reset_x", "reset_z"])]
    for _ in range(rng.randint(0, 4)):
        ops.append(rng.choice(["x", "z", "stabilize", "readout_x", "readout_z", "id"]))
    rounds = rng.randint(1, 2) if code.n > 9 or rng.random() < 0.9 else 12
    if code.n > 9 and rng.random() < 0.25:
        rounds = rng.randint(3, 6)
    with ctx.guard(code=repr(code), basis=basis, ops=ops, shared=shared):
        drv = Driver(code, shared, rng)
        tab = Tableau(rng)
        tab.run(walk(drv.circ))
        syn = []
        for op in ops + ["stabilize"] * rounds:
            ev, c = drv.do(op)
            tab.run(ev)
            if op == "stabilize":
                syn.append(new_chunk(drv.circ, tab.bits, c)[0])
        data = data_of(drv.q)
        errs = [(k, rng.choice("XYZ")) for k in rng.sample(range(code.n), rng.randint(0, code.n))] \
            if rng.random() < 0.8 else []
        for k, p in errs:
            tab.gate(p.lower(), (data[k],))
        # what the state holds now
        plaq = {i: (1 - tab.expect(p)) // 2 if tab.expect(p) else None
                for t, i, p in code.stabs(data) if t == basis}
        ctx.expect(None not in plaq.values(), "plaquettes of the basis are not definite before the lattice readout",
                   errors=errs)
        logical = code.logical(basis, data)
        style = rng.choice(["alone", "after_round", "after_both"])
        anc = rnd = None
        if style != "alone":
            ev, c = drv.do("stabilize")
            tab.run(ev)
            rnd = new_chunk(drv.circ, tab.bits, c)[0]
            syn.append(rnd)
        if style == "after_both":
            ev, c = drv.do("readout_" + b)
            tab.run(ev)
            anc = int(new_chunk(drv.circ, tab.bits, c)[0])
        e = tab.expect(logical)
        if e == 0:  # a superposition of this basis: decide it, so that the readout has one right answer
            val, _ = tab.project(logical)
            ctx.count("superpositions")
        else:
            val = (1 - e) // 2
        ev, c = drv.do("lattice_readout_" + b)
        tab.run(ev)
        lat = new_chunk(drv.circ, tab.bits, c)
        ctx.expect(len(lat) == 1 and len(lat[0]) == code.n, "a lattice readout is one register of all data qubits",
                   registers=lat)
        s = " ".join([lat[0]] + syn[::-1])
        got, hits = drv.parse(s, basis)
        detail = dict(string=s, errors=errs, style=style)
        ctx.expect(int(got) == val, "lattice readout gives another logical value than the state holds", got=got,
                   expected=val, **detail)
        if anc is not None:
            ctx.expect(int(got) == anc, "lattice readout and ancilla readout disagree", got=got, ancilla=anc, **detail)
        last = syn[-1][::-1]
        want = sorted((len(syn) - 1,) + code.pl[basis][i][0] for i, v in plaq.items()
                      if v != int(last[code.bit(basis, i)]))
        have = sorted(tuple(h) for h in hits[basis] if h[0] == len(syn) - 1)
        ctx.expect(have == want, "hits of the lattice readout differ from the plaquettes that changed", hits=have,
                   expected=want, **detail)
        if rnd is not None:
            ctx.expect(not have, "the lattice readout disagrees with the round just before it", hits=have, **detail)
        other = "X" if basis == "Z" else "Z"
        ctx.expect(not [h for h in hits[other] if h[0] >= len(syn) - 1],
                   "the lattice readout makes hits of the other type", hits=hits[other], **detail)
        ctx.case((repr(code), basis, tuple(ops), rounds, tuple(errs), style), nontrivial=bool(errs) or val,
                 sample={"code": repr(code), "basis": basis, "ops": ops, "errors": errs, "string": s, "value": val,
                         "hits": have})
        ctx.count(style)


def fault_case(ctx, code, basis, nrand):
    rng = ctx.rng
    rounds = rng.choice([1, 2, 3, 5]) if code.n > 9 or rng.random() < 0.7 else 12
    flip = rng.random() < 0.5
    with ctx.guard(code=repr(code), basis=basis, rounds=rounds, flip=flip, part="faults"):
        run = Run(code, basis, rounds, "lattice", rng, flip)
        # measurement events of the data qubits
        meas = {}
        lat = set(run.cregs[-1])
        for i, e in enumerate(run.ev):
            if e.op == "measure" and e.c[0] in lat:
                meas[e.q[0]] = i
        ctx.expect(set(meas) == set(run.data), "a lattice readout measures exactly the data qubits")
        scen = [[("d", rounds, k, p)] for k in range(code.n) for p in "XYZ"]
        scen += [[("m", rounds, k, "M")] for k in range(code.n)]
        for _ in range(nrand):
            sc = []
            for k in rng.sample(range(code.n), rng.randint(1, min(code.n, 8))):
                if rng.random() < 0.3:
                    sc.append(("m", rounds, k, "M"))
                else:
                    sc.append(("d", rng.randint(1, rounds), k, rng.choice("XYZ")))
            scen.append(sc)
        conc = [[(meas[run.data[k]], run.data[k], "M") if w == "m" else run.data_fault(g, k, p) for w, g, k, p in sc]
                for sc in scen]
        for sc, s in zip(scen, run.execute(conc)):
            got, hits = run.q.parse_readout(s, basis)
            eff = [(g, k, code.basis_err(basis, k) if w == "m" else p) for w, g, k, p in sc]
            want_v = run.expected ^ code.flips_logical(basis, [(k, p) for _, k, p in eff])
            want = []
            for t in "XZ":
                for g in range(1, rounds + 1):
                    if t != basis and g == rounds:
                        continue
                    ks = [(k, p) for gg, k, p in eff if gg == g]
                    want += [(t, g - 1) + code.pl[t][i][0] for i in code.hits_of(t, ks)]
            have = [(t,) + tuple(h) for t in "XZ" for h in hits[t]]
            ctx.expect(int(got) == want_v, "wrong logical value after errors at a lattice readout", got=got,
                       expected=want_v, faults=sc, string=s)
            ctx.expect(sorted(have) == sorted(want), "wrong hits after errors at a lattice readout", hits=sorted(have),
                       expected=sorted(want), faults=sc, string=s)
            ctx.case((repr(code), basis, rounds, flip, tuple(sc)),
                     sample={"code": repr(code), "basis": basis, "faults": sc, "string": s, "hits": have})
        ctx.count("fault_runs")


def run(ctx):
    codes = family(27 if ctx.quick else 49)
    if ctx.quick:
        codes += [Code("XXZZ", 7, 7), Code("XZZX", 5, 9), Code("XZZX", 7, 7), Code("XXZZ", 15, 3), Code("XZZX", 3, 15),
                  Code("XXZZ", 9, 9), Code("XZZX", 9, 11)]
    else:
        codes += [Code("XXZZ", 9, 9), Code("XZZX", 9, 9), Code("XZZX", 11, 7), Code("XXZZ", 13, 9), Code("XZZX", 13, 13)]
    for rep in range(6 if ctx.quick else 30):
        for code in ctx.order(codes):
            for basis in "XZ":
                history_case(ctx, code, basis, False)
                if rep or code.n <= 15:
                    history_case(ctx, code, basis, True)
                if rep < 1 or not ctx.quick:
                    fault_case(ctx, code, basis, 20)
            if ctx.out_of_time(0.9):
                return
