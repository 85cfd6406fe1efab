"""C23: random histories of additions, logical operations, CXs and look-ups, valid and invalid, run on a live register
next to a list model; after every step an online checker looks every qubit up by index and by sub-register. In the end
the circuit is executed and every qubit, addressed by index, must give back the value stored in it by index."""
from qiskit import QuantumCircuit
from qtcodes import TopologicalCircuit, TopologicalRegister
from qtcodes.circuits.base import TopologicalQubit

from mon.codes import Code, ctype, data_of, encoder_cls
from mon.sim import Tableau, walk

META = dict(rule="one evaluation = one step of a history, with all look-ups after it; distinct by the history so far",
            min_nontrivial=1500)

NAMES = ["data", "ancilla", "aux", "0", "", "treg", "Z"]


def new_code(rng):
    kind = rng.choice(["XXZZ", "XZZX", "REP", "REPP"])
    if kind in ("REP", "REPP"):
        d = rng.choice([3, 5])
        return Code(kind, d, 1) if kind == "REP" else Code(kind, 1, d)
    return Code(kind, *rng.choice([(3, 3), (3, 3), (1, 3), (3, 1), (3, 5), (5, 3)]))


def params_of(rng, code):
    p = code.params()
    if code.kind in ("REP", "REPP") and rng.random() < 0.5:
        p["d"] = max(code.dh, code.dw)
    elif code.dh == code.dw and rng.random() < 0.5:
        p["d"] = code.dh
    return p


BAD = [("Surface", {"d": 3}), ("xxzz", {"d": 3}), ("", {"d": 3}), ("XXZZ", {"d": 4}), ("XXZZ", {"d": (3, 2)}),
       ("XZZX", {"d": (2, 3)}), ("XXZZ", {"d": -3}), ("Repetition", {"d": 4}), ("Repetition", {"d": (3, 3)}),
       ("XXZZQubit", {"d": 3})]


class History:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.model = []  # (sub-register, code, qubit object)
        self.log = []
        self.circ = QuantumCircuit() if self.rng.random() < 0.4 else None
        self.cap = 14 if self.rng.random() < 0.9 else 45
        most = 3 if self.cap == 14 else 30
        ncodes = [self.new_code() for _ in range(self.rng.randint(0, most))]
        kw = {}
        if ncodes or self.rng.random() < 0.5:
            kw = {"ctypes": [ctype(c.kind) for c in ncodes], "params": [params_of(self.rng, c) for c in ncodes]}
        if self.circ is not None:
            kw["circ"] = self.circ
        if self.rng.random() < 0.3:
            kw["name"] = self.rng.choice(["r", "treg2", "q_0"])
        self.log.append(("register", [repr(c) for c in ncodes], {k: v for k, v in kw.items() if k == "name"}))
        self.treg = TopologicalRegister(**kw)
        self.tcirc = TopologicalCircuit(self.treg)
        if self.circ is not None:
            ctx.expect(self.treg.circ is self.circ and self.tcirc.circ is self.circ, "the circuit given is not used")
        self.circ = self.treg.circ
        self.pending = [("data", c) for c in ncodes]
        self.verify()

    def new_code(self):
        return new_code(self.rng) if self.cap == 14 else Code("XXZZ", 3, 1) if self.rng.random() < 0.5 else \
            Code("REP", 3, 1)

    def fail(self, what, **d):
        self.ctx.fail(what, history=self.log[-12:], steps=len(self.log), **d)

    def need(self, cond, what, **d):
        if not cond:
            self.fail(what, **d)

    def verify(self):
        """Look everything up; self.pending holds what the last step must have added."""
        treg = self.treg
        old = len(self.model)
        n = old + len(self.pending)
        self.need(treg.n == n, "the register counts another number of qubits", counts=treg.n, wanted=n)
        for k, (sub, code) in enumerate(self.pending):
            q = treg[old + k]
            self.need(isinstance(q, encoder_cls(code.kind)), "a qubit has another type than requested", index=old + k,
                      wanted=code.kind, got=type(q).__name__)
            self.need(tuple(q.lattice.params["d"]) == (code.dh, code.dw) and len(data_of(q)) == code.n,
                      "a qubit has another size than requested", index=old + k, wanted=[code.dh, code.dw],
                      got=q.lattice.params["d"], data_qubits=len(data_of(q)))
            self.need(q.circ is self.circ, "a qubit lives in another circuit", index=old + k)
            self.need(all(q is not m[2] for m in self.model), "one qubit has two numbers", index=old + k)
            self.model.append((sub, code, q))
        self.pending = []
        subs = {}
        for i, (sub, code, q) in enumerate(self.model):
            self.need(treg[i] is q, "looking up an index returns another qubit", index=i)
            subs.setdefault(sub, []).append((i, q))
        for sub, want in subs.items():
            got = treg[sub]
            if hasattr(got, "items"):
                self.need(list(got) == [i for i, _ in want], "a sub-register lists other indices than its qubits'",
                          name=sub, got=list(got), wanted=[i for i, _ in want])
                got = list(got.values())
            self.need(len(got) == len(want) and all(a is b for a, (_, b) in zip(got, want)),
                      "looking up a sub-register does not return exactly its qubits", name=sub, got=len(got), wanted=len(want))
        owner = {}
        for i, (_, _, q) in enumerate(self.model):
            for b in data_of(q):
                self.need(b not in owner, "two qubits share a physical qubit", qubits=[owner.get(b), i])
                owner[b] = i
        for bad in (n, n + 3, -1):
            self.refuse(lambda: treg[bad], f"index {bad}")
        for name in NAMES + ["nope"]:
            if name not in subs:
                self.refuse(lambda: treg[name], f"sub-register {name!r}")
        self.ctx.case((str(self.log), n), sample={"history": self.log[-6:], "qubits": n})
        self.ctx.count("steps")

    def state(self):
        c = self.circ
        return (self.treg.n, len(c.qubits), len(c.clbits), len(c.data), len(c.qregs), len(c.cregs), len(getattr(self.treg, "params", ())))

    def refuse(self, fn, what):
        before = self.state()
        try:
            fn()
        except Exception:
            self.need(self.state() == before, "a refused request changed the register or the circuit", request=what,
                      before=before, after=self.state())
            self.ctx.count("refusals")
            return
        self.fail("an invalid request was not refused", request=what)

    def step(self):
        rng, treg = self.rng, self.treg
        r = rng.random()
        if r < 0.2:
            sub, code = rng.choice(NAMES), self.new_code()
            p = params_of(rng, code)
            self.log.append(("add_tqubit", sub, ctype(code.kind), p))
            treg.add_tqubit(sub, ctype(code.kind), p)
            self.pending = [(sub, code)]
        elif r < 0.35:
            sub, codes = rng.choice(NAMES), [self.new_code() for _ in range(rng.randint(0, 3 if self.cap == 14 else 18))]
            ps = [params_of(rng, c) for c in codes]
            if codes and rng.random() < 0.3:  # one dict for all
                codes = [codes[0]] * len(codes)
                ps = [ps[0]] * len(codes)
            self.log.append(("add_tqubits", sub, [ctype(c.kind) for c in codes], ps))
            treg.add_tqubits(sub, [ctype(c.kind) for c in codes], ps)
            self.pending = [(sub, c) for c in codes]
        elif r < 0.45:
            bad, p = rng.choice(BAD)
            sub = rng.choice(NAMES)
            how = rng.choice(["one", "list", "cx"])
            self.log.append(("refused", how, sub, bad, p))
            if how == "one":
                self.refuse(lambda: treg.add_tqubit(sub, bad, dict(p)), f"{bad} {p}")
            elif how == "list" and bad not in ("XXZZ", "XZZX", "Repetition"):
                k = rng.randint(0, 2)  # valid qubits in front must not be added either
                self.refuse(lambda: treg.add_tqubits(sub, ["XXZZ"] * k + [bad], [{"d": 3}] * k + [dict(p)]), f"{bad} {p}")
            elif how == "cx" and len(self.model) > 1 and not any(s == "ancilla" for s, _, _ in self.model):
                self.refuse(lambda: self.tcirc.cx(0, 1, bad, dict(p)), f"cx with {bad} {p}")
        elif r < 0.52:
            sub = rng.choice(NAMES)
            a, b = rng.sample([0, 1, 2, 3], 2)
            self.log.append(("mismatch", sub, a, b))
            how = rng.random()
            if how < 0.7:
                self.refuse(lambda: treg.add_tqubits(sub, ["XXZZ"] * a, [{"d": 3}] * b), f"{a} types {b} params")
            else:
                self.refuse(lambda: TopologicalRegister(circ=self.circ, ctypes=["XXZZ"] * a, params=[{"d": 3}] * b,
                                                        name="other"), f"register of {a} types {b} params")
        elif r < 0.62 and len(self.model) > 1:
            n = len(self.model)
            how = rng.choice(["control", "target", "half"])
            self.log.append(("bad cx", how))
            if how == "control":
                self.refuse(lambda: self.tcirc.cx(n + 1, 0), "cx with an unknown control")
            elif how == "target":
                self.refuse(lambda: self.tcirc.cx(0, n + 1), "cx with an unknown target")
            else:
                self.refuse(lambda: self.tcirc.cx(0, 1, ancilla_ctype="XXZZ"), "cx with half a helper")
        elif r < 0.75:
            plain = [i for i, m in enumerate(self.model) if m[0] != "ancilla"]
            if len(plain) < 2:
                return self.step()
            a, b = rng.sample(plain, 2)
            first = not any(s == "ancilla" for s, _, _ in self.model)
            kw, code = {}, self.model[a][1]
            if rng.random() < 0.4:
                code = new_code(rng)
                kw = {"ancilla_ctype": ctype(code.kind), "ancilla_params": params_of(rng, code)}
            by_object = rng.random() < 0.4
            self.log.append(("cx", a, b, kw, "objects" if by_object else "indices"))
            ca, cb = (self.model[a][2], self.model[b][2]) if by_object else (a, b)
            self.tcirc.cx(ca, cb, **kw)
            self.pending = [("ancilla", code)] if first else []
            self.ctx.count("cx")
        elif self.model:
            i = rng.randrange(len(self.model))
            op = rng.choice(["stabilize", "id", "id_data", "x", "z", "reset_x", "reset_z", "measure_z", "measure_x"])
            self.log.append((op, i))
            q = i if rng.random() < 0.6 else self.model[i][2]
            getattr(self.tcirc, op)(q)
        else:
            return
        self.verify()

    def execute(self):
        """Store a value in every qubit by index, then read all back by index."""
        rng = self.rng
        vals = [rng.randrange(2) for _ in self.model]
        start = len(self.circ.data)
        regs = len(self.circ.cregs)
        order = list(range(len(vals)))
        rng.shuffle(order)
        basis = {i: {"REP": "z", "REPP": "x"}.get(self.model[i][1].kind, rng.choice("xz")) for i in order}
        for i in order:
            getattr(self.tcirc, "reset_" + basis[i])(i)
        rng.shuffle(order)
        for i in order:
            if vals[i]:
                (self.tcirc.x if basis[i] == "z" else self.tcirc.z)(i)
        rng.shuffle(order)
        where = {}
        for i in order:
            before = len(self.circ.cregs)
            getattr(self.tcirc, "measure_" + basis[i])(i)
            new = self.circ.cregs[before:]
            if len(new) != 1 or len(new[0]) != 1:
                self.fail("a readout did not add one register of one bit", added=[len(x) for x in new])
            where[i] = self.circ.clbits.index(new[0][0])
        tab = Tableau(rng, len(self.circ.qubits))
        tab.run(walk(self.circ, start))
        for i, v in enumerate(vals):
            self.need(tab.bits.get(where[i]) == v, "a qubit does not return the value stored in it by index", index=i,
                      basis=basis[i], stored=v, read=tab.bits.get(where[i]))
        self.ctx.count("qubits_executed", len(vals))


def run(ctx):
    rng = ctx.rng
    for k in range(1200 if ctx.quick else 5000):
        with ctx.guard(history=k):
            h = History(ctx)
            with ctx.guard(log=h.log):
                for _ in range(rng.choice([8, 20, 45])):
                    h.step()
                    if len(h.model) > h.cap:
                        break
                h.execute()
        ctx.count("histories")
        if ctx.out_of_time(0.9):
            break
