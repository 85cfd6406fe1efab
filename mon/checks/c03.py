"""C03: random operation histories on one logical qubit, executed on the tableau monitor, against one ideal
qubit that performs the same operations; a random outcome of the real run is forced onto the model."""
from qiskit import ClassicalRegister, QuantumRegister

from mon.codes import Code, data_of, family, make
from mon.common import *
from mon.place import placed
from mon.sim import Tableau, qidx, walk

META = dict(rule="one evaluation = one executed operation history; non-trivial: at least two readouts, one of "
                 "them deterministic in the model; distinct by (code, history)", min_nontrivial=300)

OPS = ["reset_x", "reset_z", "x", "z", "stabilize", "stabilize", "id", "id_data", "readout_x", "readout_z",
       "readout_x", "readout_z", "x_c_if", "z_c_if"]


class Pair:
    """A real logical qubit and its one-qubit model, stepped together."""

    def __init__(self, ctx, code, extra=True):
        self.ctx, self.code = ctx, code
        self.q = placed(code, ctx.rng, history=False) if ctx.rng.random() < 0.4 else make(code)
        self.circ = self.q.circ
        self.data = data_of(self.q)
        self.real = Tableau(ctx.rng, nqubits(self.circ))
        self.model = Tableau(ctx.rng, 1)
        self.model_bits = {}
        self.cregs = []
        self.last = None
        self.rounds = []
        self.log = []
        self.det = self.nread = 0
        self.fresh = True
        self.mark = 0
        if extra:  # a two-bit register with random content, for multi-bit conditions
            a = QuantumRegister(1, "user_q")
            self.user = ClassicalRegister(ctx.rng.choice([2, 2, 3, 9, 17, 40]), "user_c")
            self.circ.add_register(a, self.user)
            for i in range(len(self.user)):
                self.circ.reset(a)
                self.circ.h(a)
                self.circ.measure(a[0], self.user[i])
            self.advance()

    def advance(self):
        ev = walk(self.circ, self.mark)
        self.mark = len(self.circ.data)
        n = len(self.real.log)
        self.real.run(ev)
        return self.real.log[n:]

    def cl(self, reg):
        return qidx(self.circ, reg)

    def value(self, reg):
        return sum(self.real.bits.get(c, 0) << k for k, c in enumerate(self.cl(reg)))

    def step(self, op, arg=None):
        ctx, q, model = self.ctx, self.q, self.model
        self.log.append(op if arg is None else (op,) + tuple(str(x) for x in arg))
        before = len(self.circ.cregs)
        if op in ("x_c_if", "z_c_if"):
            reg, val = arg
            getattr(q, op)(reg, val)
            self.advance()
            if self.value(reg) == val:
                (model.x if op[0] == "x" else model.z)(0)
                ctx.count("conditions_true")
            else:
                ctx.count("conditions_false")
            return
        if op in ("readout_x", "readout_z"):
            if arg:
                getattr(q, op)(readout_creg=arg[0])
                reg = arg[0]
                ctx.expect(len(self.circ.cregs) == before, "readout into a given register added a register")
            else:
                getattr(q, op)()
                ctx.expect(len(self.circ.cregs) == before + 1, "readout must add one register")
                reg = self.circ.cregs[-1]
                self.cregs.append(reg)
            ctx.expect(len(reg) == 1, "readout register size", size=len(reg))
            log = self.advance()
            c = self.cl(reg)[0]
            mine = [e for e in log if e[0] == c]
            ctx.expect(len(mine) == 1, "readout measures into its register once", writes=log)
            bit, rnd = mine[0][1], mine[0][2]
            self.compare_bit("X" if op[-1] == "x" else "Z", bit, rnd)
            return
        getattr(q, op)()
        log = self.advance()
        if op in ("reset_x", "reset_z"):
            v, _ = model.project({0: (0, 1)})
            if v:
                model.x(0)
            if op == "reset_x":
                model.h(0)
            self.last = None
            self.rounds = []
        elif op == "x":
            model.x(0)
        elif op == "z":
            model.z(0)
        elif op == "stabilize":
            chunk = new_chunk(self.circ, self.real.bits, before)[0]
            if self.last is not None:
                ctx.expect(chunk == self.last, "syndrome changed without an error", before=self.last, now=chunk,
                           history=self.log)
                ctx.count("repeated_rounds")
            self.last = chunk
            self.rounds.append(chunk)

    def compare_bit(self, basis, bit, rnd):
        pauli = {0: (1, 0) if basis == "X" else (0, 1)}
        e = self.model.expect(pauli)
        self.nread += 1
        if e:
            self.det += 1
            self.ctx.expect(not rnd and bit == (e < 0), "logical readout differs from the ideal qubit", basis=basis,
                            readout=bit, ideal=int(e < 0), was_random=rnd, history=self.log)
            self.ctx.count("deterministic_readouts")
        else:
            self.ctx.expect(rnd, "logical readout is fixed where the ideal qubit's is random", basis=basis,
                            readout=bit, history=self.log)
            self.ctx.count("random_readouts")
        self.model.project(pauli, bit)

    def lattice(self, basis):
        ctx, q, code = self.ctx, self.q, self.code
        self.log.append("lattice_readout_" + basis.lower())
        e_real = self.real.expect(code.logical(basis, self.data))
        e = self.model.expect({0: (1, 0) if basis == "X" else (0, 1)})
        ctx.expect((e_real != 0) == (e != 0), "logical operator has another expectation than the ideal qubit",
                   basis=basis, real=e_real, ideal=e, history=self.log)
        before = len(self.circ.cregs)
        getattr(q, "lattice_readout_" + basis.lower())()
        self.advance()
        ctx.expect(len(self.circ.cregs) == before + 1 and len(self.circ.cregs[-1]) == code.n,
                   "lattice readout must add one register with one bit per data qubit")
        chunk = new_chunk(self.circ, self.real.bits, before)[0]
        bit = sum(int(chunk[len(chunk) - 1 - k]) for k in code.logical_support(basis)) % 2
        if e:
            ctx.expect(bit == (e < 0), "lattice readout differs from the ideal qubit", basis=basis, readout=bit,
                       ideal=int(e < 0), history=self.log)
            ctx.count("deterministic_lattice_readouts")
            self.det += 1
        self.nread += 1
        if self.rounds and code.n > 1:
            log, hits = q.parse_readout(" ".join([chunk] + self.rounds[::-1]), basis)
            ctx.expect(log == bit, "parsed lattice value", parsed=log, expected=bit, string=chunk)
            ctx.expect(not hits["X"] and not hits["Z"], "hits without an error", hits=hits, history=self.log)


def history(ctx, code, length):
    rng = ctx.rng
    with ctx.guard(code=repr(code), length=length):
        pair = Pair(ctx, code)
        given = ClassicalRegister(1, "given")
        pair.circ.add_register(given)
        pair.step(rng.choice(["reset_x", "reset_z"]))
        for _ in range(length):
            if rng.random() < 0.03:  # ends one life of the qubit, a reset starts the next
                pair.lattice(rng.choice("XZ"))
                pair.step(rng.choice(["reset_x", "reset_z"]))
                ctx.count("lives_after_lattice_readout")
                continue
            op = rng.choice(OPS)
            if op.startswith("reset") and rng.random() < 0.6:
                op = "stabilize"
            if op.endswith("c_if"):
                regs = [pair.user, given] + pair.cregs
                reg = rng.choice(regs)
                val = pair.value(reg) if rng.random() < 0.5 else rng.randrange(1 << len(reg))
                if len(reg) > 2 and rng.random() < 0.3:  # differs in one bit only
                    val = pair.value(reg) ^ 1 << rng.randrange(len(reg))
                pair.step(op, (reg, val))
            elif op.startswith("readout") and rng.random() < 0.35:
                again = pair.cregs and rng.random() < 0.4  # into the register of an earlier readout
                pair.step(op, (rng.choice(pair.cregs) if again else given,))
                ctx.count("read_into_earlier_register" if again else "read_into_given_register")
            else:
                pair.step(op)
        # close with the question that the model can answer, if any
        for b in "XZ":
            if pair.model.expect({0: (1, 0) if b == "X" else (0, 1)}):
                if rng.random() < 0.5:
                    pair.step("readout_" + b.lower())
                else:
                    pair.lattice(b)
                    break
    ctx.case((repr(code), tuple(pair.log)), nontrivial=pair.nread >= 2 and pair.det >= 1,
             sample={"code": repr(code), "history": [str(x) for x in pair.log]})


def run(ctx):
    codes = family(15 if ctx.quick else 25) + [Code("XXZZ", 5, 5), Code("XZZX", 5, 5), Code("XXZZ", 5, 7),
                                               Code("XZZX", 7, 5)]
    if not ctx.quick:
        codes += [Code("XXZZ", 7, 7), Code("XZZX", 7, 7), Code("XXZZ", 9, 9)]
    target = 3000 if ctx.quick else 20000
    i = 0
    while i < target and not (i > 2 * len(codes) and ctx.out_of_time(0.9)):
        code = codes[i % len(codes)] if i < 2 * len(codes) else ctx.rng.choice(codes)
        history(ctx, code, ctx.rng.randint(3, 14) if i % 10 else 40)
        if i % 25 == 7:  # two-digit numbers of every kind of operation
            history(ctx, ctx.rng.choice([c for c in codes if c.n <= 9]), 200)
            ctx.count("long_histories")
        if i % 50 == 13:  # lattices as long as users' plots go
            history(ctx, ctx.rng.choice([Code("REP", 61, 1), Code("REPP", 1, 61), Code("XZZX", 1, 45), Code("XZZX", 45, 1),
                                         Code("XXZZ", 3, 17), Code("XZZX", 17, 3), Code("REP", 161, 1)]), 12)
            ctx.count("long_lattices")
        i += 1
