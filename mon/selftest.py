"""Cross-validates the monitors' simulators against qiskit-aer on random Clifford circuits, and the two independent
oracles for lightest explanations (dynamic programming, blossom matching) against each other."""
import math
import random
import sys

from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
from qiskit_aer import AerSimulator

from mon.sim import Tableau, frames, walk


def rand_circ(rng, n, m, length, cond):
    q = QuantumRegister(n)
    c = [ClassicalRegister(1) for _ in range(m)]
    circ = QuantumCircuit(q, *c)
    k = 0
    for _ in range(length):
        r = rng.random()
        if r < 0.35:
            getattr(circ, rng.choice(["h", "s", "sdg", "x", "y", "z", "id", "sx"]))(rng.randrange(n))
        elif r < 0.7:
            a, b = rng.sample(range(n), 2)
            getattr(circ, rng.choice(["cx", "cz", "cy", "swap"]))(a, b)
        elif r < 0.75:
            circ.reset(rng.randrange(n))
        elif r < 0.85 and k < m:
            circ.measure(rng.randrange(n), c[k][0])
            k += 1
        elif cond and k:
            circ.x(rng.randrange(n)).c_if(c[rng.randrange(k)], rng.randrange(2))
    while k < m:
        circ.measure(rng.randrange(n), c[k][0])
        k += 1
    return circ


def main(trials=60, seed=0):
    rng = random.Random(seed)
    aer = AerSimulator()
    det = rnd = 0
    for t in range(trials):
        circ = rand_circ(rng, 5, 6, 60, t % 2 == 0)
        ev = walk(circ)
        ours = {}
        for _ in range(512):
            tab = Tableau(rng, 5)
            tab.run(ev)
            key = " ".join(str(tab.bits[i]) for i in reversed(range(6)))
            ours[key] = ours.get(key, 0) + 1
        theirs = aer.run(circ, shots=4096, seed_simulator=t).result().get_counts()
        # stabilizer circuits: every possible outcome has probability >= 2^-6 here
        if set(ours) != set(theirs):
            extra = [k for k in set(ours) ^ set(theirs) if ours.get(k, 0) > 12 or theirs.get(k, 0) > 60]
            if extra:
                print("selftest: outcome sets differ", t, extra)
                return 1
        det += len(ours) == 1
        rnd += len(ours) > 1
        if t % 2:  # frames: reference shot + frame flips must stay inside the support
            tab = Tableau(rng, 5)
            tab.run(ev)
            out = frames(ev, 256, {}, rng)
            for s in range(256):
                key = " ".join(str(tab.bits[i] ^ (out[i] >> s & 1)) for i in reversed(range(6)))
                if key not in theirs and key not in ours:
                    print("selftest: frame sample outside the support", t, key)
                    return 1
    print(f"selftest ok: {trials} circuits, {det} deterministic, {rnd} random")
    return oracles(rng)


def oracles(rng):
    from mon import oracle
    from mon.codes import decoder_keys, family, plaquettes
    n = m = 0
    codes = family(25)
    for it in range(1200):
        code, T = rng.choice(codes), rng.choice([1, 2, 3])
        b = rng.choice(decoder_keys(code))
        nodes = [(t, *pos) for t in range(T) for pos, _ in plaquettes(code.dh, code.dw, b)]
        hits = rng.sample(nodes, min(len(nodes), rng.randint(0, 6)))
        x = oracle.class_minima(code.dh, code.dw, b, T, hits)
        y = oracle.class_minima_big(code.dh, code.dw, b, T, hits)
        if tuple(x) != tuple(y):
            print("selftest: oracles differ", code, T, b, hits, x, y)
            return 1
        n += 1
        if it % 4 == 0 and len(hits) <= 4 and code.n <= 15:
            p = rng.choice([.01, .1, .3])
            x = oracle.weighted_minima(code.dh, code.dw, b, T, hits, p)
            y = oracle.weighted_minima_big(code.dh, code.dw, b, T, hits, p)
            if not all(u == v or math.isclose(u, v, abs_tol=1e-6) for u, v in zip(x, y)):
                print("selftest: weighted oracles differ", code, T, b, hits, p, x, y)
                return 1
            m += 1
    print(f"selftest ok: {n} unweighted and {m} weighted oracle comparisons")
    return 0


if __name__ == "__main__":
    sys.exit(main())
