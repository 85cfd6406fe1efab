"""C01: channel monitor. The data start maximally entangled with reference qubits (Choi state), the real
round is executed, and the resulting state of data + references + ancillas is compared with the ideal
projective measurement of the reference plaquettes for the recorded outcomes."""
from mon.codes import Code, data_of, family, make
from mon.common import *
from mon.place import placed, where
from mon.sim import Tableau, qidx, walk

META = dict(rule="one evaluation = one round (or partial entangling) compared with the ideal channel; "
                 "distinct by (code, kind of step, round, recorded outcome)", min_nontrivial=300)


def choi(circ, code, data, rng, before=()):
    """The state after the events before, with the data replaced by halves of Bell pairs."""
    n = nqubits(circ)
    tab = Tableau(rng, n + code.n)
    tab.run(before)
    for d in data:
        if before and tab.project({d: (0, 1)})[0]:
            tab.x(d)
    for k, d in enumerate(data):
        bell(tab, d, n + k)
    return tab


def ideal_round(ctx, code, data, ideal, value_of, types="XZ"):
    """Project `ideal` on the recorded outcomes; returns how many of them were random."""
    rnd = 0
    for t, i, p in code.stabs(data):
        if t not in types:
            continue
        want = value_of(t, i)
        got, random_ = ideal.project(p, want)
        ctx.count("plaquettes")
        if got != want:
            ctx.fail("recorded plaquette value contradicts the state", plaquette=(t, i), recorded=want, ideal=got)
        rnd += random_
    return rnd


def rounds_case(ctx, code, prep, nrounds, elsewhere=0):
    rng = ctx.rng
    spec = dict(code=repr(code), prep=prep, rounds=nrounds)
    with ctx.guard(**spec):
        q = placed(code, rng) if rng.random() < elsewhere else make(code)
        spec["circuit"] = where(q)
        ctx.count("elsewhere", len(q.circ.data) > 0 or len(q.circ.qregs) > len(q.lattice.qregisters))
        data = data_of(q)
        past, before = len(q.circ.data), len(q.circ.cregs)
        if prep == "reset_x":
            q.reset_x()
        elif prep == "reset_z":
            q.reset_z()
        marks = [len(q.circ.data)]
        for _ in range(nrounds):
            q.stabilize()
            marks.append(len(q.circ.data))
        added = q.circ.cregs[before:]
        ctx.expect(len(added) == nrounds and all(len(c) == code.nsyn for c in added),
                   "a round must add one classical register with one bit per plaquette",
                   registers=[(c.name, len(c)) for c in added])
        full = walk(q.circ)
        counts = [len(walk_part(q.circ, m)) for m in marks]
        start = len(walk_part(q.circ, past))
    tab = choi(q.circ, code, data, rng, full[:start])
    tab.run(full[start: counts[0]])
    if prep == "none" and rng.random() < 0.5:
        random_clifford(tab, rng, list(range(nqubits(q.circ), tab.n)) + data, 30)
    with ctx.guard(**spec):
        first = None
        for r in range(nrounds):
            ideal = clone(tab)
            nlog = len(tab.log)
            tab.run(full[counts[r]: counts[r + 1]])
            chunk = new_chunk(q.circ, tab.bits, before + r)[0]
            value = lambda t, i: int(chunk[len(chunk) - 1 - code.bit(t, i)])
            rnd = ideal_round(ctx, code, data, ideal, value)
            real_rnd = sum(w for _, _, w in tab.log[nlog:])
            ctx.expect(rnd == real_rnd, "number of random outcomes of the round differs from ideal",
                       round=r, ideal=rnd, actual=real_rnd)
            diff = state_diff(tab, ideal)
            ctx.expect(diff is None, "state after the round differs from the ideal measurement", round=r,
                       syndrome=chunk, diff=diff)
            if r == 0 and prep != "none":
                b = prep[-1].upper()
                bad = [i for i in range(len(code.pl[b])) if value(b, i)]
                ctx.expect(not bad, "plaquettes of the reset basis are not 0 after a logical reset", bad=bad)
            if r and not disturbed:
                ctx.expect(chunk == first, "repeated error-free round gives another syndrome", round=r,
                           before=first, now=chunk)
            first = chunk
            ctx.case((repr(code), prep, r, chunk), sample={"code": repr(code), "prep": prep, "round": r,
                                                           "syndrome": chunk, "random_outcomes": rnd})
            # arbitrary new data state before the next round, or none
            disturbed = rng.random() < 0.5
            if disturbed:
                random_clifford(tab, rng, data + list(range(nqubits(q.circ), tab.n)), 2 * len(data))


def walk_part(circ, upto):
    sub = walk(circ)
    tail = walk(circ, upto)
    return sub[: len(sub) - len(tail)]


def part_case(ctx, code, typ):
    rng = ctx.rng
    with ctx.guard(code=repr(code), part=typ):
        q = make(code)
        fn = getattr(q.lattice, "entangle_" + typ.lower(), None)
        if fn is None:
            return
        data = data_of(q)
        reg = q.lattice.qregisters.get("m" + typ.lower())
        anc = qidx(q.circ, reg) if reg is not None else []
        fn()
        ev = walk(q.circ)
        tab = choi(q.circ, code, data, rng)
        ideal = clone(tab)
        tab.run(ev)
        ctx.expect(len(anc) == len(code.pl[typ]), "number of ancillas", got=len(anc))
        vals = []
        for a in anc:
            v, _ = tab.project({a: (0, 1)})
            if v:
                tab.x(a)
            vals.append(v)
        ideal_round(ctx, code, data, ideal, lambda t, i: vals[i], typ)
        diff = state_diff(tab, ideal)
        ctx.expect(diff is None, f"building only the {typ} part does not entangle exactly the {typ} plaquettes",
                   diff=diff)
        ctx.case((repr(code), "part", typ, tuple(vals)), nontrivial=bool(vals))


def run(ctx):
    small = family(21 if ctx.quick else 27)
    big = [Code("XXZZ", 5, 5), Code("XZZX", 5, 5), Code("XXZZ", 3, 7), Code("XZZX", 7, 3), Code("XXZZ", 5, 7),
           Code("XZZX", 5, 7), Code("REP", 21, 1), Code("REPP", 1, 21), Code("XXZZ", 7, 7), Code("XZZX", 7, 7),
           Code("XXZZ", 3, 15), Code("XXZZ", 15, 3), Code("XZZX", 3, 15), Code("XZZX", 15, 3)]
    if not ctx.quick:
        big += [Code("XXZZ", 7, 9), Code("XZZX", 9, 7), Code("XXZZ", 9, 9), Code("XZZX", 9, 9), Code("XXZZ", 1, 45),
                Code("XZZX", 45, 1), Code("XXZZ", 3, 25), Code("XZZX", 25, 3), Code("XZZX", 3, 25), Code("XXZZ", 25, 3), Code("XXZZ", 11, 11)]
    for code in ctx.order(small + big):
        for prep in ("none", "reset_x", "reset_z"):
            rounds_case(ctx, code, prep, 3)
        for typ in "XZ":
            part_case(ctx, code, typ)
    # long runs: nothing about a round may depend on how many went before
    long = [Code("XXZZ", 3, 3), Code("XZZX", 3, 3), Code("REP", 3, 1), Code("REPP", 1, 3), Code("XZZX", 1, 5)]
    for code in long + ([] if ctx.quick else [Code("XXZZ", 3, 5), Code("XZZX", 5, 3), Code("XXZZ", 5, 5)]):
        rounds_case(ctx, code, ctx.rng.choice(["none", "reset_x", "reset_z"]), 24 if ctx.quick else 40)
        ctx.count("long_runs")
    i = 0
    limit = 250 if ctx.quick else 3000
    while i < limit and not ctx.out_of_time(0.7 if ctx.quick else 0.9):
        code = ctx.rng.choice(small + big[:6])
        rounds_case(ctx, code, ctx.rng.choice(["none", "none", "reset_x", "reset_z"]), ctx.rng.randint(1, 5), 0.7)
        i += 1
