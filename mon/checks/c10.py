"""C10: generated sets of hits go to the real decoder; an exact dynamic programme over all matchings of the hits on an
independently built graph gives the lightest explanation with and without a readout flip. The matching the decoder
reports is checked for validity and optimal weight."""
import itertools

from mon import oracle
from mon.codes import Code, Decoders, decoder_keys, family

META = dict(rule="one evaluation = one set of hits decoded and matched; non-trivial: at least one hit; distinct by "
                 "(code, T, basis, hits)", min_nontrivial=2000)


def nodes_of(code, basis, T):
    return [(t,) + pos for t in range(T) for pos, _ in code.pl[basis]]


def random_hits(rng, code, basis, T, nodes, cap):
    style = rng.random()
    n = min(cap, len(nodes))
    if style < 0.35:  # uniformly chosen hits
        return rng.sample(nodes, rng.randint(1, n))
    if style < 0.75:  # hits of a random set of faults, of about any density
        adj, virt, _ = oracle.graph(code.dh, code.dw, basis, T)
        faults = sorted({(f, frozenset((a, b)) - virt) for a in adj for b in adj[a] for f in adj[a][b]}, key=repr)
        hits = set()
        for _ in range(rng.randint(1, max(1, len(faults) // 2))):
            new = hits ^ rng.choice(faults)[1]
            if len(new) <= cap:
                hits = new
        return sorted(hits)
    # clustered: neighbours in a window, so that ties and crossing pairs abound
    t, i, j = rng.choice(nodes)
    near = [x for x in nodes if abs(x[1] - i) + abs(x[2] - j) + abs(x[0] - t) <= 4]
    return rng.sample(near, rng.randint(1, min(n, len(near))))


def string_of(code, basis, T, hits, value, rng):
    """A readout string with exactly these hits: T + 1 rounds."""
    cur = {(t, i) for t in "XZ" for i in range(len(code.pl[t])) if rng.random() < 0.3}
    rounds = [set(cur)]
    pos = {p: i for i, (p, _) in enumerate(code.pl[basis])}
    for t in range(T):
        cur = set(cur)
        for h in hits:
            if h[0] == t:
                cur ^= {(basis, pos[h[1:]])}
        rounds.append(cur)
    txt = ["".join("1" if (t, i) in r else "0" for t in "XZ" for i in reversed(range(len(code.pl[t])))) for r in rounds]
    return " ".join([str(value)] + txt[::-1])


def case(ctx, code, T, basis, dec, hits):
    rng = ctx.rng
    with ctx.guard(code=repr(code), T=T, basis=basis, hits=hits):
        w = (oracle.class_minima if len(hits) <= 9 else oracle.class_minima_big)(code.dh, code.dw, basis, T, hits)
        value = rng.randrange(2)
        arg = list(hits)
        rng.shuffle(arg)
        if rng.random() < 0.5:
            syn = {"X": [], "Z": []}
            syn[basis] = list(arg)
            got = dec.correct_readout(syn, basis, logical_qubit_value=value)
        else:
            got = dec.correct_readout(string_of(code, basis, T, hits, value, rng), basis)
        ctx.expect(got in (0, 1), "decoded value is neither 0 nor 1", decoded=got)
        flip = int(got) ^ value
        if w[0] != w[1]:
            ctx.expect(w[flip] < w[1 - flip], "decoded value belongs to a heavier explanation of the hits", decoded=got,
                       measured=value, lightest_without_flip=w[0], lightest_with_flip=w[1])
            ctx.count("decided")
        else:
            ctx.count("ties")
        if hits:
            matches = dec._run_mwpm(dec._make_error_graph(list(arg), basis))
            _, virt, cross = oracle.graph(code.dh, code.dw, basis, T)
            seen, total, parity = [], 0, 0
            for a, b in matches:
                a, b = tuple(a), tuple(b)
                real = [x for x in (a, b) if x[0] != -1]
                ctx.expect(real and all(x in hits for x in real), "a match joins something that is not a hit",
                           match=(a, b), matches=matches)
                ctx.expect(all(x in virt for x in (a, b) if x[0] == -1), "a match with something that is no boundary "
                           "node", match=(a, b), matches=matches)
                seen += real
                total += oracle.edge_weight(code.dh, code.dw, basis, T, a, b)
                parity ^= a in cross or b in cross
            ctx.expect(sorted(seen) == sorted(hits), "the matching does not match every hit exactly once",
                       matches=matches)
            ctx.expect(total == min(w), "the matching is not of minimum weight", matches=matches, weight=total,
                       minimum=min(w))
            ctx.count("matchings")
        ctx.case((repr(code), T, basis, tuple(sorted(hits))), nontrivial=bool(hits),
                 sample={"code": repr(code), "T": T, "basis": basis, "hits": hits, "minima": w, "decoded": got})
        ctx.count("odd" if len(hits) % 2 else "even")


def crowded(ctx, decs, share):
    """Many hits, many rounds, large lattices."""
    rng = ctx.rng
    specs = [(Code(k, a, b), T) for k in ("XXZZ", "XZZX") for a, b, T in ((3, 3, 15), (13, 13, 1), (5, 5, 11), (7, 7, 4), (3, 11, 5))]
    specs += [(Code("REP", 41, 1), 2), (Code("REPP", 1, 41), 2), (Code("REP", 5, 1), 25), (Code("REPP", 1, 7), 13)]
    if not ctx.quick:
        specs += [(Code("XXZZ", 21, 21), 1), (Code("XZZX", 9, 9), 9), (Code("XXZZ", 5, 5), 40), (Code("XXZZ", 3, 31), 6)]
    for rep in range(3 if ctx.quick else 10):
        rng.shuffle(specs)
        for code, T in specs:
            basis = rng.choice(decoder_keys(code))
            nodes = nodes_of(code, basis, T)
            with ctx.guard(code=repr(code), T=T):
                dec = decs.of(code, T)
            case(ctx, code, T, basis, dec, rng.sample(nodes, min(len(nodes), 60)))  # all nodes, if not too many
            for cap in (12, 30, 60):
                case(ctx, code, T, basis, dec, random_hits(rng, code, basis, T, nodes, cap))
            case(ctx, code, T, basis, dec, rng.sample(nodes, min(len(nodes), rng.randint(10, 40))))
            ctx.count("crowded", 5)
            if ctx.out_of_time(share):
                return
    # hundreds of hits
    for code, T, m in ([(Code("REP", 301, 1), 1, 180), (Code("XXZZ", 3, 5), 30, 130)] if ctx.quick else
                       [(Code("REP", 1001, 1), 1, 600), (Code("REPP", 1, 21), 40, 400), (Code("XXZZ", 21, 21), 2, 250),
                        (Code("XZZX", 3, 5), 90, 300)]):
        basis = rng.choice(decoder_keys(code))
        with ctx.guard(code=repr(code), T=T):
            dec = decs.of(code, T)
        case(ctx, code, T, basis, dec, rng.sample(nodes_of(code, basis, T), m))
        ctx.count("hundreds")


def run(ctx):
    rng = ctx.rng
    decs = Decoders(rng)
    # all sets of hits of small graphs
    for code in ctx.order(family(9)):
        for basis in decoder_keys(code):
            for T in (1, 2, 3):
                nodes = nodes_of(code, basis, T)
                if not nodes or len(nodes) > (8 if ctx.quick else 12):
                    continue
                with ctx.guard(code=repr(code), T=T):
                    dec = decs.of(code, T)
                for r in range(len(nodes) + 1):
                    for hits in itertools.combinations(nodes, r):
                        case(ctx, code, T, basis, dec, list(hits))
                ctx.count("exhausted_graphs")
        if ctx.out_of_time(0.4):
            break
    specs = []
    for kind in ("XXZZ", "XZZX"):
        specs += [(Code(kind, a, b), T) for a, b, T in ((3, 3, 2), (3, 5, 1), (5, 3, 3), (5, 5, 1), (5, 5, 3), (7, 3, 2),
                                                        (3, 7, 4), (1, 7, 3), (7, 7, 1), (5, 7, 2), (9, 9, 1))]
    specs += [(Code("REP", 7, 1), 4), (Code("REPP", 1, 9), 3), (Code("REP", 15, 1), 1), (Code("REPP", 1, 15), 2)]
    if not ctx.quick:
        specs += [(Code("XXZZ", 7, 7), 4), (Code("XXZZ", 11, 11), 1), (Code("XZZX", 9, 5), 3), (Code("REP", 25, 1), 3),
                  (Code("XXZZ", 13, 9), 1)]
    crowded(ctx, decs, 0.55)
    per = 50 if ctx.quick else 120
    cap = 9 if ctx.quick else 12
    share = 0.4
    for rep in range(2 if ctx.quick else 6):
        rng.shuffle(specs)
        for code, T in specs:
            for basis in decoder_keys(code):
                nodes = nodes_of(code, basis, T)
                if not nodes:
                    continue
                with ctx.guard(code=repr(code), T=T):
                    dec = decs.of(code, T)
                for _ in range(per):
                    case(ctx, code, T, basis, dec, random_hits(rng, code, basis, T, nodes, cap))
            if ctx.out_of_time(0.95):
                return
