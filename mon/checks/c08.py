"""C08: every single data error and measurement error is injected into the executing circuit; the graph these
observations span (hits joined, or joined to the boundary on the side of the readout) is compared with the decoder's
syndrome graph, edge by edge, in both directions."""
from mon import oracle
from mon.codes import Code, decoder_keys, family, make_decoder
from mon.faults import Run

META = dict(rule="one evaluation = one injected fault matched with its edge, or one graph edge or node matched with a "
                 "fault; distinct by (code, T, fault or edge)", min_nontrivial=5000)


def decoder_graph(g):
    nodes = [tuple(n) for n in g.nodes()]
    edges = {}
    for a, b, w in g.weighted_edge_list():
        a, b = tuple(g[a]), tuple(g[b])
        edges[frozenset((a, b))] = w
    return nodes, edges, len(g.edge_list())


def on_flip_side(node, basis):
    return node[1 if basis == "Z" else 2] == -0.5


def structure(ctx, code, T):
    """The graph against the geometry of the code."""
    with ctx.guard(code=repr(code), T=T, part="structure"):
        dec = make_decoder(code, T)
        ctx.expect(set(dec.S) >= set(decoder_keys(code)), "syndrome graph missing", have=sorted(dec.S))
        for key in decoder_keys(code):
            adj, virt, cross = oracle.graph(code.dh, code.dw, key, T)
            nodes, edges, n_edges = decoder_graph(dec.S[key])
            ctx.expect(len(nodes) == len(set(nodes)), "a node appears twice in the syndrome graph", key=key)
            have = set(nodes)
            want = set(adj)
            ctx.expect(have == want, "nodes of the syndrome graph differ from plaquettes x rounds + boundary", key=key,
                       extra=sorted(have - want)[:5], missing=sorted(want - have)[:5])
            we = {frozenset((a, b)) for a in adj for b in adj[a]}
            ctx.expect(len(edges) == n_edges, "an edge appears twice in the syndrome graph", key=key)
            ctx.expect(set(edges) == we, "edges of the syndrome graph differ from single faults", key=key,
                       extra=[sorted(e) for e in list(set(edges) - we)[:5]],
                       missing=[sorted(e) for e in list(we - set(edges))[:5]])
            bad = [sorted(e) for e, w in edges.items() if w != 1]
            ctx.expect(not bad, "an edge of the syndrome graph does not weigh one", key=key, edges=bad[:5])
            for e in edges:
                ctx.case((repr(code), T, key, e))
            ctx.count("edges", len(edges))
        ctx.count("graphs")


def observed(ctx, code, T, readout):
    """The graph against the executing circuit."""
    rounds = T + 1 if readout == "ancilla" else T
    for basis in decoder_keys(code):
        with ctx.guard(code=repr(code), T=T, readout=readout, basis=basis, part="faults"):
            dec = make_decoder(code, T)
            _, edges, _ = decoder_graph(dec.S[basis])
            nodes = {tuple(n) for n in dec.S[basis].nodes()}
            run = Run(code, basis, rounds, readout, ctx.rng, ctx.rng.random() < 0.5)
            faults = [("data", g, k, p) for g in range(1, T + 1) for k in range(code.n) for p in "XYZ"]
            faults += [("meas", r, i) for r in range(1, T) for i in range(len(code.pl[basis]))]
            conc = [[run.data_fault(*f[1:]) if f[0] == "data" else run.meas_fault(f[1], basis, f[2])] for f in faults]
            seen = set()
            for f, s in zip(faults, run.execute(conc)):
                val, hits = dec.parse_readout(s, basis)
                flip = int(val) != run.expected
                hs = [tuple(h) for h in hits[basis]]
                ctx.expect(all(h in nodes for h in hs), "a fault hits a node that the decoder's graph lacks", fault=f,
                           hits=hs)
                if not hs:
                    ctx.expect(not flip, "a single fault flips the readout without a hit", fault=f, string=s) \
                        if code.distance(basis) > 1 else None
                    continue
                ctx.expect(len(hs) <= 2, "a single fault makes more than two hits", fault=f, hits=hs)
                if len(hs) == 2:
                    e = frozenset(hs)
                    ctx.expect(e in edges, "the hits of a single fault are not joined by an edge", fault=f, hits=hs)
                    ctx.expect(not flip, "a fault with two hits flips the readout, so its edge misleads the decoder",
                               fault=f, hits=hs)
                else:
                    cand = [e for e in edges if hs[0] in e and any(n[0] == -1 for n in e)]
                    cand = [e for e in cand if on_flip_side(next(n for n in e if n[0] == -1), basis) == flip]
                    # the boundary node of this data qubit: mirror image of the plaquette at the qubit
                    r, c = divmod(f[2], code.dw)
                    want = frozenset((hs[0], (-1, 2 * r - hs[0][1], 2 * c - hs[0][2])))
                    ctx.expect(want in cand, "a fault next to the boundary has no edge to a boundary node on its side",
                               fault=f, hits=hs, flips=flip, candidates=[sorted(x) for x in cand])
                    e = want
                seen.add(e)
                ctx.case((repr(code), T, readout, f),
                         sample={"code": repr(code), "T": T, "readout": readout, "fault": f, "hits": hs, "flips": flip})
            rest = set(edges) - seen
            ctx.expect(not rest, "an edge of the syndrome graph has no fault that causes it",
                       edges=[sorted(e) for e in list(rest)[:5]])
            ctx.count("edges_explained", len(seen))


def run(ctx):
    codes = family(25 if ctx.quick else 49)
    for code in ctx.order(codes):
        for T in ((1, 2, 3, 4, 7, 13, 21) if ctx.quick else (1, 2, 3, 4, 5, 8, 21)):
            structure(ctx, code, T)
    for code in ctx.order(family(15, max_side=15) + [Code("XXZZ", 5, 5), Code("XZZX", 5, 5)]):
        for T in (1, 2, 3) + ((12,) if code.n <= 9 else ()) if ctx.quick else (1, 2, 3, 4, 5, 12):
            for readout in ("ancilla", "lattice"):
                observed(ctx, code, T, readout)
                if ctx.out_of_time(0.6):
                    break
    if not ctx.quick:
        for code in ctx.order(family(49)):
            for T in (2, 6):
                observed(ctx, code, T, ctx.rng.choice(["ancilla", "lattice"]))
            if ctx.out_of_time(0.8):
                break
    big = [(Code("XXZZ", 3, 3), 40), (Code("REP", 3, 1), 300), (Code("REPP", 1, 5), 67), (Code("XZZX", 3, 5), 34)]
    big += [(Code("REP", 401, 1), 1), (Code("REPP", 1, 401), 1), (Code("XXZZ", 23, 25), 1), (Code("XXZZ", 9, 9), 5),
            (Code("XXZZ", 3, 85), 1), (Code("XZZX", 85, 3), 1)]
    if not ctx.quick:
        big += [(Code("REPP", 1, 1101), 1), (Code("XXZZ", 45, 45), 1), (Code("XXZZ", 3, 331), 1), (Code("XXZZ", 13, 13), 9)]
    for code, T in ctx.order(big):
        structure(ctx, code, T)
        if ctx.out_of_time(0.95):
            return
