"""P24: arbitrage graphs against plain lists of edges"""
import contextlib, io, math
from .base import need, need_close, expect_exc, Skip, Violation
import numpy as np
import carbon.tools.arbgraphs as ag
from carbon.tools.cpc import ConstantProductCurve as CPC, CPCContainer

R = 1e-9
EPS = 1e-9


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def mk(case):
    nf = case["nodes_first"]
    if not nf:
        return ag.ArbGraph()
    ns = ag.create_node_list(", ".join(case["toks"]))
    return ag.ArbGraph(nodes=ns if nf == "tuple" else list(ns))


class M:
    """model edge"""
    def __init__(s, i, j, ain, aout, inv, uid):
        s.i, s.j, s.ain, s.aout, s.inv, s.uid = i, j, ain, aout, inv, uid
        s.rem = ain


def check_structure(G, toks, model, exact=True):
    """nodes and edges are those of the model, in its order"""
    seen = [n.tkn for n in G.nodes]
    need(len(set(seen)) == len(seen), "P24.nodes", lambda: f"tokens twice {seen}")
    for ix, n in enumerate(G.nodes):
        need(n.ix == ix and G.node_by_ix(ix) is n and G.node_by_tkn(n.tkn) is n and G.node_by_tkn(n) is n, "P24.nodes", lambda: f"index of {n}")
    need(len(G) == len(model) and G.len() == (len(model), len(seen)), "P24.edges", lambda: f"{G.len()} for {len(model)} edges")
    for k, (e, m) in enumerate(zip(G.edges, model)):
        need(e.ix == k and G.edge_by_ix(k) is e, "P24.edges", f"index {k}")
        need(e.node_in is G.node_by_tkn(toks[m.i]) and e.node_out is G.node_by_tkn(toks[m.j]), "P24.edges", lambda: f"edge {e} should be {toks[m.i]} -> {toks[m.j]}")
        need_close(e.amount_in, m.ain, "P24.edge_amount", R)
        need_close(e.amount_out, m.aout, "P24.edge_amount", R)
        if exact:
            need(e.inverse == m.inv, "P24.edge_inverse", lambda: f"{e} inverse {e.inverse}")
            need(e.uid == m.uid, "P24.edge_uid", lambda: f"{e.uid!r} should be {m.uid!r}")
        p = m.aout / m.ain
        need_close(e.price_outperin, p, "P24.edge_price", R)
        a, b = toks[m.i], toks[m.j]
        need_close(e.price(), 1 / p if e.inverse else p, "P24.edge_price", R)
        need_close(e.price(inverse=True), 1 / p, "P24.edge_price", R)
        need_close(e.p(inverse=False), p, "P24.edge_price", R)
        need(e.convention() == (f"{a} per {b}" if e.inverse else f"{b} per {a}"), "P24.convention", lambda: e.convention())
        need(e.convention(True) == f"{a} per {b}" and e.convention_outperin() == f"{b} per {a}", "P24.convention", lambda: e.convention(True))
        need(e.pair() == (f"{b}/{a}" if e.inverse else f"{a}/{b}") and e.pair(False) == f"{a}/{b}" and (e.tkn_in, e.tkn_out) == (a, b), "P24.pair", lambda: e.pair())


def check_filters(G, toks, model):
    names = [n.tkn for n in G.nodes]
    ixs = lambda es: [e.ix for e in es]
    sel = lambda f: [k for k, m in enumerate(model) if f(m)]
    for a in names:
        i = toks.index(a)
        na = G.node_by_tkn(a)
        need(ixs(G.filter_edges(a)) == sel(lambda m: m.i == i), "P24.filter", f"from {a}")
        need(ixs(G.filter_edges(node_out=na)) == sel(lambda m: m.j == i), "P24.filter", f"to {a}")
        want = sel(lambda m: i in (m.i, m.j))
        need(ixs(G.filter_edges(node=a)) == want, "P24.filter", f"at {a}")
        need(sorted(ixs(G.filter_edges(node=na, bothways=True))) == want, "P24.filter", f"at {a} bothways")
        need(sorted(ixs(G.filter_edges(node_in=na, bothways=True))) == want, "P24.filter", f"from {a} bothways")
        for b in names:
            if a == b:
                continue
            j = toks.index(b)
            f, r = sel(lambda m: (m.i, m.j) == (i, j)), sel(lambda m: (m.i, m.j) == (j, i))
            need(ixs(G.fe(a, G.node_by_tkn(b))) == f, "P24.filter", f"{a} to {b}")
            need(ixs(G.filter_edges(a, b, bothways=True)) == f + r, "P24.filter", f"{a} to {b} bothways")
            need(ixs(G.fep(f"{a}/{b}")) == f + r and ixs(G.fep(f"{a}/{b}", bothways=False)) == f, "P24.filter", f"pair {a}/{b}")
    need(ixs(G.filter_edges()) == list(range(len(model))) and sorted(ixs(G.filter_edges(bothways=True))) == list(range(len(model))), "P24.filter", "all")


def simple_cycles(n, adj):
    """all simple cycles, as tuples starting at their smallest node"""
    out = set()

    def go(path):
        for t in adj[path[-1]]:
            if t == path[0] and len(path) > 1:
                out.add(tuple(path))
            elif t > path[0] and t not in path:
                go(path + [t])
    for s in range(n):
        go([s])
    return out


def rot(c):
    k = c.index(min(c))
    return tuple(c[k:] + c[:k])


def check_cycles(G, model, toks, start):
    """cycles and matrices; returns the cycles as index lists"""
    nn = len(G.nodes)
    pos = {toks.index(n.tkn): n.ix for n in G.nodes}
    adj = {k: set() for k in range(nn)}
    for m in model:
        adj[pos[m.i]].add(pos[m.j])
    cs = G.cycles()
    got = [rot([n.ix for n in c.data]) for c in cs]
    want = simple_cycles(nn, adj)
    need(len(set(got)) == len(got), "P24.cycles_twice", lambda: f"{got}")
    need(set(got) == want, "P24.cycles", lambda: f"{set(got) ^ want} of {want}")
    need(len({c.uid for c in cs}) == len(cs) and all(c.graph is G for c in cs), "P24.cycle_uid")
    need(sorted(rot([n.ix for n in c.data]) for c in G.cycles(asgenerator=True)) == sorted(got), "P24.cycles", "generator")
    A = np.zeros((nn, nn))
    for a in adj:
        for b in adj[a]:
            A[a, b] = 1
    need(np.array_equal(G.A.toarray(), A) and np.array_equal(G.Adjacency()[0].toarray(), A), "P24.adjacency", lambda: f"{G.A.toarray()} {A}")
    U = np.maximum(A, A.T)
    need(np.array_equal(G.L.toarray(), np.diag(U.sum(axis=0)) - U), "P24.laplacian", lambda: f"{G.L.toarray()}")
    for f, v in ((G.degree, U.sum(axis=0)), (G.in_degree, A.sum(axis=0)), (G.out_degree, A.sum(axis=1))):
        need(f() == {k: v[k] for k in range(nn)}, "P24.degree", lambda: f"{f()} {v}")
        need(np.array_equal(f(as_matrix=True), np.diag(v)), "P24.degree", "matrix")
    comp = {0} if nn else set()
    while True:
        new = {b for b in range(nn) if any(U[a, b] for a in comp)} - comp
        if not new:
            break
        comp |= new
    need(nn == 0 or G.is_weakly_connected == (len(comp) == nn), "P24.connected")
    for c in cs[:12]:
        L = len(c)
        ids = [n.ix for n in c.data]
        s = start % L
        exp = [ids[(s + k) % L] for k in range(L + 1)]
        need([n.ix for n in c.items(start_ix=s)] == exp, "P24.cycle_items", lambda: f"{exp}")
        need([n.ix for n in c.items(start_val=c.data[s])] == exp, "P24.cycle_items", "by value")
        need([n.ix for n in c.items()] == ids + ids[:1], "P24.cycle_items", "default")
        pr = [(a.ix, b.ix) for a, b in c.pairs(start_ix=s)]
        need(pr == list(zip(exp, exp[1:])) and [(a.ix, b.ix) for a, b in c.pairs(start_val=c.data[s])] == pr, "P24.cycle_pairs", lambda: f"{pr}")
        nm = [f"{G.nodes[a].tkn}/{G.nodes[b].tkn}" for a, b in pr]
        need(c.pairs_s(start_val=c.data[s]) == nm, "P24.cycle_pairs", lambda: f"{c.pairs_s(start_val=c.data[s])} should be {nm}")
        need(ag.Cycle.byid(cs, c.uid) is c, "P24.byid")
        subs = c.filter_subcycles(list(cs))
        for o in cs:
            oi = [n.ix for n in o.data]
            w = set(oi) <= set(ids) and rot(oi) == rot([x for x in ids if x in oi])
            need(o.is_subcycle_of(c) == w, "P24.subcycle", lambda: f"{oi} of {ids}: {w}")
            need(any(x is o for x in subs) == w, "P24.subcycle", "filter")
    return cs, adj


def mean_price(model, i, j):
    es = [m for m in model if (m.i, m.j) == (i, j)]
    return sum(m.aout for m in es) / sum(m.ain for m in es)


def bfs(adj, a):
    d = {a: 0}
    q = [a]
    for x in q:
        for y in adj[x]:
            if y not in d:
                d[y] = d[x] + 1
                q.append(y)
    return d


def check_duplicate(G, toks, model):
    """duplicates, consolidated and not, have the nodes and edges of the original and do not share them"""
    D = G.duplicate(consolidate=False)
    need([n.tkn for n in D.nodes] == [n.tkn for n in G.nodes], "P24.dup_nodes")
    check_structure(D, toks, model)
    need(not any(a is b for a in D.nodes for b in G.nodes) and not any(a is b for a in D.edges for b in G.edges), "P24.dup_shared")
    C = G.duplicate()
    need([n.tkn for n in C.nodes] == [n.tkn for n in G.nodes], "P24.dup_nodes", "consolidated")
    keys = {}
    for m in model:
        keys.setdefault((m.i, m.j), []).append(m)
    need(len(C) == len(keys), "P24.consolidate", lambda: f"{len(C)} edges for {len(keys)} connections")
    for e in C.edges:
        need(e.node_in is C.node_by_tkn(e.tkn_in) and e.node_out is C.node_by_tkn(e.tkn_out), "P24.dup_shared", "nodes of the consolidated edges")
        ms = keys.get((toks.index(e.tkn_in), toks.index(e.tkn_out)))
        need(ms is not None, "P24.consolidate", lambda: f"{e}")
        need_close(e.amount_in, sum(m.ain for m in ms), "P24.consolidate", R)
        need_close(e.amount_out, sum(m.aout for m in ms), "P24.consolidate", R)
        if len(ms) == 1:
            need(e.uid == ms[0].uid and e.inverse == ms[0].inv, "P24.consolidate", lambda: f"single edge {e.uid} {e.inverse}")
    check_structure(G, toks, model)
    for X in (D, C):
        k = X.len()
        add = (lambda: X.add_edge("NEW", 1, X.nodes[0].tkn, 1)) if X.is_amounttype else (lambda: X.add_edge_ct("NEW", X.nodes[0].tkn, symmetric=False))
        add()
        need(X.len() == (k[0] + 1, k[1] + 1) and X.node_by_ix(k[1]).tkn == "NEW", "P24.dup_extend", lambda: f"{X.len()}")
    check_structure(G, toks, model)
    return C


def p24_conn(case):
    toks = case["toks"]
    G = mk(case)
    model = []
    lab = set()
    for e in case["edges"]:
        a, b, p, w, uid = toks[e["i"]], toks[e["j"]], e["p"], e["w"] or 1, e["uid"]
        kw = {} if e["w"] is None else {"weight": e["w"]}
        if not e["sym"]:
            kw["symmetric"] = False
        inv, q, u = False, p, f"{uid}"
        if e["how"] == "cpc":
            c = CPC.from_pk(p=p, k=p * 100, pair=f"{a}/{b}", cid=uid or "cid", fee=0.003)
            ct = case["ct"]
            arg = c if ct == "one" else [c] if ct == "list" else (x for x in [c]) if ct == "gen" else CPCContainer([c])
            if ct == "from_cc" and not G.edges and not G.nodes:
                G = ag.ArbGraph.from_cc(arg)
            else:
                G.add_edges_cpc(arg)
            w, u = 1, uid or "cid"
            ms = [M(e["i"], e["j"], -1, -c.p, False, u), M(e["j"], e["i"], -1, -1 / c.p, True, f"{u}-r")]
            need_close(c.p, p, "P24.cpc_price", 1e-6)
        elif e["how"] == "obj":
            o = ag.Edge.connection_edge(G.node_by_tkn(a, create=True), G.node_by_tkn(b, create=True), price=p, weight=e["w"], uid=uid)
            need(o.edgetype == o.EDGE_CONNECTION and not o.is_amounttype, "P24.edgetype")
            G.add_edge_obj(o)
            ms = [M(e["i"], e["j"], -w, -p * w, False, uid)]
        else:
            if e["how"] == "price":
                G.add_edge_ct(a, b, price=p, uid=uid, **kw)
            elif e["how"] == "inverse":
                G.add_edge_ct(a, b, price=p, inverse=True, uid=uid, **kw)
                inv, q = True, 1 / p
            elif e["how"] == "pop":
                G.add_edge_connectiontype(a, b, price_outperin=p, uid=uid, **kw)
            else:
                G.add_edge_ct(a, b, uid=uid, **kw)
                q = 1
            ms = [M(e["i"], e["j"], -w, -q * w, inv, u)]
            if e["sym"]:
                ms.append(M(e["j"], e["i"], -w, -w / q, not inv, f"{u}-r"))
        model += ms
    need(G.edgetype == G.EDGE_CONNECTION and not G.is_amounttype, "P24.edgetype")
    check_structure(G, toks, model)
    check_filters(G, toks, model)
    # an edge of the other type is refused
    expect_exc(lambda: G.add_edge(G.nodes[0].tkn, 1, G.nodes[1].tkn, 2), "P24.mixed")
    expect_exc(lambda: G.edge_statistics(G.nodes[0], G.nodes[1]), "P24.stats_connection")
    check_structure(G, toks, model)
    cs, adj = check_cycles(G, model, toks, case["start"])
    tix = [toks.index(n.tkn) for n in G.nodes]
    # products of prices: cycles, walks
    for c in cs[:20]:
        r = G.ptransport(c)
        pr = [mean_price(model, tix[a.ix], tix[b.ix]) for a, b in c.pairs()]
        need_close(r.multiplier, math.prod(pr), "P24.cycle_price", 1e-8)
        need(len(r.prices) == len(pr) == len(c), "P24.cycle_price", "number of steps")
        for x, y in zip(r.prices, pr):
            need_close(x, y, "P24.step_price", R)
        need(r.numedges == [len([m for m in model if (m.i, m.j) == (tix[a.ix], tix[b.ix])]) for a, b in c.pairs()], "P24.numedges")
        need(r.cycle is c, "P24.cycle_price", "cycle")
    nw = 0
    for wk in case["walks"]:
        # follow existing connections only
        path = [wk[0] % len(G.nodes)]
        for s in wk[1:]:
            nb = sorted(adj[path[-1]])
            if not nb:
                break
            path.append(nb[s % len(nb)])
        if len(path) < 2:
            continue
        nw += 1
        P = ag.Path([G.nodes[k] for k in path])
        need([(a.ix, b.ix) for a, b in P.pairs()] == list(zip(path, path[1:])), "P24.path_pairs")
        need(P.pairs_s() == [f"{G.nodes[a].tkn}/{G.nodes[b].tkn}" for a, b in zip(path, path[1:])], "P24.path_pairs")
        need_close(G.ptransport(P).multiplier, math.prod(mean_price(model, tix[a], tix[b]) for a, b in zip(path, path[1:])), "P24.path_price", 1e-8)
    # prices between any two tokens are those along a shortest path
    C = check_duplicate(G, toks, model)
    nn = len(G.nodes)
    ok = []
    for a in range(nn):
        d = bfs(adj, a)
        na = G.nodes[a]
        for b in range(nn):
            nb = G.nodes[b]
            if b not in d:
                expect_exc(lambda: G.price(na, nb), "P24.price_unreachable")
                continue
            ok.append((a, b))
            pr = G.price(na.tkn, nb.tkn)
            need_close(G.price(na, nb), pr, "P24.price_notation", R)
            v, u = G.price(na.tkn, nb.tkn, with_units=True)
            need_close(v, pr, "P24.price_notation", R)
            need(u == f"{nb.tkn} per {na.tkn} [{na.tkn}/{nb.tkn}]", "P24.units", lambda: u)
            need(G.price(na, nb, with_units=True)[1] == u, "P24.units", "nodes")
            if a == b:
                need(pr == 1, "P24.price_self", lambda: f"{pr}")
                continue
            sp = [n.ix for n in G.shortest_path(na, nb).data]
            need(sp[0] == a and sp[-1] == b and len(sp) == d[b] + 1 and all(y in adj[x] for x, y in zip(sp, sp[1:])), "P24.shortest", lambda: f"{sp} {d[b]}")
            need_close(pr, math.prod(mean_price(model, tix[x], tix[y]) for x, y in zip(sp, sp[1:])), "P24.price", 1e-8)
            if d[b] == 1:
                need_close(C.price(na.tkn, nb.tkn), pr, "P24.consolidated_price", 1e-8)
    if len(ok) == nn * nn:
        t = G.pricetable()
        lst = list(G.nodes)
        r = G.pricetable(asdf=False)
        need(list(t.columns) == list(t.index) == r["labels"] == [n.tkn for n in lst], "P24.pricetable", "labels")
        for a in lst:
            for b in lst:
                need_close(t.loc[a.tkn, b.tkn], G.price(a, b), "P24.pricetable", R)
                need_close(r["data"][a.ix][b.ix], G.price(a, b), "P24.pricetable", R)
        ex = lst[case["start"] % nn]
        t2 = G.pricetable(exclude=[ex])
        need(list(t2.columns) == [n.tkn for n in lst if n is not ex], "P24.pricetable", "exclude")
        t3 = G.pricetable(include=[ex])
        need(t3.shape == (1, 1) and t3.iloc[0, 0] == 1, "P24.pricetable", "include")
        lab.add("pricetable")
    # dataframe of connections
    df = G.edgedf(consolidated=True, resetindex=True)
    agg = {}
    for e, m in zip(G.edges, model):
        d = agg.setdefault(e.pairo.primary, {"n": 0, "r": 0, "p": []})
        d["n" if e.pairo.isprimary else "r"] += -m.ain
        d["p"].append((e.pairo.isprimary, e.pairo.pp(m.aout / m.ain)))
    need(sorted(df["pair"]) == sorted(agg), "P24.edgedf", lambda: f"{list(df['pair'])} {sorted(agg)}")
    for _, row in df.iterrows():
        d = agg[row["pair"]]
        need_close(row["n"], d["n"], "P24.edgedf", R, 1e-12, "n")
        need_close(row["n_rev"], d["r"], "P24.edgedf", R, 1e-12, "n_rev")
        ps = [p for f, p in d["p"]]
        need(min(ps) * (1 - 1e-9) <= row["price"] <= max(ps) * (1 + 1e-9), "P24.edgedf_price", lambda: f"{row['pair']} {row['price']} {d['p']}")
    d0 = G.edgedf(consolidated=False)
    need(list(d0["tkn_in"]) == [e.tkn_in for e in G.edges] and list(d0["tkn_out"]) == [e.tkn_out for e in G.edges], "P24.edgedf", "tokens")
    for x, n, m in zip(d0["price_outin"], d0["n"], model):
        need_close(x, m.aout / m.ain, "P24.edgedf", R)
        need_close(n, -m.ain, "P24.edgedf", R)
    # edge algebra
    k = case["mul"]
    for e, m in list(zip(G.edges, model))[:4]:
        f = k * e
        need_close(f.amount_in, k * m.ain, "P24.mul", R)
        need_close((e * k).price(), e.price(), "P24.mul", R)
        need((f.node_in, f.node_out, f.inverse) == (e.node_in, e.node_out, e.inverse), "P24.mul")
        s = e + f
        need_close(s.amount_in, (1 + k) * m.ain, "P24.add", R)
        need_close(s.price_outperin, m.aout / m.ain, "P24.add", R)
        need(s.inverse == e.inverse, "P24.add", "inverse")
        d = e.duplicate()
        need(d is not e and (d.uid, d.inverse, d.amount_in, d.amount_out, d.ix) == (e.uid, e.inverse, e.amount_in, e.amount_out, None), "P24.edge_duplicate", lambda: f"{d.uid} {e.uid}")
        r = e.R()
        need(r.node_in is e.node_out and r.node_out is e.node_in, "P24.reverse")
        need_close(r.price_outperin, m.ain / m.aout, "P24.reverse", R)
        need_close(r.price(), e.price(), "P24.reverse", R, msg="quotation")
        need(r.convention() == e.convention() and r.pair() == e.pair(), "P24.reverse", lambda: f"{r.convention()} {e.convention()}")
        expect_exc(lambda: e * 0, "P24.mul_zero")
        expect_exc(lambda: -k * e, "P24.mul_neg")
        expect_exc(lambda: e + r, "P24.add_reverse")
        t = e.transport(case["amt"])
        need(t.node is e.node_out, "P24.edge_transport")
        need_close(t.amount, case["amt"] * m.aout / m.ain, "P24.edge_transport", R)
        need_close(e.transport(ag.Amount(case["amt"], e.node_in)).amount, t.amount, "P24.edge_transport", R)
        expect_exc(lambda: e.transport(ag.Amount(1, e.node_out)), "P24.edge_transport_node")
        expect_exc(lambda: e.transport(1, record=True), "P24.record_connection")
    par = any(len([1 for m in model if (m.i, m.j) == (x.i, x.j)]) > 1 for x in model)
    return {"nontrivial": len(cs) >= 1 and len(model) >= 3, "labels": sorted(lab | {f"cycles{min(len(cs), 9)}", "parallel" if par else "single", "walk" if nw else "nowalk"}), "n": len(cs) + len(ok)}


def p24_amt(case):
    toks = case["toks"]
    G = mk(case)
    model = []
    for e in case["edges"]:
        a, b, x, y, uid = toks[e["i"]], toks[e["j"]], e["ain"], e["aout"], e["uid"]
        if e["how"] == "add":
            G.add_edge(a, x, b, y, inverse=e["inv"], uid=uid)
        elif e["how"] == "dxdy":
            G.add_edge_dxdy(a, x, b, -y, inverse=e["inv"], uid=uid)
        elif e["how"] == "dxdyr":
            G.add_edge_dxdy(b, -y, a, x, inverse=e["inv"], uid=uid)
        else:
            G.add_edge_obj(ag.Edge(G.node_by_tkn(a, create=True), x, G.node_by_tkn(b, create=True), y, inverse=e["inv"], uid=uid))
        model.append(M(e["i"], e["j"], x, y, e["inv"], uid))
    need(G.edgetype == G.EDGE_AMOUNT and G.is_amounttype, "P24.edgetype")
    check_structure(G, toks, model)
    check_filters(G, toks, model)
    expect_exc(lambda: G.add_edge_ct(G.nodes[0].tkn, G.nodes[1].tkn, price=2), "P24.mixed")
    expect_exc(lambda: G.price(G.nodes[0], G.nodes[1]), "P24.price_amount")
    for bad in ((1.0, 2.0), (-1.0, -2.0)):
        expect_exc(lambda: G.add_edge_dxdy(toks[0], bad[0], toks[1], bad[1]), "P24.dxdy_sign")
    for bad in ((0, 1), (1, 0), (-1, 1), (1, -1)):
        expect_exc(lambda: G.add_edge(G.nodes[0].tkn, bad[0], G.nodes[1].tkn, bad[1]), "P24.amount_sign")
    check_structure(G, toks, model)
    cs, adj = check_cycles(G, model, toks, 1)
    have = {n.tkn: 0.0 for n in G.nodes}
    hist = {n.tkn: 0 for n in G.nodes}
    thr = {t: 0.0 for t in have}
    lab = set()

    def scale(t):
        return max([1e-6] + [m.ain for m in model if toks[m.i] == t] + [m.aout for m in model if toks[m.j] == t]) + thr[t]

    def check_state(sig, exact=None):
        for n in G.nodes:
            need_close(n.state.amount, have[n.tkn], sig, 1e-9, 1e-9 * scale(n.tkn), lambda: f"tokens at {n}")
        for e, m in zip(G.edges, model):
            need_close(e.state.amount_in_remaining, m.rem, sig, 1e-9, 1e-9 * m.ain, lambda: f"capacity of {e}")
            need_close(e.amount_in, m.ain, sig, 0)
            need(abs(m.rem) < 1e-6 * m.ain or e.has_capacity == (m.rem > EPS), "P24.has_capacity", lambda: f"{e} {m.rem}")
        if exact is not None:
            need(snap() == exact, sig, lambda: f"{snap()} was {exact}")

    def snap():
        return [n.state.amount for n in G.nodes] + [e.state.amount_in_remaining for e in G.edges]

    def fund(t, amt, how="set"):
        n = G.node_by_tkn(t)
        if how == "set":
            n.state.amount_.set(amt)
        elif how == "attr":
            n.state.amount = amt
        elif how == "incr":
            n.state.amount_.incr(amt)
            amt += have[t]
        else:
            n.reset_state(amt)
        have[t] = amt
        thr[t] = max(thr[t], abs(amt))

    nrec = nref = 0
    for op in case["ops"]:
        before = snap()
        if op["op"] == "fund":
            if toks[op["i"]] in have:
                fund(toks[op["i"]], op["f"] * scale(toks[op["i"]]), op["how"])
        elif op["op"] == "reset":
            need(G.reset_state() is G, "P24.reset")
            have = {t: 0.0 for t in have}
            for m in model:
                m.rem = m.ain
        elif op["op"] == "query":
            G.state, G.edgedf(), G.A
            [G.node_statistics(n) for n in G.nodes]
            check_state("P24.query_changes", before)
        else:
            m0 = model[op["k"]]
            a, b = toks[m0.i], toks[m0.j]
            ks = [op["k"]] if op["op"] == "edge" else [k for k, m in enumerate(model) if (m.i, m.j) == (m0.i, m0.j)]
            ms = [model[k] for k in ks]
            if any(m.rem < 0 for m in ms):
                continue  # overdrawn on request (raiseonerror=False) or within the margin: not pro rata to anything any more
            cap = sum(m.rem for m in ms)
            total = sum(m.ain for m in ms)
            amt = op["f"] * (cap if cap > 1e-6 * total else total)
            if op["f"] == 1.0:
                amt = sum(G.edges[k].state.amount_in_remaining for k in ks)
                if amt <= 1e-6 * total:
                    amt = total
            if "fund" in op:
                fund(a, amt * op["fund"] + have[a])
                before = snap()
            arg = amt
            n_in = G.node_by_tkn(a)
            if op["as"] == "amount":
                arg = ag.Amount(amt, n_in)
            if op["as"] == "wrong":
                arg = ag.Amount(amt, G.node_by_tkn(b))
            if op["op"] == "edge":
                call = lambda: G.edges[op["k"]].transport(arg, record=op["record"], raiseonerror=op["roe"])
                parts = [amt]
            else:
                ti, to = (n_in, G.node_by_tkn(b)) if op["as"] == "node" else (a, b)
                call = lambda: quiet(G.transport, arg, ti, to, record=op["record"], raiseonerror=op["roe"])
                parts = [m.rem * amt / cap for m in ms] if cap > 1e-9 * total else [math.inf for m in ms]
            # what must happen
            near = lambda x, lim, s: abs(x - lim) <= 1e-7 * s + 2 * EPS
            strict = op["record"] and op["roe"]
            tol = 1e-9 if op["f"] == 1.0 else 0
            over = [p > m.ain * (1 + tol) + tol for p, m in zip(parts, ms)]
            unsure = any(near(p, m.ain, m.ain) for p, m in zip(parts, ms)) and op["f"] != 1.0
            if strict:
                over += [p > m.rem * (1 + tol) + EPS for p, m in zip(parts, ms)]
                if op["f"] != 1.0:
                    unsure = unsure or any(near(p, m.rem, m.ain) for p, m in zip(parts, ms))
                over.append(amt > have[a])
                unsure = unsure or near(amt, have[a], scale(a))
            if op["f"] == 1.0 and max(m.ain for m in model) > 1e4:
                unsure = True  # the code's margin of 1e-9 is within the rounding of such amounts
            bad = any(over) or op["as"] == "wrong"
            if unsure and op["as"] != "wrong":
                try:
                    res = call()
                    bad = False
                except Exception:
                    bad = True
            elif bad:
                expect_exc(call, "P24.over_capacity", msg=f"{op} amount {amt} capacity {cap} tokens {have[a]}")
            else:
                try:
                    res = call()
                except Exception as e:
                    raise Violation("P24.refused", f"{op} amount {amt} capacity {cap} tokens {have[a]}: {type(e).__name__} {e}")
            if bad:
                nref += 1
                check_state("P24.refused_changes", before)
                continue
            outs = [p * m.aout / m.ain for p, m in zip(parts, ms)]
            if op["op"] == "edge":
                need(res.node is G.node_by_tkn(b), "P24.out_token")
                need_close(res.amount, outs[0], "P24.out_amount", R, 1e-9 * m0.aout)
            else:
                need([e.ix for e in res.edges] == ks, "P24.routed_edges", lambda: f"{res.edges} {ks}")
                need_close(res.amount_in.amount, amt, "P24.in_amount", R)
                need_close(res.amount_out.amount, sum(outs), "P24.out_amount", R, 1e-9 * sum(m.aout for m in ms))
                need_close(sum(res.amounts_in), amt, "P24.split_in", R)
                need_close(sum(res.amounts_out), res.amount_out.amount, "P24.split_out", R)
                for x, y, p, o, m in zip(res.amounts_in, res.amounts_out, parts, outs, ms):
                    need_close(x, p, "P24.prorata", 1e-7, 1e-9 * m.ain)
                    need_close(y, x * m.aout / m.ain, "P24.edge_rate", R)
            if op["record"]:
                nrec += 1
                have[a] -= sum(parts)
                have[b] += sum(outs)
                thr[a] = max(thr[a], abs(have[a])); thr[b] = max(thr[b], abs(have[b]))
                for m, p in zip(ms, parts):
                    m.rem -= p
                need(before != snap() or amt <= EPS, "P24.not_recorded")
                check_state("P24.flow")
            else:
                check_state("P24.quote_changes", before)
        check_state("P24.state")
    # statistics describe edges and state
    for a in have:
        i = toks.index(a)
        s = G.node_statistics(a if i % 2 else G.node_by_tkn(a))
        o, n = [m for m in model if m.i == i], [m for m in model if m.j == i]
        need(len(s.edges_out) == len(o) and len(s.edges_in) == len(n), "P24.node_stats", lambda: f"{s}")
        need(s.nodes_out == {toks[m.j] for m in o} and s.nodes_in == {toks[m.i] for m in n}, "P24.node_stats", lambda: f"{s}")
        need_close(s.amount_in.amount, sum(m.aout for m in n), "P24.node_stats", R)
        need_close(s.amount_out.amount, sum(m.ain for m in o), "P24.node_stats", R)
        need_close(s.amount_out_remaining.amount, sum(m.rem for m in o), "P24.node_stats", 1e-8, 1e-8 * scale(a))
        for b in have:
            j = toks.index(b)
            es = [m for m in model if (m.i, m.j) == (i, j)]
            if a == b:
                continue
            t = G.edge_statistics(a, b)
            if not es:
                need(t is None, "P24.edge_stats", "no edges")
                continue
            X, Y, Z = sum(m.ain for m in es), sum(m.aout for m in es), sum(m.rem for m in es)
            t2 = G.edge_statistics(edges=G.filter_edges(a, b))
            t3 = G.edge_statistics(pair=f"{a}/{b}")[0]
            t4 = G.edge_statistics(b, a, bothways=True)[1]
            for q in (t, t2, t3, t4):
                need(q.len == len(es) == len(q.edges), "P24.edge_stats", "number")
                need_close(q.amount_in.amount, X, "P24.edge_stats", R)
                need_close(q.amount_out.amount, Y, "P24.edge_stats", R)
                need_close(q.amount_in_remaining.amount, Z, "P24.edge_stats", 1e-8, 1e-8 * X)
                need_close(q.price, Y / X, "P24.edge_stats", R)
                need_close(q.utilization, 1 - Z / X, "P24.edge_stats", 1e-8, 1e-8)
                for k, m in enumerate(es):
                    need_close(q.prices[k], m.aout / m.ain, "P24.edge_stats", R)
                    need_close(q.utilizations[k], 1 - m.rem / m.ain, "P24.edge_stats", 1e-8, 1e-8)
                    need_close(q.amounts_in[k], m.ain, "P24.edge_stats", R)
                    need_close(q.amounts_out[k], m.aout, "P24.edge_stats", R)
            capm = sum(m.rem for m in es)
            if all(abs(m.rem) > 1e-6 * m.ain for m in es):
                need(G.has_capacity(a, b) == any(m.rem > EPS for m in es), "P24.has_capacity", f"{a} {b}")
    df = G.edgedf(consolidated=True, resetindex=True)
    tot = {}
    for m in model:
        v = tot.setdefault((toks[m.i], toks[m.j]), [0, 0])
        v[0] += m.ain; v[1] += m.aout
    need(len(df) == len(tot), "P24.edgedf")
    for _, r in df.iterrows():
        v = tot[(r["tkn_in"], r["tkn_out"])]
        need_close(r["amount_in"], v[0], "P24.edgedf", R)
        need_close(r["amount_out"], v[1], "P24.edgedf", R)
    # arbitrage cycles: as much as fits through all steps
    before = snap()
    res = []
    for c in cs[:20]:
        for t in [None] + [x for x in have]:
            k = [n.tkn for n in c.data].index(t) if t in [n.tkn for n in c.data] else 0
            r = c.run(token=t) if t else G.run_arbitrage_cycle(c)
            if t not in [n.tkn for n in c.data] and t:
                expect_exc(lambda: G.run_arbitrage_cycle(c, token=t, allow_any_token=False), "P24.any_token")
            ids = [toks.index(n.tkn) for n in c.data]
            ids = ids[k:] + ids[:k]
            rate, lim = 1.0, math.inf
            for x, y in zip(ids, ids[1:] + ids[:1]):
                es = [m for m in model if (m.i, m.j) == (x, y)]
                ci, co = sum(m.ain for m in es), sum(m.aout for m in es)
                lim = min(lim, ci / rate)
                rate *= co / ci
            need(r.token == toks[ids[0]] and r.start_ix == k and r.cycle is c, "P24.arb_start", lambda: f"{r} start {r.start_ix} should be {k}")
            need_close(r.amount_in, lim, "P24.arb_in", 1e-8)
            need_close(r.amount_out, lim * rate, "P24.arb_out", 1e-8)
            need_close(r.profit, lim * (rate - 1), "P24.arb_profit", 1e-8, 1e-8 * lim * max(rate, 1))
            need_close(r.r, rate - 1, "P24.arb_r", 1e-8, 1e-8 * max(rate, 1))
            need(r.length == len(c), "P24.arb_len")
            need_close(r.rpcs * len(c), r.r, "P24.arb_r", 1e-8, 1e-12)
            need_close(r.ppcs * len(c), r.profit, "P24.arb_r", 1e-8, 1e-12)
            if t == toks[case["tok"]]:
                res.append(r)
    need(snap() == before, "P24.arb_changes")
    tk = toks[case["tok"]]
    if res and tk in have:
        C = cs[:20]
        tup = G.run_arbitrage_cycles(C, token=tk)
        gen = tuple(G.run_arbitrage_cycles(C, token=tk, format=G.ACRET_GEN))
        dct = G.run_arbitrage_cycles(C, token=tk, format=G.ACRET_DICTS)
        df = G.run_arbitrage_cycles(C, token=tk, format=G.ACRET_DF)
        df2 = G.run_arbitrage_cyclesf(tup)
        need(len(tup) == len(gen) == len(dct) == len(df) == len(df2) == len(res), "P24.arb_formats")
        for r, x, g, d in zip(res, tup, gen, dct):
            row, row2 = df.loc[r.cycle.uid], df2.loc[r.cycle.uid]
            for f in ("profit", "amount_in", "amount_out", "r", "rpcs", "ppcs", "length", "start_ix"):
                for y in (getattr(x, f), getattr(g, f), d[f], row[f], row2[f]):
                    need_close(y, getattr(r, f), "P24.arb_formats", R, msg=f)
            need(d["token"] == row["token"] == r.token and d["uid"] == r.cycle.uid and "cycle" not in d, "P24.arb_formats", "token")
            need(d["tokens"] == ", ".join(n.tkn for n in r.cycle.data), "P24.arb_formats", "tokens")
        need(len(G.run_arbitrage_cycles(C, token=tk, format=G.ACRET_AGGRDF)) == len(res) + len({r.token for r in res}), "P24.arb_formats", "aggregate")
        expect_exc(lambda: G.run_arbitrage_cycles(C, token=tk, format="nope"), "P24.arb_formats")
        need(len(tup[0].astuple(include_cycle=False)) == len(dct[0]), "P24.arb_formats", "tuple")
    need(snap() == before, "P24.arb_changes")
    D = check_duplicate(G, toks, model)
    # from curves and trade vectors
    cc, dx, dy = [], [], []
    for k, m in enumerate(model):
        c = CPC.from_univ2(x_tknb=10, y_tknq=20, pair=f"{toks[m.i]}/{toks[m.j]}" if k % 2 else f"{toks[m.j]}/{toks[m.i]}", fee=0, cid=f"c{k}", descr="d")
        cc.append(c)
        fwd = c.tknx == toks[m.i]
        dx.append(m.ain if fwd else -m.aout)
        dy.append(-m.aout if fwd else m.ain)
    z = case["tok"] % (len(model) + 1)
    cc.insert(z, CPC.from_univ2(x_tknb=10, y_tknq=20, pair=f"{toks[0]}/{toks[1]}", fee=0, cid="zero", descr="d")); dx.insert(z, 0); dy.insert(z, 0)
    H = quiet(ag.ArbGraph.from_ccdxdy, CPCContainer(cc), dx, dy)
    check_structure(H, toks, [M(m.i, m.j, m.ain, m.aout, False, f"c{k}") for k, m in enumerate(model)])
    # algebra of amounts
    A = ag.Amount
    x, y, k = case["nums"]
    n0, n1 = G.nodes[0], G.nodes[1]
    a, b, o = A(x, n0), A(y, n0), A(y, n1)
    need((a + b) == A(x + y, n0) and (a - b) == A(x - y, n0) and k * a == a * k == A(x * k, n0), "P24.amounts")
    need(-a == A(-x, n0) and +a == a and abs(a) == A(abs(x), n0) and round(a, 2) == A(round(x, 2), n0), "P24.amounts")
    need(math.floor(a) == A(math.floor(x), n0) and math.ceil(a) == A(math.ceil(x), n0) and math.trunc(a) == A(math.trunc(x), n0), "P24.amounts")
    need((a < b) == (x < y) and (a <= b) == (x <= y) and (a > b) == (x > y) and (a >= b) == (x >= y), "P24.amounts", "compare")
    if k:
        need(a / k == A(x / k, n0), "P24.amounts")
    if y:
        need(a / b == x / y, "P24.amounts")
    need(str(a) == f"{x} {n0.tkn}" and f"{a:.3f}" == f"{x:.3f} {n0.tkn}", "P24.amounts")
    for f in (lambda: a + o, lambda: a - o, lambda: a < o, lambda: a >= o, lambda: a / o, lambda: a * b, lambda: a + 1, lambda: a - 1, lambda: a < 1):
        expect_exc(f, "P24.amounts_mixed")
    lab |= {"recorded" if nrec else "norec", "refused" if nref else "noref", f"cycles{min(len(cs), 5)}"}
    return {"nontrivial": nrec >= 1 or len(cs) >= 1, "labels": sorted(lab), "n": nrec + nref + len(cs)}
