"""graphs of tokens: connection edges (prices only) and amount edges (with histories of transports)"""
from hypothesis import strategies as st
from .common import pos, weighted, unit

TOKS = ["ETH", "USDC", "WBTC", "BNT", "LINK", "TKN(1)", "USDT-a0"]


@st.composite
def conn_case(draw):
    n = draw(st.sampled_from([2, 3, 3, 4, 4, 5]))
    toks = draw(st.lists(st.sampled_from(TOKS), min_size=n, max_size=n, unique=True))
    edges = []
    ix = st.integers(0, n - 1)
    allw = draw(weighted((2, True), (1, False)))
    for k in range(draw(st.integers(1, 9))):
        i, j = draw(st.lists(ix, min_size=2, max_size=2, unique=True))
        how = draw(st.sampled_from(["price", "price", "inverse", "pop", "none", "cpc", "obj"]))
        edges.append({"i": i, "j": j, "how": how, "p": draw(pos(-3, 4)), "w": draw(pos(-2, 2)) if allw and draw(st.booleans()) else None,
                      "sym": draw(weighted((3, True), (2, False))), "uid": draw(st.sampled_from([None, f"u{k}", f"c-{k}"]))})
    walks = draw(st.lists(st.lists(ix, min_size=2, max_size=6), min_size=1, max_size=4))
    return {"toks": toks, "edges": edges, "walks": walks, "nodes_first": draw(st.sampled_from(["", "tuple", "list"])),
            "mul": draw(st.one_of(st.integers(1, 9), st.floats(0.01, 100))), "amt": draw(pos(-3, 6)), "start": draw(st.integers(0, 9)),
            "ct": draw(st.sampled_from(["one", "list", "gen", "container", "from_cc"]))}


@st.composite
def amt_case(draw):
    n = draw(st.sampled_from([2, 3, 3, 4]))
    toks = draw(st.lists(st.sampled_from(TOKS), min_size=n, max_size=n, unique=True))
    val = [draw(pos(-2, 3)) for _ in toks]
    edges = []
    ix = st.integers(0, n - 1)
    m = draw(st.integers(1, 8))
    ring = draw(st.booleans())
    apart = draw(weighted((4, False), (1, True)))
    if apart:
        n, toks, val, ix = 2, toks[:2], val[:2], st.integers(0, 1)
    for k in range(m):
        if ring and k < n:
            i, j = k, (k + 1) % n
        else:
            i, j = draw(st.lists(ix, min_size=2, max_size=2, unique=True))
        V = draw(pos(-7, 6) if apart else pos(0, 4))
        edges.append({"i": i, "j": j, "ain": V / val[i], "aout": V / val[j] * (1 + draw(st.floats(-0.3, 0.3))), "inv": draw(st.booleans()),
                      "uid": draw(st.sampled_from([None, f"u{k}"])), "how": draw(st.sampled_from(["add", "dxdy", "dxdyr", "obj"]))})
    fr = st.one_of(st.floats(0.01, 0.9), st.floats(0.01, 0.9), st.sampled_from([0.5, 1.3, 3.0, 1.0, 1 + 1e-6, 1 + 1e-8, 1 + 1e-10]))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        op = draw(st.sampled_from(["fund", "fund", "transport", "transport", "transport", "edge", "edge", "reset", "query"]))
        if op == "fund":
            ops.append({"op": op, "i": draw(ix), "f": draw(st.sampled_from([0.3, 2.0, 10.0, 10.0])), "how": draw(st.sampled_from(["set", "attr", "incr", "reset"]))})
        elif op in ("transport", "edge"):
            e = draw(st.integers(0, m - 1))
            o = {"op": op, "k": e, "f": draw(fr), "record": draw(weighted((4, True), (1, False))), "roe": draw(weighted((5, True), (1, False))),
                 "as": draw(st.sampled_from(["float", "amount", "node", "wrong"] if draw(st.booleans()) else ["float", "node"]))}
            if draw(weighted((2, True), (1, False))):
                o["fund"] = 2.0
            ops.append(o)
        else:
            ops.append({"op": op})
    return {"toks": toks, "edges": edges, "ops": ops, "tok": draw(ix), "nums": draw(st.lists(st.floats(-1e6, 1e6), min_size=3, max_size=3)),
            "nodes_first": draw(st.sampled_from(["", "tuple", "list"]))}
