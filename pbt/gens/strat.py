"""simulation strategies, price paths, records"""
from hypothesis import strategies as st
from .common import weighted, pos, unit

opt = lambda s: st.one_of(st.none(), s)
amt = st.one_of(st.none(), st.just(0), pos(-3, 6))
names = st.sampled_from([None, ["RSK", "CSH"], ["ETH", "USDC"], ["BNT", "ETH"]])


@st.composite
def strategy_case(draw):
    kind = draw(st.sampled_from(["mgw", "mgw", "sb", "u3", "u3", "dct", "raw"]))
    m = draw(pos(-4, 6))
    w = st.one_of(st.just(0), st.floats(1e-3, 5))
    u = st.one_of(st.just(0), st.just(1), st.floats(0.01, 0.9985), st.floats(0.999, 1))
    c = {"kind": kind, "m": m, "g": draw(st.one_of(st.just(0), st.floats(1e-3, 3))), "w": draw(st.one_of(w, st.tuples(w, w).map(list))), "u": draw(st.one_of(u, st.tuples(u, u).map(list))),
         "amt": [draw(amt), draw(amt)], "names": draw(names), "fixed": draw(st.booleans()), "overlap": draw(st.booleans()),
         "p": [m * draw(st.floats(0.5, 2)) for _ in range(4)], "scalar": draw(weighted((5, False), (1, True))),
         "hi": m * (1 + draw(st.floats(0.01, 4))), "below": draw(st.booleans()), "tvl": draw(opt(pos(-2, 7))), "fee": draw(opt(st.sampled_from([0.003, 0.01, 0.0005, 0.1]))),
         "new": draw(opt(pos(-4, 6))), "old": draw(opt(pos(-4, 6))), "force": draw(st.booleans()), "spot": draw(pos(-3, 5)), "cash": draw(unit()), "value": draw(pos(0, 7)),
         "bad": draw(st.sampled_from(["u", "w", "hi", "both", "type"])), "path": draw(st.lists(st.floats(0.3, 1.7), min_size=2, max_size=8)), "marg": draw(opt(unit())), "yint": draw(opt(st.floats(1, 3)))}
    return c


@st.composite
def path_case(draw):
    gaps = draw(st.lists(st.one_of(st.integers(1, 48).map(lambda h: h * 3600), st.integers(60, 500000), st.just(86400)), min_size=1, max_size=7))
    v0 = draw(pos(-4, 6))
    vals = [v0]
    for _ in gaps:
        vals.append(vals[-1] * draw(st.one_of(st.just(1.0), st.floats(0.3, 3))))
    return {"start": draw(st.sampled_from(["2020-01-01", "2023-02-28 13:37:11", "2019-12-31 23:59:59"])), "gaps": gaps, "vals": vals,
            "period": draw(st.one_of(st.sampled_from([3600, 86400, 900]), st.integers(1000, 200000))), "sig": draw(st.one_of(st.none(), st.just(0), st.floats(0.01, 1.5))),
            "fctr": draw(st.one_of(st.none(), st.just(0), st.floats(0.1, 3))), "enable": draw(weighted((8, True), (1, False))), "bridge": draw(st.one_of(st.integers(0, 5), st.integers(500, 2000))),
            "seed": draw(st.integers(0, 2 ** 32)),
            "gen": {"mu": draw(opt(st.floats(-1, 1).map(lambda x: round(x, 2)))), "sig": draw(opt(st.one_of(st.just(0), st.integers(1, 200).map(lambda k: k / 100)))), "s0": draw(opt(pos(-4, 6))),
                    "time": draw(opt(st.sampled_from([1, 0.5, 10, 100, 2]))), "N": draw(opt(st.integers(1, 400))), "startdt": draw(opt(st.sampled_from([[2021, 3, 4], [2020, 2, 29]]))), "colname": draw(opt(st.just("c{ix}-{sig100}"))),
                    "dfcol": draw(opt(st.just("x{ix:02d}"))), "numpaths": draw(st.integers(1, 3)), "statn": draw(st.integers(500, 3000)), "statdt": draw(st.sampled_from([0.01, 0.25, 1]))}}


@st.composite
def rec_case(draw):
    fields = draw(st.lists(st.sampled_from(["a", "b", "strat_w", "strat_type", "zz"]), min_size=1, max_size=4, unique=True))
    val = st.one_of(st.integers(0, 3), st.sampled_from(["x", "y"]), st.sampled_from([0.5, 1.5]))
    base = {f: draw(val) for f in fields}
    recs = []
    for k in range(draw(st.integers(1, 4))):
        r = dict(base)
        if k:
            for f in fields:
                if draw(st.booleans()):
                    r[f] = draw(val)
        recs.append([f"id{k}" if draw(st.booleans()) or True else k, dict(r, id0=f"id{k}", comment=draw(st.sampled_from(["", "same", "other"])))])
    return {"recs": recs, "baseline": draw(st.booleans()), "purge": draw(st.booleans()), "comment": draw(st.booleans()), "x": draw(st.one_of(st.floats(-5, 5), st.integers(-3, 3), st.sampled_from(["t", None])))}
