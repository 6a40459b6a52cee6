"""books, sizes and vectors for the order book analytics"""
from hypothesis import strategies as st
from .common import weighted, pos
from . import sim


@st.composite
def ana_case(draw):
    case = draw(sim.book(nmin=1, nmax=5, methods=[(5, "exact"), (2, "fast"), (1, "alpha")], amt_exp=(-1, 5), pairs=sim.PAIRS + ["ETH/XETH"]))
    b, q = case["pair"].split("/")
    case["nint"] = draw(st.sampled_from([2, 3, 5, 8, 13]))
    case["side"] = draw(st.sampled_from(["ASK", "BID"]))
    case["over"] = draw(st.sampled_from([0.5, 1.0, 1.0, 1.0, 1.3, 3.0]))
    case["eps"] = draw(st.sampled_from([None, None, 1e-9, 1e-2, 0.0]))
    case["own"] = draw(st.booleans())            # the simulator comes from the constructor, or the call
    case["decoy"] = draw(st.booleans())          # the constructor got another simulator
    case["give"] = draw(st.sampled_from(["none", "pair", "pair", "alien"]))
    case["nodefault"] = draw(weighted((4, False), (1, True)))
    case["explicit_tkn"] = draw(st.booleans())
    case["etkn"] = draw(st.sampled_from([b, q]))
    case["other"] = draw(st.booleans())          # orders of another market are in the book as well
    case["cuts"] = draw(st.lists(st.floats(0, 1), min_size=2, max_size=6, unique=True))
    case["snap"] = draw(st.booleans())
    case["reverse"] = draw(st.booleans())
    case["purge"] = draw(st.booleans())
    case["plot"] = draw(weighted((14, False), (1, True)))
    case["raise"] = draw(st.booleans())
    return case


@st.composite
def vec_case(draw):
    n = draw(st.integers(0, 8))
    x = st.one_of(st.floats(-1e6, 1e6), st.integers(-100, 100), st.just(0))
    miss = st.sampled_from([None, "nan"])
    p = st.floats(1e-6, 1e6)
    m = draw(st.integers(3, 9))
    src, trg = [], []
    s = t = 0.0
    for _ in range(m):
        s += draw(p); t += draw(p)
        src.append(s); trg.append(t)
    tail = draw(st.lists(miss, max_size=4))
    gaps = draw(st.lists(st.integers(0, m - 1), max_size=2))
    return {"v": [draw(x) for _ in range(n)], "w": [draw(x) for _ in range(n)], "holes": draw(st.lists(st.integers(0, 8), max_size=3)),
            "s2": draw(st.lists(st.one_of(x, miss), max_size=8)), "s1n": draw(st.integers(0, 10)), "aslist": draw(st.booleans()),
            "max": draw(st.one_of(pos(-3, 6), st.integers(1, 1000))), "nint": draw(st.integers(1, 12)), "eps": draw(st.one_of(st.none(), st.just(0), st.floats(1e-12, 1e-3))),
            "eps2": draw(st.one_of(st.none(), st.just(0), st.floats(1e-9, 0.01))), "src": src, "trg": trg, "tail": tail, "gaps": gaps,
            "side": draw(st.sampled_from(["ASK", "BID"])), "bad": draw(weighted((8, False), (1, True))), "tkns": draw(st.sampled_from([None, ["ETH", "USDC"], ["A", "B"]]))}
