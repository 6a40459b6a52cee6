"""histories for the helper classes: parameters, shared variables, versions, files, windows of series, controls"""
from hypothesis import strategies as st
from .common import weighted, pos

KEYS = ["a", "b", "c", "xc", "key0"]
val = st.one_of(st.integers(-5, 5), st.none(), st.booleans(), st.text(alphabet="xyz", max_size=3), st.floats(-10, 10), st.lists(st.integers(0, 3), max_size=2), st.just({"n": 1}))
kv = st.dictionaries(st.sampled_from(KEYS), val, max_size=4)


@st.composite
def params_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(["get", "get", "attr", "assign", "assign", "set", "setno", "add", "default", "default", "getdef", "getdefr", "defaults", "copy", "copy2", "dup", "repr", "params"]))
        ops.append([k, draw(st.sampled_from(KEYS)), draw(val), draw(kv)])
    return {"init": draw(kv), "how": draw(st.sampled_from(["kw", "construct", "construct+", "empty", "none"])), "defaults": draw(kv), "ops": ops}


num = st.one_of(st.integers(-50, 50), st.sampled_from([-2.5, 0.5, 1.25, 3.75, 0.0, 100.125]), st.floats(-1e6, 1e6), st.integers(-10 ** 20, 10 ** 20))
BIN = ["+", "-", "*", "/", "//", "%", "**", "<<", ">>", "&", "|", "^", "divmod"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
UN = ["pos", "neg", "abs", "round", "round2", "floor", "ceil", "trunc", "int", "float", "complex", "str", "bool", "sum", "index"]


@st.composite
def shared_case(draw):
    ops = []
    small = st.one_of(num, st.integers(0, 8), st.integers(-3, 8))
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["bin", "rbin", "bin2", "cmp", "rcmp", "cmp2", "ip", "ip", "ip2", "un", "un", "set", "alias", "break", "wrap"]))
        op = draw(st.sampled_from(CMP if "cmp" in k else UN if k == "un" else BIN[:-1] if k.startswith("ip") else BIN))
        ops.append([k, op, draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(small)])
    return {"vals": [draw(small) for _ in range(3)], "ops": ops}


@st.composite
def version_case(draw):
    n = lambda: draw(st.lists(st.one_of(st.integers(0, 3), st.integers(0, 30)), min_size=1, max_size=5))
    a = n()
    b = n()
    k = draw(st.sampled_from(["free", "same", "zeros", "prefix", "bump"]))
    if k == "same":
        b = list(a)
    elif k == "zeros":
        b = a + [0] * draw(st.integers(1, 2))
    elif k == "prefix":
        b = a + [draw(st.integers(0, 2))]
    elif k == "bump":
        b = list(a); b[draw(st.integers(0, len(b) - 1))] += draw(st.sampled_from([1, 9]))
    if draw(st.booleans()):
        a, b = b, a
    suf = st.sampled_from(["", "", "-beta1", "-beta12", "beta3", "b2", "rc1", " ", "-2"])
    pre = st.sampled_from(["", "", " "])
    return {"req": a, "act": b, "rs": draw(suf), "as": draw(suf), "rp": draw(pre), "ap": draw(pre), "bad": draw(st.sampled_from(["", "beta", "v1.2", "-1"]))}


jsonable = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10 ** 18, 10 ** 18), st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=6)),
                        lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(st.text(max_size=5), c, max_size=4)), max_leaves=12)


@st.composite
def file_case(draw):
    txt = st.text(alphabet=st.characters(blacklist_categories=("Cs",), blacklist_characters="\r"), max_size=200)
    names = st.text(alphabet="abcXY_", min_size=1, max_size=5)
    ext = st.sampled_from([".pickle", ".PICKLE", ".csv", ".pick", "", ".tar.gz"])
    return {"text": draw(st.one_of(txt, st.sampled_from(["{}", "{a}", "", "\n\n", "x" * 5000]))), "bytes": draw(st.binary(max_size=200)).hex(), "json": draw(jsonable),
            "wrap": draw(st.sampled_from([None, "<{}>", "\n<style>\n{}\n</style>\n", "{}"])), "usepath": draw(st.booleans()), "quiet": draw(st.booleans()),
            "sub": draw(st.sampled_from([None, "d", "d/e"])), "files": draw(st.lists(st.tuples(names, ext).map("".join), max_size=8, unique=True)), "ext": draw(st.sampled_from([None, ".pickle", ".Pickle", ".csv", ".gz"])),
            "overwrite": draw(st.booleans())}


@st.composite
def window_case(draw):
    gaps = draw(st.lists(st.integers(1, 40), min_size=1, max_size=12))
    opt = lambda s: st.one_of(st.none(), s)
    clash = draw(weighted((8, False), (1, True)))
    which, per = draw(st.sampled_from(["from", "pc", "none"])), draw(st.sampled_from(["days", "pc", "none"]))
    c = {"gaps": gaps, "start": draw(st.sampled_from(["2020-01-01", "2019-12-31 13:00"])), "cols": draw(st.sampled_from([["ETH/USDC", "p1"], [" ETH / USDC ", "p1", "B/C"], ["a/b/c", "x"]])),
            "from": draw(opt(st.one_of(st.just("neg"), st.integers(0, 300), st.just("beyond")))), "from_str": draw(st.booleans()), "from_pc": draw(opt(st.floats(0, 1))), "days": draw(opt(st.one_of(st.integers(0, 20), st.floats(0, 20)))),
            "pc": draw(opt(st.floats(0, 1.2))), "min": draw(opt(st.integers(-10, 100))), "col": draw(st.sampled_from([None, 0, 1, 0, 1, "s0", "s1"])), "invert": draw(st.booleans()), "tkns": draw(st.booleans()),
            "vals": [draw(pos(-3, 5)) for _ in range(len(gaps) + 1)]}
    if not clash:
        if which != "from": c["from"] = None
        if which != "pc": c["from_pc"] = None
        if per != "days": c["days"] = None
        if per != "pc": c["pc"] = None
        if c["col"] is None: c["invert"] = False
    return c


@st.composite
def control_case(draw):
    n = draw(st.integers(1, 5))
    ids = draw(st.lists(st.one_of(st.integers(0, 9), st.text(alphabet="abc", min_size=1, max_size=3)), min_size=n, max_size=n, unique_by=str))
    fl = st.lists(st.booleans(), min_size=n, max_size=n)
    acts = draw(st.lists(st.tuples(st.integers(0, n - 1), st.booleans(), st.floats(-1.2, 1.2)).map(list), max_size=5))
    return {"ids": ids, "dict": draw(st.booleans()), "descr": draw(st.lists(st.one_of(st.integers(0, 99), st.text(alphabet="xyz", max_size=3)), min_size=n, max_size=n)),
            "vals": draw(st.one_of(st.none(), st.booleans(), fl, st.lists(st.booleans(), max_size=6))), "dis": draw(st.one_of(st.none(), fl, st.lists(st.booleans(), max_size=6))),
            "objs": draw(st.one_of(st.none(), st.just("ok"), st.just("bad"))), "acts": acts,
            "pm": draw(st.one_of(st.none(), st.booleans(), fl)), "sv": draw(st.one_of(st.none(), st.floats(-1.2, 1.2), st.lists(st.floats(-1, 1), min_size=n, max_size=n))),
            "range": draw(st.one_of(st.none(), st.none(), st.sampled_from([[0, 2], [-0.5, 0.5], "each"]))), "default": draw(st.sampled_from(["none", "ix", "val", "both"])), "dix": draw(st.integers(-2, 6)),
            "labels": draw(st.booleans()), "pick": draw(st.integers(0, n - 1)), "kw": draw(st.sampled_from(["n", "d"])),
            "eq": [draw(st.one_of(st.sampled_from([0, 1, 1.0, 1 + 1e-7, 1 + 1e-5, 2, -1, 1e-7, 1e-5, 1e12]), st.sampled_from(["s", "t"]))) for _ in range(draw(st.integers(2, 4)))], "eps": draw(st.sampled_from([None, 1e-3, 1e-9]))}


@st.composite
def pair_case(draw):
    NUM = ["USDC", "USDT", "DAI", "ETH", "WETH", "WBTC", "BTC", "BNT", "LINK", "UNI", "sUSD", "PAX"]
    t = st.one_of(st.sampled_from(NUM), st.text(alphabet="ABCab", min_size=1, max_size=4))
    suf = st.sampled_from(["", "", "-eB48", "(1)", "-A-b"])
    b = draw(t); q = draw(t.filter(lambda x: x != b))
    return {"b": b + draw(suf), "q": q + draw(suf), "how": draw(st.sampled_from(["str", "tuple", "list", "pair", "tokens"])), "p": draw(st.one_of(st.just(0), pos(-8, 8))),
            "scale": draw(st.dictionaries(st.sampled_from(NUM), pos(-3, 5), max_size=4)), "ask": draw(st.sampled_from(NUM)), "add": draw(st.lists(st.tuples(st.sampled_from(NUM), pos(-3, 5)).map(list), max_size=3)),
            "bad": draw(st.sampled_from(["A", "A/B/C", ["A"], ["A", "B", "C"], 5])),
            "num": draw(st.one_of(st.sampled_from(["-1", "0", "99", "100", "9999", "10000", "edge-", "edge", "edge+", "warn-", "warn+", "max"]), st.integers(0, 260).map(lambda k: f"p{k}"))), "lvls": [draw(st.sampled_from([0, 1, 2, 9])) for _ in range(2)], "ctx": draw(st.booleans())}
