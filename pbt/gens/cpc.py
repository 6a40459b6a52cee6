"""constant product curves and collections of them"""
from hypothesis import strategies as st
from .common import nice, rough, pos, weighted, unit

TOKS = ["USDC", "ETH", "WBTC", "LINK", "BNT", "WETH-6Cc2", "DAI-1d0F", "aTKN"]
PAIR = st.lists(st.sampled_from(TOKS), min_size=2, max_size=2, unique=True).map("/".join)


def act(v):
    """how much of a virtual balance is really there, as a fraction (None = all, not stated)"""
    return st.one_of(st.none(), st.sampled_from([0.0, 1.0, 0.5, 0.01]), unit(0.0, 1.0))


@st.composite
def meta(draw, cid=None, full=False):
    m = {}
    if cid is not None:
        m["cid"] = cid
    elif full or draw(st.booleans()):
        m["cid"] = draw(st.sampled_from(["a", "0xff", "c-1", 7, 0]))
    if full or draw(st.booleans()):
        m["fee"] = draw(st.sampled_from([0, 0.0, 0.003, 0.01, 0.0005]))
    if full or draw(st.booleans()):
        m["descr"] = draw(st.sampled_from(["UniV3", "Carbon maker", "it's", ""]))
    k = draw(weighted((3, None), (1, {}), (2, {"exchange": "uniswap"}), (1, {"a": {"b": 1.5, "c": None}, "t": True}),
                      (1, {"name": "it's \"x\"", "l": [1, 2]})))
    if k is not None:
        m["params"] = k
    return m


@st.composite
def curve(draw, pair=None, p=None, size=None, cid=None, full=False, ctors=None, pairs=None):
    """{"ctor":, "a": {...arguments}}: one curve, around price p (quote per base) when given"""
    pair = pair or draw(pairs or PAIR)
    p = p if p is not None else draw(pos(-6, 6))
    size = size if size is not None else draw(pos(-3, 7))        # virtual balance of the quote token
    ctor = draw(st.sampled_from(ctors or ["kx", "ky", "xy", "pk", "px", "py", "pkpp", "univ2", "univ3", "carbon", "carbon"]))
    x, y = size / p, size
    k = x * y
    full = full or ctor in ("univ2", "univ3")
    m = draw(meta(cid, full))
    a = {"pair": pair}
    if ctor in ("kx", "ky", "xy", "pk", "px", "py"):
        src = {"k": k, "x": x, "y": y, "p": p}
        for c in ctor:
            a[c] = src[c]
        # both default to everything; with bounds
        fx, fy = draw(act(x)), draw(act(y))
        if fx is not None:
            a["x_act"] = x * fx
        if fy is not None:
            a["y_act"] = y * fy
    elif ctor == "pkpp":
        a.update(p=p, k=k)
        lo, hi = draw(widths()), draw(widths())
        if lo is not None:
            a["p_min"] = p / (1 + lo)
        if hi is not None:
            a["p_max"] = p * (1 + hi)
    elif ctor == "univ2":
        drop = draw(st.sampled_from("kxy"))
        src = {"k": k, "x_tknb": x, "y_tknq": y}
        a.update({n: v for n, v in src.items() if n[0] != drop})
    elif ctor == "univ3":
        a.update(Pmarg=p, uniL=k ** 0.5, uniPa=p / (1 + draw(widths(False))), uniPb=p * (1 + draw(widths(False))))
    else:
        b, q = pair.split("/")
        tkny = draw(st.sampled_from([b, q]))
        pm = p if tkny == q else 1 / p                # dy/dx
        w = draw(st.one_of(st.just(0.0), widths(False)))
        f = draw(st.one_of(st.sampled_from([1.0, 0.0, 0.5]), unit(0.0, 1.0)))
        yint = size if tkny == q else size / p
        a.update(tkny=tkny, yint=yint, y=yint * f)
        if draw(st.booleans()) and w > 0:
            pa, pb = pm * (1 + w), pm
            a["A"], a["B"] = pa ** 0.5 - pb ** 0.5, pb ** 0.5
        else:
            a["pa"], a["pb"] = pm * (1 + w), pm
            if draw(st.booleans()):
                a["isdydx"] = False
                if tkny != q:
                    a["pa"], a["pb"] = 1 / a["pa"], 1 / a["pb"]
    a.update(m)
    return {"ctor": ctor, "a": a}


def widths(zero=True):
    s = st.one_of(st.sampled_from([1e-4, 0.01, 0.1, 1.0, 10.0]), st.floats(1e-4, 20.0))
    return st.one_of(st.none(), st.just(0.0), s, s, s) if zero else s


FR = st.one_of(st.sampled_from([0.0, 1.0, 0.5, -1.0, 1e-6, 0.999999]), st.floats(-1.0, 1.0).map(lambda v: 0.0 if abs(v) < 1e-7 else v))
OVER = st.one_of(st.sampled_from([1.0001, 1.5, 10.0]), st.floats(1.0001, 20.0))


@st.composite
def curve_case(draw):
    c = draw(curve())
    return {"curve": c, "f": draw(st.lists(FR, min_size=1, max_size=4)), "over": draw(OVER),
            "trades": draw(st.lists(st.tuples(st.sampled_from(["dx", "dy"]), FR, weighted((6, False), (1, True))), max_size=4)),
            "bad": draw(st.integers(0, 23)), "mult": draw(st.sampled_from([1.0, 2.5]))}


@st.composite
def coll(draw, maxn=6, toks=None, serial=False):
    toks = toks or draw(st.lists(st.sampled_from(TOKS), min_size=2, max_size=4, unique=True))
    val = {t: draw(pos(-3, 4)) for t in toks}
    n = draw(st.integers(1, maxn))
    cs = []
    for i in range(n):
        b, q = draw(st.lists(st.sampled_from(toks), min_size=2, max_size=2, unique=True))
        p = val[b] / val[q] * (1 + draw(st.floats(-0.1, 0.1)))
        cid = draw(weighted((3, f"c{i}"), (1, None))) if not serial else f"c{i}"
        c = draw(curve(pair=f"{b}/{q}", p=p, size=draw(pos(0, 5)), cid=cid if cid is not None else "none"))
        if cid is None:
            c["a"].pop("cid")
            if c["ctor"] in ("univ2", "univ3"):
                c["a"]["cid"] = f"c{i}"
        if c["ctor"] == "univ2" and serial:
            pass
        cs.append(c)
    return {"toks": toks, "curves": cs}


@st.composite
def coll_case(draw):
    c = draw(coll())
    toks = c["toks"] + ["XYZ"]
    cond = draw(st.dictionaries(st.sampled_from(["bothin", "onein", "notin", "contains", "tknbin", "tknbnotin", "tknqin", "tknqnotin", "onein_1", "onein_2", "notin_1"]),
                                st.lists(st.sampled_from(toks), min_size=1, max_size=3, unique=True), max_size=3))
    c.update(cond=cond, condstr=draw(st.booleans()), any=draw(st.booleans()), explicit=draw(st.booleans()),
             pairs=draw(st.lists(st.lists(st.sampled_from(toks), min_size=2, max_size=2, unique=True).map("/".join), max_size=3)),
             pick=draw(st.lists(st.integers(0, 9), max_size=4, unique=True)), drop=draw(st.lists(st.integers(0, 9), max_size=3, unique=True)),
             tk=draw(st.lists(st.sampled_from(toks), min_size=1, max_size=3, unique=True)),
             blank=draw(st.booleans()), mode=draw(st.sampled_from(["list", "gen", "add", "iadd", "inverted"])),
             scale=draw(weighted((2, False), (1, True))), tables=draw(weighted((2, False), (1, True))), dx=draw(FR), pf=draw(st.one_of(st.none(), st.floats(0.2, 5.0))))
    return c


@st.composite
def serial_case(draw):
    c = draw(coll(serial=True))
    c["fmt"] = draw(st.sampled_from(["dicts", "json", "df", "csv", "pickle", "dfpickle", "csvgz", "tsv"]))
    c["twice"] = draw(st.booleans())
    c["scale"] = draw(weighted((2, False), (1, True)))
    return c
