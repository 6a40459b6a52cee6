"""sets of curves for the arbitrage optimisers"""
from hypothesis import strategies as st
from .common import pos, weighted, unit
from .cpc import TOKS

W = st.one_of(st.sampled_from([0.01, 0.1, 1.0]), st.floats(0.005, 3.0))


@st.composite
def one(draw, pair, p, size, cid, full):
    """one curve at price p (quote per base); full: trades at all prices"""
    x, y = size / p, size
    a = {"pair": pair, "cid": cid, "fee": draw(st.sampled_from([0, 0.003])), "descr": "d"}
    if full:
        c = draw(st.sampled_from(["univ2", "pk", "xy", "kx", "pkpp", "univ2"]))
        if c == "univ2":
            a.update(x_tknb=x, y_tknq=y)
        elif c == "pk":
            a.update(p=p, k=x * y)
        elif c == "xy":
            a.update(x=x, y=y)
        elif c == "kx":
            a.update(x=x, k=x * y)
        else:
            a.update(p=p, k=x * y, p_min=p * 1e-12, p_max=p * 1e12)
        return {"ctor": c, "a": a}
    c = draw(st.sampled_from(["pkpp", "univ3", "carbon", "carbon"]))
    lo, hi = p / (1 + draw(W)), p * (1 + draw(W))
    if c == "pkpp":
        a.update(p=p, k=x * y, p_min=lo, p_max=hi)
    elif c == "univ3":
        a.update(Pmarg=p, uniL=(x * y) ** 0.5, uniPa=lo, uniPb=hi)
    else:
        b, q = pair.split("/")
        tkny = draw(st.sampled_from([b, q]))
        pm = p if tkny == q else 1 / p
        w = draw(W)
        yint = (size if tkny == q else size / p) * 0.2
        a.update(tkny=tkny, yint=yint, y=yint * draw(st.sampled_from([1.0, 0.5, 0.9, 0.2, 0.0])), pa=pm * (1 + w * 0.3), pb=pm / (1 + w * 0.3))
    return {"ctor": c, "a": a}


@st.composite
def opt_case(draw, ntok=None, nmax=7, small=False):
    n = ntok or draw(st.sampled_from([2, 2, 3, 3, 4] if not small else [2, 2, 3]))
    toks = draw(st.lists(st.sampled_from(TOKS), min_size=n, max_size=n, unique=True))
    ext = draw(weighted((4, 2), (1, 5)))
    val = {t: draw(pos(-ext, ext)) for t in toks}
    full = small or draw(weighted((3, True), (2, False)))
    if small:
        val = {t: draw(st.floats(0.3, 3.0)) for t in toks}
    elif draw(weighted((9, False), (1, True))):         # prices next to one
        val = {t: 1.0 + draw(st.floats(-9, 9)) * 10.0 ** draw(st.integers(-16, -7)) for t in toks}
    star = ntok == 2 or draw(weighted((5, True), (1, False)))
    target = toks[0] if star else draw(st.sampled_from(toks))
    spread = draw(st.sampled_from([0.0, 0.001, 0.02, 0.2, 0.2]))
    L = draw(pos(0, 6)) if not small else draw(st.floats(10, 1000))
    pairs = [(toks[0], t) for t in toks[1:]]
    for _ in range(draw(st.integers(1 if n == 2 else 0, max(1, nmax - len(pairs))))):
        pairs.append(tuple(draw(st.lists(st.sampled_from(toks), min_size=2, max_size=2, unique=True))))
    cs = []
    for i, (b, q) in enumerate(pairs):
        if draw(st.booleans()):
            b, q = q, b
        p = val[b] / val[q] * (1 + draw(st.floats(-1, 1)) * spread)
        size = L / val[q] * draw(st.sampled_from([1.0, 1.0, 0.1, 3.0]))
        f = full or draw(weighted((2, False), (1, True)))
        cs.append(draw(one(f"{b}/{q}", p, size, f"c{i}", f)))
    m = len(cs)
    return {"toks": toks, "target": target, "curves": cs, "full": full, "star": star, "spread": spread,
            "perm": draw(st.permutations(list(range(m)))), "flip": draw(st.lists(st.booleans(), min_size=m, max_size=m)),
            "at": draw(st.lists(st.floats(-0.3, 0.3), min_size=n - 1, max_size=n - 1)), "ti": draw(st.sampled_from(["objects", "dicts", "dfraw", "dfaggr", "dfp"])),
            "pstart": draw(st.sampled_from([None, None, "dict", "df"])), "vals": [val[t] for t in toks]}


@st.composite
def pair_case(draw):
    c = draw(opt_case(ntok=2, nmax=6))
    c["target"] = draw(st.sampled_from(c["toks"]))
    return c


@st.composite
def convex_case(draw):
    c = draw(opt_case(nmax=5, small=True))
    c["solver"] = draw(st.sampled_from(["ECOS", "ECOS", "SCS"]))
    c["sfc"] = draw(st.sampled_from(["str", "SFC", "SFCd", "SFCa"]))
    c["want"] = draw(st.sampled_from(["AMMPays", "AMMReceives", "OptimizationVar"]))
    c["amt"] = draw(st.one_of(st.just(0), st.floats(-0.05, 0.05)))
    c["maxconstr"] = draw(st.booleans())
    return c


@st.composite
def seek_case(draw):
    r = draw(pos(-8, 8))
    lo, hi = r * (1 - draw(st.floats(0.0, 0.9))), r * (1 + draw(st.floats(0.0, 2.0)))
    return {"root": r, "lo": lo, "hi": hi, "kind": draw(st.sampled_from(["lin", "sqrt", "inv", "cube", "step"])), "sign": draw(st.sampled_from([1, -1])),
            "a": draw(st.floats(0.2, 5)), "x0": draw(st.floats(-5, 5)), "m": draw(st.floats(-5, 5)), "h": draw(st.floats(-5, 5)),
            "vec": draw(st.lists(st.floats(-1e6, 1e6), max_size=5))}
