"""strategies of the simulation module, random and interpolated paths"""
import copy
import math

import numpy as np
import pandas as pd
from carbon import CarbonSimulatorUI
from carbon.helpers import PathGenerator, PathInterpolation, interpolate, strategy
from carbon.helpers import simulation

from .base import Skip, expect_exc, need, need_close

PR = ("p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b")
SEED = 1e-10


def _seed(a):
    return SEED if a == 0 and a is not None else a


def _prices(s, want, sig, ctx, rel=1e-12):
    for k, w in zip(PR, want):
        need_close(getattr(s, k), w, sig, rel, 0, lambda: f"{k} {ctx()}")
    need((s.p_ask_a, s.p_ask_b, s.p_bid_a, s.p_bid_b) == tuple(getattr(s, k) for k in PR), "P27.alias", ctx)


def _build(c):
    """-> strategy, expected prices, marginals, amounts, names, rescale flag, (yint sell, yint buy)"""
    kind = c["kind"]
    nm = c["names"] or ["RSK", "CSH"]
    kw = {} if c["names"] is None else {"rsk": nm[0], "csh": nm[1]}
    two = lambda v: tuple(v) if isinstance(v, list) else (v, v)
    if kind in ("mgw", "dct"):
        m, g = c["m"], c["g"] or 0.0001
        ws, wb = (x or 0.0001 for x in two(c["w"]))
        us, ub = (min(x, 0.999) for x in two(c["u"]))
        sa = m * (1 + g / 2); ba = m / (1 + g / 2)
        want = (sa, sa * (1 + ws), ba, ba / (1 + wb))
        marg = ((1 - us) * want[0] + us * want[1] if us else None, (1 - ub) * want[2] + ub * want[3] if ub else None)
        w = tuple(c["w"]) if isinstance(c["w"], list) else c["w"]
        if kind == "mgw":
            s = strategy.from_mgw(m=m, g=c["g"], w=w, u=c["u"], amt_rsk=c["amt"][0], amt_csh=c["amt"][1], **kw)
            return s, want, marg, [_seed(a) for a in c["amt"]], nm, True, (None, None)
        d = {"strat_type": "MGW" if c["fixed"] else "mgw", "strat_m": m, "strat_g": c["g"]}
        if isinstance(c["w"], list):
            d.update(strat_wsell=c["w"][0], strat_wbuy=c["w"][1])
        else:
            d["strat_w"] = c["w"]
        if isinstance(c["u"], list):
            d.update(strat_usell=c["u"][0], strat_ubuy=c["u"][1])
        else:
            d["strat_u"] = c["u"]
        before = dict(d)
        s = strategy.from_dct(d)
        need(d == before, "P27.dct.input")
        return s, want, marg, [None, None], ["RSK", "CSH"], True, (None, None)
    if kind == "sb":
        p = c["p"]
        if c["scalar"]:
            sell, buy = max(p), min(p)
            want = (sell, sell, buy, buy)
        else:
            sell, buy = (p[0], p[1]), (p[2], p[3])
            want = (min(sell), max(sell), max(buy), min(buy))
        if want[2] > want[0] and not c["overlap"]:
            expect_exc(lambda: strategy.from_sb(sell, buy, fixed=c["fixed"]), "P27.sb.overlap", ValueError, f"{sell} {buy}")
            expect_exc(lambda: strategy.from_sb(sell, buy, fixed=c["fixed"], overlapping=False), "P27.sb.overlap", ValueError)
        s = strategy.from_sb(sell, buy, fixed=c["fixed"], overlapping=c["overlap"] or want[2] > want[0])
        return s, want, (None, None), [None, None], ["RSK", "CSH"], not c["fixed"], (None, None)
    if kind == "u3":
        lo, hi = c["m"], c["hi"]
        tvl = 1000 if c["tvl"] is None else c["tvl"]
        g = math.sqrt(lo * hi)
        sh = g * (c["fee"] or 0) * 0.5
        if lo - sh <= 0:
            raise Skip()
        kw2 = dict(kw)
        if c["tvl"] is not None:
            kw2["tvl_csh"] = c["tvl"]
        if c["fee"] is not None:
            kw2["fee_pc"] = c["fee"]
        s = strategy.from_u3(lo, hi, c["below"], **kw2)
        am = [tvl / g, SEED] if c["below"] else [SEED, tvl]
        if c["fee"] is not None:
            t = strategy.from_dct({"strat_type": "uv3", "p_lo": lo, "p_hi": hi, "start_below": 1 if c["below"] else 0, "fee_pc": c["fee"]})
            need([getattr(t, k) for k in PR] == [getattr(s, k) for k in PR] and t.rescale is False, "P27.dct.uv3", lambda: f"{t} {s}")
        return s, (lo + sh, hi + sh, hi - sh, lo - sh), (None, None), am, nm, False, (tvl / g, tvl)
    p = sorted(c["p"])
    want = (p[2], p[3], p[1], p[0])
    kw = dict(kw)
    marg = yi = (None, None)
    if c["marg"] is not None:
        marg = (p[2] + 0.9 * c["marg"] * (p[3] - p[2]), p[1] - 0.9 * c["marg"] * (p[1] - p[0]))
        kw.update(psell_marginal=marg[0], pbuy_marginal=marg[1])
    elif c["yint"] is not None and all(c["amt"]):
        yi = (c["amt"][0] * c["yint"], c["amt"][1] * c["yint"])
        kw.update(y_int_sell=yi[0], y_int_buy=yi[1])
    s = strategy(*want, amt_rsk=c["amt"][0], amt_csh=c["amt"][1], rescale=not c["fixed"], **kw)
    t = strategy.from_dct({"strat_type": "fixed", "p_sell_a": want[0], "p_sell_b": want[1], "p_buy_a": want[2], "p_buy_b": want[3]})
    need(tuple(getattr(t, k) for k in PR) == want and t.rescale is False, "P27.dct.fixed", lambda: f"{t}")
    return s, want, marg, [_seed(a) for a in c["amt"]], nm, not c["fixed"], yi


def strat(case):
    c = case
    s, want, marg, am, nm, resc, yi = _build(c)
    ctx = lambda: f"{s} {c}"
    labels = {c["kind"]}
    _prices(s, want, "P27.prices", ctx)
    for a, b, sig in ((s.psell_marginal, marg[0], "P27.marginal"), (s.pbuy_marginal, marg[1], "P27.marginal"), (s.amt_rsk, am[0], "P27.amount"), (s.amt_csh, am[1], "P27.amount"), (s.y_int_sell, yi[0], "P27.yint"), (s.y_int_buy, yi[1], "P27.yint")):
        need((a is None) == (b is None), sig, ctx)
        if a is not None:
            need_close(a, b, sig, 1e-12, 0, ctx)
    need((s.rsk, s.csh) == tuple(nm) and s.slashpair == f"{nm[0]}/{nm[1]}", "P27.names", ctx)
    need(s.rescale is resc and s.rescaled_fctr is None, "P27.rescale.flag", ctx)
    # --- the description used to create the orders
    d = s.dct
    need(d == {"tkn": nm[0], "amt_sell": s.amt_rsk, "psell_start": s.p_sell_a, "psell_end": s.p_sell_b, "amt_buy": s.amt_csh, "pbuy_start": s.p_buy_a, "pbuy_end": s.p_buy_b, "pair": f"{nm[0]}/{nm[1]}",
               "psell_marginal": s.psell_marginal, "pbuy_marginal": s.pbuy_marginal, "y_int_sell": s.y_int_sell, "y_int_buy": s.y_int_buy}, "P27.dct", lambda: f"{d} {ctx()}")
    # --- a new price
    before = copy.copy(s)
    new = 100 if c["new"] is None else c["new"]
    old = 100 if c["old"] is None else c["old"]
    kw = {k: v for k, v in (("newspot", c["new"]), ("oldspot", c["old"])) if v is not None}
    if c["force"]:
        kw["force"] = True
    t = s.rescale_strat(**kw)
    need(s == before and t is not s, "P27.rescale.input", ctx)
    if s.rescale or c["force"]:
        f = new / old
        for k in PR + ("psell_marginal", "pbuy_marginal"):
            a, b = getattr(t, k), getattr(s, k)
            need((a is None) == (b is None), "P27.rescale.none", lambda: f"{k} {t} {s}")
            if a is not None:
                need_close(a, b * f, "P27.rescale.prices", 1e-12, 0, lambda: f"{k} {t} {s} {f}")
        need((t.amt_rsk, t.amt_csh, t.rsk, t.csh, t.y_int_sell) == (s.amt_rsk, s.amt_csh, s.rsk, s.csh, s.y_int_sell), "P27.rescale.rest", lambda: f"{t} {s}")
        need(t.rescale is False, "P27.rescale.once", lambda: f"{t}")
        need_close(t.rescaled_fctr, f, "P27.rescale.factor", 1e-12)
        labels.add("rescaled")
    else:
        need(t == s, "P27.rescale.fixed", lambda: f"{t} {s}")
    # --- seeding with a value
    v = s.set_tvl(c["spot"], c["cash"], c["value"])
    need(s == before, "P27.tvl.input", ctx)
    if s.amt_rsk is None and s.amt_csh is None:
        need_close(v.amt_csh, c["value"] * c["cash"], "P27.tvl", 1e-12, 1e-12 * c["value"], lambda: f"{v}")
        need_close(v.amt_rsk * c["spot"] + v.amt_csh, c["value"], "P27.tvl", 1e-12, 0, lambda: f"{v} {c}")
        v2 = copy.copy(v); v2.amt_rsk = v2.amt_csh = None
        need(v2 == s, "P27.tvl.rest", lambda: f"{v} {s}")
        seeded = v
    else:
        need(v == s, "P27.tvl.kept", lambda: f"{v} {s}")
        seeded = s
    # --- the orders made from it
    if seeded.amt_rsk and seeded.amt_csh and c["kind"] != "sb" or not c["scalar"] and c["kind"] == "sb" and seeded.amt_rsk and seeded.amt_csh:
        # a marginal price inside a range of zero width is 0/0: nothing says what such an order is
        if not any(m is not None and abs(a - b) <= 1e-9 * abs(a) for m, a, b in ((marg[0], want[0], want[1]), (marg[1], want[2], want[3]))):
            _orders(seeded, nm, labels, want, marg)
    if c["kind"] == "u3" and not c["fee"]:
        _u3(c, s, labels)
    # --- nonsense is refused
    bad = c["bad"]
    if bad == "u":
        expect_exc(lambda: strategy.from_mgw(m=100, g=0.1, w=0.1, u=1.5), "P27.bad.u", ValueError); expect_exc(lambda: strategy.from_mgw(m=100, g=0.1, w=0.1, u=-0.1), "P27.bad.u", ValueError)
    elif bad == "w":
        expect_exc(lambda: strategy.from_mgw(m=100, g=0.1, w=-0.1), "P27.bad.w", ValueError); expect_exc(lambda: strategy.from_mgw(m=100, g=0.1, w=(0.1, -0.1)), "P27.bad.w", ValueError)
    elif bad == "hi":
        expect_exc(lambda: strategy.from_u3(c["hi"], c["m"], True), "P27.bad.hi", ValueError)
    elif bad == "both":
        expect_exc(lambda: strategy(110, 120, 100, 90, psell_marginal=111, y_int_sell=5), "P27.bad.both", ValueError); expect_exc(lambda: strategy(110, 120, 100, 90, pbuy_marginal=95, y_int_sell=5), "P27.bad.both", ValueError)
    else:
        expect_exc(lambda: strategy.from_dct({"strat_type": "nosuch"}), "P27.bad.type", ValueError)
        need(strategy.from_dct({"strat_type": "nosuch"}, raiseonerror=False) is None, "P27.bad.type.none")
    return {"nontrivial": True, "labels": sorted(labels)}


def _orders(s, nm, labels, want, marg):
    sim = CarbonSimulatorUI(pair=s.slashpair, raiseonerror=True, verbose=False)
    r = sim.add_strategy(**s.dct)
    need(r["success"] is True, "P27.orders", lambda: f"{r}")
    ou = list(sim.state()["orderuis"].values())
    need(len(ou) == 2, "P27.orders", lambda: f"{ou}")
    sell = [o for o in ou if o.tkn == nm[0]][0]
    buy = [o for o in ou if o.tkn == nm[1]][0]
    for o, a, b, mg, y in ((sell, want[0], want[1], marg[0], s.amt_rsk), (buy, want[2], want[3], marg[1], s.amt_csh)):
        need_close(o.p_start, a, "P27.orders.start", 1e-9, 0, lambda: f"{o} {s}")
        need_close(o.p_end, b, "P27.orders.end", 1e-9, 0, lambda: f"{o} {s}")
        need_close(o.y, y, "P27.orders.amount", 1e-12, 0, lambda: f"{o} {s}")
        if mg is not None:
            need_close(o.p_marg, mg, "P27.orders.marginal", 1e-6, 0, lambda: f"{o} {s}")
        elif s.y_int_sell is None and s.y_int_buy is None:
            need_close(o.p_marg, a, "P27.orders.marginal", 1e-9, 0, lambda: f"{o} {s}")
    labels.add("orders")


def _u3(c, s, labels):
    """along a path the strategy holds what a Uniswap v3 position holds"""
    lo, hi = c["m"], c["hi"]
    if hi / lo < 1.01:
        return
    tvl = 1000 if c["tvl"] is None else c["tvl"]
    L = tvl / (math.sqrt(hi) - math.sqrt(lo))
    mid = math.sqrt(lo * hi)
    p0 = lo * 0.99 if c["below"] else hi * 1.01
    path = [p0] + [lo * (hi / lo) ** ((x - 0.5) * 1.2 + 0.5) for x in c["path"]]
    res = simulation.run_sim(s, pd.Series(path, index=pd.date_range("2020-01-01", periods=len(path))))
    for k, p in enumerate(path):
        q = min(max(p, lo), hi)
        x = L * (1 / math.sqrt(q) - 1 / math.sqrt(hi)); y = L * (math.sqrt(q) - math.sqrt(lo))
        need_close(res.rskamt_r[k], x, "P27.u3.rsk", 1e-7, 1e-7 * tvl / mid + 4 * SEED * (1 + 1 / lo), lambda: f"{k} {path} {res.rskamt_r} {s}")
        need_close(res.cshamt_r[k], y, "P27.u3.csh", 1e-7, 1e-7 * tvl + 4 * SEED * (1 + hi), lambda: f"{k} {path} {res.cshamt_r} {s}")
        need_close(res.value_r.iloc[k], x * p + y, "P27.u3.value", 1e-6, 1e-7 * tvl + 4 * SEED * (1 + p), lambda: f"{k} {path}")
    labels.add("u3path")


# ------------------------------------------------------------------------------------------ paths
class Seeded:
    """random number generators made without a seed get one, so that failures can be replayed"""
    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.old = np.random.default_rng
        n = [0]

        def rng(seed=None, *a, **k):
            n[0] += 1
            return self.old([self.seed, n[0]] if seed is None else seed, *a, **k)
        np.random.default_rng = rng
        np.random.seed(self.seed % 2 ** 32)

    def __exit__(self, *a):
        np.random.default_rng = self.old


def path(case):
    with Seeded(case["seed"]):
        return _path(case)


def _path(c):
    labels = set()
    P = PathInterpolation
    vals = c["vals"]
    idx = [pd.Timestamp(c["start"])]
    for g in c["gaps"]:
        idx.append(idx[-1] + pd.Timedelta(seconds=g))
    ser = pd.Series(vals, index=pd.DatetimeIndex(idx))
    before = ser.copy()
    yrs = lambda s: s / 86400 / 365.25
    T = yrs(sum(c["gaps"]))
    # --- estimated volatility
    n = len(vals) - 1
    dt = T / n
    std = lambda v: math.sqrt(sum((x - sum(v) / len(v)) ** 2 for x in v) / len(v))
    sd = std([b - a for a, b in zip(vals, vals[1:])]) / math.sqrt(dt)
    sg = std([math.log(b / a) for a, b in zip(vals, vals[1:])]) / math.sqrt(dt)
    e = P.estimate_vol(ser)
    need_close(e[0], sd, "P27.vol", 1e-9, 1e-9 * max(vals) / math.sqrt(dt), lambda: f"{e} {sd} {sg} {c}"); need_close(e[1], sg, "P27.vol", 1e-9, 1e-9 / math.sqrt(dt), lambda: f"{e} {sd} {sg} {c}")
    e = P.estimate_vol_np(np.array(vals), T)
    need_close(e[0], sd, "P27.vol.np", 1e-9, 1e-9 * max(vals) / math.sqrt(dt)); need_close(e[1], sg, "P27.vol.np", 1e-9, 1e-9 / math.sqrt(dt))
    # --- the bridge
    k = c["bridge"]
    a, b = vals[0], vals[1]
    s = 0.3
    y = P.gaussian_bridge(a, b, s, k)
    need(len(y) == max(k, 1) + 1 and y[0] == a and y[-1] == b, "P27.bridge.ends", lambda: f"{y[:3]} {y[-3:]} {len(y)}")
    need(np.all(np.abs(y - np.linspace(a, b, len(y))) <= 6 * s * (a + b) / 2 + 1e-9 * (a + b)), "P27.bridge.scale", lambda: f"{y}")
    if k >= 500:
        r = np.std(np.diff(y)) * math.sqrt(k) / (s * (a + b) / 2)
        need(abs(r - 1) < 8 / math.sqrt(2 * k) + 2 / k, "P27.bridge.vol", lambda: f"{r} {k}")
    z = P.gaussian_bridge(a, b, 0, k)
    need(np.allclose(z, np.linspace(a, b, len(z)), rtol=1e-9, atol=0), "P27.bridge.line", lambda: f"{z}")
    # --- the interpolated path
    per = pd.Timedelta(seconds=c["period"])
    if sum(g / c["period"] for g in c["gaps"]) > 3000:
        raise Skip()
    kw = {}
    if c["sig"] is not None:
        kw["sig"] = c["sig"]
    if c["fctr"] is not None:
        kw["sigfctr"] = c["fctr"]
    if not c["enable"]:
        kw["enable"] = False
    q = (interpolate if c["bridge"] % 2 else P.interpolate)(ser, per, **kw)
    need(ser.equals(before), "P27.interp.input")
    ctx = lambda: f"{q} {c}"
    if not c["enable"]:
        need(q.equals(ser), "P27.interp.disabled", ctx)
        return {"nontrivial": True, "labels": ["disabled"]}
    sig = c["sig"] if c["sig"] is not None else sg * (1 if c["fctr"] is None else c["fctr"])
    need(q.index.is_monotonic_increasing and q.index.is_unique, "P27.interp.index", ctx)
    for t, v in ser.items():
        need(t in q.index and q[t] == v, "P27.interp.points", lambda: f"{t} {v} {ctx()}")
    need(q.index[0] == ser.index[0] and q.index[-1] == ser.index[-1], "P27.interp.ends", ctx)
    for i, g in enumerate(c["gaps"]):
        seg = q[(q.index >= idx[i]) & (q.index <= idx[i + 1])]
        m = len(seg) - 1
        x = g / c["period"]
        need(m >= 1 and (abs(m - x) <= 0.5 + 1e-9 if x >= 1 else m == 1), "P27.interp.count", lambda: f"{m} {x} {ctx()}")
        a, b = vals[i], vals[i + 1]
        for j, (t, v) in enumerate(seg.items()):
            need(abs((t - idx[i]).total_seconds() - g * j / m) < 1e-3, "P27.interp.spacing", ctx)
            line = a + (b - a) * j / m
            need_close(v, line, "P27.interp.scale", 1e-9, 6 * sig * math.sqrt(yrs(g)) * (a + b) / 2, lambda: f"{i} {j} {ctx()}")
        if m > 1:
            labels.add("inner")
        if x < 1:
            labels.add("close")
    _gen(c["gen"], labels)
    return {"nontrivial": "inner" in labels, "labels": sorted(labels), "n": 2}


def _gen(g, labels):
    kw = {k: g[k] for k in ("mu", "sig", "s0", "time", "N", "colname") if g[k] is not None}
    if g["startdt"]:
        kw["startdt"] = tuple(g["startdt"])
    G = PathGenerator(**kw)
    D = {"mu": 0, "sig": 0.5, "s0": 100, "time": 1, "N": 200}
    v = {k: kw.get(k, D[k]) for k in D}
    p = G.path()
    N = v["N"]
    need(len(p) == N + 1 and abs(p[0] - v["s0"]) <= 1e-12 * v["s0"] and np.all(p > 0), "P27.gen.path", lambda: f"{p[:3]} {g}")
    need(len(G.times) == N + 1 and G.times[0] == 0 and abs(G.times[-1] - v["time"]) < 1e-9 * v["time"], "P27.gen.times", lambda: f"{G.times}")
    import datetime as dtm
    st = dtm.datetime(*(g["startdt"] or (2020, 1, 1)))
    need(len(G.datetimes) == N + 1 and G.datetimes[0] == st and abs((G.datetimes[-1] - st).total_seconds() - v["time"] * 365.25 * 86400) < 1, "P27.gen.dates", lambda: f"{G.datetimes[-1]} {g}")
    if v["sig"] == 0:
        need(np.allclose(p, v["s0"] * np.exp(v["mu"] * G.times), rtol=1e-9, atol=0), "P27.gen.drift", lambda: f"{p} {g}")
        labels.add("drift")
    q = G()
    need(len(q) == N + 1, "P27.gen.call")
    if v["sig"] > 0 and N > 2:
        need(not np.array_equal(p, q), "P27.gen.random", lambda: f"{p}")
    df = G.pathdf(numpaths=g["numpaths"], **({"colname": g["dfcol"]} if g["dfcol"] else {}))
    fmt = g["dfcol"] or g["colname"] or "p{sig100:03d}-{mu100:02d}-{ix:03d}"
    s100, m100 = int(round(v["sig"] * 100)), int(round(v["mu"] * 100))
    need(list(df.columns) == [fmt.format(sig100=s100, mu100=m100, ix=i) for i in range(g["numpaths"])], "P27.gen.columns", lambda: f"{list(df.columns)} {g}")
    need(len(df) == N + 1 and list(df.index) == list(G.datetimes) and df.index.name == "datetime", "P27.gen.index", lambda: f"{df.index}")
    need(all(abs(df[c].iloc[0] - v["s0"]) <= 1e-12 * v["s0"] for c in df), "P27.gen.df", lambda: f"{df.head()}")
    # --- drift and volatility of a long path (bounds of 8 standard deviations)
    n, dt = g["statn"], g["statdt"]
    sig = max(v["sig"], 0.05)
    H = PathGenerator(mu=v["mu"], sig=sig, s0=v["s0"], time=n * dt, N=n)
    inc = H.path()
    lr = None
    if np.all(np.isfinite(inc)) and np.all(inc > 1e-290):
        lr = np.diff(np.log(inc))
        sd = sig * math.sqrt(dt)
        need(abs(lr.mean() - (v["mu"] - sig * sig / 2) * dt) < 8 * sd / math.sqrt(n), "P27.gen.mean", lambda: f"{lr.mean()} {g} {sig}")
        need(abs(lr.std() / sd - 1) < 8 / math.sqrt(2 * n), "P27.gen.std", lambda: f"{lr.std()} {sd} {g}")
        labels.add("stat")


# ------------------------------------------------------------------------------------------ records
def records(case):
    rr = dict((k, dict(r)) for k, r in case["recs"])
    before = copy.deepcopy(rr)
    df = pd.DataFrame([r for _, r in case["recs"]], index=[k for k, _ in case["recs"]])
    back = strategy.rr(df)
    need(list(back) == list(rr) and all(set(back[k]) == set(rr[k]) and all(back[k][f] == rr[k][f] for f in rr[k]) for k in rr), "P27.rr", lambda: f"{back} {rr}")
    k0 = list(rr)[0]
    r0 = strategy.r0(rr)
    need(r0 == rr[k0], "P27.r0")
    for k, r in rr.items():
        full = {f: (r[f] if r[f] != r0[f] else None) for f in r0}
        need(strategy.dr(r, r0, purge=False) == full, "P27.dr.full", lambda: f"{r} {r0}")
        need(strategy.dr(r, r0) == {f: v for f, v in full.items() if v is not None and f not in ("id0", "comment")}, "P27.dr", lambda: f"{r} {r0} {strategy.dr(r, r0)}")
    res = strategy.drr(rr, baseline=case["baseline"], purge=case["purge"])
    for k in rr:
        want = strategy.dr(rr[k], r0, case["purge"])
        if k == k0 and case["baseline"]:
            want = {f: v for f, v in r0.items() if f not in ("id0", "comment")}
        need(res[k] == want, "P27.drr", lambda: f"{k} {res} {rr} {case}")
    need(list(res) == list(rr), "P27.drr.keys")
    d = strategy.drr(rr, asdf=True, comment=case["comment"])
    cols = [f for f in r0 if f != "id0" and (f != "comment" or case["comment"]) and any(r[f] != r0[f] and r[f] != "" for r in rr.values())]
    need(set(d.columns) == set(cols) and list(d.index) == list(rr), "P27.drr.df", lambda: f"{d} {rr} {cols}")
    for k in rr:
        for f in cols:
            need(d.loc[k, f] == (rr[k][f] if rr[k][f] != r0[f] else ""), "P27.drr.cell", lambda: f"{k} {f} {d} {rr}")
    need(rr == before, "P27.drr.input", lambda: f"{rr} {before}")
    x = case["x"]
    y = strategy.filter_isnan(x)
    need(y is x or y == x, "P27.filter", lambda: f"{x!r} {y!r}")
    need(strategy.filter_isnan(float("nan")) == "" and strategy.filter_isnan(np.nan) == "", "P27.filter.nan")
    return {"nontrivial": len(cols) > 0 or len(rr) == 1, "labels": []}
