"""P25: Uniswap v3 positions against exact arithmetic"""
import dataclasses
from decimal import Decimal as D, getcontext
from math import isqrt
from .base import need, need_close, expect_exc
from carbon.tools.univ3calc import Univ3Calculator as U3
from carbon.tools.cpc import ConstantProductCurve as CPC

getcontext().prec = 80
DEC = {"USDC": 6, "WETH": 18}
ADDR = {"USDC": "0xA0b86991c6218b36c1d19D4a2e9Eb0cE3606eB48", "WETH": "0xC02aaA39b223FE8D0A0e5C4F27eAD9083C756Cc2"}
B = D("1.0001")
R = 1e-9


def p25(case):
    ts, ta, L = case["ts"], case["ta"], case["liq"]
    n0, n1 = case["names"]
    d0, d1 = (DEC.get(n, d) for n, d in zip(case["names"], case["dec"]))
    arg = [ADDR.get(n, n) if case["addr"] else n for n in case["names"]]
    conv = str if case["strs"] else int
    kw = {}
    if n0 not in DEC:
        kw["tkn0decv"] = d0
    if n1 not in DEC:
        kw["tkn1decv"] = d1
    if case["dec"][0] % 2 and n0 in DEC:
        kw["tkn0decv"] = d0 = case["dec"][0]  # explicit decimals win
    shift = D(10) ** (d0 - d1)
    Lt = D(L) / (D(10) ** (d0 + d1)).sqrt()
    prev = None
    seen = 0
    for f in case["fracs"]:
        traw = D(ta) + D(repr(f)) * ts
        sp = int((B ** traw).sqrt() * 2 ** 96)
        tick = ta + int(D(repr(f)) * ts)
        if tick == ta and D(repr(f)) * ts < D("0.001") or not (B ** ta).sqrt() * 2 ** 96 < sp < (B ** (ta + ts)).sqrt() * 2 ** 96:
            continue
        mk = lambda **o: U3(**{**dict(tkn0=arg[0], tkn1=arg[1], sp96=conv(sp), tick=conv(tick), liquidity=conv(L), fee_const=case["fee"]), **kw, **o})
        u = mk()
        if not kw:
            v = U3.from_dict({"token0": arg[0], "token1": arg[1], "sqrt_price_q96": conv(sp), "tick": conv(tick), "liquidity": conv(L)}, case["fee"])
            need(u == v and (v.tkn0dec, v.tkn1dec) == (d0, d1), "P25.from_dict", lambda: f"{u} {v}")
        need((u.tkn0, u.tkn1, u.tkn0dec, u.tkn1dec) == (n0, n1, d0, d1), "P25.tokens", lambda: f"{u} {u.tkn0dec} {u.tkn1dec}")
        need((u.sp96, u.tick, u.liquidity, u.fee_const) == (sp, tick, L, case["fee"]), "P25.fields", lambda: f"{u}")
        need(u.ticksize == ts and u.tickab == (ta, ta + ts), "P25.tickab", lambda: f"{u.tickab} for tick {tick} and size {ts}")
        need_close(u.fee, case["fee"] / 1e6, "P25.fee", R)
        need(u.pair == f"{n0}/{n1}" and u.price_convention == f"{n0}/{n1} [{n1} per {n0}]", "P25.pair", lambda: u.pair)
        need_close(u.decf, float(shift), "P25.decf", R)
        p = D(sp) ** 2 / 2 ** 192 * shift
        pa, pb = (B ** t * shift for t in (ta, ta + ts))
        need_close(u.p, p, "P25.price", R)
        need_close(u.price_tkn1_per_tkn0, p, "P25.price", R)
        need_close(u.price_tkn0_per_tkn1, 1 / p, "P25.price", R)
        need_close(U3._price_f(sp), D(sp) ** 2 / 2 ** 192, "P25.price", R)
        for got, want in zip(u.papb_raw + u.papb + u.papb_tkn1_per_tkn0 + u.papb_tkn0_per_tkn1, (B ** ta, B ** (ta + ts), pa, pb, pa, pb, 1 / pa, 1 / pb)):
            need_close(got, want, "P25.bounds", R)
        need(u.papb[0] < u.p < u.papb[1], "P25.bounds", lambda: f"{u.papb} {u.p}") if 0.01 < f < 0.99 else None
        need_close(u.L, Lt, "P25.liquidity", R)
        for k in (u.k, u.L2, u.Lsquared):
            need_close(k, Lt * Lt, "P25.liquidity", R)
        need_close(u.kbar, Lt, "P25.liquidity", R)
        # the price belongs to the tick
        need(u.p * (1 + 1e-9) >= float(B ** tick * shift) and u.p * (1 - 1e-9) <= float(B ** (tick + 1) * shift), "P25.tick_price", lambda: f"{u.p}")
        # reserves of the protocol
        x, y = Lt * (1 / p.sqrt() - 1 / pb.sqrt()), Lt * (p.sqrt() - pa.sqrt())
        vx, vy = float(Lt / p.sqrt()), float(Lt * p.sqrt())
        need_close(u.tkn0reserve(), x, "P25.reserve0", R, 1e-11 * vx)
        need_close(u.tkn1reserve(), y, "P25.reserve1", R, 1e-11 * vy)
        need(u.tkn0reserve(incltoken=True) == (u.tkn0reserve(), n0) and u.tkn1reserve(incltoken=True) == (u.tkn1reserve(), n1), "P25.incltoken")
        need_close(u.tvl(), x * p + y, "P25.tvl", R, 2e-11 * vy)
        need_close(u.tvl(astkn0=True), x + y / p, "P25.tvl", R, 2e-11 * vx)
        need(u.tvl(incltoken=True) == (u.tvl(), n1) and u.tvl(astkn0=True, incltoken=True) == (u.tvl(astkn0=True), n0), "P25.incltoken", "tvl")
        if prev is not None:
            need(u.p >= prev.p and u.tkn0reserve() <= prev.tkn0reserve() + 1e-11 * vx and u.tkn1reserve() >= prev.tkn1reserve() - 1e-11 * vy, "P25.monotone")
        prev = u
        # the same position as a curve
        c = CPC.from_univ3(**u.cpc_params(cid="c", descr="d"))
        need(c.pair == f"{n0}/{n1}" and c.fee == u.fee and c.cid == "c" and c.descr == "d", "P25.cpc", lambda: f"{c}")
        need_close(c.p, p, "P25.cpc_price", R)
        need_close(c.k, Lt * Lt, "P25.cpc_k", R)
        need_close(c.p_min, pa, "P25.cpc_bounds", 1e-8)
        need_close(c.p_max, pb, "P25.cpc_bounds", 1e-8)
        need_close(c.x_act, x, "P25.cpc_reserve", 1e-8, 1e-10 * vx)
        need_close(c.y_act, y, "P25.cpc_reserve", 1e-8, 1e-10 * vy)
        need_close(c.tvl(tkn=n1), x * p + y, "P25.cpc_tvl", 1e-8, 1e-10 * vy)
        # the same position with the tokens exchanged
        if 0.01 < f < 0.99:
            sr = 2 ** 192 // sp
            if sr > 10 ** 14:
                r = U3(tkn0="X", tkn1="Y", sp96=sr, tick=-tick - 1, liquidity=L, fee_const=case["fee"], tkn0decv=d1, tkn1decv=d0)
                need_close(r.p, 1 / p, "P25.reversed", 1e-8)
                need_close(r.tkn0reserve(), y, "P25.reversed", 1e-6, 1e-8 * vy)
                need_close(r.tkn1reserve(), x, "P25.reversed", 1e-6, 1e-8 * vx)
        need(isinstance(u.info(), str) and n0 in u.info(), "P25.info")
        seen += 1
    q = case["price"]
    need_close(U3.sp96_from_price(q), D(repr(q)).sqrt() * 2 ** 96, "P25.sp96", R)
    need_close(U3._price_f(int(U3.sp96_from_price(q))), q, "P25.sp96", 1e-8, 1e-18) if q > 1e-12 else None
    base = dict(tkn0=arg[0], tkn1=arg[1], sp96=2 ** 96, tick=0, liquidity=L, **kw)
    for bad in (0, 300, 3001):
        expect_exc(lambda: U3(fee_const=bad, **base), "P25.bad_fee")
    u = U3(fee_const=case["fee"], **base)
    expect_exc(lambda: setattr(u, "liquidity", 1), "P25.frozen")
    need_close(u.p, shift, "P25.unit_price", R)
    if any(n not in DEC for n in case["names"]):
        expect_exc(lambda: U3(fee_const=case["fee"], **{k: v for k, v in base.items() if "decv" not in k}), "P25.no_decimals")
    return {"nontrivial": seen > 0, "labels": [f"fee{case['fee']}", "dec618" if (d0, d1) == (6, 18) else "decother"], "n": seen}
