"""constant product curves, containers, inverters and their serialisation"""
import io
import itertools
import json
import math
import os
import pickle
import shutil
import tempfile

from .base import Violation, Skip, need, need_close, isclose, expect_exc


def lib():
    import carbon.tools.cpc as m
    return m


def build(c, extra=None):
    m = lib()
    a = dict(c["a"])
    a.update(extra or {})
    return getattr(m.ConstantProductCurve, "from_" + c["ctor"])(**a)


def expected(c):
    """(k, x, x_act, y_act, p_min, p_max) implied by the arguments, computed independently; None = no bound"""
    a, t = c["a"], c["ctor"]
    pair = a["pair"]
    if t in ("kx", "ky", "xy", "pk", "px", "py"):
        k, x, y, p = (a.get(n) for n in ("k", "x", "y", "p"))
        if t == "kx":
            y = k / x
        elif t == "ky":
            x = k / y
        elif t == "pk":
            x, y = math.sqrt(k) / math.sqrt(p), math.sqrt(k) * math.sqrt(p)
        elif t == "px":
            y = p * x
        elif t == "py":
            x = y / p
        xa, ya = a.get("x_act", x), a.get("y_act", y)
    elif t == "pkpp":
        p, k = a["p"], a["k"]
        x, y = math.sqrt(k / p), math.sqrt(k * p)
        xa = x * (1 - math.sqrt(p / a.get("p_max", p)))
        ya = y * (1 - math.sqrt(a.get("p_min", p) / p))
    elif t == "univ2":
        k, x, y = a.get("k"), a.get("x_tknb"), a.get("y_tknq")
        if x is None:
            x = k / y
        elif y is None:
            y = k / x
        xa, ya = x, y
    elif t == "univ3":
        p, L = a["Pmarg"], a["uniL"]
        sp = math.sqrt(p)
        x, y = L / sp, L * sp
        xa = L * (1 / sp - 1 / math.sqrt(a["uniPb"]))
        ya = L * (sp - math.sqrt(a["uniPa"]))
    else:
        b, q = pair.split("/")
        ty = a["tkny"]
        tx = q if ty == b else b
        pair = f"{tx}/{ty}"
        if "A" in a:
            spb = a["B"]
            spa = a["A"] + a["B"]
        else:
            pa, pb = a["pa"], a["pb"]
            if a.get("isdydx") is False and ty != q:
                pa, pb = 1 / pa, 1 / pb
            if pa == pb:
                pa, pb = pa * 1.0000001, pb / 1.0000001
            spa, spb = math.sqrt(pa), math.sqrt(pb)
        sp = spb + (spa - spb) * a["y"] / a["yint"]           # sqrt of the marginal price of the Carbon order
        L = a["yint"] / (spa - spb)
        x, y, xa, ya = L / sp, L * sp, 0.0, a["y"]
    return pair, x, y, xa, ya


def p19(case):
    m = lib()
    c0 = case["curve"]
    a = c0["a"]
    c = build(c0)
    pair, x, y, xa, ya = expected(c0)
    w = f"{c0}: {c}"
    R = 1e-9 if c0["ctor"] != "carbon" else 1e-6        # zero width ranges are widened by 1e-7
    tight = c0["ctor"] == "carbon"
    need(c.pair == pair and c.tknb == c.tknx == pair.split("/")[0] and c.tknq == c.tkny == pair.split("/")[1], "P19.pair", w)
    need_close(c.x, x, "P19.x", R, msg=w)
    need_close(c.y, y, "P19.y", R, msg=w)
    need_close(c.x_act, xa, "P19.x_act", R, 1e-12 * x, msg=w)
    need_close(c.y_act, ya, "P19.y_act", R, 1e-12 * y, msg=w)
    need_close(c.k, x * y, "P19.k", 2 * R, msg=w)
    need_close(c.x * c.y, c.k, "P19.invariant", 1e-12, msg=w)
    need_close(c.p, c.y / c.x, "P19.p", 1e-12, msg=w)
    need_close(c.p, y / x, "P19.p", 2 * R, msg=w)
    need_close(c.kbar, math.sqrt(c.k), "P19.kbar", 1e-12, msg=w)
    need(c.fee == a.get("fee") and c.descr == a.get("descr") and c.cid == a.get("cid"), "P19.meta", w)
    pars = dict(c.params)
    for k, v in (a.get("params") or {}).items():
        need(pars.get(k) == v and c.P(k) == v, "P19.params", w)
    need(c.P("no:such:thing", 42) == 42 and c.P("nothing") is None, "P19.P.default", w)
    for k, v in (a.get("params") or {}).items():
        if isinstance(v, dict):
            for kk, vv in v.items():
                need(c.P(f"{k}:{kk}") == vv, "P19.P", w)
        else:
            need(c.P(f"{k}:x", "dflt") == "dflt", "P19.P.default", w)
    names = {"univ2": "uv2", "univ3": "uv3", "carbon": "carb"}
    need(c.constr == names.get(c0["ctor"], c0["ctor"]), "P19.constr", w)
    if c0["ctor"] == "univ3":
        need(c.P("L") == a["uniL"], "P19.params.L", w)
    if c0["ctor"] == "carbon":
        need(c.P("y") == a["y"] and c.P("yint") == a["yint"], "P19.params.carbon", w)
        need_close(c.P("B"), (math.sqrt(y / x) if a["y"] == 0 else c.P("B")), "P19.params.B", R, msg=w)
    if c.cid is None:
        c.setcid("new")
        need(c.cid == "new", "P19.setcid", w)
    expect_exc(lambda: c.setcid("again"), "P19.setcid.twice", AssertionError, w)
    need(build(c0, {"cid": c.cid}) == c, "P19.equal", w)
    # primary price
    b, q = pair.split("/")
    need_close(c.pp, c.p if f"{b}/{q}" == c.pairo.primary else 1 / c.p, "P19.pp", 1e-12, msg=w)
    # value
    mult = case["mult"]
    need_close(c.tvl(mult=mult), (xa * (y / x) + ya) * mult, "P19.tvl", 4 * R, 1e-11 * y, msg=w)
    need_close(c.tvl(b, mult=mult), (xa + ya / (y / x)) * mult, "P19.tvl.base", 4 * R, 1e-11 * x, msg=w)
    need(c.tvl(q, mult=mult, incltkn=True)[1:] == (q, mult) and c.tvl(b, mult=mult, incltkn=True)[1:] == (b, mult), "P19.tvl.units", w)
    expect_exc(lambda: c.tvl("XYZ"), "P19.tvl.token", ValueError, w)
    need(c.tvl("XYZ", raiseonerror=False) is None, "P19.tvl.token", w)

    # bounds: what the curve keeps when one side is empty
    xmin, ymin = x - xa, y - ya
    openx = xmin <= 1e-9 * x            # nothing virtual on this side: unlimited
    openy = ymin <= 1e-9 * y
    need_close(c.x_min, xmin, "P19.x_min", R, 1e-12 * x, msg=w)
    need_close(c.y_min, ymin, "P19.y_min", R, 1e-12 * y, msg=w)
    for name, v, is_open, e, cur in (("x_max", c.x_max, openy, None if openy else x * y / ymin, x), ("y_max", c.y_max, openx, None if openx else x * y / xmin, y)):
        if is_open:
            need(v is None or abs(v) > 1e6 * cur, "P19." + name, lambda: f"{v} {w}")
        else:
            need_close(v, e, "P19." + name, R + 1e-12 * (e / cur), msg=w)
    if not openy:
        need_close(c.p_min, (ymin * ymin) / (x * y), "P19.p_min", 2 * R + 1e-11 * y / ymin, msg=w)
    else:
        need(c.p_min is None or abs(c.p_min) < 1e-10 * y / x, "P19.p_min", w)
    if not openx:
        need_close(c.p_max, (x * y) / (xmin * xmin), "P19.p_max", 2 * R + 1e-11 * x / xmin, msg=w)
    else:
        need(c.p_max is None or abs(c.p_max) > 1e10 * y / x, "P19.p_max", w)
    if c0["ctor"] == "pkpp":
        if "p_min" in a:
            need_close(c.p_min, a["p_min"], "P19.p_min.given", 1e-6, msg=w)
        if "p_max" in a:
            need_close(c.p_max, a["p_max"], "P19.p_max.given", 1e-6, msg=w)
    if c0["ctor"] == "univ3":
        need_close(c.p_min, a["uniPa"], "P19.p_min.given", 1e-6, msg=w)
        need_close(c.p_max, a["uniPb"], "P19.p_max.given", 1e-6, msg=w)
    for name, d in (("at_xmin", (x / xmin - 1) if xmin > 0 else 9), ("at_xmax", (1 - ymin / y) if ymin > 0 else 9)):
        if d < 1e-8 or d > 1e-4:
            need(getattr(c, name) == (d < 1e-8), "P19." + name, lambda: f"{d} {w}")
            need(getattr(c, {"at_xmin": "at_ymax", "at_xmax": "at_ymin"}[name]) == (d < 1e-8), "P19." + name, w)
    need(c.at_boundary == (c.at_xmin or c.at_xmax), "P19.at_boundary", w)

    # the amount functions
    dxlo, dxhi = -xa, (None if openy else x * y / ymin - x)
    dylo, dyhi = -ya, (None if openx else x * y / xmin - y)
    need_close(c.dx_min, dxlo, "P19.dx_min", R, 1e-12 * x, msg=w)
    need_close(c.dy_min, dylo, "P19.dy_min", R, 1e-12 * y, msg=w)
    # on a curve without any room for trading rounding decides whether its ends are in range
    if dxhi is not None and not (c.dx_max is None and (xa < 1e-7 * x or dxhi < 1e-7 * x)):
        need_close(c.dx_max, dxhi, "P19.dx_max", R, (R + 1e-12 * y / ymin) * (x + dxhi), msg=w)
    if dyhi is not None and not (c.dy_max is None and (ya < 1e-7 * y or dyhi < 1e-7 * y)):
        need_close(c.dy_max, dyhi, "P19.dy_max", R, (R + 1e-12 * x / xmin) * (y + dyhi), msg=w)

    def span(lo, hi, cur, f):
        """a point: f<0 towards lo, f>0 towards hi (an open side reaches to ten times the current balance, or a tenth)"""
        if f < 0:
            v = -f * lo
            return v if cur + v > 1e-4 * cur else -0.9 * cur
        return f * (hi if hi is not None else 9 * cur)

    n = 0
    X, Y = c.x, c.y
    for f in case["f"]:
        edge = abs(abs(f) - 1) < 1e-5
        for lo, hi, cur, fn, inv, fabs, iabs, other in ((dxlo, dxhi, X, c.dyfromdx_f, c.dxfromdy_f, c.yfromx_f, c.xfromy_f, Y),
                                                        (dylo, dyhi, Y, c.dxfromdy_f, c.dyfromdx_f, c.xfromy_f, c.yfromx_f, X)):
            d = span(lo, hi, cur, f)
            e = c.k / (cur + d)
            r = fabs(cur + d)
            if r is None:
                degenerate = (hi is not None and hi < 1e-7 * cur) or (lo == 0 or -lo < 1e-7 * cur)
                need(edge or degenerate, "P19.inrange", lambda: f"{d}: no result inside the bounds {lo}..{hi} {w}")
                continue
            n += 1
            need_close(r, e, "P19.f", 1e-12, msg=w)
            need_close(iabs(r, ignorebounds=True), cur + d, "P19.inverse", 1e-12, msg=w)
            rd = fn(d)
            if rd is not None:
                need_close(rd, e - other, "P19.d", 1e-9, 1e-12 * max(other, e), msg=w)
                need_close(inv(rd, ignorebounds=True), d, "P19.d.inverse", 1e-9, 1e-11 * max(cur, cur + d), msg=w)
            elif not edge:
                need(False, "P19.d.none", w)
        # prices
        sp = math.sqrt(c.p)
        lo_p = sp * (ymin / y) if not openy else sp / 10
        hi_p = sp * (x / xmin) if not openx else sp * 10
        tp = (sp + f * (sp - lo_p)) ** 2 if f < 0 else (sp + f * (hi_p - sp)) ** 2
        if tp <= 0:
            continue
        r = c.xyfromp_f(tp)
        need(r[2] == tp, "P19.xyfromp.p", lambda: f"{r} {w}")
        need_close(r[0], math.sqrt(c.k / tp), "P19.xyfromp.x", 1e-9, msg=w)
        need_close(r[1], math.sqrt(c.k * tp), "P19.xyfromp.y", 1e-9, msg=w)
        d = c.dxdyfromp_f(tp)
        need_close(d[0], r[0] - c.x, "P19.dxdyfromp.x", 1e-9, 1e-12 * max(x, r[0]), msg=w)
        need_close(d[1], r[1] - c.y, "P19.dxdyfromp.y", 1e-9, 1e-12 * max(y, r[1]), msg=w)
        rd = c.dxdyfromp_f(tp, withunits=True)
        need(rd[:3] == d and rd[3:] == (c.tknxp, c.tknyp, c.pairp), "P19.units", lambda: f"{rd}")
    r = c.xyfromp_f()
    need_close(r[0], c.x, "P19.xyfromp.default", 1e-9, msg=w)
    need_close(r[1], c.y, "P19.xyfromp.default", 1e-9, msg=w)
    # beyond the bounds: nothing, stuck, or the unbounded value when asked for
    o = case["over"]
    if not openy:
        d = dxhi * o + 1e-3 * (x + dxhi)
        need(c.dyfromdx_f(d) is None and c.yfromx_f(X + d) is None, "P19.beyond.x", lambda: f"dx={d} max {dxhi} {w}")
        need_close(c.yfromx_f(X + d, ignorebounds=True), c.k / (X + d), "P19.ignorebounds", 1e-12, msg=w)
        if xa > 1e-6 * x:                       # an amount of y below its minimum belongs to no x of the curve
            v = ymin / (1 + o)
            need(c.xfromy_f(v) is None and c.dxfromdy_f(v - Y) is None, "P19.below.y", lambda: f"y={v} min {ymin} {w}")
            need_close(c.xfromy_f(v, ignorebounds=True), c.k / v, "P19.ignorebounds", 1e-12, msg=w)
        tp = (ymin * ymin / (x * y)) / (1 + o)
        r = c.xyfromp_f(tp)
        need_close(r[0], x * y / ymin, "P19.stuck.x", R + 1e-11 * y / ymin, msg=w)
        need_close(r[1], ymin, "P19.stuck.y", R, 1e-11 * y, msg=w)
        r = c.xyfromp_f(tp, ignorebounds=True)
        need_close(r[0], math.sqrt(c.k / tp), "P19.notstuck.x", 1e-9, msg=w)
        need_close(r[1], math.sqrt(c.k * tp), "P19.notstuck.y", 1e-9, msg=w)
    if not openx:
        d = dyhi * o + 1e-3 * (y + dyhi)
        need(c.dxfromdy_f(d) is None and c.xfromy_f(Y + d) is None, "P19.beyond.y", lambda: f"dy={d} max {dyhi} {w}")
        need_close(c.xfromy_f(Y + d, ignorebounds=True), c.k / (Y + d), "P19.ignorebounds", 1e-12, msg=w)
        if ya > 1e-6 * y:
            v = xmin / (1 + o)
            need(c.yfromx_f(v) is None and c.dyfromdx_f(v - X) is None, "P19.below.x", lambda: f"x={v} min {xmin} {w}")
            need_close(c.yfromx_f(v, ignorebounds=True), c.k / v, "P19.ignorebounds", 1e-12, msg=w)
        tp = (x * y / (xmin * xmin)) * (1 + o)
        r = c.xyfromp_f(tp)
        need_close(r[0], xmin, "P19.stuck.x", R, 1e-11 * x, msg=w)
        need_close(r[1], x * y / xmin, "P19.stuck.y", R + 1e-11 * x / xmin, msg=w)

    # trades
    cur = c
    cx, cy, cxa, cya = c.x, c.y, c.x_act, c.y_act
    for kind, f, over in case["trades"]:
        S = max(cx, 1e-300), max(cy, 1e-300)
        v, va, o_v, o_va = (cx, cxa, cy, cya) if kind == "dx" else (cy, cya, cx, cxa)
        o_min = o_v - o_va
        hi = (cx * cy / o_min - v) if o_min > 1e-9 * o_v else 9 * v
        d = -f * -va if f < 0 else f * hi
        if abs(abs(f) - 1) < 1e-6:
            d *= 1 - 1e-9
        if v + d <= 1e-6 * v:
            d = -0.5 * v
        if (d <= 0 and va < 1e-12 * v) or (d >= 0 and o_va < 1e-12 * o_v) or (abs(d) < 1e-12 * v and min(va / v, o_va / o_v) < 1e-12):
            continue                # rounding decides whether dust can be sold
        bad = False
        if over and f < 0 and va < v * 0.99:
            d, bad = -(va + 0.5 * (v - va)), True
        elif over and f > 0 and o_min > 1e-9 * o_v and o_min < o_v * 0.999:
            d, bad = hi * 1.5, True
        before = (cur.x, cur.y, cur.x_act, cur.y_act, cur.cid, dict(cur.params))
        if bad:
            e = expect_exc(lambda: cur.execute(**{kind: d}), "P19.execute.beyond", ValueError, f"{kind}={d} {cur}")
            new = cur.execute(**{kind: d}, ignorebounds=True)
        else:
            new = cur.execute(**{kind: d})
        need(before == (cur.x, cur.y, cur.x_act, cur.y_act, cur.cid, dict(cur.params)), "P19.execute.mutates", w)
        nx, ny = (cx + d, cx * cy / (cx + d)) if kind == "dx" else (cx * cy / (cy + d), cy + d)
        ww = f"{kind}={d}: {cur} -> {new}"
        T = 1e-9
        need_close(new.k, cur.k, "P19.execute.k", 1e-12, msg=ww)
        need_close(new.x, nx, "P19.execute.x", T, msg=ww)
        need_close(new.y, ny, "P19.execute.y", T, msg=ww)
        need_close(new.x_act, cxa + nx - cx, "P19.execute.x_act", T, 1e-10 * max(cx, nx), msg=ww)
        need_close(new.y_act, cya + ny - cy, "P19.execute.y_act", T, 1e-10 * max(cy, ny), msg=ww)
        need(new.pair == c.pair and new.fee == c.fee, "P19.execute.meta", ww)
        need(new.cid == f"{before[4]}-x", "P19.execute.cid", ww)
        tr = new.P("traded")
        need(tr is not None and tr[kind] == d, "P19.execute.traded", ww)
        for k in before[5]:
            need(k == "traded" or new.params.get(k) == before[5][k], "P19.execute.params", ww)
        n += 1
        cur = new
        if bad:
            break
        cx, cy, cxa, cya = new.x, new.y, new.x_act, new.y_act
    expect_exc(lambda: c.execute(dx=0, dy=0), "P19.execute.both", ValueError)
    same = c.execute()
    need(isclose(same.x, c.x, 1e-12) and isclose(same.y_act, c.y_act, 1e-12, 1e-12 * y), "P19.execute.none", w)
    bad_ctor(m, case["bad"], c0, x, y)
    dflt = m.ConstantProductCurve(k=c.k, x=c.x)
    need(dflt.pair == "TKNB/TKNQ" and dflt.tknb == "TKNB" and dflt.x_act == dflt.x and dflt.y_act == dflt.y and dflt.constr == "default" and dict(dflt.params) == {}
         and dflt.cid is None and dflt.fee is None, "P19.defaults", lambda: f"{dflt}")
    return {"nontrivial": n > 0, "labels": [c0["ctor"]], "n": n}


def bad_ctor(m, i, c0, x, y):
    """argument combinations the constructors declare invalid"""
    C = m.ConstantProductCurve
    p = y / x
    u2 = dict(pair="A/B", cid="c", fee=0, descr="d")
    u3 = dict(Pmarg=p, uniL=x, uniPa=p / 2, uniPb=p * 2, **u2)
    ca = dict(yint=y, y=y / 2, pa=p * 2, pb=p, pair="A/B", tkny="B")
    bad = [lambda: C.from_univ2(x_tknb=x, y_tknq=y, k=x * y, **u2), lambda: C.from_univ2(x_tknb=x, **u2), lambda: C.from_univ2(k=x * y, **u2),
           lambda: C.from_univ2(x_tknb=x, y_tknq=y, **{**u2, "fee": None}), lambda: C.from_univ2(x_tknb=x, y_tknq=y, **{**u2, "cid": None}),
           lambda: C.from_univ3(**{**u3, "Pmarg": p * 3}), lambda: C.from_univ3(**{**u3, "Pmarg": p / 3}), lambda: C.from_univ3(**{**u3, "uniPa": p * 2, "uniPb": p / 2}),
           lambda: C.from_carbon(**{**ca, "y": y * 2}), lambda: C.from_carbon(**{**ca, "pa": p, "pb": 2 * p}),
           lambda: C.from_carbon(**{**ca, "A": 1.0, "B": 1.0}), lambda: C.from_carbon(**{**ca, "tkny": "C"}),
           lambda: C.from_carbon(**{**ca, "A": 1.0}), lambda: C.from_carbon(**{**ca, "B": 1.0}), lambda: C.from_carbon(**{**ca, "pa": None}),
           lambda: C.from_carbon(**{**ca, "pb": None}), lambda: C.from_carbon(**{**ca, "pa": None, "pb": None}), lambda: C.from_carbon(**{**ca, "pa": None, "pb": None, "A": 1.0}),
           lambda: C.from_carbon(**{**ca, "pa": None, "pb": None, "A": -1.0, "B": 1.0}), lambda: C.from_carbon(**{**ca, "pa": None, "pb": None, "A": 1.0, "B": 1.0, "isdydx": False}),
           lambda: C.from_carbon(**{**ca, "y": -y / 2}), lambda: C.from_carbon(**{**ca, "y": None}), lambda: C.from_carbon(**{**ca, "pair": None}), lambda: C.from_carbon(**{**ca, "tkny": None})]
    expect_exc(bad[i], f"P19.accepted.{i}", (AssertionError, ValueError), f"x={x} y={y}")


# ---------------------------------------------------------------------------------------------

NUMER = ["USDC", "USDT", "DAI", "TUSD", "BUSD", "PAX", "GUSD", "USDS", "sUSD", "mUSD", "HUSD", "USDN", "USDP", "USDQ", "ETH", "WETH", "WBTC", "BTC"]


def primary(b, q):
    """the documented preference of numeraire tokens; otherwise alphabetical"""
    ix = {t: i for i, t in enumerate(NUMER)}
    ib, iq = ix.get(b.split("-")[0], 1e10), ix.get(q.split("-")[0], 1e10)
    return b < q if ib == iq else iq < ib


def prim(pair):
    b, q = pair.split("/")
    return pair if primary(b, q) else f"{q}/{b}"


def rev(pair):
    return "/".join(reversed(pair.split("/")))


def container(case):
    m = lib()
    cs = [build(c) for c in case["curves"]]
    mode = case.get("mode", "list")
    kw = {"tokenscale": scales(m, case)} if case.get("scale") else {}
    if mode == "gen":
        cc = m.CPCContainer((c for c in cs), **kw)
    elif mode == "add":
        cc = m.CPCContainer(**kw)
        r = cc.add(cs)
        need(r is cc, "P20.add", "add does not return the container")
    elif mode == "iadd":
        cc = m.CPCContainer(cs[:1], **kw)
        for c in cs[1:]:
            cc += c
    elif mode == "inverted":
        cc = m.CPCContainer([m.CPCInverter(c) if i % 2 else c for i, c in enumerate(cs)], **kw)
    else:
        cc = m.CPCContainer(cs, **kw)
    return cs, cc


def scales(m, case):
    """a token scale for all but the last token of the case"""
    t = m.ts.TokenScale.from_tokenscales()
    for i, k in enumerate(case["toks"][:-1]):
        t.add_scale(k, 10.0 ** (i + 1))
    return t


def ids(curves):
    return [c.cid for c in curves]


def p20(case):
    m = lib()
    cs, cc = container(case)
    w = f"{[(c.cid, c.pair) for c in cs]}"
    need(all(a is b for a, b in zip(cs, cc.curves)) and len(cs) == len(cc) and list(cc) == cs, "P20.curves", w)
    for i, c in enumerate(cs):
        given = case["curves"][i]["a"].get("cid")
        need(c.cid == (given if given is not None else i), "P20.cid", lambda: f"{c.cid} {given} {i}")
        need(cc.bycid(c.cid) is c and cc[i] is c and c in cc and cc.curveix(c) == i, "P20.lookup", lambda: f"{c}")
    need(cc.bycid("no such id") is None, "P20.bycid.missing", w)
    need(cc.cids() == tuple(ids(cs)) and cc.cids(asset=True) == set(ids(cs)), "P20.cids", w)
    pairs = [c.pair for c in cs]
    need(cc.pairs(standardize=False) == set(pairs), "P20.pairs", lambda: f"{cc.pairs(standardize=False)} {w}")
    need(cc.pairs() == {prim(p) for p in pairs}, "P20.pairs.primary", lambda: f"{cc.pairs()} {w}")
    toks = {t for p in pairs for t in p.split("/")}
    need(cc.tokens() == toks and cc.tkns() == toks and cc.tokens_s() == ",".join(sorted(toks)), "P20.tokens", w)
    need(cc.tknxl() == [p.split("/")[0] for p in pairs] and cc.tknyl() == [p.split("/")[1] for p in pairs], "P20.tknl", w)
    need(cc.tknxs() == set(cc.tknxl()) and cc.tknys() == set(cc.tknyl()), "P20.tkns", w)
    tt = cc.tokentable()
    need(set(tt) == toks, "P20.tokentable", lambda: f"{tt}")
    for t in toks:
        need(list(tt[t].x) == [i for i, p in enumerate(pairs) if p.split("/")[0] == t] and
             list(tt[t].y) == [i for i, p in enumerate(pairs) if p.split("/")[1] == t], "P20.tokentable", lambda: f"{t} {tt}")

    part = [cs[i % len(cs)] for i in case["pick"]]
    pt = [c.pair.split("/") for c in part]
    need(cc.tknxl(part) == [b for b, _ in pt] and cc.tknyl(part) == [q for _, q in pt] and cc.tknxs(part) == {b for b, _ in pt} and cc.tknys(part) == {q for _, q in pt}
         and cc.tokens(part) == {t for p in pt for t in p} and cc.tokens_s(part) == ",".join(sorted({t for p in pt for t in p})), "P20.tokens.part", lambda: f"{part} {w}")
    need(cc.pairset(", ".join(pairs)) == set(pairs) == cc.pairset(pairs), "P20.pairset", w)
    need(len(cc.format().split("\n")) == len(cs) + 2 and len(cc.format(heading=False).split("\n")) == len(cs), "P20.format", w)
    # token scales: every curve has those of the collection, and so has every selection
    one = case.get("scale")
    es = {t: 10.0 ** (case["toks"].index(t) + 1) if one and t in case["toks"][:-1] else 1e-2 if one else 1.0 for t in toks}
    for t in toks:
        need(cc.scale(t) == es[t] == cc.tokenscale(t), "P20.scale", lambda: f"{t}: {cc.scale(t)} expected {es[t]}")
    for c in cs:
        need(c.scalex == es[c.tknx] and c.scaley == es[c.tkny] and c.scale(c.tknx) == es[c.tknx], "P20.scale.curve",
             lambda: f"{c.cid} {c.pair} ({case.get('mode')}): {c.scalex} {c.scaley} expected {es}")

    def sel(name, got, exp):
        need(all(got.scale(t) == es[t] for t in toks), "P20.scale." + name, w)
        need(isinstance(got, m.CPCContainer), "P20.type." + name, lambda: f"{type(got)}")
        need(ids(got) == ids(exp), "P20." + name, lambda: f"{ids(got)} expected {ids(exp)} of {w}")
        need(all(x is y for x, y in zip(got, exp)), "P20.same." + name, w)

    ps = case["pairs"]
    both = set(ps) | {rev(p) for p in ps}
    sel("bypairs", cc.bypairs(ps), [c for c in cs if c.pair in both])
    sel("bypairs.directed", cc.bypairs(ps, directed=True), [c for c in cs if c.pair in ps])
    sel("bypairs.all", cc.bypairs(), cs)
    sel("copy", cc.copy(), cs)
    if ps:
        s = (", " if case["blank"] else ",").join(ps)
        sel("bypairs.str", cc.bypairs(s), [c for c in cs if c.pair in both])
        got = cc.bypairs(ps, asgenerator=True)
        need(not isinstance(got, (list, tuple, m.CPCContainer)) and ids(got) == [c.cid for c in cs if c.pair in both], "P20.generator", w)
        got = cc.bypairs(ps, ascc=False)
        need(isinstance(got, tuple) and ids(got) == [c.cid for c in cs if c.pair in both], "P20.tuple", w)
    for p in ps[:2] + pairs[:1]:
        sel("bypair.directed", cc.bypair(p, directed=True), [c for c in cs if c.pair == p])
        for fn in (cc.bypair, cc.bp):
            got = fn(p)
            need(sorted(map(str, ids(got))) == sorted(str(c.cid) for c in cs if c.pair in (p, rev(p))), "P20.bypair", lambda: f"{p}: {ids(got)} {w}")
    for t in case["tk"]:
        sel("bytknx", cc.bytknx(t), [c for c in cs if c.tknx == t])
        sel("bytkny", cc.bytkny(t), [c for c in cs if c.tkny == t])
        sel("bytknb", cc.bytknb(t), [c for c in cs if c.tknb == t])
        sel("bytknq", cc.bytknq(t), [c for c in cs if c.tknq == t])
    sel("bytknxs", cc.bytknxs(case["tk"]), [c for c in cs if c.tknx in case["tk"]])
    sel("bytknys", cc.bytknys(", ".join(case["tk"])), [c for c in cs if c.tkny in case["tk"]])
    sel("bytknxs.all", cc.bytknxs(), cs)
    sel("bytknys.all", cc.bytknys(), cs)
    pick = [cs[i % len(cs)].cid for i in case["pick"]]
    pick = list(dict.fromkeys(pick))
    drop = {cs[i % len(cs)].cid for i in case["drop"]}
    sel("bycids", cc.bycids(pick), [cc.bycid(i) for i in pick])
    sel("bycids.exclude", cc.bycids(exclude=drop), [c for c in cs if c.cid not in drop])
    sel("bycids.both", cc.bycids(pick, exclude=drop), [cc.bycid(i) for i in pick if i not in drop])

    # pair filters
    cond = case["cond"]
    universe = sorted(set(pairs) | set(ps)) if case["explicit"] else None
    over = set(universe) if universe is not None else {prim(p) for p in pairs}
    F = {"bothin": lambda b, q, L: b in L and q in L, "onein": lambda b, q, L: b in L or q in L, "contains": lambda b, q, L: b in L or q in L,
         "notin": lambda b, q, L: b not in L and q not in L, "tknbin": lambda b, q, L: b in L, "tknbnotin": lambda b, q, L: b not in L,
         "tknqin": lambda b, q, L: q in L, "tknqnotin": lambda b, q, L: q not in L}
    agg = any if case["any"] else all
    exp = {p for p in over if agg(F[k.split("_")[0]](*p.split("/"), L) for k, L in cond.items())} if cond else over
    arg = {k: (", ".join(L) if case["condstr"] else L) for k, L in cond.items()}
    got = cc.filter_pairs(universe, anyall=cc.FP_ANY if case["any"] else cc.FP_ALL, **arg)
    need(set(got) == exp, "P20.filter_pairs", lambda: f"{cond} any={case['any']} over {over}: {got} expected {exp}")
    if not cond:
        e2 = {p for p in over if all(t in case["tk"] for t in p.split("/"))}
        need(set(cc.fpb(case["tk"], universe)) == e2, "P20.fpb", w)
        e2 = {p for p in over if any(t in case["tk"] for t in p.split("/"))}
        need(set(cc.fpo(case["tk"], universe)) == e2, "P20.fpo", w)
    expect_exc(lambda: cc.filter_pairs(nonsense="ETH"), "P20.filter.unknown", ValueError)

    # prices
    groups = {}
    for c in cs:
        groups.setdefault(prim(c.pair), []).append(c)
    for pp, g in groups.items():
        b, q = pp.split("/")
        e = sum(c.p if c.pair == pp else 1 / c.p for c in g) / len(g)
        need_close(cc.price(b, q), e, "P20.price", 1e-10, msg=w)
        need_close(cc.price(q, b), 1 / e, "P20.price.reverse", 1e-10, msg=w)
        for bb, qq in ((b, q), (q, b)):
            live = [c for c in g if not c.at_boundary]
            if not live:
                expect_exc(lambda: cc.price_estimate(tknb=bb, tknq=qq), "P20.price_estimate.none", ValueError, w)
                need(cc.price_estimate(tknb=bb, tknq=qq, raiseonerror=False) is None, "P20.price_estimate.none", w)
                continue
            wt = [math.sqrt(c.k) for c in live]
            e = sum(k * (c.p if c.tknb == bb else 1 / c.p) for k, c in zip(wt, live)) / sum(wt)
            need_close(cc.price_estimate(tknb=bb, tknq=qq), e, "P20.price_estimate", 1e-10, msg=w)
            need_close(cc.price_estimate(pair=f"{bb}/{qq}"), e, "P20.price_estimate.pair", 1e-10, msg=w)
            pr, ww = cc.price_estimate(tknb=bb, tknq=qq, result=cc.PE_DATA)
            need(len(pr) == len(live) and isclose(float(sum(pr * ww) / sum(ww)), e, 1e-10), "P20.price_estimate.data", w)
            got = cc.price_estimates(tknbs=[bb, qq], tknqs=[qq])
            need(isclose(float(got[0]), e, 1e-10) and float(got[1]) == 1, "P20.price_estimates", lambda: f"{got} {e}")
    need(cc.price("NOPE", "ETH") is None, "P20.price.missing", w)
    some = next(iter(toks))
    need(cc.price_estimate(tknb=some, tknq=some) == 1, "P20.price.self", w)

    if case.get("tables", True):
        tables(cc, cs, case, toks, pairs, w)
    for p in sorted(set(pairs) | set(ps))[:4]:
        pair_object(m, p, case)
    need(tuple(map(str, m.Pair.wrap(pairs))) == tuple(pairs) == m.Pair.unwrap(m.Pair.wrap(pairs)), "P20.pair.wrap", w)

    # inverters
    for c in cs[:3]:
        inverter(m, c, case)
    wr = m.CPCInverter.wrap(cs)
    need(len(wr) == len(cs) and all((u is c) if primary(*c.pair.split("/")) else (isinstance(u, m.CPCInverter) and u.curve is c) for u, c in zip(wr, cs)), "P20.wrap", w)
    need(all(u.pairo.primary == prim(c.pair) for u, c in zip(wr, cs)), "P20.wrap.primary", w)
    un = m.CPCInverter.unwrap(wr)
    need(len(un) == len(cs) and all(u is c for u, c in zip(un, cs)), "P20.unwrap", w)
    return {"nontrivial": len(cs) > 1 and len(groups) >= 1, "labels": [f"curves{len(cs)}", f"pairs{len(groups)}", case["mode"]]}


def pair_object(m, p, case):
    b, q = p.split("/")
    w = p
    o = m.Pair(p)
    for n in (o, m.Pair([b, q]), m.Pair((b, q)), m.Pair(o), m.Pair.from_tokens(b, q)):
        need(n.pair == p == str(n) and n.pairt == (b, q) and n.pairr == f"{q}/{b}" and n.pairrt == (q, b) and n.tknb == n.tknx == b and n.tknq == n.tkny == q, "P20.pair", lambda: f"{w}: {n}")
    bp, qp = b.split("-")[0], q.split("-")[0]
    need(o.tknbp == o.tknxp == bp and o.tknqp == o.tknyp == qp and o.prettify_tkn(b) == bp and o.prettify_pair(p) == f"{bp}/{qp}", "P20.pair.pretty", w)
    need(o.other(b) == q and o.other(q) == b and o.otherp(b) == qp and o.otherp(q) == bp, "P20.pair.other", w)
    expect_exc(lambda: o.other("no such token"), "P20.pair.other.foreign", AssertionError, w)
    pr = primary(b, q)
    need(o.isprimary == pr and o.primary == prim(p) and o.secondary == rev(prim(p)), "P20.pair.primary", w)
    v = case["pf"] or 3.0
    need(isclose(o.primary_price(v), v if pr else 1 / v, 1e-12) and isclose(o.pp(v), v if pr else 1 / v, 1e-12), "P20.pair.pp", w)
    for bad in ([b], (b, q, b), 5, f"{b}", f"{b}/{q}/{b}", None):
        expect_exc(lambda: m.Pair(bad), "P20.pair.accepted", ValueError, repr(bad))


def tables(cc, cs, case, toks, pairs, w):
    def cell(df, r, c_):
        return df.loc[r, c_] if r in df.index and c_ in df.columns else 0
    pb = cc.pairs_analysis(target=cc.AT_PIVOTBQ)
    sy = cc.pairs_analysis(target=cc.AT_PIVOTBQS)
    mean = cc.pairs_analysis(target=cc.AT_PRICES)
    mx = cc.pairs_analysis(target=cc.AT_MAX)
    mn = cc.pairs_analysis(target=cc.AT_MIN)
    for b, q in itertools.permutations(sorted(toks), 2):
        sub = [c.p for c in cs if c.pair == f"{b}/{q}"]
        rsub = [c.p for c in cs if c.pair == f"{q}/{b}"]
        need(cell(pb, b, q) == len(sub), "P20.pivot", lambda: f"{b}/{q} {pb}")
        need(cell(sy, b, q) == len(sub) + len(rsub), "P20.pivot.symmetric", lambda: f"{b}/{q}: {sy} {w}")
        for name, df, e in (("mean", mean, sum(sub) / len(sub) if sub else 0), ("max", mx, max(sub) if sub else 0), ("min", mn, min(sub) if sub else 0)):
            need(isclose(float(cell(df, b, q)), e, 1e-10), "P20.pivot." + name, lambda: f"{b}/{q} {df} {e}")
    ldf = cc.pairs_analysis(target=cc.AT_LISTDF)
    need(list(ldf["cid"]) == ids(cs) and list(ldf["pair"]) == pairs and list(ldf["primary"]) == [prim(p) for p in pairs], "P20.listdf", lambda: f"{ldf}")
    for col, f in (("p", lambda c: c.p), ("x", lambda c: c.x), ("xa", lambda c: c.x_act), ("y", lambda c: c.y), ("ya", lambda c: c.y_act), ("pp", lambda c: c.pp)):
        need(all(isclose(u, f(c), 1e-12) for u, c in zip(ldf[col], cs)), "P20.listdf." + col, lambda: f"{ldf}")
    more_tables(cc, cs, case, toks, ids, cell, w)
    vol = cc.pairs_analysis(target=cc.AT_VOLUMES)
    for t in toks:
        e = sum(c.x_act for c in cs if c.tknx == t) + sum(c.y_act for c in cs if c.tkny == t)
        need_close(float(vol.loc[t]["amt"].sum()), e, "P20.volumes", 1e-9, 1e-300)


def more_tables(cc, cs, case, toks, ids, cell, w):
    # restricted to some pairs
    ps = case["pairs"]
    rows = cc.pairs_analysis(target=cc.AT_LIST, pairs=ps or None)
    want = [c for c in cs if not ps or c.pair in ps or rev(c.pair) in ps]
    need([r[-1] for r in rows] == ids(want) and [r[4] for r in rows] == [c.pair for c in want], "P20.list.pairs", lambda: f"{ps}: {rows} {w}")
    xy = cc.pairs_analysis(target=cc.AT_PIVOTXY)
    xs = cc.pairs_analysis(target=cc.AT_PIVOTXYS)
    sd = cc.pairs_analysis(target=cc.AT_SD)
    pc = cc.pairs_analysis(target=cc.AT_SDPC)
    pl = cc.pairs_analysis(target=cc.AT_PRICELIST)
    ag = cc.pairs_analysis(target=cc.AT_PLAGG)
    va = cc.pairs_analysis(target=cc.AT_VOLSAGG)
    need(len(pl) == len(cs), "P20.pricelist", lambda: f"{pl} {w}")
    for c in cs:
        r = pl.loc[(c.tknb, c.tknq, c.cid)]
        need(isclose(float(r["p"]), c.p, 1e-12) and isclose(float(r["pp"]), c.p if prim(c.pair) == c.pair else 1 / c.p, 1e-10) and r["pair"] == c.pair
             and r["primary"] == prim(c.pair), "P20.pricelist", lambda: f"{r} {c}")
    for b, q in itertools.permutations(sorted(toks), 2):
        g = [c for c in cs if c.pair == f"{b}/{q}"]
        n, nr = len(g), len([c for c in cs if c.pair == f"{q}/{b}"])
        need(cell(xy, b, q) == n and cell(xs, b, q) == n + nr, "P20.pivotxy", lambda: f"{b}/{q} {xy} {xs}")
        if not g:
            need((b, q) not in ag.index, "P20.plagg", lambda: f"{b}/{q} {ag}")
            continue
        p = [c.p for c in g]
        mean = sum(p) / n
        var = sum((v - mean) ** 2 for v in p)
        s = float(cell(sd, b, q))
        e = math.sqrt(var / (n - 1)) if n > 1 else 0
        need(isclose(s, e, 1e-6, 1e-9 * mean) or isclose(s, math.sqrt(var / n), 1e-6, 1e-9 * mean), "P20.sd", lambda: f"{b}/{q} {s} {p}")
        s = float(pc.loc[b, q])
        need(isclose(s * mean, e, 1e-6, 1e-9 * mean) or isclose(s, math.sqrt(var / n) / mean, 1e-6, 1e-9), "P20.sdpc", lambda: f"{b}/{q} {s} {p}")
        pp = p if prim(g[0].pair) == g[0].pair else [1 / v for v in p]
        r = ag.loc[(b, q)]
        m2 = sum(pp) / n
        need(r[("pp", "count")] == n and isclose(float(r[("pp", "mean")]), m2, 1e-10) and isclose(float(r[("pp", "min")]), min(pp), 1e-10)
             and isclose(float(r[("pp", "max")]), max(pp), 1e-10), "P20.plagg", lambda: f"{r} {pp}")
        need(isclose(float(r[("pp", "rangepc100")]), 100 * (max(pp) - min(pp)) / max(pp), 1e-6, 1e-9), "P20.plagg.range", lambda: f"{r} {pp}")
        need(isclose(float(r[("pp", "herfindahl")]), sum(v * v for v in pp) / sum(pp) ** 2, 1e-9), "P20.plagg.herfindahl", lambda: f"{r} {pp}")
        need(r[("primary", "first")] == prim(g[0].pair), "P20.plagg.primary", lambda: f"{r}")
    for t in toks:
        v = [(c.x, c.x_act) if c.tknx == t else (c.y, c.y_act) for c in cs if t in (c.tknx, c.tkny)]
        r = va.loc[t]
        need(r[("n", "count")] == len(v) and isclose(float(r[("amtv", "sum")]), sum(a for a, _ in v), 1e-9) and isclose(float(r[("amt", "sum")]), sum(a for _, a in v), 1e-9, 1e-300),
             "P20.volagg", lambda: f"{t} {r} {v}")
        need(isclose(float(r[("amtv", "herfindahl")]), sum(a * a for a, _ in v) / sum(a for a, _ in v) ** 2, 1e-9), "P20.volagg.herfindahl", lambda: f"{t} {r} {v}")
        need(isclose(float(r[("amtv", "herfindahlN")]), 1 / float(r[("amtv", "herfindahl")]), 1e-9), "P20.volagg.effective", lambda: f"{t} {r} {v}")
        a1, a2 = sum(a for a, _ in v), sum(a for _, a in v)
        pe = cc.price(tknb=t, tknq="WETH-6Cc2") if t != "WETH-6Cc2" else 1
        if pe is not None:
            need(isclose(float(r[("price_eth", "")]), pe, 1e-12) and isclose(float(r[("amtv_eth", "")]), a1 * pe, 1e-9) and isclose(float(r[("amt_eth", "")]), a2 * pe, 1e-9, 1e-300),
                 "P20.volagg.eth", lambda: f"{t} {r} {v}")
            if a2 > 0:
                need(isclose(float(r[("lvg", "")]), a1 / a2, 1e-9), "P20.volagg.lvg", lambda: f"{t} {r} {v}")
    vv = cc.pairs_analysis(target=cc.AT_VOLUMES)
    for c in cs:
        for t, a, act in ((c.tknx, c.x, c.x_act), (c.tkny, c.y, c.y_act)):
            r = vv.loc[(t, c.cid)]
            need(float(r["amtv"]) == a and float(r["amt"]) == act and (act == 0 or isclose(float(r["lvg"]), a / act, 1e-12)), "P20.volumes.curve", lambda: f"{r} {c}")
    for target in (cc.AT_PIVOTBQ, cc.AT_PIVOTBQS, cc.AT_PRICES, cc.AT_MAX, cc.AT_MIN):
        plain, nice = cc.pairs_analysis(target=target), cc.pairs_analysis(target=target, pretty=True)
        for b in plain.index:
            for q in plain.columns:
                u, v = plain.loc[b, q], nice.loc[b, q]
                need(v == "" if u == 0 else v == u, "P20.pretty." + target, lambda: f"{b}/{q}: {u!r} {v!r}")
    # price estimates, several at once
    tk = sorted(toks)
    live = lambda b, q: any(not c.at_boundary and {c.tknb, c.tknq} == {b, q} for c in cs)
    got = cc.price_estimates(tknqs=tk, tknbs=tk, raiseonerror=False)
    nm = cc.price_estimates(tknqs=tk, tknbs=tk, pairs=True)
    missing = False
    for i, q in enumerate(tk):
        for j, b in enumerate(tk):
            one = cc.price_estimate(tknb=b, tknq=q, raiseonerror=False)
            missing = missing or one is None
            need((one is None) == (b != q and not live(b, q)) and (got[i][j] is None if one is None else isclose(float(got[i][j]), one, 1e-12)), "P20.price_estimates.matrix",
                 lambda: f"{b}/{q}: {got[i][j]} {one}")
            if b != q:
                need(nm[i][j] == f"{b}/{q}", "P20.price_estimates.pairs", lambda: f"{nm}")
                cv = cc.price_estimate(tknb=b, tknq=q, result=cc.PE_CURVES)
                need(sorted(str(x[0].cid) for x in cv) == sorted(str(c.cid) for c in cs if not c.at_boundary and {c.tknb, c.tknq} == {b, q}), "P20.price_estimate.curves", w)
    if missing:
        expect_exc(lambda: cc.price_estimates(tknqs=tk, tknbs=tk), "P20.price_estimates.missing", ValueError, w)
    g = [c for c in cs if c.pair == cs[0].pair]
    st = cc.xystats(g)
    for s, v in zip(st, ([c.x for c in g], [c.y for c in g])):
        mean = sum(v) / len(v)
        need(isclose(float(s.mean), mean, 1e-10) and s.minv == min(v) and s.maxv == max(v) and isclose(float(s.sdev), math.sqrt(sum((a - mean) ** 2 for a in v) / len(v)), 1e-6, 1e-9 * mean),
             "P20.xystats", lambda: f"{st} {w}")


def inverter(m, c, case):
    i = m.CPCInverter(c)
    w = f"{c}"
    need(i.cid == c.cid and i.tknb == c.tknq and i.tknq == c.tknb and i.tknx == c.tkny and i.tkny == c.tknx and i.pair == rev(c.pair), "P20.inv.tokens", w)
    need(i.pairo.pair == rev(c.pair), "P20.inv.pairo", w)
    bp, qp = c.tknb.split("-")[0], c.tknq.split("-")[0]
    need(c.tknbp == c.tknxp == bp and c.tknqp == c.tknyp == qp and c.pairp == f"{bp}/{qp}" and c.p_convention() == f"{qp} per {bp}", "P20.pretty.curve", w)
    need(i.tknbp == i.tknxp == qp and i.tknqp == i.tknyp == bp and i.pairp == f"{qp}/{bp}" and i.p_convention() == f"{bp} per {qp}", "P20.inv.pretty", w)
    need(i.x == c.y and i.y == c.x and i.x_act == c.y_act and i.y_act == c.x_act and i.k == c.k, "P20.inv.balances", w)
    need_close(i.p, 1 / c.p, "P20.inv.p", 1e-12, msg=w)
    need(i.x_min == c.y_min and i.y_min == c.x_min and i.x_max == c.y_max and i.y_max == c.x_max, "P20.inv.bounds", w)
    need_close(i.p_min, None if c.p_max is None else 1 / c.p_max, "P20.inv.p_min", 1e-12, msg=w)
    need_close(i.p_max, None if c.p_min is None else 1 / c.p_min, "P20.inv.p_max", 1e-12, msg=w)
    # the same market, written down the other way round
    r = m.ConstantProductCurve(k=c.k, x=c.y, x_act=c.y_act, y_act=c.x_act, pair=rev(c.pair), cid=c.cid)
    f = case["dx"]
    d = f * (0.5 * c.y if f > 0 else 0.9 * c.y_act)
    for ig in (False, True):
        for fn, arg in (("yfromx_f", c.y + d), ("dyfromdx_f", d), ("xfromy_f", c.x + f * 0.3 * c.x), ("dxfromdy_f", f * 0.3 * c.x)):
            u, v = getattr(i, fn)(arg, ignorebounds=ig), getattr(r, fn)(arg, ignorebounds=ig)
            need(ig or getattr(i, fn)(arg) == u, "P20.inv.default." + fn, w)
            if u is None or v is None:
                # rounding right at a boundary may decide either way
                edge = any(b is not None and isclose(cur, b, 1e-9) for cur, b in ((c.x, c.x_min), (c.y, c.y_min), (c.x + f * 0.3 * c.x, c.x_min), (c.x + f * .3 * c.x, c.x_max),
                                                                                 (c.y + d, c.y_min), (c.y + d, c.y_max)))
                need(edge or u is v, "P20.inv.none." + fn, lambda: f"{fn}({arg}) = {u}, reversed curve {v} {w}")
            else:
                need_close(u, v, "P20.inv." + fn, 1e-9, 1e-10 * max(c.x if fn in ("yfromx_f", "dyfromdx_f") else c.y, abs(u)), msg=w)
        p = None if case["pf"] is None else case["pf"] / c.p
        for fn in ("xyfromp_f", "dxdyfromp_f"):
            u, v = getattr(i, fn)(p, ignorebounds=ig), getattr(r, fn)(p, ignorebounds=ig)
            need(ig or getattr(i, fn)(p) == u, "P20.inv.default." + fn, w)
            need_close(u[0], v[0], "P20.inv." + fn, 1e-9, 1e-10 * c.y * 5, msg=w)
            need_close(u[1], v[1], "P20.inv." + fn, 1e-9, 1e-10 * c.x * 5, msg=w)
            need_close(u[2], v[2], "P20.inv." + fn, 1e-12, msg=w)
            uu = getattr(i, fn)(p, ignorebounds=ig, withunits=True)
            need(uu[:3] == u and uu[3:] == (c.tknyp, c.tknxp, f"{c.tknyp}/{c.tknxp}"), "P20.inv.units", lambda: f"{uu}")
    beyond = {"dx": -(c.y_act + 0.5 * (c.y - c.y_act))} if c.y_act < 0.99 * c.y else {"dy": -(c.x_act + 0.5 * (c.x - c.x_act))} if c.x_act < 0.99 * c.x else None
    if beyond:
        expect_exc(lambda: i.execute(**beyond), "P20.inv.execute.beyond", ValueError, f"{beyond} {w}")
    for kw in ({"dx": d}, {"dy": f * 0.3 * c.x if f > 0 else f * 0.9 * c.x_act}):
        u = i.execute(**kw, ignorebounds=True)
        v = r.execute(**kw, ignorebounds=True)
        need(isinstance(u, m.CPCInverter), "P20.inv.execute.type", w)
        for n in ("x", "y", "x_act", "y_act"):
            need_close(getattr(u, n), getattr(v, n), "P20.inv.execute", 1e-9, 1e-10 * (max(r.x, v.x) if n[0] == "x" else max(r.y, v.y)), msg=w)


# ---------------------------------------------------------------------------------------------

def nan(v):
    return isinstance(v, float) and v != v


def p23(case):
    m = lib()
    import pandas as pd
    cs, cc = container(dict(case, mode="list"))
    before = cc.asdicts()
    fmt = case["fmt"]
    exact = True
    cur = cc
    kw = {"tokenscale": cc.tokenscale} if case.get("scale") else {}
    for _ in range(2 if case["twice"] else 1):
        if fmt == "dicts":
            new = m.CPCContainer.from_dicts(cur.asdicts(), **kw)
        elif fmt == "json":
            new = m.CPCContainer.from_dicts(json.loads(json.dumps(cur.asdicts())), **kw)
        elif fmt == "df":
            new = m.CPCContainer.from_df(cur.asdf(), **kw)
        elif fmt == "pickle":
            new = pickle.loads(pickle.dumps(cur))
        else:
            d = tempfile.mkdtemp(prefix="p23-")
            try:
                df = cur.asdf()
                f = os.path.join(d, "curves")
                if fmt == "csv":
                    df.to_csv(f)
                    df = pd.read_csv(f, float_precision="round_trip")
                elif fmt == "tsv":
                    df.to_csv(f, sep="\t")
                    df = pd.read_csv(f, sep="\t", float_precision="round_trip")
                elif fmt == "csvgz":
                    df.to_csv(f + ".gz", compression="gzip")
                    df = pd.read_csv(f + ".gz", float_precision="round_trip")
                elif fmt == "dfjson":
                    df.reset_index().to_json(f, orient="records", double_precision=15)
                    df = pd.read_json(f, orient="records", precise_float=True)
                    exact = False
                else:
                    df.to_pickle(f)
                    df = pd.read_pickle(f)
            finally:
                shutil.rmtree(d)
            new = m.CPCContainer.from_df(df, **kw)
        w = f"{fmt}: {cur.curves} -> {new.curves}"
        need(isinstance(new, m.CPCContainer) and len(new) == len(cs), "P23.len", w)
        for a, b in zip(cs, new):
            for k in ("k", "x", "x_act", "y_act"):
                u, v = getattr(a, k), getattr(b, k)
                need(u == v if exact else isclose(u, v, 1e-13, 1e-14), "P23." + k, lambda: f"{u!r} != {v!r} {w}")
            for k in ("pair", "cid", "constr"):
                need(getattr(a, k) == getattr(b, k) and type(getattr(a, k)) == type(getattr(b, k)), "P23." + k, lambda: f"{getattr(a, k)!r} {getattr(b, k)!r} {w}")
            need(a.fee == b.fee, "P23.fee", lambda: f"{a.fee!r} {b.fee!r} {w}")
            # an empty text file field is a missing value
            da, db = (a.descr, b.descr) if fmt not in ("csv", "tsv", "csvgz") else (a.descr or None, b.descr or None)
            need(da == db, "P23.descr", lambda: f"{a.descr!r} {b.descr!r} {w}")
            need(dict(a.params) == dict(b.params) and isinstance(b.params, type(a.params)), "P23.params", lambda: f"{a.params!r} {b.params!r} {w}")
            for k in ("y", "p", "x_min", "x_max", "y_min", "y_max", "p_min", "p_max"):
                need(not exact or getattr(a, k) == getattr(b, k), "P23." + k, lambda: f"{getattr(a, k)} {getattr(b, k)} {w}")
            if exact and da == a.descr and db == b.descr:
                need(a == b, "P23.eq", w)
        for t in case["toks"]:
            need(new.scale(t) == cc.scale(t), "P23.scale", lambda: f"{t}: {new.scale(t)} {cc.scale(t)} {w}")
        for a, b in zip(cs, new):
            need((a.scalex, a.scaley) == (b.scalex, b.scaley), "P23.scale.curve", lambda: f"{(a.scalex, a.scaley)} {(b.scalex, b.scaley)} {w}")
        need(new.cids() == cc.cids() and new.pairs() == cc.pairs(), "P23.container", w)
        cur = new
    need(cc.asdicts() == before, "P23.mutates", fmt)
    for c in cs:
        d = c.asdict()
        e = m.ConstantProductCurve.from_dict(d)
        need(e == c and dict(e.params) == dict(c.params) and e.constr == c.constr, "P23.curve", lambda: f"{c} {e}")
    return {"nontrivial": len({c["ctor"] for c in case["curves"]}) > 1 or len(cs) > 1, "labels": [fmt]}
