"""order views (carbon/carbon_order_ui.py) and the simulation along a path"""
import math
from decimal import Decimal as D, getcontext
from .base import Violation, Skip, need, need_close, isclose, expect_exc

CTX = 60


def make(c):
    from carbon.carbon_order_ui import CarbonOrderUI as O
    pa, pb = (c["pb"], c["pa"]) if c.get("swap") else (c["pa"], c["pb"])
    return O.from_prices(c["pair"], c["tkn"], pa, pb, c["yint"], c["y"])


class Curve:
    """exact curve through given B, S, yint (floats), 60 digits"""

    def __init__(self, B, S, z):
        getcontext().prec = CTX
        self.B, self.S, self.z = D(B), D(S), D(z)

    def sp(self, y):
        return self.B + self.S * D(y) / self.z

    def p(self, y):
        return self.sp(y) ** 2

    def x(self, y):
        return (self.z - D(y)) / ((self.B + self.S) * self.sp(y))

    def cost(self, y0, y1):
        """x needed to go from y0 down to y1"""
        return (D(y0) - D(y1)) / (self.sp(y0) * self.sp(y1))

    def y_after(self, y0, dx):
        """y after receiving dx at y0"""
        t = self.sp(y0)
        return D(y0) - D(dx) * t * t / (1 + self.S * D(dx) * t / self.z)

    def y_of_x(self, x):
        return self.y_after(self.z, x)


def p13(case):
    getcontext().prec = CTX
    c = case["curve"]
    o = make(c)
    pair, tkn = c["pair"], c["tkn"]
    b, q = pair.split("/")
    rev = tkn == b
    conv = (lambda p: 1 / D(p)) if rev else (lambda p: D(p))
    z, y = o.yint, o.y
    need(z == c["yint"] and y == c["y"], "P13.size", lambda: f"{o}")
    need(o.B > 0 and o.S >= 0, "P13.BS", lambda: f"{o}")
    m = Curve(o.B, o.S, z)
    labels = {"const" if o.S == 0 else "range", "rev" if rev else "fwd"}
    narrow = 1e-15 * o.B / o.S if o.S > 0 else None       # relative uncertainty of positions on the curve

    def close(a, e, sig, rel=1e-11, abs_=0.0, msg=""):
        need_close(a, float(e), sig, rel, max(abs_, 1e-40), lambda: f"{o} {msg}")

    # end points
    pa, pb = conv(m.p(z)), conv(m.p(0))
    close(o.pa, pa, "P13.pa"); close(o.pb, pb, "P13.pb")
    need((o.p_start, o.p_end, o.py, o.px) == (o.pa, o.pb, o.pa, o.pb), "P13.alias", lambda: f"{o}")
    need((o.pmin, o.pmax) == (min(o.pa, o.pb), max(o.pa, o.pb)), "P13.minmax", lambda: f"{o}")
    need(o.tkny == tkn and o.tknx == (q if rev else b) and o.price_convention == f"{q} per {b}"
         and o.price_convention_raw == f"{o.tkny} per {o.tknx}", "P13.tokens", lambda: f"{o}")
    need(o.total_liquidity == (y, tkn) and o.z == z and o.A == o.S, "P13.alias", lambda: f"{o}")
    close(o.pa_raw, m.p(z), "P13.raw"); close(o.pb_raw, m.p(0), "P13.raw")
    close(o.xint, m.x(0), "P13.xint")
    close(o.x, m.x(y), "P13.x", 1e-11, 1e-15 * float(m.x(0)))
    close(o.p0, (pa * pb).sqrt(), "P13.p0")
    close(o.widthr, max(pa, pb) / min(pa, pb), "P13.width")
    close(o.widthpc, abs(pa - pb) / (pa * pb).sqrt(), "P13.width", 1e-9, 1e-15)
    Q = m.sp(0) / m.sp(z)
    close(o.Q, Q, "P13.Q")
    close(o.Gamma, 1 - Q.sqrt(), "P13.Gamma", 1e-9, 1e-15)
    close(o.Q_from_Gamma(o.Gamma), Q, "P13.Gamma", 1e-9, 1e-14)
    close(o.Gamma_from_Q(float(Q)), 1 - Q.sqrt(), "P13.Gamma", 1e-9, 1e-15)
    if o.S > 1e-4 * o.B:
        G = 1 - Q.sqrt()
        x0 = m.x(0) * (1 - G) / (2 - G); y0 = D(z) * (1 - G) / (2 - G)
        r = 1e-9
        close(o.x0, x0, "P13.x0", r); close(o.y0, y0, "P13.y0", r); close(o.p0_raw, y0 / x0, "P13.p0_raw", r)
        close(o.xasym, x0 * (1 - 1 / G), "P13.asym", r); close(o.yasym, y0 * (1 - 1 / G), "P13.asym", r)
        close(o.kappa, x0 * y0 / G ** 2, "P13.kappa", r); close(o.kappa_bar, (x0 * y0).sqrt() / G, "P13.kappa", r)
        close(o.leverage_fctr, 1 / G, "P13.leverage", r)
        close(o.asym_over_0(float(G)), 1 - 1 / G, "P13.asym", r); close(o.int_over_0(float(G)), (2 - G) / (1 - G), "P13.int", r)
        # the invariant through the current point, with the object's own parameters
        inv = (D(o.x) - D(o.xasym)) * (D(o.y) - D(o.yasym))
        close(inv, D(o.kappa), "P13.invariant", 1e-9)
    # prices along the curve
    last = None
    for f in sorted(case["f"]):
        dy = y * f
        if dy > y:
            continue
        y1 = D(y) - D(dy)
        P = conv(m.p(y1))
        got = o.p_marg_f(dy)
        close(got, P, "P13.p_marg_f", 1e-11, 0, f"dy={dy}")
        tol = 1e-11
        need(o.pmin * (1 - tol) <= got <= o.pmax * (1 + tol), "P13.p_marg.range", lambda: f"{o} dy={dy}: {got}")
        if last is not None:
            need((got >= last * (1 - tol)) if rev else (got <= last * (1 + tol)), "P13.p_marg.monotone", lambda: f"{o} dy={dy}: {last} {got}")
        last = got
        # effective price (a difference quotient: only where the difference is not lost in rounding)
        x0f, x1f = float(m.x(y)), float(m.x(y1))
        pe = o.p_eff_f(dy) if dy == 0 or (dy > 1e-9 * y and x1f - x0f > 1e-6 * x1f) else None
        if dy == 0:
            close(pe, P, "P13.p_eff0", 1e-10)
        elif pe is not None or (dy > 1e-9 * y and x1f - x0f > 1e-6 * x1f):
            r = 1e-9 + 1e-15 * z / dy + 1e-15 * o.xint / (x1f - x0f)
            E = conv(m.sp(y) * m.sp(y1))
            close(pe, E, "P13.p_eff_f", r, 0, f"dy={dy}")
            lo, hi = sorted((float(conv(m.p(y))), float(P)))
            need(lo * (1 - r) <= pe <= hi * (1 + r), "P13.p_eff.between", lambda: f"{o} dy={dy}: {lo} {pe} {hi}")
        if z - z * f >= 0:
            close(o.p_marg_f(z * f, fullcurve=True), conv(m.p(D(z) - D(z * f))), "P13.p_marg_f.full", 1e-11)
            if f > 1e-6:
                close(o.p_eff_f(z * f, fullcurve=True), conv(m.sp(z) * m.sp(D(z) - D(z * f))), "P13.p_eff_f.full", 1e-8)
        # amounts
        dx = o.dxfromdy_f(dy)
        close(dx, m.cost(y, y1), "P13.dxfromdy_f", 1e-11, 0, f"dy={dy}")
        back = o.dyfromdx_f(dx)
        if f <= 1 - 1e-9:
            need(back is not None, "P13.dyfromdx_f.none", lambda: f"{o} dx={dx}")
        if back is not None:
            close(back, dy, "P13.dyfromdx_f.inverse", 1e-9, 0, f"dy={dy} dx={dx}")
            need(back <= y * (1 + 1e-9), "P13.dyfromdx_f.inventory", lambda: f"{o} {back}")
        # price back to amounts
        if o.S > 0:
            u = z * max(1e-14, 4 * narrow)
            pr = float(P)
            yb = o.yfromp_f(pr, checkbounds=False)
            close(yb, y1, "P13.yfromp_f", 1e-9, u, f"p={pr}")
            db = o.dyfromp_f(pr, checkbounds=False)
            close(db, dy, "P13.dyfromp_f", 1e-9, u, f"p={pr}")
            # strictly inside the order's remaining range the bounds do not matter
            if dy > 10 * u and y1 > 10 * u:
                close(o.yfromp_f(pr), y1, "P13.yfromp_f.checked", 1e-9, u)
                close(o.dyfromp_f(pr), dy, "P13.dyfromp_f.checked", 1e-9, u)
    if o.S == 0:
        # constant price: nothing is sold at better prices, everything at worse ones
        hi_, lo_ = (float(conv(m.p(0) * k)) for k in (D("1.000001"), D("0.999999")))
        need(o.yfromp_f(hi_, checkbounds=False) == y and o.dyfromp_f(hi_, checkbounds=False) == 0, "P13.yfromp_f.constant", lambda: f"{o} at {hi_}")
        need(o.yfromp_f(lo_, checkbounds=False) == 0 and o.dyfromp_f(lo_, checkbounds=False) == y, "P13.yfromp_f.constant", lambda: f"{o} at {lo_}")
        need(o.yfromp_f(hi_) is None and o.dyfromp_f(hi_) == 0, "P13.yfromp_f.bounds", lambda: f"{o} at {hi_}")
        pe_ = o.pa
        need(o.yfromp_f(pe_) in (y, 0, None) and o.dyfromp_f(pe_) in (0, y), "P13.yfromp_f.constant", lambda: f"{o} at {pe_}: {o.yfromp_f(pe_)}")
    # the invariant function and its inverse
    for g in case["g"]:
        yy = z * g
        if yy > z:
            continue
        xx = o.xfromy_f(yy)
        close(xx, m.x(yy), "P13.xfromy_f", 1e-11, 1e-15 * o.xint, f"y={yy}")
        yb = o.yfromx_f(xx)
        tz = 1e-13 * z * (1 + o.S / o.B) ** 2     # the curve is steep near y = yint
        if g > 1e-9 and yy > 10 * tz:
            need(yb is not None, "P13.yfromx_f.none", lambda: f"{o} x={xx}")
        if yb is not None:
            close(yb, yy, "P13.yfromx_f", 1e-9, tz, f"x={xx} y={yy}")
        xg = o.xint * g
        yg = o.yfromx_f(xg)
        if g < 1 - 1e-6:
            need(yg is not None, "P13.yfromx_f.none", lambda: f"{o} x={xg}")
        if yg is not None:
            close(yg, m.y_of_x(xg), "P13.yfromx_f.model", 1e-9, 1e-12 * z, f"x={xg}")
    # outside
    e = case["out"]
    big = y * (1 + e) + 1e-12 * z
    pout_end = float(conv(m.p(0) / (1 + D(e)) ** 2))
    pout_start = float(conv(m.p(z) * (1 + D(e)) ** 2))
    checks = [("p_marg_f", (big,)), ("p_marg_f", (-e * z,)), ("p_eff_f", (big,)), ("p_eff_f", (-e * z,)), ("dxfromdy_f", (big,)), ("dxfromdy_f", (-e * z,)),
              ("dyfromdx_f", (-e * o.xint,)), ("dyfromdx_f", (float(m.cost(y, 0)) * (1 + e) + 1e-9 * o.xint,)),
              ("xfromy_f", (z * (1 + e),)), ("xfromy_f", (-e * z,)), ("yfromx_f", (-e * o.xint,)), ("yfromx_f", (o.xint * (1 + e),)),
              ("yfromp_f", (pout_start,))]
    if o.S > 0 and y < z * (1 - 1e-6) and narrow < 1e-9:
        checks.append(("yfromp_f", (float(conv(m.p((D(y) + D(z)) / 2))),)))
    for fn, args in checks:
        got = getattr(o, fn)(*args)
        need(got is None, f"P13.{fn}.bounds", lambda: f"{o} {fn}{args} = {got}, expected no result")
        expect_exc(lambda: getattr(o, fn)(*args, raiseonerror=True), f"P13.{fn}.raise", ValueError, f"{o} {args}")
    for fn, args in checks[-1:]:
        need(o.dyfromp_f(*args) == 0, "P13.dyfromp_f.bounds", lambda: f"{o} {args}")
    need(o.yfromp_f(pout_end) == 0, "P13.yfromp_f.end", lambda: f"{o} {pout_end}")
    close(o.dyfromp_f(pout_end), y, "P13.dyfromp_f.end", 1e-12)
    need(o.p_marg == o.p_marg_f(0), "P13.p_marg", lambda: f"{o}")
    # approximate liquidity: shares add up and cover the whole range exactly once
    lo, hi = o.pmin, o.pmax
    if hi > lo * (1 + 1e-9):
        pts = sorted(lo + (hi - lo) * f for f in case["g"])
        pts = [lo * 0.9] + pts + [hi * 1.1]
        tot = 0.0
        for a, bb in zip(pts, pts[1:]):
            s1 = o.liquidity_approx(a, bb, asperc=True)
            need(0 <= s1 <= 1 + 1e-9 and s1 == o.liquidity_approx(bb, a, asperc=True), "P13.liquidity_approx", lambda: f"{o} {a} {bb}: {s1}")
            tot += s1
            own = o.liquidity_approx(a, bb, tkn=tkn)
            close(own, y * s1, "P13.liquidity_approx.own", 1e-9)
            oth = o.tknx
            ot = o.liquidity_approx(a, bb, tkn=oth)
            pm = math.sqrt(max(a, lo) * min(bb, hi))
            close(ot, (own * pm if rev else own / pm) if s1 else 0, "P13.liquidity_approx.other", 1e-9)
            close(o.liquidity_approx(a, bb), own if rev else ot, "P13.liquidity_approx.base", 1e-12)
        close(tot, 1, "P13.liquidity_approx.total", 1e-9, 1e-9 * lo / (hi - lo))
    elif hi == lo:
        # a single price: the whole liquidity is there, and counts once when ranges are put next to each other
        for a, bb, e in ((lo, lo, 1), (lo * 0.9, lo * 1.1, 1), (lo, lo * 1.1, 1), (lo * 0.9, lo, 0), (lo * 1.1, lo * 1.2, 0), (lo * 0.8, lo * 0.9, 0), (lo * 1.1, lo * 1.1, 0)):
            need(o.liquidity_approx(a, bb, asperc=True) == o.liquidity_approx(bb, a, asperc=True) == e, "P13.liquidity_approx.flat", lambda: f"{o} {a} {bb}")
            close(o.liquidity_approx(a, bb, tkn=tkn), y * e, "P13.liquidity_approx.flat.own", 1e-12)
            close(o.liquidity_approx(a, bb, tkn=o.tknx), (y * lo if rev else y / lo) * e, "P13.liquidity_approx.flat.other", 1e-12)
    need(o.y == y and o.yint == z, "P13.mutated", lambda: f"{o}")
    return {"nontrivial": y > 0, "labels": sorted(labels)}


# ------------------------------------------------------------------------------------------ trading


class M:
    """model of one order of a linked pair: exact curve arithmetic in floats via Decimal"""

    def __init__(self, o, rev):
        self.o, self.rev = o, rev
        self.B, self.S, self.z, self.y = o.B, o.S, o.yint, o.y

    def curve(self):
        return Curve(self.B, self.S, self.z if self.z > 0 else 1e-50)

    def raw(self, p):
        return 1 / D(p) if self.rev else D(p)

    def target(self, p):
        """dy sold when the market price moves to p"""
        getcontext().prec = CTX
        c = self.curve()
        r = self.raw(p)
        if r >= c.p(self.y):
            return D(0)
        if r <= c.p(0):
            return D(self.y)
        yt = c.z * (r.sqrt() - c.B) / c.S
        return D(self.y) - yt


def snap(o):
    return (o.y, o.yint, o.B, o.S, o.tkn, o.pair.slashpair, o.id, id(o.linked))


def p14(case):
    from carbon.carbon_order_ui import CarbonOrderUI as O
    getcontext().prec = CTX
    b, q = case["pair"].split("/")
    os_ = O.from_prices(case["pair"], b, *case["sell"], id=1)
    ob = O.from_prices(case["pair"], q, *case["buy"], id=2)
    if case["linked"]:
        os_.set_linked(ob)
        ob.set_linked(os_)
    orders = {"sell": os_, "buy": ob}
    tot = {}
    labels = set()
    n = 0
    for ix, op in enumerate(case["ops"]):
        for side in (["sell", "buy"] if op["side"] == "both" else [op["side"]]):
            o = orders[side]
            other = orders["buy" if side == "sell" else "sell"]
            rev = o.tkn == b
            mo = M(o, rev)
            cv = mo.curve()
            s0, t0 = snap(o), snap(other)
            if mo.z == 0 and op["op"] != "price":
                continue
            dry = bool(op.get("dry"))
            w = f"op {ix} {op} on {o} (linked {other})"
            if op["op"] == "price":
                p = op["p"]
                edge = abs(float(mo.raw(p) / cv.p(mo.y)) - 1) < 1e-9 or abs(float(mo.raw(p) / cv.p(0)) - 1) < 1e-9
                if edge:
                    continue
                r = o.tradeto(p, execute=not dry)
                dy = float(mo.target(p))
                u = 1e-12 * mo.z * (1 + (o.B / o.S if o.S > 0 else 0) * 1e-3)
                if mo.z == 0 and dry:
                    pass
                if dy <= 2e-10 + u:
                    if dy > 0:
                        need(r["dy"] == 0 or isclose(r["dy"], dy, 1e-6, u + 1e-10), "P14.tradeto.tiny", lambda: f"{w}: {r}")
                        if r["dy"] == 0:
                            continue
                    else:
                        need(r["dy"] == 0, "P14.tradeto.untouched", lambda: f"{w}: price not reached, traded {r['dy']}")
                else:
                    need(isclose(r["dy"], dy, 1e-9, u), "P14.tradeto.dy", lambda: f"{w}: sold {r['dy']} expected {dy}")
                    labels.add("traded")
            elif op["op"] == "selly":
                a = mo.y * op["f"]
                r = o.selly(a, execute=not dry)
                if op["f"] > 1 and a - mo.y > 1e-9:
                    need(r is None, "P14.selly.over", lambda: f"{w}: sold {a} of {mo.y}: {r}")
                    need((snap(o), snap(other)) == (s0, t0), "P14.refused.changed", w)
                    expect_exc(lambda: o.selly(a, raiseonerror=True), "P14.selly.over.raise", ValueError, w)
                    need((snap(o), snap(other)) == (s0, t0), "P14.refused.changed", w)
                    labels.add("refused")
                    continue
                if r is None:
                    continue
                need(isclose(r["dy"], a, 1e-12, 1.1e-10), "P14.selly.dy", lambda: f"{w}: {r['dy']} asked {a}")
            elif op["op"] == "buyx":
                x = float(cv.cost(mo.y, 0)) * op["f"]
                r = o.buyx(x, execute=not dry)
                if op["f"] > 1 and float(D(mo.y) - cv.y_after(mo.y, x)) - mo.y > 1e-9 * (1 + mo.y):
                    need(r is None, "P14.buyx.over", lambda: f"{w}: {r}")
                    need((snap(o), snap(other)) == (s0, t0), "P14.refused.changed", w)
                    labels.add("refused")
                    continue
                if r is None:
                    need(op["f"] > 1 - 1e-9, "P14.buyx.refused", w)
                    continue
                need(isclose(r["dx"], x, 1e-9, 1e-10 * float(1 / cv.p(0)) + 1e-300), "P14.buyx.dx", lambda: f"{w}: {r['dx']} asked {x}")
            elif op["op"] == "add":
                a = mo.z * op["f"]
                r = o.addliqy(a)
                need(o.y == mo.y + a and o.yint == max(mo.z, mo.y + a), "P14.addliqy", lambda: f"{w}: now {o}")
                need((r["y_old"], r["y"], r["dy"], r["yint_old"], r["yint"]) == (mo.y, o.y, a, mo.z, o.yint), "P14.addliqy.report", lambda: f"{w}: {r}")
                need(r["expanded"] == (mo.y + a > mo.z) and r["tkny"] == o.tkn and r["pmarg"] == o.p_marg, "P14.addliqy.report", lambda: f"{w}: {r}")
                need(snap(other) == t0, "P14.addliqy.other", w)
                expect_exc(lambda: o.addliqy(-1.0), "P14.addliqy.negative", ValueError)
                if o.y < o.yint:
                    expect_exc(lambda: o.addliqy(2 * o.yint, expandcurve=False), "P14.addliqy.expand", ValueError)
                labels.add("added")
                continue
            elif op["op"] == "neg":
                # buying back: y grows along the curve, beyond yint only where the curve may expand
                room = mo.z - mo.y
                a = (room if room > 1e-6 * mo.z else mo.z) * op["f"]
                if mo.z < 1e-3 or a < 1e-6 or abs(mo.y + a - mo.z) < 1e-9 * mo.z:
                    continue
                kw = dict(execute=not dry, allowneg=op["neg"], expandcurve=op["expand"], raiseonerror=op["raise"])
                x = float(cv.cost(mo.y + a, mo.y))
                fn, arg = (o.selly, -a) if op["fn"] == "selly" else (o.buyx, -x)
                over = mo.y + a > mo.z
                try:
                    r, err = fn(arg, **kw), None
                except ValueError as e:
                    r, err = None, e
                w = f"{w} {op['fn']}({arg}, {kw})"
                if case["linked"] or not op["neg"] or over and not op["expand"]:
                    # (a linked order cannot give back what it received)
                    need(r is None, "P14.neg.accepted", lambda: f"{w}: {r}")
                    need(case["linked"] or (err is not None) == op["raise"], "P14.neg.raise", lambda: f"{w}: raised {err!r}")
                    need((snap(o), snap(other)) == (s0, t0), "P14.refused.changed", w)
                    labels.add("neg.refused")
                    continue
                need(r is not None, "P14.neg.refused", lambda: f"{w}: {err!r}")
                need(isclose(r["dy"], -a, 1e-9) and isclose(r["dx"], -x, 1e-8), "P14.neg.amounts", lambda: f"{w}: {r} expected {-a} {-x}")
                need(isclose(r["y"], mo.y + a, 1e-12, 1e-9 * a) and r["y_old"] == mo.y, "P14.neg.y", lambda: f"{w}: {r}")
                need(bool(r["expanded"]) == over and r["y_int"] == (r["y"] if over else mo.z) and r["yint_old"] == (mo.z if over else None), "P14.neg.yint", lambda: f"{w}: {r}")
                need(isclose(r["p"], x / a if rev else a / x, 1e-8) and bool(r["executed"]) == (not dry), "P14.neg.report", lambda: f"{w}: {r}")
                if dry:
                    need(snap(o) == s0 and snap(other) == t0, "P14.dry.changed", lambda: f"{w}: now {o}")
                else:
                    need(o.y == r["y"] and o.yint == r["y_int"] and snap(o)[2:] == s0[2:] and snap(other) == t0, "P14.neg.state", lambda: f"{w}: now {o}")
                n += 1
                labels.add("neg.expanded" if over else "neg")
                continue
            # -- common checks of a trade
            n += 1
            dy, dx = r["dy"], r["dx"]
            exec_ = not dry and dy != 0
            need(bool(r["executed"]) == exec_, "P14.executed", lambda: f"{w}: {r['executed']}")
            if dy:
                exact = cv.cost(mo.y, min(D(mo.y), max(D(0), D(mo.y) - D(dy)))) if dy <= mo.y else cv.cost(mo.y, 0)
                need(isclose(dx, float(exact), 1e-9, 1e-9 * float(1 / cv.p(0)) * 1e-1), "P14.curve", lambda: f"{w}: sold {dy} for {dx}, the curve says {float(exact)}")
                need(isclose(r["dx/dy"], dx / dy, 1e-12) and isclose(r["dy/dx"], dy / dx, 1e-12), "P14.report.p", lambda: f"{w}: {r}")
                need(isclose(r["p"], dx / dy if rev else dy / dx, 1e-12), "P14.report.p", lambda: f"{w}: {r}")
                pe = D(r["p"])
                need(o.pmin * (1 - 1e-6) <= float(pe) <= o.pmax * (1 + 1e-6) or dy < 1e-8, "P14.report.range", lambda: f"{w}: {r}")
            ynew = max(0.0, mo.y - dy)
            need(isclose(r["y"], ynew, 1e-12, 1e-10) and r["y_old"] == mo.y, "P14.report.y", lambda: f"{w}: {r}")
            need(r["tkny"] == o.tkn and r["tknx"] == (q if rev else b), "P14.report.tokens", lambda: f"{w}: {r}")
            if mo.z > 1e-40:
                need(isclose(r["pmarg_old"], float(conv_p(cv.p(mo.y), rev)), 1e-9), "P14.report.pmarg_old", lambda: f"{w}: {r}")
                need(isclose(r["pmarg"], float(conv_p(cv.p(max(0, D(mo.y) - D(dy))), rev)), 1e-5 if dy > 0.999999 * mo.y else 1e-9), "P14.report.pmarg", lambda: f"{w}: {r}")
            if mo.z == 0:
                need(o.y == 0 and 0 <= o.yint <= 1e-40 and not exec_, "P14.nocapacity", lambda: f"{w}: now {o}")
                labels.add("nocapacity")
            if not exec_:
                need(snap(o)[0] == s0[0] and (snap(o) == s0 or mo.z == 0) and snap(other) == t0, "P14.dry.changed", lambda: f"{w}: now {o} linked {other}")
                labels.add("dry")
                continue
            need(o.y == r["y"] and o.yint == mo.z if mo.z > 0 else True, "P14.y", lambda: f"{w}: now {o}")
            need(snap(o)[2:] == s0[2:] and snap(other)[2:] == t0[2:], "P14.identity", w)
            if case["linked"]:
                exp = t0[0] + dx
                need(isclose(other.y, exp, 1e-14), "P14.linked.y", lambda: f"{w}: other had {t0[0]}, got {dx}, has {other.y}")
                need(other.yint == max(t0[1], other.y), "P14.linked.yint", lambda: f"{w}: {other} before {t0}")
                L = r["linked"]
                need((L["y_old"], L["y"], L["dy"], L["tkny"]) == (t0[0], other.y, dx, other.tkn), "P14.linked.report", lambda: f"{w}: {L}")
                need(L["yint"] == other.yint and L["yint_old"] == t0[1] and L["expanded"] == (exp > t0[1]), "P14.linked.report", lambda: f"{w}: {L}")
                labels.add("linked")
            else:
                need(snap(other) == t0 and r["linked"] is None, "P14.unlinked", w)
            if op["op"] == "price":
                # right side of the market, at exactly that price unless empty
                if o.y > 1e-9 * mo.z:
                    need(isclose(o.p_marg, op["p"], 1e-9), "P14.tradeto.price", lambda: f"{w}: marginal price {o.p_marg}")
                else:
                    pend = o.p_end
                    need((op["p"] >= pend * (1 - 1e-6)) if rev else (op["p"] <= pend * (1 + 1e-6)), "P14.tradeto.empty", lambda: f"{w}: emptied at {op['p']}")
                    labels.add("emptied")
    return {"nontrivial": n > 0, "labels": sorted(labels), "n": n}


def conv_p(p, rev):
    return 1 / p if rev else p


def p14_sim(case):
    """run_sim against a replay of the documented process with the independent curve"""
    import pandas as pd
    from carbon.helpers.strategym import strategy
    from carbon.helpers.simulation import run_sim
    getcontext().prec = 40
    strats = []
    for s in case["strats"]:
        if s["k"] == "mgw":
            st = strategy.from_mgw(m=s["m"], g=s["g"], w=s["w"], u=s["u"], amt_rsk=s["rsk"], amt_csh=s["csh"])
        elif s["k"] == "sb":
            st = strategy.from_sb(s["sell"], s["buy"], fixed=s["fixed"])
            st.amt_rsk, st.amt_csh = s["rsk"] or 1e-10, s["csh"] or 1e-10
        else:
            st = strategy.from_u3(s["lo"], s["hi"], s["below"], tvl_csh=1000.0, fee_pc=s["fee"])
        strats.append(st)
    vals = list(case["path"])
    nz = case.get("zeros", 0)
    idx = pd.date_range("2020-01-01", periods=len(vals) + nz)
    path = pd.Series([0.0] * nz + vals, index=idx)
    shift = case.get("shift")
    res = run_sim(strats[0] if case["single"] else strats, path, **({} if shift is None else {"shift": shift}))
    spot0 = vals[0] * (1 + (shift or 0))
    # the model
    orders = []
    for s in strats:
        f = spot0 / 100 if s.rescale else 1.0
        for side in ("sell", "buy"):
            if side == "sell":
                a, bb, amt, pm, zi = s.p_sell_a * f, s.p_sell_b * f, s.amt_rsk, s.psell_marginal, s.y_int_sell
                lo, hi = 1 / max(a, bb), 1 / min(a, bb)
                raw = (lambda p: 1 / p)
                pm = None if pm is None else 1 / (pm * f)
            else:
                a, bb, amt, pm, zi = s.p_buy_a * f, s.p_buy_b * f, s.amt_csh, s.pbuy_marginal, s.y_int_buy
                zi = None if zi is None else zi * f if s.rescale else zi
                lo, hi = min(a, bb), max(a, bb)
                raw = (lambda p: p)
                pm = None if pm is None else pm * f
            y = float(amt or 0)
            B = math.sqrt(lo); S = math.sqrt(hi) - B
            z = y
            if pm is not None:
                z = y * S / (math.sqrt(pm) - B)
            elif zi is not None:
                z = zi
            orders.append({"side": side, "B": B, "S": S, "y": y, "z": z, "raw": raw})
    seq = []

    def rec():
        seq.append((sum(o["y"] for o in orders if o["side"] == "sell"), sum(o["y"] for o in orders if o["side"] == "buy"),
                    [marg(o) if o["z"] > 1e-6 else None for o in orders if o["side"] == "sell"],
                    [marg(o) if o["z"] > 1e-6 else None for o in orders if o["side"] == "buy"]))

    def marg(o):
        sp = o["B"] + o["S"] * (o["y"] / o["z"] if o["z"] > 0 else 1)
        p = sp * sp
        return 1 / p if o["side"] == "sell" else p
    rec()
    traded = 0
    for p in vals[1:]:
        for ix, o in enumerate(orders):
            other = orders[ix + 1] if ix % 2 == 0 else orders[ix - 1]
            r = o["raw"](p)
            sp = math.sqrt(r)
            if o["z"] <= 0 or o["y"] <= 0:
                continue
            cur = o["B"] + o["S"] * o["y"] / o["z"]
            if sp >= cur:
                continue
            if o["S"] <= 1e-14 * o["B"] or sp <= o["B"]:
                dy = o["y"]
            else:
                dy = o["y"] - o["z"] * (sp - o["B"]) / o["S"]
            if abs(dy) < 1e-10:
                continue
            y1 = o["y"] - dy
            dx = dy / (cur * (o["B"] + o["S"] * y1 / o["z"]))
            o["y"] = y1
            other["y"] += dx
            other["z"] = max(other["z"], other["y"])
            traded += 1
        rec()
    k = len(vals)
    need(len(res.rskamt_r) == k and len(res.cshamt_r) == k and len(res.value_r) == k and len(res.hodl_r) == k, "P14.sim.length",
         lambda: f"{len(res.rskamt_r)} {len(res.cshamt_r)} {len(res.value_r)} expected {k}")
    need(list(res.spot_r) == vals, "P14.sim.path", lambda: f"{list(res.spot_r)}")
    need(list(res.spot_r.index) == list(idx[nz:]), "P14.sim.index", "")
    R0, C0 = seq[0][0], seq[0][1]
    smax = max(vals)
    smin = min(vals)
    scale_r = max(max(s[0], s[1] / smin) for s in seq)
    scale_c = max(max(s[1], s[0] * smax) for s in seq)
    for i, (R, C, ps, pb) in enumerate(seq):
        w = lambda: f"step {i} at {vals[i]}"
        tr, tc = 1e-8 * scale_r + 1e-7, 1e-8 * scale_c + 1e-7 * smax
        need(isclose(res.rskamt_r[i], R, 1e-7, tr), "P14.sim.rsk", lambda: f"{w()}: {res.rskamt_r[i]} expected {R}")
        need(isclose(res.cshamt_r[i], C, 1e-7, tc), "P14.sim.csh", lambda: f"{w()}: {res.cshamt_r[i]} expected {C}")
        need(isclose(res.value_r.iloc[i], res.rskamt_r[i] * vals[i] + res.cshamt_r[i], 1e-12), "P14.sim.value", w)
        need(isclose(res.hodl_r.iloc[i], res.rskamt_r[0] * vals[i] + res.cshamt_r[0], 1e-12), "P14.sim.hodl", w)
        got_s = [m[i] for m in res.margpbuy_r]
        got_b = [m[i] for m in res.margpsell_r]
        # named the other way round in the result: "buy" is the range that sells the risk asset
        need(len(got_s) == len(ps) and len(got_b) == len(pb), "P14.sim.marg", w)
        for a, e in list(zip(got_s, ps)) + list(zip(got_b, pb)):
            need(e is None or isclose(a, e, 1e-5), "P14.sim.marg", lambda: f"{w()}: {got_s} {got_b} expected {ps} {pb}")
    need(isclose(R0, sum(o.amt_rsk or 0 for o in strats), 1e-12) and isclose(C0, sum(o.amt_csh or 0 for o in strats), 1e-12), "P14.sim.start", "")
    got = res.strat
    for s, g in zip(strats, got):
        f = spot0 / 100 if s.rescale else 1.0
        need(isclose(g.p_sell_a, s.p_sell_a * f, 1e-12) and isclose(g.p_buy_b, s.p_buy_b * f, 1e-12), "P14.sim.strat", lambda: f"{g}")
    return {"nontrivial": traded > 0, "labels": [f"strats{len(strats)}", f"steps{min(k, 6)}"], "n": k}


def _same(a, b, sig, rel=1e-11, ids=False, msg=""):
    """two order views describe the same order"""
    need(a.tkn == b.tkn and a.pair.basetoken == b.pair.basetoken and a.pair.quotetoken == b.pair.quotetoken, sig + ".token", lambda: f"{a} {b} {msg}")
    t = lambda: f"{a} {b} {msg}"
    need_close(a.B, b.B, sig + ".B", rel, 0, t)
    need_close(a.B + a.S, b.B + b.S, sig + ".S", rel, 0, t)
    need_close(a.yint, b.yint, sig + ".yint", rel, 0, t)
    need_close(a.y, b.y, sig + ".y", rel, rel * abs(b.yint), t)
    need_close(a.pa, b.pa, sig + ".pa", rel * 4, 0, t)
    need_close(a.pb, b.pb, sig + ".pb", rel * 4, 0, t)
    if a.yint:
        need_close(a.p_marg, b.p_marg, sig + ".pmarg", rel * 8, 0, t)


def p15(case):
    from carbon.carbon_order_ui import CarbonOrderUI as O
    from carbon.order import Order
    from carbon.pair import CarbonPair
    c = case["curve"]
    labels = set()
    o = make(c)
    pair, tkn = c["pair"], c["tkn"]
    b, q = pair.split("/")
    oth = q if tkn == b else b
    # --- prices, either order
    for x, y in ((c["pa"], c["pb"]), (c["pb"], c["pa"])):
        o1 = O.from_prices(CarbonPair(pair), tkn, x, y, c["yint"], c["y"], id=7)
        _same(o1, o, "P15.prices", 1e-15)
        need(o1.id == 7 and o1.linked is None, "P15.prices.id", lambda: f"{o1}")
    # the reported end prices are those asked for
    lo, hi = sorted((c["pa"], c["pb"]))
    need_close(o.pmin, lo, "P15.range", 1e-12, 0, lambda: f"{o}"); need_close(o.pmax, hi, "P15.range", 1e-12, 0, lambda: f"{o}")
    need_close(o.pa, lo if tkn == b else hi, "P15.pa", 1e-12, 0, lambda: f"{o}")
    need(o.yint == c["yint"] and o.y == c["y"], "P15.size", lambda: f"{o}")
    # --- B, S
    o2 = O.from_BSy(pair, tkn.lower(), o.B, o.S, o.yint, o.y)
    _same(o2, o, "P15.BSy", 1e-15)
    _same(O.from_prices(pair, tkn, o.pa, o.pb, o.yint, o.y), o, "P15.prices_again", 1e-12)
    # --- Q, xint, yint
    if o.yint > 0:
        o3 = O.from_Qxy(pair, tkn, o.Q, o.xint, o.yint, o.y)
        _same(o3, o, "P15.Qxy", 1e-11)
        need_close(o3.xint, o.xint, "P15.Qxy.xint", 1e-11); need_close(o3.Q, o.Q, "P15.Qxy.Q", 1e-11)
    # --- another view
    o4 = O.from_order(o1)
    _same(o4, o, "P15.view", 1e-15)
    need(o4.id == o1.id, "P15.view.id", lambda: f"{o4}")
    # --- prices -> Order -> view; Order holds raw prices of the token sold per token received
    rl, rh = ((1 / D(hi), 1 / D(lo)) if tkn == b else (D(lo), D(hi)))
    if c["yint"] > 0:
        kw = dict(pair=CarbonPair(pair), tkn=tkn, id=11)
        n1 = Order(p_high=rh, p_low=rl, y_int=D(c["yint"]), _y=D(c["y"]), **kw)
        n2 = Order(p_high=rl, p_low=rh, y_int=D(c["yint"]), _y=D(c["y"]), **kw)
        n3 = Order(B=D(o.B), S=D(o.S), y_int=D(c["yint"]), _y=D(c["y"]), **kw)
        for n, nm in ((n1, "prices"), (n2, "swapped"), (n3, "BS")):
            if n is n3 and o.S == 0:
                continue
            u = O.from_order(n)
            _same(u, o, "P15.order." + nm, 1e-11)
            need(u.id == 11, "P15.order.id", lambda: f"{u}")
            need_close(n.p_low, rl, "P15.order.p_low", 1e-11); need_close(n.p_high, rh, "P15.order.p_high", 1e-11)
            need(n.y == D(c["y"]) and n.y_int == n.D == D(c["yint"]), "P15.order.alias", lambda: f"{n}")
        # the capacity under its other name, or not at all
        n5 = Order(p_high=rh, p_low=rl, D=D(c["yint"]), _y=D(c["y"]), **kw)
        _same(O.from_order(n5), o, "P15.order.D", 1e-11)
        need(n5.y_int == n5.D == D(c["yint"]) and n5.y == D(c["y"]), "P15.order.D", lambda: f"{n5}")
        if c["y"] > 0:
            n6 = Order(p_high=rh, p_low=rl, _y=D(c["y"]), **kw)
            need(n6.y_int == n6.D == n6.y == D(c["y"]), "P15.order.full", lambda: f"{n6}")
            need_close(O.from_order(n6).p_marg, o.pa, "P15.order.full", 1e-9, 0, lambda: f"{n6}")
        # marginal price instead of the capacity
        if c["pa"] != c["pb"] and hi / lo > 1.0001 and c["y"] > 1e-3 * c["yint"]:
            m = Curve(o.B, o.S, o.yint)
            n4 = Order(p_high=rh, p_low=rl, p_marginal=m.p(c["y"]), _y=D(c["y"]), **kw)
            need_close(n4.y_int, c["yint"], "P15.order.marginal", 1e-8, 0, lambda: f"{n4}")
            labels.add("marginal")
    # --- the simulator
    from carbon.simulators import CarbonSimulatorUI
    for ui in (False, True):
        s = CarbonSimulatorUI(pair=pair, raiseonerror=True, verbose=False)
        r = s.add_order(tkn, c["y"], *((c["pa"], c["pb"]) if not c["swap"] else (c["pb"], c["pa"])), y_int=c["yint"]) if c["yint"] > 0 else None
        if r is None:
            break
        no = [x for x in s.orders.values() if x.tkn == tkn][0]
        _same(O.from_order(no), o, "P15.sim", 1e-11)
        if not ui:
            continue
        # the view handed out with the order
        v = r["orderuis"]
        v = [x for x in v.values() if x.tkn == tkn][0]
        _same(v, o, "P15.sim.view", 1e-11)
        need(v.id == no.id, "P15.sim.id", lambda: f"{v} {no}")
        row = r["orders"]
        row = row[row["tkn"] == tkn].iloc[0]
        need_close(row["p_start"], o.pa, "P15.sim.table", 1e-4); need_close(row["p_end"], o.pb, "P15.sim.table", 1e-4)
    # --- integer parameters
    dec = dict(zip((b, q), case["dec"]))
    dp = CarbonPair(pair).set_decimals(*case["dec"])
    od = O.from_prices(dp, tkn, c["pa"], c["pb"], c["yint"], c["y"])
    sx = case["sx"]
    e = od.yzABS(sx)
    decy, decx = dec[tkn], dec[oth]
    sc = D(2) ** sx
    getcontext().prec = CTX
    shift = (D(10) ** (decy - decx)).sqrt()
    need(e.S == e.scaling_factor == 2 ** sx, "P15.yzABS.scale", lambda: f"{e}")
    need_close(e.y, D(c["y"]) * D(10) ** decy, "P15.yzABS.y", 1e-12); need_close(e.z, D(c["yint"]) * D(10) ** decy, "P15.yzABS.z", 1e-12)
    need(abs(D(e.B) - D(od.B) * shift * sc) <= 1 + D(1e-13) * D(od.B) * shift * sc and D(e.B) <= D(od.B) * shift * sc * (1 + D(1e-13)), "P15.yzABS.B", lambda: f"{e} {od}")
    need(abs(D(e.A) - D(od.S) * shift * sc) <= 1 + D(1e-13) * D(od.S) * shift * sc and D(e.A) <= D(od.S) * shift * sc * (1 + D(1e-13)), "P15.yzABS.A", lambda: f"{e} {od}")
    need(e.astuple == (e.y, e.z, e.A, e.B, e.S) and e.asdict == {"y": e.y, "z": e.z, "A": e.A, "B": e.B, "S": e.S}, "P15.yzABS.alias", lambda: f"{e}")
    need(e.A_unscaled == e.A / e.S and e.B_unscaled == e.B / e.S and e.A_scaled == e.A and e.B_scaled == e.B, "P15.yzABS.alias", lambda: f"{e}")
    expect_exc(lambda: o.yzABS(sx), "P15.yzABS.nodecimals")
    # --- raw SDK record of one order and back
    big = lambda v: {"type": "BigNumber", "hex": hex(int(v))}
    if sx >= 32:
        rec = {k: big(v) for k, v in dict(y=int(D(c["y"]) * D(10) ** decy), z=int(D(c["yint"]) * D(10) ** decy), A=D(o.S) * 2 ** sx, B=D(o.B) * 2 ** sx).items()}
        for rr in (rec, {"encoded": rec}, {k: O.bn2int(v) for k, v in rec.items()}):
            u = O._from_SDK0(rr, pair, tkn, decy, sx) if sx != 48 else O._from_SDK0(rr, pair, tkn, decy)
            need(u.tkn == tkn, "P15.SDK0.token", lambda: f"{u}")
            need(abs(u.B - o.B) <= 2.0 ** -sx + 1e-12 * o.B and abs(u.S - o.S) <= 2.0 ** -sx + 1e-12 * o.S, "P15.SDK0.AB", lambda: f"{u} {o}")
            need(abs(u.y - o.y) <= 10.0 ** -decy + 1e-12 * o.y and abs(u.yint - o.yint) <= 10.0 ** -decy + 1e-12 * o.yint, "P15.SDK0.yz", lambda: f"{u} {o}")
        labels.add("sdk0")
    # --- an SDK strategy
    nt = _sdk_strategy(case, O, CarbonSimulatorUI, labels)
    # --- equivalent constant product curve
    if o.S > 1e-6 * o.B and o.y == 0 and o.yint > 0:
        k = o.as_cpc       # nothing left: a curve without range
        need_close(k.p, o.p_end, "P15.cpc.p", 1e-9, 0, lambda: f"{k} {o}")
        need(abs(k.x_act) <= 1e-9 * k.x and abs(k.y_act) <= 1e-9 * k.y, "P15.cpc.empty", lambda: f"{k} {o}")
    if o.S > 1e-6 * o.B and o.y > 1e-6 * o.yint and o.yint > 0:
        k = o.as_cpc
        need(k.pair.split("/") == [b, q], "P15.cpc.pair", lambda: f"{k}")
        need_close(k.p, o.p_marg, "P15.cpc.p", 1e-9, 0, lambda: f"{k} {o}")
        act, zero = (k.x_act, k.y_act) if tkn == b else (k.y_act, k.x_act)
        ref = o.yint * o.B / o.S + o.yint
        need_close(act, o.y, "P15.cpc.act", 1e-9, 1e-12 * ref, lambda: f"{k} {o}")
        other = k.y if tkn == b else k.x
        need(abs(zero) <= 1e-9 * other, "P15.cpc.zero", lambda: f"{k} {o}")
        # trading half of the inventory costs the same on both
        dy = o.y / 2
        dx = o.dxfromdy_f(dy)
        got = k.dyfromdx_f(-dy) if tkn == b else k.dxfromdy_f(-dy)
        need_close(got, dx, "P15.cpc.trade", 1e-6, 1e-9 * other, lambda: f"{k} {o}")
        labels.add("cpc")
    # --- helpers
    x0 = case["num"]
    for n in (1, 3, 6, case["nsd"]):
        r = O.roundsd(x0, n)
        if n is None:
            need(r == x0, "P15.roundsd.none", lambda: f"{x0} {n} {r}")
        else:
            need(abs(r - x0) <= 0.5000001 * 10.0 ** (1 - n) * x0, "P15.roundsd", lambda: f"{x0} {n} {r}")
            need(float(f"{r:.{n}e}") == r or isclose(float(f"{r:.{n}e}"), r, 1e-14), "P15.roundsd.digits", lambda: f"{x0} {n} {r}")
        need(O.roundsd(-x0, n) == -r, "P15.roundsd.negative", lambda: f"{x0} {n} {r} {O.roundsd(-x0, n)}")
        need(O.roundsd(0, n) == 0 and O.roundsd("a", n) == "a", "P15.roundsd.nonnumber")
    n = case["sid"]
    need(O.bn2int(big(n)) == n and O.bn2int(n) == n and O.bn2intd({"a": big(n), "b": "x"}) == {"a": n, "b": "x"}, "P15.bn2int", lambda: n)
    lo_, k_ = case["br"]
    hi_ = lo_ * k_
    root = lo_ + (hi_ - lo_) * case["root"]
    for sgn in (1, -1):
        r = O.goalseek(lambda x: sgn * (x - root) * (1 + x), lo_, hi_)
        need(abs(r / root - 1) <= 1.1e-7, "P15.goalseek", lambda: f"{lo_} {hi_} {root} {r}")
        r = O.goalseek(lambda x: sgn * (x - root), lo_, hi_, eps=1e-11)
        need(abs(r / root - 1) <= 1.1e-11, "P15.goalseek.eps", lambda: f"{lo_} {hi_} {root} {r}")
    expect_exc(lambda: O.goalseek(lambda x: x - root, hi_, lo_), "P15.goalseek.bracket", ValueError)
    expect_exc(lambda: O.goalseek(lambda x: x + 1, lo_, hi_), "P15.goalseek.sign", ValueError)
    # --- descriptions that make no sense
    bad = case["bad"]
    z = c["yint"] or 1.0
    pa, pb = c["pa"], c["pb"]
    if bad == "yint<0":
        expect_exc(lambda: O.from_prices(pair, tkn, pa, pb, -z, -2 * z), "P15.bad.yint", ValueError)
        expect_exc(lambda: O.from_prices(pair, tkn, pa, pb, -z, 0), "P15.bad.yint", ValueError)
    elif bad == "y>yint":
        expect_exc(lambda: O.from_prices(pair, tkn, pa, pb, z, z * 1.01), "P15.bad.y", ValueError)
        expect_exc(lambda: O.from_Qxy(pair, tkn, 0.5, z, z, z * 1.01), "P15.bad.y", ValueError)
    elif bad == "y<0":
        expect_exc(lambda: O.from_prices(pair, tkn, pa, pb, z, -z * 1e-3), "P15.bad.y", ValueError)
        expect_exc(lambda: O.from_Qxy(pair, tkn, 0.5, z, z, -z * 1e-3), "P15.bad.y", ValueError)
    elif bad == "token":
        expect_exc(lambda: O.from_prices(pair, "XYZ", pa, pb, z, z), "P15.bad.token", ValueError)
        expect_exc(lambda: O.from_BSy(pair, "XYZ", 1, 1, z, z), "P15.bad.token", ValueError)
        expect_exc(lambda: O.from_Qxy(pair, "XYZ", 0.5, z, z, z), "P15.bad.token", ValueError)
    else:
        v = 0 if bad == "Qx" else -z
        expect_exc(lambda: O.from_Qxy(pair, tkn, 0.5, v, z, 0), "P15.bad.xint", ValueError)
        expect_exc(lambda: O.from_Qxy(pair, tkn, 0.5, z, v, v), "P15.bad.yint", ValueError)
    # a disabled order has no prices
    dis = O.from_BSy(pair, tkn, 0, 0, z, z)
    need(dis.disabled and dis.pa_raw is None and dis.pb_raw is None and dis.pmin is None and dis.pmax is None and dis.y == z, "P15.disabled", lambda: f"{dis}")
    return {"nontrivial": c["yint"] > 0 and (nt or "cpc" in labels), "labels": sorted(labels)}


def _sdk_strategy(case, O, Sim, labels):
    """a strategy record as returned by the SDK -> two linked views -> the simulator"""
    c, d = case["curve"], case["other"]
    tb, tq = case["tokens"]
    base_of = c["pair"].split("/")[0]
    s, y = (c, d) if c["tkn"] == base_of else (d, c)         # s sells the base token, y sells the quote token
    if s["yint"] <= 0 or y["yint"] <= 0:
        return False
    big = lambda v: {"type": "BigNumber", "hex": hex(int(v))}
    K = 10 ** 18
    frac = lambda k: D(k["y"]) / D(k["yint"])
    # loading as fixed point fractions
    fs, fy = int(frac(s) * K), int(frac(y) * K)
    encb = {"y": big(fs), "z": big(K), "A": big(5), "B": big(7)}
    encq = {"y": big(fy * 3), "z": big(3 * K), "A": big(11), "B": big(13)}
    fl = case["flip"]
    rec = {"id": big(case["sid"]), "baseToken": tb, "quoteToken": tq,
           "buyPriceLow": str(min(y["pa"], y["pb"])), "buyPriceHigh": str(max(y["pa"], y["pb"])), "buyBudget": str(y["yint"]),
           "sellPriceLow": str(min(s["pa"], s["pb"])), "sellPriceHigh": str(max(s["pa"], s["pb"])), "sellBudget": str(s["yint"]),
           "encoded": {"id": big(case["sid"]), "token0": tq if fl else tb, "token1": tb if fl else tq,
                       "order0": encq if fl else encb, "order1": encb if fl else encq}}
    nsd = case["nsd"]
    import copy
    before = copy.deepcopy(rec)
    ob, os_ = O.from_SDK(rec, nsd)
    need(rec == before, "P15.SDK.input", lambda: f"{rec}")
    tol = 1e-12 if nsd is None else 0.51 * 10.0 ** (1 - nsd) + 1e-12
    need(ob.linked is os_ and os_.linked is ob, "P15.SDK.linked")
    need(ob.id == f"{case['sid']}-b" and os_.id == f"{case['sid']}-s" and ob.lid == os_.id and os_.lid == ob.id, "P15.SDK.id", lambda: f"{ob} {os_}")
    need(os_.tkn == tb and ob.tkn == tq and ob.pair.basetoken == tb and ob.pair.quotetoken == tq and os_.pair.basetoken == tb, "P15.SDK.tokens", lambda: f"{ob} {os_}")
    for v, k, f, up in ((os_, s, fs, True), (ob, y, fy, False)):
        lo, hi = sorted((k["pa"], k["pb"]))
        a, e = (lo, hi) if up else (hi, lo)
        need_close(v.pa, a, "P15.SDK.prices", tol, 0, lambda: f"{v} {rec}"); need_close(v.pb, e, "P15.SDK.prices", tol, 0, lambda: f"{v} {rec}")
        need_close(v.yint, k["yint"], "P15.SDK.budget", tol, 0, lambda: f"{v} {rec}")
        need_close(v.y, v.yint * f / K, "P15.SDK.y", 1e-12, 0, lambda: f"{v} {rec}")
    sim = Sim(raiseonerror=True, verbose=False)
    r = sim.add_fromsdk(rec, nsd)
    need(r["success"] is True and len(sim.orders) == 2, "P15.SDK.sim", lambda: f"{r}")
    for v in (os_, ob):
        n = [x for x in sim.orders.values() if x.tkn == v.tkn]
        need(len(n) == 1, "P15.SDK.sim", lambda: f"{sim.orders}")
        _same(O.from_order(n[0]), v, "P15.SDK.sim", 1e-11)
    labels.add("sdk")
    # records of other tokens are refused
    rec["encoded"]["token1"] = "AAVE"
    expect_exc(lambda: O.from_SDK(rec, nsd), "P15.SDK.mismatch", ValueError)
    return True
