"""the arbitrage optimisers, judged against the optimum conditions computed from the curves' parameters"""
import math
import io
import contextlib
from .base import Violation, Skip, need, need_close, isclose, expect_exc
from .cpc import build, expected


def libs():
    import carbon.tools.cpc as c
    import carbon.tools.optimizer as o
    return c, o


class Mod:
    """x, y virtual balances, least balances; trades to a price (quote per base) are confined to the bounds"""
    def __init__(self, c):
        self.pair, self.x, self.y, xa, ya = expected(c)
        self.b, self.q = self.pair.split("/")
        self.xmin, self.ymin = self.x - xa, self.y - ya
        if self.xmin < 1e-9 * self.x:
            self.xmin = 0.0
        if self.ymin < 1e-9 * self.y:
            self.ymin = 0.0
        self.k = self.x * self.y
        self.cid = c["a"]["cid"]

    def at(self, p):
        x, y = math.sqrt(self.k / p), math.sqrt(self.k * p)
        if x < self.xmin:
            x, y = self.xmin, self.k / self.xmin
        elif y < self.ymin:
            x, y = self.k / self.ymin, self.ymin
        return x - self.x, y - self.y

    def rev(self):
        m = object.__new__(Mod)
        m.__dict__.update(self.__dict__)
        m.b, m.q, m.x, m.y, m.xmin, m.ymin = self.q, self.b, self.y, self.x, self.ymin, self.xmin
        m.pair = f"{m.b}/{m.q}"
        return m


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def sums(ms, price):
    """token -> total at these token prices"""
    t = {}
    for m in ms:
        dx, dy = m.at(price[m.b] / price[m.q])
        t[m.b] = t.get(m.b, 0) + dx
        t[m.q] = t.get(m.q, 0) + dy
    return t


def scale(ms):
    t = {}
    for m in ms:
        t[m.b] = t.get(m.b, 0) + m.x
        t[m.q] = t.get(m.q, 0) + m.y
    return t


def flipped(C, c, m, flip, i):
    if not flip:
        return build(c)
    r = m.rev()
    return C.from_xy(x=r.x, y=r.y, x_act=r.x - r.xmin, y_act=r.y - r.ymin, pair=r.pair, cid=m.cid)


def check_ti(r, O, ms, dxs, dys, ti, sc, w, pid, flip=None):
    """trade instructions are the trades, one per curve that trades, AMM in positive and out negative"""
    exp = {}
    for m, dx, dy in zip(ms, dxs, dys):
        exp[m.cid] = {m.b: dx, m.q: dy}
    tis = r.trade_instructions()
    ids = [t.cid for t in tis]
    need(len(set(ids)) == len(ids) and set(ids) <= set(exp), pid + ".ti.ids", w)
    small = lambda t, v: abs(v) <= 1e-8 + 1e-9 * sc[t]
    for t in tis:
        e = exp[t.cid]
        need(set(e) == {t.tknin, t.tknout}, pid + ".ti.tokens", lambda: f"{t} {w}")
        need(t.amtin >= 0 >= t.amtout, pid + ".ti.sign", lambda: f"{t} {w}")
        for tk, am in ((t.tknin, t.amtin), (t.tknout, t.amtout)):
            need(isclose(am, e[tk], 1e-9, 1e-12 * sc[tk]) or (am == 0 and t.amtin == 0 and t.amtout == 0 and small(tk, e[tk])), pid + ".ti.amount", lambda: f"{t} {e} {w}")
        if t.amtin and t.amtout:
            need_close(t.p, -t.amtout / t.amtin, pid + ".ti.p", 1e-12)
            need_close(t.pr, -t.amtin / t.amtout, pid + ".ti.p", 1e-12)
            need(t.pp == (t.p, t.pr), pid + ".ti.p")
        need(t.is_empty == (t.amtin == 0 or t.amtout == 0), pid + ".ti.empty")
    for cid, e in exp.items():
        need(cid in ids or all(abs(v) <= 1e-12 * sc[t] for t, v in e.items()), pid + ".ti.missing", lambda: f"{cid} {e} {w}")
    if ti == "dicts":
        d = r.trade_instructions(O.TIF_DICTS)
        need([(x["cid"], x["tknin"], x["amtin"], x["tknout"], x["amtout"]) for x in d] == [(t.cid, t.tknin, t.amtin, t.tknout, t.amtout) for t in tis], pid + ".ti.dicts", w)
    elif ti != "objects":
        df = r.trade_instructions(ti)
        if not tis:
            need(len(df) == 0, pid + ".ti.df", w)
            return
        if ti == "dfraw":
            need(O.TradeInstruction.to_df(tis).equals(df), pid + ".ti.default", w)
        for t in tis:
            row = df.loc[t.cid]
            for tk, am in ((t.tknin, t.amtin), (t.tknout, t.amtout)):
                need(row[tk] == am, pid + ".ti.df." + ti, lambda: f"{row} {t}")
            if ti != "dfaggr":
                need(row["tknin"] == t.tknin and row["tknout"] == t.tknout and row["pair"] == t.curve.pair and row["pairp"] == t.curve.pairp, pid + ".ti.df", w)
        for tk in {t.tknin for t in tis} | {t.tknout for t in tis}:
            am = [t.amtin if t.tknin == tk else t.amtout for t in tis if tk in (t.tknin, t.tknout)]
            if ti == "dfaggr":
                for row, e in (("TOTAL NET", sum(am)), ("AMMIn", sum(a for a in am if a > 0)), ("AMMOut", sum(a for a in am if a < 0))):
                    need_close(df.loc[row][tk], e, pid + ".ti.aggr", 1e-9, 1e-12 * sc[tk], msg=lambda: f"{row} {tk} {df} {w}")


def p21(case):
    c_, o_ = libs()
    C, CC, O = c_.ConstantProductCurve, c_.CPCContainer, o_.CPCArbOptimizer
    ms = [Mod(c) for c in case["curves"]]
    cs = [build(c) for c in case["curves"]]
    target, toks = case["target"], case["toks"]
    cc = CC(cs)
    opt = O(cc)
    w = f"target {target} curves {case['curves']}"
    before = cc.asdicts()
    val = dict(zip(toks, case["vals"]))
    params = {}
    est = {t: val[t] / val[target] for t in toks if t != target}
    if case["pstart"] or not case["star"]:
        params["pstart"] = dict(est, OTHER=1.0)
        if case["pstart"] == "df":
            import pandas as pd
            params["pstart"] = pd.DataFrame({target: est})
    try:
        r = quiet(lambda: opt.margp_optimizer(target, params=params))
    except Exception as e:
        # an estimate needs curves with the target token that are not at a boundary
        if "price estimates not found" in str(e) and not case["full"]:
            raise Skip()
        if isinstance(e, (ZeroDivisionError, OverflowError)) and not case["full"]:
            return {"nontrivial": False, "labels": ["not converged"]}      # the search left the number range
        raise Violation("P21.raises", f"{e!r} {w}")
    if r.is_error:
        need(not case["full"] or case["spread"] > 0.3, "P21.noresult", lambda: f"{r.error} {w}")
        need(r.result is None and r.p_optimal is None and r.errormsg and r.status() == "error", "P21.error", w)
        expect_exc(r.dxdyvalues, "P21.error", AssertionError)
        return {"nontrivial": False, "labels": ["not converged"]}
    price = {target: 1.0, **r.p_optimal}
    need(set(price) == set(cc.tokens()) and all(v > 0 for v in price.values()), "P21.prices", lambda: f"{r} {w}")
    need(set(r.tokens_t) == set(price) - {target} and r.p_optimal_t == tuple(r.p_optimal[t] for t in r.tokens_t), "P21.prices", lambda: f"{r} {w}")
    sc = scale(ms)
    tot = sums(ms, price)
    w2 = lambda: f"{r} totals {tot} {w}"
    # the trades are those of every curve at the optimal prices
    for (dx, dy), m, c, a, b in zip(r.dxdyvalues(), ms, cs, r.dxvalues, r.dyvalues):
        e = m.at(price[m.b] / price[m.q])
        need((a, b) == (dx, dy), "P21.values", w2)
        need_close(dx, e[0], "P21.dx", 1e-7, 1e-9 * m.x, msg=lambda: f"{m.cid} {w2()}")
        need_close(dy, e[1], "P21.dy", 1e-7, 1e-9 * m.y, msg=lambda: f"{m.cid} {w2()}")
        need(dx * dy <= 0 or (abs(dx) < 1e-12 * m.x and abs(dy) < 1e-12 * m.y), "P21.sign", w2)
    need(r.dxdyvalues(asdict=True) == {c.cid: v for c, v in zip(cs, r.dxdyvalues())}, "P21.asdict", w2)
    for t in tot:
        need_close(r.dtokens[t], tot[t], "P21.dtokens", 1e-7, 1e-9 * sc[t], msg=w2)
    need(r.dtokens_t == tuple(r.dtokens[t] for t in r.tokens_t), "P21.dtokens_t", w2)
    need(r.result == r.dtokens[target] == float(r) and r.targettkn == target and r.method == "margp" and r.error is None and r.status() == "converged", "P21.result", w2)
    # equilibrium: everything but the target token nets to zero, and nothing is lost
    slack = 0
    for t in tot:
        if t != target:
            need(abs(tot[t]) <= 1e-5 * sc[t], "P21.equilibrium", lambda: f"{t}: {tot[t]} of {sc[t]} {w2()}")
            slack += abs(tot[t]) * price[t]
    need(r.result <= slack + 1e-9 * sc[target], "P21.loss", w2)
    for t in toks:
        for u in toks:
            need_close(r.price(t, u), price[t] / price[u], "P21.price", 1e-12, msg=w2)
    # the curves after the trades
    new = quiet(lambda: r.curves_new)
    need(new is not None and len(new) == len(cs), "P21.curves_new", w2)
    for n, c, m, dx, dy in zip(new, cs, ms, r.dxvalues, r.dyvalues):
        ww = lambda: f"{n} from {c} {w2()}"
        need(n.pair == c.pair and n.cid == f"{c.cid}-x", "P21.new.meta", ww)
        need_close(n.x, c.x + dx, "P21.new.x", 1e-9, msg=ww)
        need_close(n.y, c.y + dy, "P21.new.y", 1e-9, msg=ww)
        need_close(n.x_act, c.x_act + dx, "P21.new.x_act", 1e-9, 1e-9 * max(c.x, n.x), msg=ww)
        need_close(n.y_act, c.y_act + dy, "P21.new.y_act", 1e-9, 1e-9 * max(c.y, n.y), msg=ww)
        p = price[m.b] / price[m.q]
        plo, phi = m.ymin ** 2 / m.k, (m.k / m.xmin ** 2 if m.xmin else 1e300)
        need_close(n.p, min(max(p, plo), phi), "P21.new.p", 1e-6, msg=ww)
    check_ti(r, O, ms, r.dxvalues, r.dyvalues, case["ti"], sc, w2, "P21")
    # other result types
    r2 = quiet(lambda: opt.margp_optimizer(opt.SFC(**{target: opt.AMMPays}), result=O.MO_MINIMAL, params=params))
    need(r2.p_optimal is None and r2.curves is None and r2.dtokens is None and r2.optimizer is None, "P21.minimal", w2)
    need_close(r2.result, r.result, "P21.minimal", 1e-9, 1e-9 * sc[target], msg=w2)
    f = quiet(lambda: opt.margp_optimizer(target, result=O.MO_DTKNFROMPF, params=params))
    pr = [price[t] * (1 + d) for t, d in zip(r.tokens_t, case["at"])]
    e = sums(ms, {target: 1.0, **dict(zip(r.tokens_t, pr))})
    for v in (f([math.log10(p) for p in pr]), f(pr, islog10=False)):
        for t, a in zip(r.tokens_t, v):
            need_close(float(a), e[t], "P21.f", 1e-7, 1e-9 * sc[t], msg=lambda: f"{pr} {v} {e} {w2()}")
    d = f(pr, islog10=False, asdct=True)[0]
    need(set(d) == set(e) and all(isclose(d[t], e[t], 1e-7, 1e-9 * sc[t]) for t in e), "P21.f.dict", w2)
    ps = quiet(lambda: opt.margp_optimizer(target, result=O.MO_PSTART, params=params))
    need(set(ps.index) == set(r.tokens_t) and list(ps.columns) == [target], "P21.pstart", w2)
    if params:
        need(all(isclose(ps[target][t], est[t], 1e-12) for t in est), "P21.pstart.given", w2)
    # the iterations needed are enough, and the limit is kept
    if r.n_iterations is not None:
        k = r.n_iterations + 1
        r4 = quiet(lambda: opt.margp_optimizer(target, params=dict(params, maxiter=k)))
        need(not r4.is_error and r4.result == r.result and r4.p_optimal == r.p_optimal, "P21.maxiter", lambda: f"maxiter={k}: {r4} {w2()}")
        if k > 2:
            r5 = quiet(lambda: opt.margp_optimizer(target, params=dict(params, maxiter=1)))
            need(r5.is_error and r5.result is None, "P21.maxiter.kept", lambda: f"maxiter=1: {r5} {w2()}")
    # order and quotation of the curves do not matter
    cs2 = [flipped(C, case["curves"][i], ms[i], case["flip"][i], i) for i in case["perm"]]
    try:
        r3 = quiet(lambda: O(CC(cs2)).margp_optimizer(target, params=params or {"pstart": est}))
    except (ZeroDivisionError, OverflowError) as e:
        need(not case["full"], "P21.raises", lambda: f"{e!r} {w2()}")
        r3 = None
    if r3 is not None and not r3.is_error:
        tot3 = sums(ms, {target: 1.0, **r3.p_optimal})
        slack3 = sum(abs(tot3[t]) * r3.p_optimal[t] for t in tot3 if t != target)
        need_close(r3.result, r.result, "P21.invariant", 1e-6, slack + slack3 + 1e-9 * sc[target], msg=lambda: f"{r3} {w2()}")
        if case["full"]:
            for t in r.tokens_t:
                need_close(r3.p_optimal[t], r.p_optimal[t], "P21.invariant.p", 1e-5, msg=lambda: f"{r3} {w2()}")
    else:
        need(not case["full"], "P21.noresult", w2)
    need(cc.asdicts() == before, "P21.mutates", w2)
    gain = -r.result > 1e-8 * sc[target]
    return {"nontrivial": gain, "labels": ["full" if case["full"] else "bounded", f"tokens{len(toks)}"] + (["gain"] if gain else [])}


def p22(case):
    c_, o_ = libs()
    CC, O = c_.CPCContainer, o_.CPCArbOptimizer
    ms0 = [Mod(c) for c in case["curves"]]
    cc = CC([build(c) for c in case["curves"]])
    target = case["target"]
    opt = O(cc)
    w = f"target {target} curves {case['curves']}"
    before = cc.asdicts()
    try:
        r = quiet(lambda: opt.simple_optimizer(target))
    except Exception as e:
        raise Violation("P22.raises", f"{e!r} {w}")
    need(not r.is_error and r.status() == "converged" and r.error is None and r.method == "simple-targettkn", "P22.status", lambda: f"{r} {w}")
    prim = r.pair
    need(len(r.curves) == len(ms0) and r.tknx + "/" + r.tkny == prim and set(prim.split("/")) == set(case["toks"]), "P22.pair", lambda: f"{r} {w}")
    ms = [m if m.pair == prim else m.rev() for m in ms0]
    sc = scale(ms)
    p = r.p_optimal
    x, y = prim.split("/")
    w2 = lambda: f"{r} p={p} sum={r.dxdy_sum} {w}"
    n = 0

    def at(p):
        d = [m.at(p) for m in ms]
        return d, (sum(v[0] for v in d), sum(v[1] for v in d))

    def same(vec, sm, p, sig):
        d, s = at(p)
        need(len(vec) == len(d), sig, w2)
        for v, e, m in zip(vec, d, ms):
            need_close(float(v[0]), e[0], sig + ".dx", 1e-7, 1e-9 * m.x, msg=lambda: f"at {p}: {m.cid} {w2()}")
            need_close(float(v[1]), e[1], sig + ".dy", 1e-7, 1e-9 * m.y, msg=lambda: f"at {p}: {m.cid} {w2()}")
        need_close(float(sm[0]), s[0], sig + ".sumx", 1e-7, 1e-9 * sc[x], msg=w2)
        need_close(float(sm[1]), s[1], sig + ".sumy", 1e-7, 1e-9 * sc[y], msg=w2)
        return s
    need(p > 0, "P22.p", w2)
    s = same(r.dxdy_vec, r.dxdy_sum, p, "P22.vec")
    need(tuple(r.dxdy_vecs[0]) == tuple(r.dxvalues) and tuple(r.dyvalues) == tuple(r.dxdy_vecs[1]), "P22.vecs", w2)
    need(all(float(a) == float(v[0]) and float(b) == float(v[1]) for a, b, v in zip(r.dxvalues, r.dyvalues, r.dxdy_vec)), "P22.vecs", w2)
    need_close(float(r.dxdy_valy), s[0] * p + s[1], "P22.valy", 1e-7, 1e-9 * sc[y], msg=w2)
    need_close(float(r.dxdy_valx), s[0] + s[1] / p, "P22.valx", 1e-7, 1e-9 * sc[x], msg=w2)
    # equilibrium in the other token; the search is exact up to one part in a million of the price
    it, other = (0, 1) if target == x else (1, 0)
    ot = (x, y)[other]
    need(abs(s[other]) <= 3e-6 * sc[ot], "P22.equilibrium", lambda: f"{ot}: {s[other]} of {sc[ot]} {w2()}")
    need_close(float(r.result), s[it], "P22.result", 1e-7, 1e-9 * sc[target], msg=w2)
    slack = abs(s[other]) * (p if other == 0 else 1 / p) + 1e-9 * sc[target]
    need(float(r) <= slack, "P22.loss", w2)
    check_ti(r, O, ms, [float(v) for v in r.dxvalues], [float(v) for v in r.dyvalues], case["ti"], sc, w2, "P22")
    # agreement with the marginal price optimiser
    est = {ot: (p if other == 0 else 1 / p)}
    try:
        r1 = quiet(lambda: opt.margp_optimizer(target, params={"pstart": est}))
    except (ZeroDivisionError, OverflowError):
        r1 = None
    if r1 is not None and not r1.is_error:
        t1 = sums(ms, {target: 1.0, **r1.p_optimal})
        s1 = abs(t1[ot]) * r1.p_optimal[ot]
        need_close(r1.result, float(r.result), "P22.margp", 1e-5, slack + s1, msg=lambda: f"{r1} {w2()}")
    elif case["full"]:
        need(False, "P22.margp.noresult", w2)
    # the functions
    for d in case["at"]:
        pp = p * (1 + d)
        vec, sm = (quiet(lambda: opt.simple_optimizer(result=k)(pp)) for k in (O.SO_DXDYVECFUNC, O.SO_DXDYSUMFUNC))
        s2 = same(vec, sm, pp, "P22.f")
        vx, vy = (float(quiet(lambda: opt.simple_optimizer(result=k)(pp))) for k in (O.SO_DXDYVALXFUNC, O.SO_DXDYVALYFUNC))
        need_close(vy, s2[0] * pp + s2[1], "P22.f.valy", 1e-7, 1e-9 * sc[y], msg=w2)
        need_close(vx, vy / pp, "P22.f.valx", 1e-9, msg=w2)
    expect_exc(lambda: opt.simple_optimizer(target, result=O.SO_GLOBALMAX), "P22.args", AssertionError)
    expect_exc(lambda: opt.simple_optimizer(None, result=O.SO_TARGETTKN), "P22.args", AssertionError)
    expect_exc(lambda: opt.simple_optimizer("NOPE"), "P22.args", AssertionError)
    labels = ["full" if case["full"] else "bounded"]
    gain = -float(r.result) > 1e-8 * sc[target]
    if gain:
        labels.append("gain")
    need(cc.asdicts() == before, "P22.mutates", w2)
    return {"nontrivial": gain and len(ms) > 1, "labels": labels}


def p22_seek(case):
    c_, o_ = libs()
    B = o_.OptimizerBase
    r, lo, hi, sg = case["root"], case["lo"], case["hi"], case["sign"]
    f = {"lin": lambda v: v - r, "sqrt": lambda v: math.sqrt(v) - math.sqrt(r), "inv": lambda v: 1 / r - 1 / v, "cube": lambda v: (v - r) ** 3,
         "step": lambda v: -1.0 if v < r else 1.0}[case["kind"]]
    g = lambda v: sg * f(v)
    w = f"{case}"
    if case["kind"] == "step" and lo == r:
        raise Skip()
    got = B.goalseek(g, lo, hi)
    need(not got.is_error, "P22.seek.error", w)
    need_close(float(got), r, "P22.seek", 2e-6, msg=w)
    need_close(float(got), r, "P22.seek.abs", 0, max(2e-6, 1e-12 * r), msg=w)
    expect_exc(lambda: B.goalseek(lambda v: 1.0 + v * v, lo, hi), "P22.seek.signs", ValueError, w)
    a, m, h = case["a"], case["m"], case["h"]
    q = lambda v: a * (v - m) ** 2 + h
    tol = 1e-3
    need_close(float(B.findmin(q, case["x0"])), m, "P22.findmin", 1e-3, tol, msg=w)
    need_close(float(B.findmax(lambda v: -q(v), case["x0"])), m, "P22.findmax", 1e-3, tol, msg=w)
    lr = 0.4 / a
    need_close(float(B.findmin_gd(q, case["x0"], learning_rate=lr)), m, "P22.findmin_gd", 1e-5, 1e-5, msg=w)
    need_close(float(B.findmax_gd(lambda v: -q(v), case["x0"], learning_rate=lr)), m, "P22.findmax_gd", 1e-5, 1e-5, msg=w)
    need_close(B.deriv(q, case["x0"]), 2 * a * (case["x0"] - m), "P22.deriv", 1e-6, 1e-6, msg=w)
    need_close(B.deriv2(q, case["x0"]), 2 * a, "P22.deriv2", 0.1, 0.1, msg=w)
    v = case["vec"]
    import numpy as np
    need(tuple(B.posx(v)) == tuple(max(0, t) for t in v) and tuple(B.negx(v)) == tuple(min(0, t) for t in v), "P22.posx", w)
    need(list(B.posx(np.array(v))) == [max(0, t) for t in v] and list(B.negx(np.array(v))) == [min(0, t) for t in v], "P22.posx", w)
    return {"nontrivial": lo < hi, "labels": [case["kind"]]}


def p22_convex(case):
    """the convex optimiser against the marginal price one, and against an independent solution for other constraints"""
    c_, o_ = libs()
    CC, O = c_.CPCContainer, o_.CPCArbOptimizer
    S = O.SelfFinancingConstraints
    ms = [Mod(c) for c in case["curves"]]
    cc = CC([build(c) for c in case["curves"]])
    target, toks = case["target"], case["toks"]
    opt = O(cc)
    w = f"{case}"
    sc = scale(ms)
    want = getattr(O, case["want"])
    other = next(t for t in toks if t != target)
    amt = case["amt"] * sc[other] if case["sfc"] in ("SFC", "SFCd") else 0
    data = {target: want}
    if amt:
        data[other] = amt
    sfc = {"str": lambda: target, "SFC": lambda: opt.SFC(**data), "SFCd": lambda: opt.SFCd(data), "SFCa": lambda: opt.SFCa(target)}[case["sfc"]]()
    if case["sfc"] != "str":
        need(sfc.optimizationvar == target and sfc.is_optimizationvar(target) and not sfc.is_constraint(target), "P22.sfc.var", w)
        need(sfc.is_arbsfc() == (amt == 0), "P22.sfc.arb", w)
        if case["sfc"] != "SFCa":
            need(sfc.tokens == cc.tokens() and sfc.tokens_l == sorted(toks) and sfc.tokens_s == ", ".join(sorted(toks)), "P22.sfc.tokens", w)
            need(sfc.asdict() == {t: data.get(t, 0) for t in toks} and sfc.asdict(short=True) == data, "P22.sfc.asdict", w)
            need(all(sfc.get(t) == sfc(t) == data.get(t, 0) for t in toks) and dict(sfc.items()) == sfc.asdict(), "P22.sfc.get", w)
            need(all(sfc.is_constraint(t) for t in toks if t != target), "P22.sfc.constraint", w)
            expect_exc(lambda: sfc.get("NOPE"), "P22.sfc.unknown", AssertionError)
        expect_exc(lambda: opt.SFC(**{other: 1}), "P22.sfc.none", AssertionError)
        expect_exc(lambda: opt.SFC(**{other: O.AMMPays, target: O.AMMPays}), "P22.sfc.two", AssertionError)
        expect_exc(lambda: opt.SFC(NOPE=O.AMMPays), "P22.sfc.token", AssertionError)
    if amt:
        expect_exc(lambda: quiet(lambda: opt.margp_optimizer(sfc)), "P22.margp.sfc", AssertionError, w)
    r = quiet(lambda: opt.nofees_optimizer(sfc, solver=case["solver"], maxconstr=case["maxconstr"]))
    need(r.method == "convex" and r.sfc.optimizationvar == target, "P22.convex.meta", w)
    if r.is_error:
        need(r.error, "P22.convex.error", w)
        return {"nontrivial": False, "labels": ["not solved"]}
    dx, dy = [float(v) for v in r.dxvalues], [float(v) for v in r.dyvalues]
    t = {}
    for m, a, b in zip(ms, dx, dy):
        t[m.b] = t.get(m.b, 0) + a
        t[m.q] = t.get(m.q, 0) + b
        need((m.x + a) * (m.y + b) >= m.k * (1 - 1e-3), "P22.convex.curve", lambda: f"{a} {b} {w}")
        need(a >= -m.x * (1 + 1e-6) and b >= -m.y * (1 + 1e-6), "P22.convex.range", lambda: f"{a} {b} {w}")
    for k in toks:
        if k != target:
            need(abs(t[k] - (amt if k == other else 0)) <= 1e-3 * sc[k], "P22.convex.sfc", lambda: f"{t} {w}")
    # the best that can be had: equilibrium of the curves and, if tokens are put in or taken out, of those amounts
    r1 = solve(ms, target, toks, {other: amt} if amt else {})
    if r1 is None:
        raise Skip()
    need(abs(t[target] - r1) <= 1e-3 * sc[target], "P22.convex.result", lambda: f"{t} expected {r1} {w}")
    need_close(float(r.result) * 1.0, sum(b * c.scaley if c.tkny == target else a * c.scalex if c.tknx == target else 0 for c, a, b in zip(cc, dx, dy)), "P22.convex.objective", 1e-6, 1e-6 * sc[target], msg=w)
    new = quiet(lambda: r.curves_new)
    if all(abs(a) < 0.9 * m.x for a, m in zip(dx, ms)):
        for n, c, a in zip(new, cc, dx):
            need_close(n.x, c.x + a, "P22.convex.new", 1e-9, msg=w)
            need_close(n.k, c.k, "P22.convex.new.k", 1e-9, msg=w)
    return {"nontrivial": abs(r1) > 1e-6 * sc[target], "labels": ["amount" if amt else "arb", case["sfc"]]}


def solve(ms, target, toks, want):
    """independent: cyclic bisection on the token prices until every token nets to what is wanted; the target's total"""
    p = {t: 1.0 for t in toks}
    others = [t for t in toks if t != target]
    # start from any spanning set of prices
    known, todo = {target}, list(ms)
    while todo:
        m = next((m for m in todo if m.b in known or m.q in known), None)
        if m is None:
            return None
        todo.remove(m)
        if m.b not in known:
            p[m.b] = p[m.q] * m.y / m.x
        elif m.q not in known:
            p[m.q] = p[m.b] * m.x / m.y
        known |= {m.b, m.q}
    sc = scale(ms)
    for _ in range(400):
        worst = 0
        for t in others:
            lo, hi = math.log(p[t]) - 3, math.log(p[t]) + 3
            for _ in range(60):
                c = (lo + hi) / 2
                p[t] = math.exp(c)
                if sums([m for m in ms if t in (m.b, m.q)], p)[t] > want.get(t, 0):
                    lo = c          # the curves take in too much of t: its price is too low
                else:
                    hi = c
        s = sums(ms, p)
        worst = max(abs(s[t] - want.get(t, 0)) / sc[t] for t in others)
        if worst < 1e-9:
            return s[target]
    return None
