"""
Reference model of the market simulator, and the history runner that compares it with the real one.

The model keeps, per order, the inventory y, the capacity z (y_int), and the range [pl, ph] with the
token sold as numeraire (dy/dx). It does not route: routing is judged, not predicted.
All curve arithmetic is independent of the code under test:

    sqrt(p) at inventory y   B + S*y/z            B = sqrt(pl), S = sqrt(ph) - sqrt(pl)
    input dx for output dy   dy z^2 / ((S y + B z) (S (y-dy) + B z))
"""
import math
from decimal import Decimal

from .base import Violation, Skip, need, need_close, isclose

DUST = 2e-12          # amounts are reported with 12 decimals


class MOrder:
    __slots__ = ("id", "b", "q", "tkn", "y", "z", "pl", "ph", "dis", "lid", "cid")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def other(self):
        return self.q if self.tkn == self.b else self.b

    @property
    def iso(self):
        return self.b + self.q

    def BS(self):
        B = math.sqrt(self.pl)
        return B, math.sqrt(self.ph) - B

    def sqrtp(self, y=None):
        """sqrt of the marginal price (tkn per other) at inventory y"""
        B, S = self.BS()
        y = float(self.y) if y is None else y
        z = float(self.z)
        return B + S * (y / z if z > 0 else 0.0)

    def cost(self, dy, y=None):
        """input (other token) needed to extract dy"""
        y = float(self.y) if y is None else y
        z = float(self.z)
        B, S = self.BS()
        return dy * z * z / ((S * y + B * z) * (S * (y - dy) + B * z))

    def out(self, dx, y=None):
        """output for input dx (not capped)"""
        y = float(self.y) if y is None else y
        z = float(self.z)
        B, S = self.BS()
        t = S * y + B * z
        return dx * t * t / (S * dx * t + z * z)

    def y_at(self, sp):
        """inventory left when the sqrt of the marginal price is sp (clamped to [0, y])"""
        B, S = self.BS()
        y = float(self.y)
        if S <= 1e-15 * B:
            return y if B <= sp else 0.0
        return min(y, max(0.0, float(self.z) * (sp - B) / S))


def waterfill(orders, total, by_target):
    """
    optimal total for trading against `orders`: lower the common marginal price until `total` is reached.
    returns (amount_out, amount_in) of the optimum. Independent of the router: bisection on sqrt price.
    """
    hi = max(o.sqrtp() for o in orders)
    lo = min(math.sqrt(o.pl) for o in orders)

    def flows(sp):
        o_, i_ = 0.0, 0.0
        for o in orders:
            dy = float(o.y) - o.y_at(sp)
            if dy > 0:
                o_ += dy
                i_ += o.cost(dy)
        return o_, i_

    ix = 0 if by_target else 1
    a, b = lo * (1 - 1e-13), hi * (1 + 1e-13)     # flows(a) = everything, flows(b) = nothing
    for _ in range(200):
        m = math.sqrt(a * b)
        if m == a or m == b:
            break
        if flows(m)[ix] >= total:
            a = m
        else:
            b = m
    fa, fb = flows(a), flows(b)
    # linear interpolation across the last step (a jump for constant price orders)
    if fa[ix] == fb[ix]:
        return fa
    w = (total - fb[ix]) / (fa[ix] - fb[ix])
    w = min(1.0, max(0.0, w))
    return (fb[0] + w * (fa[0] - fb[0]), fb[1] + w * (fa[1] - fb[1]))


def capacity_in(orders):
    """input that exhausts all of `orders`"""
    return sum(o.cost(float(o.y)) for o in orders)


def expected_orders(pair, i1, i2, tkn, amt_sell=None, psell_start=None, psell_end=None, amt_buy=None,
                    pbuy_start=None, pbuy_end=None, psell_marginal=None, pbuy_marginal=None,
                    y_int_sell=None, y_int_buy=None, carbon_id=None):
    """what the documentation of add_strategy promises to put into the book"""
    b, q = pair
    tkn2 = q if tkn == b else b
    res = {}
    for (i, l, t, amt, ps, pe, pm, z) in ((i1, i2, tkn, amt_sell, psell_start, psell_end, psell_marginal, y_int_sell),
                                          (i2, i1, tkn2, amt_buy, pbuy_start, pbuy_end, pbuy_marginal, y_int_buy)):
        amt = Decimal(amt or 0)
        dis = ps is None
        if dis:
            pl = ph = 0.0
        else:
            cs, ce = (ps, pe) if t == q else (1 / ps, 1 / pe)
            pl, ph = min(cs, ce), max(cs, ce)
        if pm is not None:
            cm = pm if t == q else 1 / pm
            dpl, dph, dpm = math.sqrt(pl), math.sqrt(ph), math.sqrt(cm)
            z = Decimal(float(amt) * (dph - dpl) / (dpm - dpl))
        elif z is not None:
            z = Decimal(z)
        else:
            z = amt
        res[i] = MOrder(id=i, b=b, q=q, tkn=t, y=amt, z=z, pl=float(pl), ph=float(ph), dis=dis,
                        lid=l, cid=carbon_id or "")
    return res


def orders_of(sn):
    """MOrder objects describing a snapshot of the real simulator"""
    res = {}
    for i, (tkn, iso, y, z, pl, ph, dis, lid) in sn.items():
        other = sn[lid][0] if lid in sn and lid != i else None      # names run together can be read in two ways: BNTETH, ETHXETH
        if other is not None and iso in (tkn + other, other + tkn):
            b, q = (tkn, other) if iso == tkn + other else (other, tkn)
        elif iso.startswith(tkn):
            b, q = tkn, iso[len(tkn):]
        else:
            b, q = iso[:-len(tkn)], tkn
        res[i] = MOrder(id=i, b=b, q=q, tkn=tkn, y=y, z=z, pl=pl, ph=ph, dis=dis, lid=lid, cid=None)
    return res


def eligible(orders, pair, sold, use=None):
    toks = set(pair)
    return [o for o in orders.values()
            if {o.b, o.q} == toks and o.tkn == sold and not o.dis and o.y > 0
            and (use is None or o.id in use)]


def split(pair):
    b, q = pair.upper().split("/")
    return b, q


def snap(sim):
    """id -> (tkn, pair iso, y, y_int, p_low, p_high, disabled, linked id)"""
    try:
        return {k: (o.tkn, o.pair_name, Decimal(o.y), Decimal(o.y_int), float(o.p_low), float(o.p_high), bool(o.disabled), o.linked_to_id)
                for k, o in sim.orders.items()}
    except AttributeError:
        return snap_state(sim)


def snap_state(sim):
    st = sim.state()["orders"]
    res = {}
    if len(st) == 0:
        return res
    for r in st.to_dict("records"):
        dis = bool(r["disabled"])
        if dis:
            pl = ph = 0.0
        else:
            quote = r["p_unit"].split(" per ")[0]
            a, b = float(r["p_start"]), float(r["p_end"])
            if r["tkn"] != quote:
                a, b = 1 / a, 1 / b
            pl, ph = min(a, b), max(a, b)
        res[int(r["id"])] = (r["tkn"], r["pair"], Decimal(r["y"]), Decimal(r["y_int"]), pl, ph, dis, int(r["lid"]))
    return res


def rows_of(res):
    """(route rows, aggregate row) of a trade result"""
    df = res["trades"]
    rows = df.to_dict("records")
    routes = [r for r in rows if not r["aggr"]]
    agg = [r for r in rows if r["aggr"]]
    need(len(agg) == 1, "trade.rows", f"expected one aggregate row, got {len(agg)}")
    return routes, agg[0]


def make_sim(case, **kw):
    from carbon import CarbonSimulatorUI
    args = dict(pair=case.get("pair"), matching_method=case.get("method", "exact"),
                raiseonerror=bool(case.get("raise", False)))
    if case.get("decimals") is not None:
        args["decimals"] = case["decimals"]
    args.update(kw)
    return CarbonSimulatorUI(**args)


SELLS = ("amm_sells", "trader_buys")
BUYS = ("amm_buys", "trader_sells")


def call(sim, fn, **kw):
    """(result | None, exception | None): uniform over raiseonerror"""
    try:
        r = getattr(sim, fn)(**kw)
    except Exception as e:
        need(sim.raiseonerror, "raise.unasked", lambda: f"{fn}{kw} raised {e!r} although raiseonerror=False")
        return None, e
    need(isinstance(r, dict) and "success" in r, "result.shape", lambda: f"{fn} returned {r!r}")
    if not r["success"]:
        need(not sim.raiseonerror, "raise.missing", lambda: f"{fn} returned {r!r} although raiseonerror=True")
        need(r.get("error") is not None and isinstance(r.get("exception"), Exception), "result.error", lambda: f"{r!r}")
        return None, r["exception"]
    return r, None


def same(sn0, sn1, sig, what):
    if sn0 != sn1:
        diff = {k: (sn0.get(k), sn1.get(k)) for k in set(sn0) | set(sn1) if sn0.get(k) != sn1.get(k)}
        raise Violation(sig, f"{what}: state changed {diff}")


class Trade:
    """one resolved trade request"""

    def __init__(self, orders, op, case):
        self.op = op
        p = op.get("pair") or case.get("pair")
        if p is None:
            raise Skip()
        pair = self.pair = split(p)
        self.tkn = op["tkn"]
        self.fn = op["fn"]
        flip = bool(op.get("neg"))
        sells = (self.fn in SELLS) != flip
        other = pair[1] if self.tkn == pair[0] else pair[0]
        if op.get("seek") and not eligible(orders, pair, self.tkn if sells else other) and eligible(orders, pair, other if sells else self.tkn):
            self.tkn, other = other, self.tkn
        self.sold = self.tkn if sells else other
        self.bought = other if sells else self.tkn
        self.by_target = sells
        ids = sorted(orders)
        use = op.get("use")
        if use is not None:
            use = [ids[u % len(ids)] for u in use] if ids else []
            if op.get("use_alien"):
                use = use + [10 ** 6]
        self.use = use
        self.elig = eligible(orders, pair, self.sold, use)
        self.liq_out = sum((float(o.y) for o in self.elig), 0.0)
        self.liq_in = capacity_in(self.elig) if self.elig else 0.0
        liq = self.liq_out if self.by_target else self.liq_in
        if "amt" in op:
            self.amt = op["amt"]
        else:
            f = op["frac"]
            if isinstance(f, str) and f.startswith("o"):
                # exactly the capacity of one of the orders
                o = self.elig[int(f[1:]) % len(self.elig)] if self.elig else None
                v = 1.0 if o is None else (float(o.y) if self.by_target else o.cost(float(o.y)))
            elif isinstance(f, str):
                # what the k largest orders hold
                caps = sorted((float(o.y) if self.by_target else o.cost(float(o.y)) for o in self.elig), reverse=True)
                v = sum(caps[:int(f[1:])]) or 1.0
            else:
                v = float(f) * liq if liq > 0 else float(f)
            if op.get("round") and v > 0:
                v = float(f"{v:.{op['round']}g}")
            self.amt = v
        self.share = (self.amt / liq) if liq > 0 else math.inf
        self.kw = {"tkn": self.tkn, "amt": -self.amt if flip else self.amt}
        if op.get("pair"):
            self.kw["pair"] = op["pair"]
        if "execute" in op:
            self.kw["execute"] = op["execute"]
        if use is not None:
            self.kw["use_positions"] = use
        if op.get("partial"):
            self.kw["support_partial"] = True
        if op.get("threshold") is not None:
            self.kw["threshold_orders"] = op["threshold"]


def is_dust(t):
    """one of the two amounts is (nearly) lost in the rounding to 12 decimals"""
    asked = abs(float(t.kw["amt"]))
    return not t.elig or min((asked,) + waterfill(t.elig, asked, t.by_target)) < 1e-9


def qprice(pair, sold, amt1, amt2):
    """price (quote per base) of selling amt1 `sold` for amt2 of the other token"""
    return amt2 / amt1 if sold == pair[0] else amt1 / amt2
