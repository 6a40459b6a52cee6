"""histories of the market simulator: one runner, one set of oracles per property"""
import math
from decimal import Decimal

from .base import Violation, Skip, need, need_close, isclose
from .simmodel import (DUST, MOrder, SELLS, BUYS, Trade, call, capacity_in, eligible, expected_orders, is_dust, make_sim,
                       orders_of, qprice, rows_of, same, snap, snap_state, split, waterfill)


class Hist:
    tags = ()

    def __init__(self, case, tags):
        self.case = case
        self.tags = tags
        self.sim = make_sim(case)
        self.labels = set()
        self.n = 0
        self.executed = 0
        self.log = []          # expected trade log: uid -> row
        self.next_id = None
        self.dec = case.get("decimals")
        self.unit = 10.0 ** -min(12, self.dec if self.dec is not None else 12)

    def has(self, tag):
        return tag in self.tags

    # -- ops ---------------------------------------------------------------------------------

    def run(self):
        sn = snap(self.sim)
        for ix, op in enumerate(self.case["ops"]):
            self.what = f"op {ix} {op}"
            kind = op["op"]
            sn = getattr(self, "op_" + kind)(op, sn)
            self.n += 1
        if self.has("P10"):
            self.check_reports(sn)
        return {"nontrivial": self.executed > 0 or (self.has("P10") and len(sn) > 0),
                "labels": sorted(self.labels), "n": self.n}

    def op_add(self, op, sn0):
        kw = {k: v for k, v in op["kw"].items() if v is not None}
        r, e = call(self.sim, op.get("fn", "add_strategy"), **kw)
        sn1 = snap(self.sim)
        pair = op["kw"].get("pair") or self.case.get("pair")
        if self.has("P02"):
            for i in sn0:
                need(sn1.get(i) == sn0[i], "P02.add.others", lambda: f"{self.what}: order {i} {sn0[i]} -> {sn1.get(i)}")
        if self.has("P10"):
            bad = op.get("bad")
            if bad or pair is None:
                self.labels.add("add.bad")
                need(r is None, "add.accepted", lambda: f"{self.what}: accepted an invalid strategy")
                same(sn0, sn1, "add.partial", self.what)
            else:
                self.labels.add("add.ok")
                need(r is not None, "add.refused", lambda: f"{self.what}: {e!r}")
                new = sorted(set(sn1) - set(sn0))
                need(len(new) == 2 and all(sn1[i] == sn0[i] for i in sn0), "add.ids", lambda: f"{self.what}: {sorted(sn0)} -> {sorted(sn1)}")
                need(not self.seen & set(new), "add.reused-id", lambda: f"{self.what}: {new}")
                self.seen |= set(new)
                args = dict(kw)
                args.pop("pair", None)
                if op.get("fn") == "add_order":
                    args = dict(tkn=args.get("tkn"), amt_sell=args.get("amt"), psell_start=args.get("p_start"),
                                psell_end=args.get("p_end"), psell_marginal=args.get("p_marginal"), y_int_sell=args.get("y_int"))
                exp = expected_orders(split(pair), new[0], new[1], **args)
                # which of the two ids is the sell order is not promised; the tokens tell
                if sn1[new[0]][0] != exp[new[0]].tkn:
                    exp = expected_orders(split(pair), new[1], new[0], **args)
                for i in new:
                    self.check_order(i, sn1[i], exp[i])
                need(set(r["orderuis"]) == set(new), "add.result", lambda: f"{self.what}: {r['orderuis']}")
                self.expect.update(exp)
                self.cids.update({i: kw.get("carbon_id") or "" for i in new})
        return sn1

    def check_order(self, i, s, o):
        tkn, iso, y, z, pl, ph, dis, lid = s
        w = self.what
        need(tkn == o.tkn and iso == o.iso, "add.identity", lambda: f"{w}: order {i} {s} expected {o.tkn} {o.iso}")
        need(lid == o.lid, "add.link", lambda: f"{w}: order {i} linked to {lid} expected {o.lid}")
        need(dis == o.dis, "add.disabled", lambda: f"{w}: order {i} {s}")
        need(isclose(y, o.y, 1e-14), "add.y", lambda: f"{w}: order {i} y={y} expected {o.y}")
        need(isclose(z, o.z, 1e-8), "add.y_int", lambda: f"{w}: order {i} y_int={z} expected {o.z}")
        if not dis:
            need(isclose(pl, o.pl, 1e-12) and isclose(ph, o.ph, 1e-12), "add.range",
                 lambda: f"{w}: order {i} range {pl}..{ph} expected {o.pl}..{o.ph}")

    seen = None

    def op_del(self, op, sn0):
        ids = sorted(sn0)
        oid = ids[op["ix"] % len(ids)] if ids and not op.get("alien") else 10 ** 6
        res = getattr(self.sim, op.get("fn", "delete_order"))(oid)
        sn1 = snap(self.sim)
        if self.has("P10"):
            gone = {oid, sn0[oid][7]} if oid in sn0 else set()
            need(set(res) == gone, "delete.result", lambda: f"{self.what}: deleting {oid} returned {res}, expected {gone}")
            need(sn1 == {k: v for k, v in sn0.items() if k not in gone}, "delete.state",
                 lambda: f"{self.what}: deleting {oid}: {sorted(sn0)} -> {sorted(sn1)}, expected {gone} gone")
            self.labels.add("delete" if gone else "delete.missing")
            for g in gone:
                self.expect.pop(g, None)
        elif self.has("P02"):
            for i in sn1:
                need(sn1[i] == sn0[i], "P02.delete.others", lambda: f"{self.what}: order {i}")
        return sn1

    def op_bad(self, op, sn0):
        """a request that must be refused"""
        r, e = call(self.sim, op["fn"], **op["kw"])
        need(r is None, "bad.accepted", lambda: f"{self.what} succeeded: {r}")
        sn1 = snap(self.sim)
        same(sn0, sn1, "bad.changed", self.what)
        self.labels.add("refused")
        return sn1

    def op_query(self, op, sn0):
        getattr(self.sim, op["fn"])()
        sn1 = snap(self.sim)
        same(sn0, sn1, "query.changed", self.what)
        return sn1

    def op_trade(self, op, sn0):
        t = Trade(orders_of(sn0), op, self.case)
        kw = dict(t.kw)
        lim = op.get("limit")
        if lim is not None:
            ref = self.reference_price(t, kw)
            asked = None if ref is None else ref[1] if t.by_target else ref[2]
            if ref is None or (lim["kind"] == "amt" and t.op.get("partial") and not isclose(float(asked), abs(float(t.amt)), 1e-9, 4 * self.unit)):
                lim = None         # (a partial fill has no amount to compare with)
            else:
                p, a1, a2 = ref
                other_amt = a2 if t.by_target else a1
                if lim["kind"] == "price":
                    kw["limit_price"] = p if lim["mult"] == "exact" else p * lim["mult"]
                else:
                    # the amount of the other token the trader pays at most / receives at least
                    kw["limit_amt"] = other_amt * (1.0 if lim["mult"] == "exact" else lim["mult"])
        r, e = call(self.sim, t.fn, **kw)
        sn1 = snap(self.sim)
        self.labels.add(("ok:" if r else "refused:") + ("target" if t.by_target else "source"))
        if r is None:
            if self.has("P01") or self.has("P05"):
                same(sn0, sn1, "refused.changed", f"{self.what} refused with {e!r}")
            if self.has("P05"):
                self.check_refusal(t, e, sn0)
            if self.has("P08"):
                if not t.elig:
                    self.labels.add("no-eligible")
                elif self.case.get("method") != "alpha" or op_thr(t) >= len(t.elig):
                    liq = t.liq_out if t.by_target else t.liq_in
                    need(not 1e-6 < liq * (1 - 1e-6) > abs(float(t.amt)) > 0 or is_dust(t), "P08.ignored",
                         lambda: f"{self.what}: refused although the eligible orders {sorted(o.id for o in t.elig)} hold enough ({t.amt} of {liq}): {e!r}")
            return sn1
        routes, agg = rows_of(r)
        if self.has("P08"):
            self.check_eligible(t, routes, agg)
        executed = bool(agg["exec"])
        orders = orders_of(sn0)
        if self.has("P01"):
            self.check_settlement(t, kw, r, routes, agg, sn0, sn1, lim)
        if self.has("P02"):
            self.check_validity(sn0, sn1, routes)
        if self.has("P03"):
            self.check_curve(t, routes, orders)
        if self.has("P05"):
            self.check_amount(t, kw, routes, agg)
        if self.has("P07") and lim is not None:
            self.check_limit(t, kw, lim, agg, sn0, sn1, other_amt, p)
        if executed:
            self.executed += 1
            self.labels.add(f"routes{min(len(routes), 4)}")
        elif not self.has("P07"):
            self.labels.add("not-executed")
            self.executed += 1
        return sn1

    def reference_price(self, t, kw):
        k = dict(kw)
        k["execute"] = False
        r, e = call(self.sim, t.fn, **k)
        if r is None:
            return None
        _, agg = rows_of(r)
        return float(agg["price"]), float(agg["amt1"]), float(agg["amt2"])

    # -- oracles -----------------------------------------------------------------------------

    def check_settlement(self, t, kw, r, routes, agg, sn0, sn1, lim):
        w = self.what
        need(r["tkn_sold"] == t.sold and bool(r["is_by_target"]) == t.by_target, "P01.header", lambda: f"{w}: {r['tkn_sold']} {r['is_by_target']}")
        iso = "".join(t.pair)
        want_exec = bool(kw.get("execute", True)) and not agg["limitfail"]
        if lim is None:
            need(agg["limitfail"] is None or agg["limitfail"] != agg["limitfail"], "P01.limitfail", lambda: f"{w}: {agg}")
        for row in routes + [agg]:
            need(row["tkn1"] == t.sold and row["tkn2"] == t.bought and row["pair"] == iso, "P01.row.tokens", lambda: f"{w}: {row}")
            need(bool(row["exec"]) == want_exec, "P01.row.exec", lambda: f"{w}: exec={row['exec']} expected {want_exec}: {row}")
            need(row["amt1"] >= 0 and row["amt2"] >= 0, "P01.row.sign", lambda: f"{w}: {row}")
            need(row["p_unit"] == f"{t.pair[1]} per {t.pair[0]}", "P01.row.unit", lambda: f"{w}: {row}")
        # the aggregate is the sum of the routes
        n = len(routes)
        need(agg["nroutes"] == n and n > 0, "P01.nroutes", lambda: f"{w}: {agg}")
        tol = self.unit * (n + 1)
        s1, s2 = sum(x["amt1"] for x in routes), sum(x["amt2"] for x in routes)
        need(isclose(s1, agg["amt1"], 1e-12, tol), "P01.sum.amt1", lambda: f"{w}: routes {s1} aggregate {agg['amt1']}")
        need(isclose(s2, agg["amt2"], 1e-12, tol), "P01.sum.amt2", lambda: f"{w}: routes {s2} aggregate {agg['amt2']}")
        # the price is the ratio of the two amounts, in the convention of the pair
        if min(agg["amt1"], agg["amt2"]) > 0:
            p = qprice(t.pair, t.sold, agg["amt1"], agg["amt2"])
            need(isclose(p, agg["price"], 1e-9 + 2 * self.unit / min(agg["amt1"], agg["amt2"]), self.unit if self.dec is not None else 0),
                 "P01.price", lambda: f"{w}: price {agg['price']} but amounts give {p}")
        # state
        if not want_exec:
            same(sn0, sn1, "P01.quote.changed", w)
            return
        exp_y = {i: s[2] for i, s in sn0.items()}
        exp_z = {i: s[3] for i, s in sn0.items()}
        for row in routes:
            i = int(row["routeix"])
            need(i in sn0, "P01.route.unknown", lambda: f"{w}: {row}")
            exp_y[i] -= Decimal(float(row["amt1"]))
            lid = sn0[i][7]
            if lid != i:
                exp_y[lid] += Decimal(float(row["amt2"]))
        need(set(sn1) == set(sn0), "P01.orders", lambda: f"{w}: {sorted(sn0)} -> {sorted(sn1)}")
        for i in sn0:
            z = max(exp_z[i], exp_y[i])
            need(isclose(sn1[i][2], exp_y[i], 1e-13, 1e-15 + (self.unit if self.dec is not None else 0)), "P01.settle.y",
                 lambda: f"{w}: order {i} y {sn0[i][2]} -> {sn1[i][2]}, reported amounts give {exp_y[i]}")
            need(isclose(sn1[i][3], z, 1e-13, 1e-15 + (self.unit if self.dec is not None else 0)), "P01.settle.y_int",
                 lambda: f"{w}: order {i} y_int {sn0[i][3]} -> {sn1[i][3]}, expected {z}")
            need(sn1[i][:2] == sn0[i][:2] and sn1[i][4:] == sn0[i][4:], "P01.settle.identity", lambda: f"{w}: order {i} {sn0[i]} -> {sn1[i]}")

    def check_validity(self, sn0, sn1, routes):
        w = self.what
        sold = {}
        for row in routes:
            i = int(row["routeix"])
            sold[i] = sold.get(i, 0.0) + row["amt1"]
        for i, a in sold.items():
            need(a <= float(sn0[i][2]) * (1 + 1e-12) + 2 * self.unit, "P02.oversold", lambda: f"{w}: order {i} held {sn0[i][2]} sold {a}")
        need(set(sn0) == set(sn1), "P02.ids", lambda: f"{w}")
        for i, s in sn1.items():
            s0 = sn0[i]
            need(float(s[2]) >= -2 * self.unit - 1e-12 * float(s[3]), "P02.negative", lambda: f"{w}: order {i} y={s[2]}")
            need(s[2] <= s[3] + Decimal(2 * self.unit), "P02.overfull", lambda: f"{w}: order {i} y={s[2]} y_int={s[3]}")
            need(s[3] >= s0[3], "P02.shrunk", lambda: f"{w}: order {i} y_int {s0[3]} -> {s[3]}")
            if s[3] > s0[3]:
                self.labels.add("overfilled")
                need(s[3] == s[2], "P02.capacity", lambda: f"{w}: order {i} y_int {s0[3]} -> {s[3]} but y={s[2]}")
            need(s[:2] == s0[:2] and s[4:] == s0[4:], "P02.identity", lambda: f"{w}: order {i} {s0} -> {s}")

    def check_curve(self, t, routes, orders):
        for row in routes:
            o = orders[int(row["routeix"])]
            a1, a2 = float(row["amt1"]), float(row["amt2"])
            if a1 <= 0 and a2 <= 0:
                continue
            y = float(o.y)
            need(a1 <= y * (1 + 1e-12) + 2 * self.unit, "P03.oversold", lambda: f"{self.what}: {row} y={y}")
            x = o.cost(min(a1, y))
            # rounding of the two reported amounts to 12 decimals, propagated along the curve
            slope = 1 / o.sqrtp(max(0.0, y - a1)) ** 2
            tol = self.unit * (1 + slope)
            need(isclose(a2, x, 1e-9, tol), "P03.curve",
                 lambda: f"{self.what}: order {o.id} (y={o.y}, y_int={o.z}, range {o.pl}..{o.ph}) sold {a1} for {a2}, its curve says {x}")
            if a1 > 0 and a2 > 0 and min(a1, a2) > 1e3 * self.unit:
                p = a1 / a2
                rel = 1e-9 + 4 * self.unit / min(a1, a2)
                need(o.pl * (1 - rel) <= p <= o.ph * (1 + rel), "P03.range",
                     lambda: f"{self.what}: order {o.id} traded at {p} outside its range {o.pl}..{o.ph}")
                m0, m1 = o.sqrtp() ** 2, o.sqrtp(max(0.0, y - a1)) ** 2
                need(m1 * (1 - rel) <= p <= m0 * (1 + rel), "P03.marginal",
                     lambda: f"{self.what}: order {o.id} traded at {p} but its marginal price went {m0} -> {m1}")
                if m1 < m0 * (1 - 1e-6):
                    self.labels.add("moving-price")

    def check_amount(self, t, kw, routes, agg):
        w = self.what
        asked = abs(float(t.amt))
        got = float(agg["amt1"] if t.by_target else agg["amt2"])
        liq = t.liq_out if t.by_target else t.liq_in
        tol = self.unit * (len(routes) + 1)
        if kw.get("support_partial") and asked > liq * (1 - 1e-9):
            if self.case.get("method") == "alpha" and (op_thr(t) < len(t.elig)):
                need(got <= asked * (1 + 1e-9) + tol, "P05.more-than-asked", lambda: f"{w}: asked {asked} got {got}")
                self.check_alpha_partial(t, asked, got)
                self.labels.add("partial.alpha")
            else:
                exp = min(asked, liq)
                need(isclose(got, exp, 1e-8, 1e-9 + 1e-9 * exp + (1e-9 * max(1.0, 1 / min(o.pl for o in t.elig)))), "P05.partial",
                     lambda: f"{w}: asked {asked}, {liq} available, partial fulfillment gave {got}")
                self.labels.add("partial")
        elif kw.get("support_partial") and self.case.get("method") == "alpha" and op_thr(t) < len(t.elig):
            need(got <= asked * (1 + 1e-9) + tol, "P05.more-than-asked", lambda: f"{w}: asked {asked} got {got}")
            self.check_alpha_partial(t, asked, got)
        else:
            need(asked <= liq * (1 + 1e-9) + tol, "P05.overfilled", lambda: f"{w}: asked {asked} of {liq} available, succeeded with {got}")
            need(isclose(got, asked, 1e-10, tol), "P05.amount", lambda: f"{w}: asked for {asked}, got {got}")
            if len(routes) > 1:
                self.labels.add("split")

    def check_alpha_partial(self, t, asked, got):
        """with a limit on the number of orders, a partial fill takes all that so many orders can give"""
        caps = sorted((float(o.y) if t.by_target else min(asked, o.cost(float(o.y))) for o in t.elig), reverse=True)
        exp = min(asked, sum(caps[:op_thr(t)]))
        need(isclose(got, exp, 1e-8, 1e-9 + 1e-9 * exp + (1e-9 * max(1.0, 1 / min(o.pl for o in t.elig)))), "P05.partial.alpha",
             lambda: f"{self.what}: asked {asked}, {op_thr(t)} orders hold up to {exp}, partial fulfillment gave {got}")

    def check_refusal(self, t, e, sn0):
        asked = abs(float(t.amt))
        liq = t.liq_out if t.by_target else t.liq_in
        if not t.elig or asked <= 0:
            self.labels.add("refused.nothing")
            return
        if self.case.get("method") == "alpha" and op_thr(t) < len(t.elig) and not t.op.get("partial"):
            # no more than what the largest orders take, as many as are allowed
            liq = sum(sorted((float(o.y) if t.by_target else min(asked, o.cost(float(o.y))) for o in t.elig), reverse=True)[:op_thr(t)])
            self.labels.add("refused.alpha")
        if liq < 1e-6 or is_dust(t):
            return
        if t.op.get("partial"):
            need(False, "P05.partial.refused", lambda: f"{self.what}: {liq} available, asked {asked}: {e!r}")
        need(asked >= liq * (1 - 1e-9) - 1e-11, "P05.refused", lambda: f"{self.what}: {liq} available, asked {asked}: {e!r}")
        self.labels.add("refused.insufficient")
        self.executed += 1

    def check_eligible(self, t, routes, agg):
        ok = {o.id for o in t.elig}
        ids = [int(r["routeix"]) for r in routes]
        need(set(ids) <= ok, "P08.route", lambda: f"{self.what}: routed through {ids}, eligible are {sorted(ok)}")
        need(len(ids) == len(set(ids)), "P08.repeat", lambda: f"{self.what}: {ids}")
        need(t.elig, "P08.nothing", lambda: f"{self.what}: no order is eligible, but {agg}")
        if self.case.get("method", "exact") == "exact" and not t.op.get("partial"):
            # every eligible order was considered, and nothing else: the total is the best over exactly these
            amt1, amt2 = float(agg["amt1"]), float(agg["amt2"])
            if min(amt1, amt2) > 1e-7:
                out, inn = waterfill(t.elig, abs(float(t.amt)), t.by_target)
                u = self.unit * (len(routes) + 1)
                pl, ph = min(o.pl for o in t.elig), max(o.ph for o in t.elig)
                ok = isclose(amt2, inn, 1e-8, u * (1 + 1 / pl)) if t.by_target else isclose(amt1, out, 1e-8, u * (1 + ph))
                need(ok, "P08.total", lambda: f"{self.what}: {amt1} for {amt2}; trading with exactly the eligible orders {sorted(o.id for o in t.elig)} gives {out} for {inn}")
        need([int(x) for x in str(agg["routeix"]).strip("[]").split(",")] == ids, "P08.aggregate", lambda: f"{self.what}: {agg['routeix']} vs {ids}")
        if t.use is not None:
            self.labels.add("use_positions")

    def check_limit(self, t, kw, lim, agg, sn0, sn1, ref_other, ref_price):
        w = self.what
        price = float(agg["price"])
        rnd = 1e-10 + 4 * self.unit / min(float(agg["amt1"]), float(agg["amt2"])) if min(float(agg["amt1"]), float(agg["amt2"])) > 0 else 1.0
        if self.dec is not None:
            rnd += 2 * self.unit / price       # reported prices are rounded as well
        other = float(agg["amt2"] if t.by_target else agg["amt1"])
        if "limit_price" in kw:
            L = kw["limit_price"]
            # the trader buys `sold` (the token leaving the AMM)
            buys_base = t.sold == t.pair[0]
            met = price <= L if buys_base else price >= L
            near = isclose(price, L, rnd) and price != L
        else:
            A = kw["limit_amt"]
            met = other <= A if t.by_target else other >= A
            near = isclose(other, A, rnd, 4 * self.unit)      # derived from rounded amounts: both answers are right
        if near:
            self.labels.add("limit.knife-edge")
            met = not bool(agg["limitfail"])
        self.labels.add("limit.met" if met else "limit.missed")
        want = met and bool(kw.get("execute", True))
        need(bool(agg["exec"]) == want, "P07.exec", lambda: f"{w}: {kw}: price {price}, other amount {other}: exec={agg['exec']}")
        need(bool(agg["limitfail"]) == (not met), "P07.flag", lambda: f"{w}: {kw}: price {price}: limitfail={agg['limitfail']}")
        if not want:
            same(sn0, sn1, "P07.changed", w)
        else:
            need(sn0 != sn1, "P07.not-executed", lambda: f"{w}: reported executed, state unchanged")
            need(isclose(other, ref_other, 1e-12, 1e-11), "P07.amounts", lambda: f"{w}: quote {ref_other} executed {other}")
        self.executed += 1

    # -- P10 ---------------------------------------------------------------------------------

    def check_reports(self, sn):
        sim = self.sim
        st = sim.state()
        w = "final state()"
        need("orders" in st and "orderuis" in st and "trades" in st, "P10.state.shape", lambda: f"{st}")
        recs = st["orders"].to_dict("records") if len(sn) else []
        need(sorted(int(r["id"]) for r in recs) == sorted(sn), "P10.state.ids", lambda: f"{recs} vs {sorted(sn)}")
        need(sim.numpos == len(sn), "P10.numpos", lambda: f"{sim.numpos} {len(sn)}")
        exp_liq = {}
        for r in recs:
            i = int(r["id"])
            tkn, iso, y, z, pl, ph, dis, lid = sn[i]
            o = orders_of(sn)[i]
            need(r["tkn"] == tkn and r["pair"] == iso and r["y_unit"] == tkn and int(r["lid"]) == lid
                 and bool(r["disabled"]) == dis, "P10.state.row", lambda: f"{r} vs {sn[i]}")
            need(r["p_unit"] == f"{o.q} per {o.b}", "P10.state.unit", lambda: f"{r}")
            need(isclose(r["y"], y, 1e-14) and isclose(r["y_int"], z, 1e-14), "P10.state.amounts", lambda: f"{r} vs {sn[i]}")
            need(r["cid"] == self.cids.get(i, ""), "P10.state.cid", lambda: f"{r}")
            exp_liq.setdefault(iso, {}).setdefault(tkn, 0.0)
            exp_liq[iso][tkn] += float(y)
            if not dis:
                f = (lambda p: p) if tkn == o.q else (lambda p: 1 / p)
                need(isclose(r["p_start"], f(o.ph), 1e-12) and isclose(r["p_end"], f(o.pl), 1e-12), "P10.state.range", lambda: f"{r} vs {sn[i]}")
                if o.y > 0:
                    need(isclose(r["p_marg"], f(o.sqrtp() ** 2), 1e-8), "P10.state.marg", lambda: f"{r}: expected {f(o.sqrtp() ** 2)}")
            ui = st["orderuis"][i]
            need(isclose(ui.y, y, 1e-12) and isclose(ui.yint, z, 1e-12) and ui.tkn == tkn, "P10.state.ui", lambda: f"{ui} vs {sn[i]}")
            need(ui.linked is st["orderuis"][lid], "P10.state.ui.linked", lambda: f"{ui}")
        need(set(st["orderuis"]) == set(sn), "P10.state.uis", lambda: f"{set(st['orderuis'])}")
        # expected book, from the requests and nothing else: ranges and links never move
        need(set(self.expect) == set(sn), "P10.book", lambda: f"{sorted(self.expect)} vs {sorted(sn)}")
        for i, o in self.expect.items():
            s = sn[i]
            need(s[0] == o.tkn and s[1] == o.iso and s[7] == o.lid, "P10.book.identity", lambda: f"{s}")
            need(sn[o.lid][7] == i, "P10.book.symmetric", lambda: f"{i} {s}")
            if not o.dis:
                need(isclose(s[4], o.pl, 1e-12) and isclose(s[5], o.ph, 1e-12), "P10.book.range", lambda: f"{s}")
        if sn:
            liq = sim.liquidity()
            need(set(liq) == set(exp_liq), "P10.liquidity.pairs", lambda: f"{liq} vs {exp_liq}")
            for iso in exp_liq:
                need(set(liq[iso]) == set(exp_liq[iso]), "P10.liquidity.tokens", lambda: f"{liq} vs {exp_liq}")
                for tk, v in exp_liq[iso].items():
                    need(isclose(liq[iso][tk], v, 1e-11, 1e-11), "P10.liquidity", lambda: f"{liq} vs {exp_liq}")
            for iso in sorted(exp_liq):
                part = sim.state(iso)
                need(sorted(int(x) for x in part["orders"]["id"]) == sorted(i for i in sn if sn[i][1] == iso), "P10.state.pair",
                     lambda: f"{iso}: {part['orders']}")
                need(set(part["orderuis"]) == {i for i in sn if sn[i][1] == iso} and len(part["trades"]) == len(st["trades"]), "P10.state.pair", lambda: f"{iso}: {part}")
            # a pair can be given as it is written elsewhere, too
            slash = sorted({"/".join((o.b, o.q)) for o in orders_of(sn).values()})
            for sp in slash:
                part = sim.state(sp)
                need("orderuis" in part and set(part["orderuis"]) == {i for i, o in orders_of(sn).items() if f"{o.b}/{o.q}" == sp}, "P10.state.slashpair", lambda: f"{sp}: {part}")
            need(set(sim.state(slash, inclhistory=False)["orderuis"]) == set(sn), "P10.state.pairs", lambda: f"{slash}")
            need(sim.state(inclhistory=False)["trades"] is False, "P10.state.nohistory")
            part = sim.state("NOSUCH/PAIR")
            need("orders" in part and len(part["orders"]) == 0 and not part["orderuis"], "P10.state.nosuch", lambda: f"{part}")
        # trade log: every successful request, in order, with the reported numbers
        log = st["trades"].to_dict("records") if self.log else []
        need(len(st["trades"]) == len(self.log), "P10.log.len", lambda: f"{len(st['trades'])} rows, {len(self.log)} reported")
        for a, b in zip(log, self.log):
            for k in ("uid", "id", "subid", "amt1", "amt2", "tkn1", "tkn2", "pair", "exec", "aggr"):
                need(a[k] == b[k], "P10.log.row", lambda: f"{k}: log {a} reported {b}")
        need(st["trades"]["uid"].nunique() == len(self.log) if self.log else True, "P10.log.uid", lambda: "uids repeat")
        need(sim.numtrades == len([r for r in self.log if r["aggr"]]), "P10.numtrades", lambda: f"{sim.numtrades}")
        need(snap(sim) == sn, "P10.state.mutates", "state() changed the state")


def op_thr(t):
    thr = t.op.get("threshold")
    return 10 if thr is None else thr


def _mk(tags):
    return lambda case: Hist(case, tags).run()


p01 = _mk(("P01",))
p02 = _mk(("P02",))
p03 = _mk(("P03",))
p05 = _mk(("P05",))
p07 = _mk(("P07",))
p08 = _mk(("P08",))


def p10(case):
    h = Hist(case, ("P10",))
    h.seen, h.expect, h.cids = set(), {}, {}
    # record what is reported to the caller, to compare with the log kept by the simulator
    from . import simmodel

    def wrapped(sim, fn, **kw):
        r, e = simmodel.call(sim, fn, **kw)
        if r is not None and "trades" in r:
            routes, agg = rows_of(r)
            h.log += routes + [agg]
        return r, e
    global call
    saved, call = call, wrapped
    try:
        return h.run()
    finally:
        call = saved
