From 71837c0710e7dec2f24e4aa1015dcbbf25527ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 001/120] fix: orders with a capacity below one token trade on
 their own curve (x0, y0 clamped y_int to 1)

---
 carbon/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/order.py b/carbon/order.py
index 56e2882..21a070d 100644
--- a/carbon/order.py
+++ b/carbon/order.py
@@ -101,7 +101,7 @@ class Order:
     def x0(self) -> Decimal:
         n: Decimal = self.n
         p: Decimal = self.p
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int if self.y_int > 0 else Decimal("1")
         return (y_int * (1 - n)) / (p * (2 - n))
 
     @property
@@ -124,7 +124,7 @@ class Order:
 
     @property
     def y0(self) -> Decimal:
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int if self.y_int > 0 else Decimal("1")
         n: Decimal = self.n
         return (y_int * (1 - n)) / (2 - n)
 
-- 
2.43.0


From fb2b386cb00d88a7eea7421bf23d722652adb1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 002/120] fix: delete_order also removes the linked order when
 its id is 0

---
 carbon/simulators/carbon_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index eea72fa..c8a13a5 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -583,19 +583,19 @@ class CarbonSimulatorUI:
 
         del self.orders[position_id]
 
-        if linked_position_id:
+        if linked_position_id is not None:
             del self.orders[linked_position_id]
 
         if self.verbose:
             str2 = (
                 f"and linked position {linked_position_id}"
-                if linked_position_id
+                if linked_position_id is not None
                 else ""
             )
             print(f"Deleted position {position_id} {str2}[{pair}]")
 
         return (
-            [position_id, linked_position_id] if linked_position_id else [position_id]
+            [position_id, linked_position_id] if linked_position_id is not None else [position_id]
         )
     delete_strategy = delete_order
 
-- 
2.43.0


From 840779c781477df39cd456a2a4f30ec927b753cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 003/120] fix: add_strategy leaves no half-added strategy
 behind when one of its orders is invalid

---
 carbon/simulators/carbon_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index c8a13a5..927c853 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -485,6 +485,7 @@ class CarbonSimulatorUI:
         :y_int:         y_int >= amt is used as curve capacity, marginal price adapts
         """
         
+        id1 = id2 = None
         try:
 
             # validate tkn, pair and get CarbonPair object
@@ -554,6 +555,9 @@ class CarbonSimulatorUI:
 
 
         except Exception as e:
+            # a strategy is added completely or not at all
+            self.orders.pop(id1, None)
+            self.orders.pop(id2, None)
             if self.raiseonerror:
                 raise
             return {"success": False, "error": str(e), "exception": e}
-- 
2.43.0


From 67b14ba81005e98a21d443d2b50b20c5085542e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 004/120] fix: use_positions is respected when a negative
 amount flips the direction of a trade

---
 carbon/simulators/carbon_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 927c853..897220f 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -970,6 +970,8 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
+                    use_positions_matchlevel=use_positions_matchlevel,
                     support_partial=support_partial,
                 )
 
@@ -1049,6 +1051,8 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
+                    use_positions_matchlevel=use_positions_matchlevel,
                     support_partial=support_partial,
                 )
 
-- 
2.43.0


From 146db2bf22d0a7818115e1d93fdf50bba05cf99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 005/120] fix: limit orders by target are checked against the
 actual price (not its inverse) with the fast router

---
 carbon/simulators/carbon_simulator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 897220f..de1e44b 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -725,6 +725,9 @@ class CarbonSimulatorUI:
             # :input:       the asset BOUGHT by the AMM, and SOLD by the TRADER
             #               input is a POSITIVE number
             raw_price = -final_route.total_output / final_route.total_input
+            if is_by_target and isinstance(self.matcher, FastRouter):
+                # in this case the router's input is the token sold by the AMM and vice versa
+                raw_price = 1 / raw_price
             if self.debug:
                 print("[_trade] final route", final_route)
                 print(
@@ -844,7 +847,7 @@ class CarbonSimulatorUI:
                         1
                     ],  # the number of routes across which the trade was executed
                     "price": [
-                        round(float(price_avg), decimals) if not (is_by_target and isinstance(self.matcher, FastRouter)) else round(float(1 / Decimal(price_avg)), decimals)
+                        round(float(price_avg), decimals)
                     ],  # the price amt_/amt_, in the convention of the pair
                     "p_unit": [
                         f"{tknq} per {tknb}"
@@ -896,7 +899,7 @@ class CarbonSimulatorUI:
                 "routeix": [str(order_ids)],
                 "nroutes": [num_trades],
                 "price": [
-                    round(float(price_avg), decimals) if not (is_by_target and isinstance(self.matcher, FastRouter)) else round(float(1 / Decimal(price_avg)), decimals)
+                    round(float(price_avg), decimals)
                     ],
                 "p_unit": [f"{tknq} per {tknb}"],
             }
-- 
2.43.0


From 2935d39c19ae9953607deb98ba9ab110ed985da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 006/120] fix: the fast router fills a trade completely or
 fails, unless partial fulfillment is requested

---
 carbon/routers/fast_router.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/carbon/routers/fast_router.py b/carbon/routers/fast_router.py
index 87b0d4b..0ce285a 100644
--- a/carbon/routers/fast_router.py
+++ b/carbon/routers/fast_router.py
@@ -169,7 +169,7 @@ class FastRouter(BaseRouter):
         #     self.sufficient_liquidity_exists(x, use_positions_matchlevel)
 
         actions = []
-        x = abs(x)
+        goal = x = abs(x)
         for quote in sorted(
                 [Quote(n, trade(x, n)) for n in self.indexes], key=cmp_to_key(cmp)
         ):
@@ -202,6 +202,12 @@ class FastRouter(BaseRouter):
                     )
                     break
 
+        # the trade is either filled in its entirety or, unless partial fulfillment is requested, not at all
+        if check_sufficient_liquidity and not support_partial:
+            assert (
+                    goal - sum(action.input for action in actions) <= goal * Decimal("1e-12")
+            ), "Insufficient liquidity across all user positions to support this trade."
+
         # Format the output
         match_method = "by_src" if not is_by_target else "by_target"
         actions[0].total_output = actions[0].output
@@ -238,6 +244,7 @@ class FastRouter(BaseRouter):
             is_by_target=is_by_target,
             completed_trade=False,
             check_sufficient_liquidity=check_sufficient_liquidity,
+            support_partial=support_partial,
         )
 
     def match_by_target(
@@ -255,6 +262,7 @@ class FastRouter(BaseRouter):
             is_by_target=is_by_target,
             completed_trade=False,
             check_sufficient_liquidity=check_sufficient_liquidity,
+            support_partial=support_partial,
         )
 
     def __post_init__(self):
-- 
2.43.0


From 87dd7df0bdf4ade1a07c3819d15e895a33e0bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 007/120] fix: the alpha router uses the actual capacity of an
 order when it trades by source

---
 carbon/routers/alpha_router.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index adc20fe..100cd1a 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -344,16 +344,17 @@ class AlphaRouter(BaseRouter):
         available_value = []
         for k, v in hypothetical_output_amts.items():
             if v > self.orders[k].y:
-                price = self.get_geoprice(k)
+                # the order is exhausted: the most it can take is what it costs to buy all of it
                 amount = self.orders[k].y
+                value = self.amt_by_target(dx=amount, subject=k)
                 amounts += [amount]
-                effective_prices += [price]
-                available_value += [price * amount]
+                effective_prices += [value / amount]
+                available_value += [value]
             else:
                 amounts += [v]
                 price = x / v
                 effective_prices += [price]
-                available_value += [price * v]
+                available_value += [x]
 
         results = pd.DataFrame(
             [
-- 
2.43.0


From ceb89b34ffeefdc4fb12e9afe8d09a20756789ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 008/120] fix: CarbonPair.from_slashpair sets the decimals of
 both tokens

---
 carbon/pair.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index baf1a0e..4eb8938 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -228,7 +228,8 @@ class CarbonPair:
         tknb = tokens[0].strip()
         tknq = tokens[1].strip()
         newobj = cls(f"{tknb}/{tknq}")
-        newobj.set_decimals(decimals)
+        if not decimals is None:
+            newobj.set_decimals(*decimals)
         return newobj
         
 
-- 
2.43.0


From 9423c1e028d65522c8317ed657ebad44e210eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 009/120] fix: the reverse of a CarbonPair keeps decimals and
 display names

---
 carbon/pair.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index 4eb8938..1e6416e 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -307,7 +307,9 @@ class CarbonPair:
         """
         returns the pair with base and quote token reversed
         """
-        return self.__class__(tknb=self.tknq, tknq=self.tknb)
+        return self.__class__(
+            tknb=self.tknq_o, tknq=self.tknb_o, display_orig=self.display_orig
+        ).set_decimals(self._tknq_decimals, self._tknb_decimals)
 
     @property
     def basetoken(self):
-- 
2.43.0


From 848427ca19b1793db00c406b6114796f6f0317ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 010/120] fix: CarbonPair.limit_is_met honours its reverse
 argument

---
 carbon/pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/pair.py b/carbon/pair.py
index 1e6416e..eebb437 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -455,6 +455,10 @@ class CarbonPair:
         if current_price == limit_price:
             return True
 
+        # the point of view of the person who ACCEPTED the order
+        if reverse:
+            buysell = {self.BUY: self.SELL, self.SELL: self.BUY}.get(buysell, buysell)
+
         reverse = self.has_quotetoken(tkn)
 
         if buysell == self.BUY:
-- 
2.43.0


From ef99de1ddb81801789c90ce823e514374fe8bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 011/120] fix: CarbonPair.from_isopair_and_tkn handles tokens
 whose name contains the other token

---
 carbon/pair.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index eebb437..8265c9c 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -193,18 +193,17 @@ class CarbonPair:
                     tkn,
                 )
         else:
-            tkn2 = isopair.replace(tkn, ".")
-            if tkn2 == isopair:
+            if not tkn in isopair:
                 raise ValueError(
                     "Invalid token specification (tkn not part of isopair)",
                     isopair,
                     tkn,
                 )
-            if tkn2[0] == ".":
+            if isopair.startswith(tkn):
                 tknb = tkn
-                tknq = tkn2[1:]
-            elif tkn2[-1] == ".":
-                tknb = tkn2[:-1]
+                tknq = isopair[len(tkn):]
+            elif isopair.endswith(tkn):
+                tknb = isopair[:-len(tkn)]
                 tknq = tkn
             else:
                 raise ValueError(
-- 
2.43.0


From 2ede53ae0afe9ff201e2b1b5a281ad8dab47865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 012/120] fix: orders with a constant price can be traded to a
 price

---
 carbon/carbon_order_ui.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 4ce0add..5f0a1bc 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -622,7 +622,11 @@ class CarbonOrderUI:
                 if raiseonerror:
                     raise self.PriceOutOfBoundsErrorBeyondEnd("Price out of bounds (beyond end)", p, self.pb)
                 return 0
-        y = self.yint * (sqrt(dydx) - self.B) / self.S
+        if self.S == 0:
+            # constant price: either nothing or everything is sold at that price
+            y = self.y if dydx >= self.pb_raw else 0
+        else:
+            y = self.yint * (sqrt(dydx) - self.B) / self.S
         if checkbounds:
             if y > self.y:
                 if raiseonerror:
@@ -1049,7 +1053,7 @@ class CarbonOrderUI:
                 self.PriceOutOfBoundsErrorBeyondMarg):
             dy = 0
         except self.PriceOutOfBoundsErrorBeyondEnd:
-            dy = self.dyfromp_f(self.p_end, checkbounds=False, raiseonerror=False)
+            dy = self.y
         result = self.selly(dy, execute, allowneg=False, expandcurve=False, raiseonerror=True)
         if result is None:
             raise RuntimeError(f"Unexpected None value at {p_marg}", dy, self.yint, self.y, self.p_marg, p_marg, self)
-- 
2.43.0


From d195ccccd30327ddb2b730fb268cd29039189959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 013/120] fix: dyfromdx_f does not sell more than the order
 holds

---
 carbon/carbon_order_ui.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 5f0a1bc..8bf131d 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -692,13 +692,14 @@ class CarbonOrderUI:
         #         -------------------------------------------------------------
         denom =   self.S*dx * (self.S*self.y + self.B*self.yint) + self.yint**2
 
+        dy = dx * (num/denom)
         if checkbounds:
-            if num < 0:
+            if dy > self.y * (1 + self.EPSILON):
                 if raiseonerror:
-                    raise ValueError("AMM does not have enough y liquidity to purchase dx", y, dx, num)
+                    raise ValueError("AMM does not have enough y liquidity to purchase dx", self.y, dx, dy)
                 return None
 
-        return dx * (num/denom) 
+        return dy
 
     def dxfromdy_f(self, dy, checkbounds=True, raiseonerror=False):
         """
-- 
2.43.0


From c6e51e32aff55c450bbe8fd3e6dd6490f8e564be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 014/120] fix: yfromx_f raises the documented error for out of
 bound values

---
 carbon/carbon_order_ui.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 8bf131d..78937a8 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -547,7 +547,7 @@ class CarbonOrderUI:
         
         if self.yint == 0:
             if not self.y == 0 and dy == 0:
-                raise ValueError("If yint=0 you must also have y,dy=0", yint, y, dy)
+                raise ValueError("If yint=0 you must also have y,dy=0", self.yint, y, dy)
             dydx = ((self.B + self.S))**2
         else:
             dydx = ((self.B + self.S * y/self.yint))**2
@@ -583,7 +583,7 @@ class CarbonOrderUI:
 
         if self.yint == 0:
             if not y0 == 0 and dy == 0:
-                raise ValueError("If yint=0 you must also have y,dy=0", yint, y, dy)
+                raise ValueError("If yint=0 you must also have y,dy=0", self.yint, y, dy)
             dydx = ((self.B + self.S))**2
         else:
             if dy==0:
@@ -803,7 +803,7 @@ class CarbonOrderUI:
         if checkbounds:
             if y < 0:
                 if raiseonerror:
-                    raise ValueError("The value of x is out of bounds (x>xint; y<0)", x, xint, y)
+                    raise ValueError("The value of x is out of bounds (x>xint; y<0)", x, self.xint, y)
                 return None 
         return y
 
-- 
2.43.0


From 5332f5fa122a6d9ac3a1a4f77784701dee9fb17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 015/120] fix: disabled order views have neither pa_raw nor
 pb_raw

---
 carbon/carbon_order_ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 78937a8..1c67f8e 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -87,7 +87,7 @@ class CarbonOrderUI:
         self.pa_raw = (self.S + self.B)**2
         if self.pa_raw == 0 and self.pb_raw == 0:
             self.pa_raw = None
-            self.pa_raw = None
+            self.pb_raw = None
             self.disabled = True
         else:
             self.disabled = False
-- 
2.43.0


From eb3009ccabcf27760fe749a26f3be65b28509e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 016/120] fix: _from_SDK0 passes the capacity under its proper
 name

---
 carbon/carbon_order_ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 1c67f8e..a228d88 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -284,7 +284,7 @@ class CarbonOrderUI:
         B = AByz['B']/scalefctr
         y = AByz['y']/decimalfctr
         z = AByz['z']/decimalfctr
-        return cls.from_BSy(pair=pair, tkn=tkn, S=S, B=B, y=y, z=z)
+        return cls.from_BSy(pair=pair, tkn=tkn, S=S, B=B, y=y, yint=z)
     
     @classmethod
     def from_SDK(cls, sdkStrategy, nsd=None):
-- 
2.43.0


From ed529e3a68aa9b5fb3ff1d6e430229119c7c80d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 017/120] fix: a trade on a linked order view that is not
 executed leaves the linked order alone

---
 carbon/carbon_order_ui.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index a228d88..b5d3847 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -980,8 +980,6 @@ class CarbonOrderUI:
             else:
                 yintold = self.yint
                 yint = ynew
-                if execute:
-                    self.yint = ynew
                 curve_expanded = True
         else:
             curve_expanded = False
@@ -989,14 +987,15 @@ class CarbonOrderUI:
             if ynew<0: ynew = 0  # see if ynew < -self.EPSILON
 
         dx = self.dxfromdy_f(dy, checkbounds=False, raiseonerror=True)
-        if execute:
-            self.y = ynew
-
         if self.linked:
-            result_linked = self.linked.addliqy(dx)
+            result_linked = self.linked.addliqy(dx, execute=execute)
         else:
             result_linked = None
 
+        if execute:
+            self.yint = yint
+            self.y = ynew
+
         result = {
             "action":       "bysource[selly]",
             "executed":     execute,
@@ -1061,12 +1060,13 @@ class CarbonOrderUI:
         result["action"] = "byprice[tradeto]"
         return result
         
-    def addliqy(self, dy, expandcurve=True):
+    def addliqy(self, dy, expandcurve=True, execute=True):
         """
         adds liquidity to the curve (typically called on a linked curve)
 
         :dy:            the amount of liquidity to be added (must be positive)
         :expandcurve:   if True (default), expand yint=y if need be
+        :execute:       if False, only display results but do not update the object
         :returns:       a dict containing extensive information about the tx
         """
         if dy < 0:
@@ -1087,11 +1087,13 @@ class CarbonOrderUI:
         if newy > self.yint:
             if not expandcurve:
                 raise ValueError("Must expand curve and expandcurve=False", self.y, dy, newy, self.yint)
-            self.yint = newy
             result["yint"] = newy
             result["expanded"] = True
-        self.y = newy
+        y_old, yint_old = self.y, self.yint
+        self.y, self.yint = newy, result["yint"]
         result["pmarg"] = self.p_marg
+        if not execute:
+            self.y, self.yint = y_old, yint_old
         return result
         
     @staticmethod
-- 
2.43.0


From 4cb5fd920fb7e6144166f2c02bd1e9c21a22d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 018/120] fix: buyx beyond the capacity returns None like selly

---
 carbon/carbon_order_ui.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index b5d3847..b311b75 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -1034,6 +1034,8 @@ class CarbonOrderUI:
         """
         dy = self.dyfromdx_f(dx, checkbounds=False, raiseonerror=True)
         result = self.selly(dy, execute, allowneg, expandcurve, raiseonerror)
+        if result is None:
+            return None
         result["action"] = "bytarget[buyx]"
         return result
 
-- 
2.43.0


From 18a502f1aff7f16803809d85df70042626d0efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 019/120] fix: strategies seeded with no risk asset are seeded
 with MIN_SEED_AMT, as documented

---
 carbon/helpers/strategym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 6d466ad..2916355 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -134,7 +134,7 @@ class strategy():
     def __post_init__(self):
         # the ==0 is important: do not touch None!
         # (None means: to be filled in later)
-        if self.amt_rsk == 0: self.amt_risk = self.MIN_SEED_AMT
+        if self.amt_rsk == 0: self.amt_rsk  = self.MIN_SEED_AMT
         if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
         if self.rsk is None: self.rsk = "RSK"
         if self.csh is None: self.csh = "CSH"
-- 
2.43.0


From 81afee19bc8a6c1ca1a52d850d196b6a58eb2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 020/120] fix: strategies reject marginal prices together with
 capacities (the validation was overridden)

---
 carbon/helpers/strategym.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 2916355..4d8d057 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -62,6 +62,12 @@ class strategy():
         yi_provided = not self.y_int_sell is None or not self.y_int_buy is None
         if pm_provided and yi_provided:
             raise ValueError("Not both p_marginal and y_int can be provided", self.psell_marginal, self.y_int_sell, self.pbuy_marginal, self.y_int_buy)
+        # the ==0 is important: do not touch None!
+        # (None means: to be filled in later)
+        if self.amt_rsk == 0: self.amt_rsk  = self.MIN_SEED_AMT
+        if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
+        if self.rsk is None: self.rsk = "RSK"
+        if self.csh is None: self.csh = "CSH"
         
     MIN_SEED_AMT = 1e-10
 
@@ -131,14 +137,6 @@ class strategy():
             pass
         return newobj
 
-    def __post_init__(self):
-        # the ==0 is important: do not touch None!
-        # (None means: to be filled in later)
-        if self.amt_rsk == 0: self.amt_rsk  = self.MIN_SEED_AMT
-        if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
-        if self.rsk is None: self.rsk = "RSK"
-        if self.csh is None: self.csh = "CSH"
-
     @classmethod
     def from_dct(cls, dct, raiseonerror=True):
         """
-- 
2.43.0


From 0cdbbae0ba9f001b28b6d4eb51b5d14d81c458dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 021/120] fix: from_mgw accepts range widths above 100% and
 zero widths given per side

---
 carbon/helpers/strategym.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 4d8d057..b966ce4 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -269,7 +269,6 @@ class strategy():
         p_marg -> p_end (we can not have u=1 for y>0); p_marg = (1-u) p_s + u p_e;
         for values MAX_UTIL < u <=1, u is set to MAX_UTIL
         """
-        if w==0: w=0.0001
         if g==0: g=0.0001
         try:
             # this will work on tuple / list of length 2...
@@ -280,9 +279,13 @@ class strategy():
         #print("[from_mgw] u, usell, ubuy", u, usell, ubuy)
     
         try:
-            wsell, wbuy = (cls._validate(ww) for ww in w)
-        except:
-            wsell = wbuy = cls._validate(w)
+            wsell, wbuy = w
+        except TypeError:
+            wsell = wbuy = w
+        if wsell<0 or wbuy<0:
+            raise ValueError("Must have w >= 0", w)
+        if wsell==0: wsell=0.0001
+        if wbuy==0: wbuy=0.0001
         #print("[from_mgw] w, wsell, wbuy", w, wsell, wbuy)
     
         
-- 
2.43.0


From fe10147d80a46cc411bb10f2441199b1ce0395f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 022/120] fix: CarbonFloatInt keeps to its 40 significant bits
 and rejects exponents above the maximum

---
 carbon/helpers/floatint.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/carbon/helpers/floatint.py b/carbon/helpers/floatint.py
index 287f271..4648db2 100644
--- a/carbon/helpers/floatint.py
+++ b/carbon/helpers/floatint.py
@@ -5,7 +5,6 @@ __VERSION__ = "1.0"
 __DATE__ = "10/Feb/2023"
 
 from dataclasses import dataclass as _dataclass, asdict as _asdict
-from math import log2 as _log2, ceil as _ceil
 
 @_dataclass
 class CarbonFloatInt64():
@@ -46,8 +45,8 @@ class CarbonFloatInt64():
     
     @staticmethod
     def bindig(num):
-        """binary digits for num >0 [_ceil(_log2(rawint+1))]"""
-        return _ceil(_log2(num+1))
+        """binary digits for num >0"""
+        return num.bit_length()
 
     @classmethod
     def from_int(cls, rawint):
@@ -63,7 +62,7 @@ class CarbonFloatInt64():
         
         bindig = cls.bindig(rawint)
         exponent = bindig - cls.BITS_SIGNIFICANT
-        assert exponent <= 2**cls.BITS_EXPONENT, f"exponent must be <= {2**cls.BITS_EXPONENT}, is {exponent} [{intval}]"
+        assert exponent < 2**cls.BITS_EXPONENT, f"exponent must be < {2**cls.BITS_EXPONENT}, is {exponent} [{rawint}]"
         if exponent <= 0:
             return cls(rawint, 0)
         return cls(rawint >> exponent, exponent)
-- 
2.43.0


From 37f9ab60681774c79abbdca9b7ccff2638282346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 023/120] fix: EncodedOrder.encode computes the capacity from
 the marginal price on the curve

---
 carbon/sdk/carbonsdk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 65f53a6..cb79e17 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -294,7 +294,10 @@ class EncodedOrder():
                 if p_marg >= p_start_hi:
                     z = y
                 else:
-                    z = y * (p_start_hi - p_end_lo) // (p_marg - p_start_hi)
+                    H, L, M = (cls.encodeRate(p) for p in (p_start_hi, p_end_lo, p_marg))
+                    if M <= L:
+                        raise ValueError("p_marg must be above p_end_lo", p_marg, p_end_lo)
+                    z = int(y) * (H - L) // (M - L)
         return cls(
             y=int(y), 
             z=int(z), 
-- 
2.43.0


From 014543aae2769de31ed6c9ee1941e76753b26863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 024/120] fix: EncodedOrder.encode_yzAB accepts the float A, B
 it documents

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index cb79e17..556067c 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -319,8 +319,8 @@ class EncodedOrder():
         return cls(
             y=int(y), 
             z=int(z), 
-            A=cls.encodeFloat(A), 
-            B=cls.encodeFloat(B),
+            A=cls.encodeFloat(int(A * cls.ONE)), 
+            B=cls.encodeFloat(int(B * cls.ONE)),
             token=str(token)
         )
         
-- 
2.43.0


From 437b46d6802360912aa3c73a5b9f6936414c8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 025/120] fix: rateBySourceAmount never uses more than the
 given amount

---
 benchmark/core/match/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmark/core/match/impl.py b/benchmark/core/match/impl.py
index 1f182eb..47200e7 100644
--- a/benchmark/core/match/impl.py
+++ b/benchmark/core/match/impl.py
@@ -24,7 +24,7 @@ def rateBySourceAmount(sourceAmount, order):
     input = sourceAmount
     output = tradeBySourceAmount(input, order)
     if output > order['y']:
-        input = tradeByTargetAmount(order['y'], order)
+        input = min(tradeByTargetAmount(order['y'], order), sourceAmount)
         output = tradeBySourceAmount(input, order)
         while output > order['y']:
             input = input - 1
-- 
2.43.0


From 58be85e2fbab50c3728fd93193c4d54a9baa5662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 026/120] fix: the best match neither exceeds the amount nor
 falls short of it or of the fast match

---
 benchmark/core/match/impl.py | 63 ++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/benchmark/core/match/impl.py b/benchmark/core/match/impl.py
index 47200e7..2722782 100644
--- a/benchmark/core/match/impl.py
+++ b/benchmark/core/match/impl.py
@@ -59,7 +59,9 @@ def getLimit(order):
 
 def equalizeByTargetAmount(order, limit):
     y, z, A, B = getParams(order)
-    return (y * A + z * (B - limit)) // A if A > 0 else y
+    if A > 0:
+        return max(min((y * A + z * (B - limit)) // A, y), 0)
+    return y if B > limit else 0
 
 def equalizeBySourceAmount(order, limit):
     return tradeByTargetAmount(equalizeByTargetAmount(order, limit), order)
@@ -107,56 +109,47 @@ def matchFast(amount, orders, quotes, filter, trade):
 
 '''
  * Compute a list of {order id, trade amount} tuples:
- * - Iterate the orders from best rate to worst rate:
+ * - Iterate the orders from best marginal rate to worst marginal rate:
  *   - Calculate a trade which brings orders `0` thru `n - 1` to the rate of order `n`
  *   - If the result is larger than or equal to the requested trade amount, then stop
  * - If the result is larger than the requested trade amount:
- *   - Determine a rate `r` between the rate of order `n - 1` and the rate of order `n`
- *   - Calculate a trade which brings orders `0` thru `n - 1` to the rate `r`
- *   - If the result is equal to the requested trade amount, then stop
+ *   - Determine the adjacent rates `lo` and `hi` between the rate of order `n` and the rate of order `n - 1`,
+ *     such that the result for `lo` is large enough, and the result for `hi` is not
+ *   - Extend the trades which bring orders `0` thru `n - 1` to the rate `hi` towards those which
+ *     bring them to the rate `lo`, until the requested trade amount is reached
 '''
 def matchBest(amount, orders, quotes, filter, trade, equalize):
-    orders = [orders[quote.id] for quote in quotes] + [{k: 0 for k in 'yzAB'}]
+    ids = sorted([quote.id for quote in quotes], key=lambda id: getLimit(orders[id]), reverse=True)
+    orders = [orders[id] for id in ids] + [{k: 0 for k in 'yzAB'}]
+
+    def getRates(n, limit):
+        return [trade(equalize(order, limit), order) for order in orders[:n]]
 
+    rates = []
     for n in range(1, len(orders)):
-        limit = getLimit(orders[n])
-        rates = [trade(equalize(order, limit), order) for order in orders[:n]]
-        total = sum(rate.input for rate in rates)
-        delta = total - amount
-        if delta >= 0:
+        lo = getLimit(orders[n])
+        rates = getRates(n, lo)
+        if sum(rate.input for rate in rates) >= amount:
             break
 
-    if delta > 0:
-        lo = limit
-        hi = getLimit(orders[n - 1])
+    if sum(rate.input for rate in rates) > amount:
+        hi = getLimit(orders[n - 1]) + 1
         while lo + 1 < hi:
             limit = (lo + hi) // 2
-            rates = [trade(equalize(order, limit), order) for order in orders[:n]]
-            total = sum(rate.input for rate in rates)
-            delta = total - amount
-            if delta > 0:
+            if sum(rate.input for rate in getRates(n, limit)) >= amount:
                 lo = limit
-            elif delta < 0:
+            else:
                 hi = limit
-            else: # delta == 0
-                break
 
-    if delta > 0:
-        for i in reversed(range(len(rates))):
-            rate = trade(rates[i].input - delta, orders[i])
-            delta += rate.input - rates[i].input
-            rates[i] = rate
-            if delta <= 0:
-                break
-    elif delta < 0:
-        for i in range(len(rates)):
-            rate = trade(rates[i].input - delta, orders[i])
-            delta += rate.input - rates[i].input
-            if delta > 0:
-                break
+        full = getRates(n, lo)
+        rates = getRates(n, hi)
+        amount -= sum(rate.input for rate in rates)
+        for i in range(n):
+            rate = trade(rates[i].input + min(amount, full[i].input - rates[i].input), orders[i])
+            amount -= rate.input - rates[i].input
             rates[i] = rate
 
-    return [Action(quotes[i].id, rates[i].input, rates[i].output) for i in range(len(rates)) if filter(rates[i])]
+    return [Action(ids[i], rates[i].input, rates[i].output) for i in range(len(rates)) if filter(rates[i])]
 
 def matchBy(amount, orders, types, filter, trade, sort, equalize):
     quotes = sortedQuotes(amount, orders, trade, sort)
-- 
2.43.0


From e997839425869286d69e2c228e0510967941b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 027/120] fix: curves created with from_univ3 record their
 constructor

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 2fd16f4..1dfe458 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -345,7 +345,7 @@ class ConstantProductCurve():
         xa = x0 - sqrt(k/p_max)
         ya = y0 - sqrt(k*p_min)
         constr = constr or "pkpp"
-        return cls(k=k, x=x0, x_act=xa, y_act=ya, pair=pair, cid=cid, fee=fee, descr=descr, constr="pkpp", params=params)
+        return cls(k=k, x=x0, x_act=xa, y_act=ya, pair=pair, cid=cid, fee=fee, descr=descr, constr=constr, params=params)
     
     @classmethod
     def from_univ2(cls, x_tknb=None, y_tknq=None, k=None, pair=None, fee=None, cid=None, descr=None, params=None):
-- 
2.43.0


From 322f3a1b6e4dad1abf571f35d9e6380d28a9c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 028/120] fix: execute refuses trades that take out more than
 the curve holds, whichever amount is given

---
 carbon/tools/cpc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 1dfe458..9d850e1 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -513,6 +513,7 @@ class ConstantProductCurve():
             params = params,
         )
 
+    EPS_EXECUTE = 1e-12 # numerical tolerance when trading up to the boundary of the curve
     def execute(self, dx=None, dy=None, *, ignorebounds=False, verbose=False):
         """
         executes a transaction in the pool, returning a new curve object
@@ -536,6 +537,8 @@ class ConstantProductCurve():
                     raise ValueError(f"dx must be >= -x_act (dx={dx}, x_act={self.x_act} {self.tknx} [{self.cid}: {self.pair}])")
             newx = self.x + dx
             newy = self.k / newx
+            if not ignorebounds and newy < self.y_min * (1 - self.EPS_EXECUTE):
+                raise ValueError(f"dx must not require more than y_act (dx={dx}, y_act={self.y_act} {self.tkny} [{self.cid}: {self.pair}])")
 
         else:
             if not dy >= -self.y_act:
@@ -543,6 +546,8 @@ class ConstantProductCurve():
                     raise ValueError(f"dy must be >= -y_act (dy={dy}, y_act={self.y_act} {self.tkny} [{self.cid}: {self.pair}])")
             newy = self.y + dy
             newx = self.k / newy
+            if not ignorebounds and newx < self.x_min * (1 - self.EPS_EXECUTE):
+                raise ValueError(f"dy must not require more than x_act (dy={dy}, x_act={self.x_act} {self.tknx} [{self.cid}: {self.pair}])")
         
         if verbose:
             if dx is None: dx=newx-self.x
-- 
2.43.0


From bab89b6e64e4b7eabf1186086f4a6c09191dba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 029/120] fix: P returns the default value for paths through
 parameters that are not dictionaries

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 9d850e1..fd6f99f 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -262,7 +262,7 @@ class ConstantProductCurve():
         for field in fieldl:
             try:
                 val = val[field]
-            except KeyError:
+            except (KeyError, TypeError):
                 return defaultval
         return val
 
-- 
2.43.0


From 214f715fbff3014b544c735a7656d17b4765f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 030/120] fix: symmetric pivot tables do not lose the pairs
 that exist in one direction only

---
 carbon/tools/cpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index fd6f99f..ddf0a04 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1071,9 +1071,9 @@ class CPCContainer():
         """converts df into upper triangular matrix by adding the lower triangle"""
         df = df.copy()
         fields = df.index.union(df.columns)
-        df = df.reindex(index=fields, columns=fields)
+        df = df.reindex(index=fields, columns=fields).fillna(0)
         df = df + df.T
-        df = df.fillna(0).astype(int)
+        df = df.astype(int)
         return df
 
     FP_ANY = "any"
-- 
2.43.0


From c4d09d19bf42eec913d11e4789c2f6bf9072dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 031/120] fix: bypairs accepts blanks in the comma separated
 list of pairs, like filter_pairs

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index ddf0a04..c7c6cf2 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1348,7 +1348,7 @@ class CPCContainer():
         :returns:   tuple, generator or container object (default)
         """
         if isinstance(pairs, str):
-            pairs = set(pairs.split(","))
+            pairs = self.pairset(pairs)
         if pairs is None:
             result = (c for c in self)
         else:
-- 
2.43.0


From b2cf85355f6441d1190b57d9ffd91de5ff1dde2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 032/120] fix: bytknxs, bytknys return the documented type when
 no tokens are given

---
 carbon/tools/cpc.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index c7c6cf2..364933c 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1372,12 +1372,11 @@ class CPCContainer():
     
     def bytknxs(self, tknxs=None, *, asgenerator=None, ascc=None):
         """returns all curves by quote token tknx (tknq) (as tuple, generator or CC object)"""
-        if tknxs is None:
-            return self.curves
         if isinstance(tknxs, str):
             tknxs = set(t.strip() for t in tknxs.split(","))
-        tknxs = set(tknxs)
-        result = (c for c in self if c.tknx in tknxs)
+        if not tknxs is None:
+            tknxs = set(tknxs)
+        result = (c for c in self if tknxs is None or c.tknx in tknxs)
         return self._convert(result, asgenerator=asgenerator, ascc=ascc)
     bytknxs = bytknxs
     
@@ -1389,12 +1388,11 @@ class CPCContainer():
 
     def bytknys(self, tknys=None, *, asgenerator=None, ascc=None):
         """returns all curves by quote token tkny (tknb) (as tuple, generator or CC object)"""
-        if tknys is None:
-            return self.curves
         if isinstance(tknys, str):
             tknys = set(t.strip() for t in tknys.split(","))
-        tknys = set(tknys)
-        result = (c for c in self if c.tkny in tknys)
+        if not tknys is None:
+            tknys = set(tknys)
+        result = (c for c in self if tknys is None or c.tkny in tknys)
         return self._convert(result, asgenerator=asgenerator, ascc=ascc)
     bytknys = bytknys
     
-- 
2.43.0


From 9a9918224380e712ac0719ba254daf53392013cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 033/120] fix: inverted curves without price bounds have no
 price bounds (they raised TypeError)

---
 carbon/tools/cpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 364933c..6a62fc8 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1809,11 +1809,11 @@ class CPCInverter():
     
     @property
     def p_min(self):
-        return 1/self.curve.p_max
+        return 1/self.curve.p_max if not self.curve.p_max is None else None
     
     @property
     def p_max(self):
-        return 1/self.curve.p_min
+        return 1/self.curve.p_min if not self.curve.p_min is None else None
     
     @property
     def y_act(self):
-- 
2.43.0


From b2c92141deca2a2142acdeccc2b90b1dece6f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 034/120] fix: bytknb and bytknq select by base and quote token
 (they were swapped)

---
 carbon/tools/cpc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 6a62fc8..b59e918 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1365,13 +1365,13 @@ class CPCContainer():
         return self.bypairs(ascc=True)
     
     def bytknx(self, tknx, *, asgenerator=None, ascc=None):
-        """returns all curves by quote token tknx (tknq) (as tuple, generator or CC object)"""
+        """returns all curves by base token tknx (tknb) (as tuple, generator or CC object)"""
         result = (c for c in self if c.tknx==tknx)
         return self._convert(result, asgenerator=asgenerator, ascc=ascc)
-    bytknq = bytknx
+    bytknb = bytknx
     
     def bytknxs(self, tknxs=None, *, asgenerator=None, ascc=None):
-        """returns all curves by quote token tknx (tknq) (as tuple, generator or CC object)"""
+        """returns all curves by base token tknx (tknb) (as tuple, generator or CC object)"""
         if isinstance(tknxs, str):
             tknxs = set(t.strip() for t in tknxs.split(","))
         if not tknxs is None:
@@ -1381,13 +1381,13 @@ class CPCContainer():
     bytknxs = bytknxs
     
     def bytkny(self, tkny, *, asgenerator=None, ascc=None):
-        """returns all curves by base token tkny (tknb) (as tuple, generator or CC object)"""
+        """returns all curves by quote token tkny (tknq) (as tuple, generator or CC object)"""
         result = (c for c in self if c.tkny==tkny)
         return self._convert(result, asgenerator=asgenerator, ascc=ascc)
-    bytknb = bytkny
+    bytknq = bytkny
 
     def bytknys(self, tknys=None, *, asgenerator=None, ascc=None):
-        """returns all curves by quote token tkny (tknb) (as tuple, generator or CC object)"""
+        """returns all curves by quote token tkny (tknq) (as tuple, generator or CC object)"""
         if isinstance(tknys, str):
             tknys = set(t.strip() for t in tknys.split(","))
         if not tknys is None:
-- 
2.43.0


From 6cd9cbb427038cdba9bbfee5d5b23546b828d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 035/120] fix: curve parameters that contain None, booleans or
 quotation marks can be read back

---
 carbon/tools/cpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index b59e918..f651387 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -18,6 +18,7 @@ from math import sqrt
 import numpy as np
 import pandas as pd
 import json
+from ast import literal_eval
 from matplotlib import pyplot as plt
 from carbon.tools.params import Params
 import itertools
@@ -222,7 +223,10 @@ class ConstantProductCurve():
         if self.params is None:
             super().__setattr__('params', AttrDict())
         elif isinstance(self.params, str):
-            data = json.loads(self.params.replace("'", '"'))
+            try:
+                data = json.loads(self.params)
+            except ValueError:
+                data = literal_eval(self.params)
             super().__setattr__('params', AttrDict(data))
         elif isinstance(self.params, dict):
             super().__setattr__('params', AttrDict(self.params))
-- 
2.43.0


From d2d9a340a1b3e1afc8271a8bbaecf2ecf422b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 036/120] fix: curves read back from a data frame have None,
 not NaN, where a value is missing

---
 carbon/tools/cpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index f651387..1a67fbd 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -944,7 +944,9 @@ class CPCContainer():
         "alternative constructor: creates a container from a dataframe representation"
         if "cid" in df.columns:
             df = df.set_index("cid")
-        return cls.from_dicts(df.reset_index().to_dict("records"), tokenscale=tokenscale)
+        df = df.reset_index().astype(object)
+        df = df.where(df.notna(), None) # missing values
+        return cls.from_dicts(df.to_dict("records"), tokenscale=tokenscale)
     
     def add(self, item):
         """
-- 
2.43.0


From 8400006880cd090eb1515dd56a3a35ec9cde7f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 037/120] Revert "fix: the best match neither exceeds the
 amount nor falls short of it or of the fast match"

This reverts commit 58be85e2fbab50c3728fd93193c4d54a9baa5662.
---
 benchmark/core/match/impl.py | 63 ++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/benchmark/core/match/impl.py b/benchmark/core/match/impl.py
index 2722782..47200e7 100644
--- a/benchmark/core/match/impl.py
+++ b/benchmark/core/match/impl.py
@@ -59,9 +59,7 @@ def getLimit(order):
 
 def equalizeByTargetAmount(order, limit):
     y, z, A, B = getParams(order)
-    if A > 0:
-        return max(min((y * A + z * (B - limit)) // A, y), 0)
-    return y if B > limit else 0
+    return (y * A + z * (B - limit)) // A if A > 0 else y
 
 def equalizeBySourceAmount(order, limit):
     return tradeByTargetAmount(equalizeByTargetAmount(order, limit), order)
@@ -109,47 +107,56 @@ def matchFast(amount, orders, quotes, filter, trade):
 
 '''
  * Compute a list of {order id, trade amount} tuples:
- * - Iterate the orders from best marginal rate to worst marginal rate:
+ * - Iterate the orders from best rate to worst rate:
  *   - Calculate a trade which brings orders `0` thru `n - 1` to the rate of order `n`
  *   - If the result is larger than or equal to the requested trade amount, then stop
  * - If the result is larger than the requested trade amount:
- *   - Determine the adjacent rates `lo` and `hi` between the rate of order `n` and the rate of order `n - 1`,
- *     such that the result for `lo` is large enough, and the result for `hi` is not
- *   - Extend the trades which bring orders `0` thru `n - 1` to the rate `hi` towards those which
- *     bring them to the rate `lo`, until the requested trade amount is reached
+ *   - Determine a rate `r` between the rate of order `n - 1` and the rate of order `n`
+ *   - Calculate a trade which brings orders `0` thru `n - 1` to the rate `r`
+ *   - If the result is equal to the requested trade amount, then stop
 '''
 def matchBest(amount, orders, quotes, filter, trade, equalize):
-    ids = sorted([quote.id for quote in quotes], key=lambda id: getLimit(orders[id]), reverse=True)
-    orders = [orders[id] for id in ids] + [{k: 0 for k in 'yzAB'}]
-
-    def getRates(n, limit):
-        return [trade(equalize(order, limit), order) for order in orders[:n]]
+    orders = [orders[quote.id] for quote in quotes] + [{k: 0 for k in 'yzAB'}]
 
-    rates = []
     for n in range(1, len(orders)):
-        lo = getLimit(orders[n])
-        rates = getRates(n, lo)
-        if sum(rate.input for rate in rates) >= amount:
+        limit = getLimit(orders[n])
+        rates = [trade(equalize(order, limit), order) for order in orders[:n]]
+        total = sum(rate.input for rate in rates)
+        delta = total - amount
+        if delta >= 0:
             break
 
-    if sum(rate.input for rate in rates) > amount:
-        hi = getLimit(orders[n - 1]) + 1
+    if delta > 0:
+        lo = limit
+        hi = getLimit(orders[n - 1])
         while lo + 1 < hi:
             limit = (lo + hi) // 2
-            if sum(rate.input for rate in getRates(n, limit)) >= amount:
+            rates = [trade(equalize(order, limit), order) for order in orders[:n]]
+            total = sum(rate.input for rate in rates)
+            delta = total - amount
+            if delta > 0:
                 lo = limit
-            else:
+            elif delta < 0:
                 hi = limit
+            else: # delta == 0
+                break
 
-        full = getRates(n, lo)
-        rates = getRates(n, hi)
-        amount -= sum(rate.input for rate in rates)
-        for i in range(n):
-            rate = trade(rates[i].input + min(amount, full[i].input - rates[i].input), orders[i])
-            amount -= rate.input - rates[i].input
+    if delta > 0:
+        for i in reversed(range(len(rates))):
+            rate = trade(rates[i].input - delta, orders[i])
+            delta += rate.input - rates[i].input
+            rates[i] = rate
+            if delta <= 0:
+                break
+    elif delta < 0:
+        for i in range(len(rates)):
+            rate = trade(rates[i].input - delta, orders[i])
+            delta += rate.input - rates[i].input
+            if delta > 0:
+                break
             rates[i] = rate
 
-    return [Action(ids[i], rates[i].input, rates[i].output) for i in range(len(rates)) if filter(rates[i])]
+    return [Action(quotes[i].id, rates[i].input, rates[i].output) for i in range(len(rates)) if filter(rates[i])]
 
 def matchBy(amount, orders, types, filter, trade, sort, equalize):
     quotes = sortedQuotes(amount, orders, trade, sort)
-- 
2.43.0


From 77fcc6d3ec387392e5856bb89eb6bb8f792119ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 038/120] Revert "fix: rateBySourceAmount never uses more than
 the given amount"

This reverts commit 437b46d6802360912aa3c73a5b9f6936414c8759.
---
 benchmark/core/match/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmark/core/match/impl.py b/benchmark/core/match/impl.py
index 47200e7..1f182eb 100644
--- a/benchmark/core/match/impl.py
+++ b/benchmark/core/match/impl.py
@@ -24,7 +24,7 @@ def rateBySourceAmount(sourceAmount, order):
     input = sourceAmount
     output = tradeBySourceAmount(input, order)
     if output > order['y']:
-        input = min(tradeByTargetAmount(order['y'], order), sourceAmount)
+        input = tradeByTargetAmount(order['y'], order)
         output = tradeBySourceAmount(input, order)
         while output > order['y']:
             input = input - 1
-- 
2.43.0


From a3abe86d70df4df17dec7b950eacf21c08592e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 039/120] fix: goalseek finds roots at the first guess, and of
 functions of very small or very large numbers

---
 carbon/tools/optimizer.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index b171771..abddd4d 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -282,18 +282,27 @@ class OptimizerBase:
         """
         finds the value of `x` where `func(x)` x is zero, using binary search between a,b
         """
-        if func(a) * func(b) > 0:
+        fa, fb = func(a), func(b)
+        if fa == 0:
+            return cls.SimpleResult(result=a, method="findminmax_nr")
+        if fb == 0:
+            return cls.SimpleResult(result=b, method="findminmax_nr")
+        if fa * fb > 0:
             cls.SimpleResult(
                 result=None, 
                 errormsg=f"function must have different signs at a,b [{a}, {b}, {func(a)} {func(b)}]",
                 method="findminmax_nr"
                 )
             raise ValueError("function must have different signs at a,b")
-        while (b - a) > cls.GOALSEEKEPS:
+        eps = cls.GOALSEEKEPS * min(1, max(abs(a), abs(b))) # small numbers require a relative precision
+        while (b - a) > eps:
             c = (a + b) / 2
-            if func(c) == 0:
-                return c
-            elif func(a) * func(c) < 0:
+            fc = func(c)
+            if fc == 0:
+                return cls.SimpleResult(result=c, method="findminmax_nr")
+            if c in (a, b):
+                break # no floating point number in between
+            if fa * fc < 0:
                 b = c
             else:
                 a = c
-- 
2.43.0


From 1b724193138305bd1baab81e70586f8726ef05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 040/120] fix: convergence in the last permitted iteration is
 not an error

---
 carbon/tools/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index abddd4d..6a7f481 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1261,6 +1261,7 @@ class CPCArbOptimizer(OptimizerBase):
             #     print("[margp_optimizer] dtkn_d", dtkn_d)
                 
 
+        converged = False
         for i in range(maxiter):
 
             if P("progress"):
@@ -1313,11 +1314,12 @@ class CPCArbOptimizer(OptimizerBase):
                     # we break in the first loop, so we restore the initial price estimates
                     # (if we do log10 / 10**p then we get results that are slightly off zero)
                     p = np.array(price_estimates_t, dtype=float)
+                converged = True
                 break
         
         NOMR = lambda f: f if not result==self.MO_MINIMAL else None
         
-        if i == maxiter-1:
+        if not converged:
             return self.MargpOptimizerResult(
                 optimizer=NOMR(self),
                 result =  None,
-- 
2.43.0


From 061d07c9298a54eeb60879314810aa318570ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 041/120] fix: nofees_optimizer given the target token only
 constrains the other tokens to net out to zero

---
 carbon/tools/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 6a7f481..492cc1d 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -762,7 +762,9 @@ class CPCArbOptimizer(OptimizerBase):
         
             
         # self-financing constraints
-        for tkn, tknvalue in sfc.items():
+        # (zero for all tokens of the problem that do not appear in sfc, eg if it was created with SFC.arb)
+        for tkn in sorted(sfc.tokens | self.curve_container.tokens()):
+            tknvalue = sfc.data.get(tkn, 0)
             if not isinstance(tknvalue, str):
                 constraints += [
                     cp.sum([dy[i] for i in tt[tkn].y])+cp.sum([dx[i] for i in tt[tkn].x]) == tknvalue*c0.scale(tkn)
-- 
2.43.0


From 5003b01b8f88723a2851dcd05377f1f8ffe0db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 042/120] fix: margp_optimizer reports an error if it ends away
 from the equilibrium

---
 carbon/tools/optimizer.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 492cc1d..db8bd90 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1338,6 +1338,25 @@ class CPCArbOptimizer(OptimizerBase):
             )
         
         dtokens_d, dtokens_t = dtknfromp_f(p, asdct=True, islog10=False)
+
+        # if curves are stuck at their boundaries the Newton step can vanish away from the solution; at the 
+        # solution, the tokens must net out to within the effect of a price change of the size of the criterium
+        scale_t = tuple(sum(c.x for c in curves_t if c.tknb==t) + sum(c.y for c in curves_t if c.tknq==t) for t in tokens_t)
+        if any(not abs(dtkn) <= 10*eps*scale for dtkn, scale in zip(dtokens_t, scale_t)):
+            return self.MargpOptimizerResult(
+                optimizer=NOMR(self),
+                result =  None,
+                time=time.time()-start_time,
+                targettkn=targettkn,
+                curves = NOMR(curves_t),
+                p_optimal = None,
+                p_optimal_t = None,
+                dtokens = None,
+                dtokens_t = None,
+                tokens_t = tokens_t,
+                n_iterations = i,
+                errormsg = f"no solution found: tokens do not net out to zero {dict(zip(tokens_t, dtokens_t))}",
+            )
         return self.MargpOptimizerResult(
             optimizer=NOMR(self),
             result =  dtokens_d[targettkn],
-- 
2.43.0


From f67afdd5e42a1d4a03ed3c796dc60da3c50b3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 043/120] fix: trade instructions of large curves that do not
 trade no longer raise because of rounding

---
 carbon/tools/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index db8bd90..6b527ad 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1502,6 +1502,7 @@ class CPCArbOptimizer(OptimizerBase):
         curve: InitVar = None
 
         POSNEGEPS = 1e-8
+        POSNEGEPS_REL = 1e-12 # relative to the balances of the curve
 
         def __post_init__(self, curve=None):
             self.curve = curve
@@ -1513,7 +1514,10 @@ class CPCArbOptimizer(OptimizerBase):
             self.amtin = float(self.amtin)
             self.amtout = float(self.amtout)
             if not self.amtin*self.amtout < 0:
-                if abs(self.amtin)<self.POSNEGEPS and abs(self.amtout)<self.POSNEGEPS:
+                # the amounts are differences of balances, so the rounding error is proportional to those
+                balances = {curve.tknx: curve.x, curve.tkny: curve.y} if curve is not None else {}
+                eps = lambda tkn: max(self.POSNEGEPS, self.POSNEGEPS_REL*balances.get(tkn, 0))
+                if abs(self.amtin)<eps(self.tknin) and abs(self.amtout)<eps(self.tknout):
                     self.amtin = 0
                     self.amtout = 0
                 else:
-- 
2.43.0


From c75bfb924be1b524966bc9afc975ca0380fba40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 044/120] fix: margp_optimizer converges if prices are very
 close, but not equal, to one (Jacobian step below rounding)

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 6b527ad..c678ef7 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1070,7 +1070,7 @@ class CPCArbOptimizer(OptimizerBase):
         y = func(x)
         jac = np.zeros((n, n))
         for j in range(n):  # through columns to allow for vector addition
-            Dxj = (abs(x[j])*eps if x[j] != 0 else eps)
+            Dxj = (abs(x[j])*eps if abs(x[j]) > eps else eps) # a tiny x must not lead to a step below rounding
             x_plus = [(xi if k != j else xi + Dxj) for k, xi in enumerate(x)]
             jac[:, j] = (func(x_plus) - y)/Dxj
         return jac
-- 
2.43.0


From 715ee24776f0d4145ce6d2a05982006b960b727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 045/120] fix: graphs made from tuples of nodes or edges, and
 duplicated graphs, can be added to and accessed by index

---
 carbon/tools/arbgraphs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 7bab36f..8b4b16b 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -822,6 +822,8 @@ class ArbGraph(_DCBase):
         """
         post-initialization
         """
+        self.nodes = list(self.nodes) # nodes and edges can be any iterable, eg the tuple
+        self.edges = list(self.edges) # returned by create_node_list
         for ix, node in enumerate(self.nodes):
             node.set_ix(ix)
         self._node_by_tkn = {node.tkn: node for node in self.nodes}
-- 
2.43.0


From 9060107a2c842a67611d1b9efc95c21c093e445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 046/120] fix: duplicating edges and graphs keeps the quotation
 and the uid of the edges

---
 carbon/tools/arbgraphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 8b4b16b..ada0577 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -498,7 +498,7 @@ class Edge(_DCBase):
         """
         duplicate an edge with all values the same except ix
         """
-        return self.__class__(self.node_in, self.amount_in, self.node_out, self.amount_out, None, self.inverse)
+        return self.__class__(self.node_in, self.amount_in, self.node_out, self.amount_out, None, self.inverse, uid=self.uid)
 
     def reverse(self):
         """
@@ -913,7 +913,7 @@ class ArbGraph(_DCBase):
         nodes = {node.tkn: Node(node.tkn) for node in self.nodes}
         if not consolidate:
             edges = (Edge(edge.node_in, edge.amount_in, edge.node_out, edge.amount_out, 
-                                        edge.inverse, uid=edge.uid) for edge in self.edges)
+                                        inverse=edge.inverse, uid=edge.uid) for edge in self.edges)
         else:
             edges = ( self.filter_edges(nin, nout)
                             for nin in self.nodes for nout in self.nodes if nin != nout)
-- 
2.43.0


From 032b91bfe3137f7c247d9fe209b9fa9b4a685a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 047/120] fix: a transport that is refused leaves edges and
 nodes as they were

---
 carbon/tools/arbgraphs.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index ada0577..897717d 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -602,15 +602,15 @@ class Edge(_DCBase):
         amount_out = amount_in * self.amount_out / self.amount_in
         
         if record:
-            self.state.amount_in_remaining -= amount_in
-            if self.state.amount_in_remaining < -EPS:
-                if raiseonerror:
+            # check everything before recording anything, so that a refused transport leaves no trace
+            if raiseonerror:
+                if self.state.amount_in_remaining - amount_in < -EPS:
                     raise ValueError(f"amount {amount_in} exceeds remaining edge capacity {self.state.amount_in_remaining}")
+                if self.node_in.state.amount - amount_in < -EPS:
+                    raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
+            self.state.amount_in_remaining -= amount_in
             self.node_out.state.amount += amount_out
             self.node_in.state.amount -= amount_in
-            if self.node_in.state.amount < -EPS:
-                if raiseonerror:
-                    raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
         return Amount(amount_out, self.node_out)
 
     def __str__(self):
@@ -1730,6 +1730,10 @@ class ArbGraph(_DCBase):
         amounts_in = [amt_in * routing_factor for amt_in in capacities_in]
         print(f"routing_factor: {routing_factor}; amounts_in: {amounts_in} {amount_in} {capacity_in}")
 
+        # check that the node has the entire amount before recording anything on any of the edges
+        if record and raiseonerror and node_in.state.amount - amount_in < -EPS:
+            raise ValueError(f"amount {amount_in} exceeds node capacity {node_in.state.amount}")
+
         # transport the amounts through the edges
         amounts_out = []
         for edge, amt_in in zip(edges, amounts_in):
-- 
2.43.0


From 25d66a3da56ae4a47500c5cfbfa2b8baec8b909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 048/120] fix: ArbGraph.transport accepts Amount objects

---
 carbon/tools/arbgraphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 897717d..d108d39 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1711,8 +1711,8 @@ class ArbGraph(_DCBase):
 
         # if amount_in is a Amount, ensure the token is correct
         if isinstance(amount_in, Amount):
-            if amount_in.token != node_in.token:
-                raise ValueError(f"amount_in token {amount_in.token} does not match node_in token {node_in.token}")
+            if amount_in.node != node_in:
+                raise ValueError(f"amount_in token {amount_in.node} does not match node_in token {node_in}")
             amount_in = amount_in.amount
 
         # get the edges
-- 
2.43.0


From ed7b34ba1ff10bda4bb5674d6d9cb9ee4f678a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 049/120] fix: results of arbitrage cycles can be returned as
 dicts, tuples and dataframes

---
 carbon/tools/arbgraphs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index d108d39..cad5cc1 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1485,7 +1485,7 @@ class ArbGraph(_DCBase):
             return super().asdict(dct=dct, exclude=exclude, include=include)
         
         def astuple(self, include_cycle=True):
-            return tuple(self.asdict(include_cycle).values())
+            return tuple(self.asdict(include_cycle=include_cycle).values())
         
         def tokens(self):
             return ", ".join(str(t.tkn) for t in self.cycle.data)
@@ -1654,12 +1654,12 @@ class ArbGraph(_DCBase):
         :format:       same as in `run_arbitrage_cycles`
         """
         if format is None:
-            format = self.ACREF_DF
+            format = self.ACRET_DF
 
         arbcycles = rawresults
         if format == self.ACRET_GEN or format == self.ACRET_TUPLE:
             return rawresults
-        arbcycles_dcts = tuple(r.asdict(False) for r in arbcycles)
+        arbcycles_dcts = tuple(r.asdict(include_cycle=False) for r in arbcycles)
         if format == self.ACRET_DICTS:
             return arbcycles_dcts
         df0 = pd.DataFrame.from_dict(arbcycles_dcts)
-- 
2.43.0


From dcb99feb0c5f2ff439d753a6e58b53f3199069ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 050/120] fix: start_ix of an arbitrage cycle result is the
 index of the token around which it was run

---
 carbon/tools/arbgraphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index cad5cc1..fb9de4d 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1568,6 +1568,7 @@ class ArbGraph(_DCBase):
                 current_amounts_in = capacities_in
                 initial_amount_in = capacity_in    # we remember how much we had at the beginning...
                 initial_tkn_in = e.tkn_in        # ...and in which token we had it
+                initial_node_in = pair[0]        # ...ie the node where the cycle was started
             
             else:
                 # current_amount_out was set in the previous edge; first we set in to previous out
@@ -1610,7 +1611,7 @@ class ArbGraph(_DCBase):
         
         result = self.RunArbCycleResult(
             cycle = cycle,
-            start_ix = 0,
+            start_ix = cycle.data.index(initial_node_in),
             token = e.tkn_out,
             profit = profit_amount,
             amount_in = effective_amount_in,
-- 
2.43.0


From 1054b45cbb9f90dab50ab1f307aedc3e0f75e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 051/120] fix: Cycle.pairs_s starts where asked

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index fb9de4d..2b0f615 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -795,7 +795,7 @@ class Cycle(_DCBase):
         """
         runs pairs and returns the results as slashpairs
         """
-        return [f"{p[0].tkn}/{p[1].tkn}" for p in self.pairs()]
+        return [f"{p[0].tkn}/{p[1].tkn}" for p in self.pairs(start_ix=start_ix, start_val=start_val)]
     
     def run_arbitrage_cycle(self, token=None, **params):
         """
-- 
2.43.0


From 1d105d1762f7950f5acfedc34895271ceb5f9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 052/120] fix: prices of parallel connections are averaged
 according to their weights, like the price of the combined edge

---
 carbon/tools/arbgraphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 2b0f615..c98cd02 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1776,7 +1776,8 @@ class ArbGraph(_DCBase):
         for edgenodes in path.pairs():
             node_in, node_out = edgenodes
             edges = self.filter_edges(node_in=node_in, node_out=node_out)
-            p_outperin = np.mean([e.p_outperin for e in edges])
+            # the amounts contain the weights, ie this is the price of the consolidated edge
+            p_outperin = sum(e.amount_out for e in edges) / sum(e.amount_in for e in edges)
             #print(f"ptransport {node_in} --{p_outperin}--> {node_out} [{len(edges)}]")
             multiplier *= p_outperin
             prices += [p_outperin]
-- 
2.43.0


From 2efa1d09e6fe072c2f0824ff59cefa943c4cc177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 053/120] fix: ArbGraph.price with units accepts the same token
 name twice

---
 carbon/tools/arbgraphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index c98cd02..5f28ee8 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1315,9 +1315,9 @@ class ArbGraph(_DCBase):
         get the price (estimate) expressed in units of end per start [only on connection-type graphs]
         """
         assert not self.is_amounttype, "cannot get price on amount-type graphs"
+        node_tknb = self.node_by_tkn(node_tknb)
+        node_tknq = self.node_by_tkn(node_tknq)
         if node_tknb != node_tknq:
-            node_tknb = self.node_by_tkn(node_tknb)
-            node_tknq = self.node_by_tkn(node_tknq)
             price = self.ptransport(self.shortest_path(node_tknb, node_tknq)).multiplier
         else:
             price = 1
-- 
2.43.0


From c3e633c1bd6eb448a1a25a62edbc13c310502e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 054/120] fix: ArbGraph.degree as matrix

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 5f28ee8..44fe994 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1402,7 +1402,7 @@ class ArbGraph(_DCBase):
         degree = dict(degree)
         if not as_matrix:
             return degree
-        matrix = np.diag([degree.get(node, 0) for node in G.nodes()])
+        matrix = np.diag([degree.get(node.ix, 0) for node in self.nodes])
         return matrix
     
     def in_degree(self, as_matrix=False):
-- 
2.43.0


From 23fb2d52adcde8c1b88b8c8ec6601b3805f7898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 055/120] fix: Node.reset_state sets the amount it is given

---
 carbon/tools/arbgraphs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 44fe994..3c36d02 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -148,6 +148,10 @@ class Node(_DCBase):
         amount_: TrackedStateFloat = field(default_factory=TrackedStateFloat, init=False)
         amount: InitVar = None
 
+        def __post_init__(self, amount=None):
+            if not amount is None and not isinstance(amount, property): # the property is the default value
+                self.amount_.reset(amount)
+
         @property
         def amount(self):
             return self.amount_.value
-- 
2.43.0


From b76802cfd719c90efe2795d5f48e540bdc7f5a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 056/120] fix: filter_edges with bothways no longer returns
 every edge twice if there is no direction

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 3c36d02..8fa8178 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1205,7 +1205,7 @@ class ArbGraph(_DCBase):
             node_in, node_out = pair.split("/")
         if bothways is None:
             bothways = False if pair is None else True
-        if bothways:
+        if bothways and not (node_in is None and node_out is None): # otherwise both ways are in already
             l1 = self.filter_edges(node_in=node_in, node_out=node_out, node=node, bothways=False)
             l2 = self.filter_edges(node_in=node_out, node_out=node_in, node=node, bothways=False)
             return l1 + l2
-- 
2.43.0


From 728c30f60be38c17b84de98feddf25b8563edc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 057/120] fix: edgedf of a connection graph matches the reverse
 edges to their pair

---
 carbon/tools/arbgraphs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 8fa8178..19aa2af 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1840,9 +1840,11 @@ class ArbGraph(_DCBase):
                     values=["n", "price"],
                     aggfunc={"n": np.sum, "price": np.mean},
                 ).reset_index()
-            dff = df[df["is_reverse"]==False]
-            dft = df[df["is_reverse"]==True]
-            df = pd.concat([dff.reset_index(drop=True), dft[["n"]].rename(columns={"n":"n_rev"}).reset_index(drop=True)], axis=1)
+            dff = df[df["is_reverse"]==False][["pair", "n", "price"]]
+            dft = df[df["is_reverse"]==True][["pair", "n", "price"]]
+            df = dff.merge(dft.rename(columns={"n":"n_rev", "price":"price_rev"}), on="pair", how="outer", sort=True)
+            df["price"] = df["price"].fillna(df["price_rev"])
+            df[["n", "n_rev"]] = df[["n", "n_rev"]].fillna(0)
             df = df[["pair", "n", "n_rev", "price"]]
         
             if not resetindex:
-- 
2.43.0


From 1c870fc7d9b5bda9d92db85b70075101633611b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 058/120] fix: TrackedStateFloat has the documented incr

---
 carbon/tools/arbgraphs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 19aa2af..02ebb40 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -131,6 +131,12 @@ class TrackedStateFloat(_DCBase):
         """
         return self.reset(value, clear_history=False)
     
+    def incr(self, value):
+        """
+        increments the value of the field; returns self
+        """
+        return self.set(self.value + value)
+
     def __str__(self):
         return f"{self.value}"
     
-- 
2.43.0


From 0e7c94d15f1b256b6ff3de1be9d565269a62ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 059/120] fix: Uniswap v3 reserves are in token units for all
 decimals (not only if they are 6 and 18)

---
 carbon/tools/univ3calc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/univ3calc.py b/carbon/tools/univ3calc.py
index 94d7164..fe2ba30 100644
--- a/carbon/tools/univ3calc.py
+++ b/carbon/tools/univ3calc.py
@@ -186,8 +186,7 @@ class Univ3Calculator():
         _, pb = self.papb
         sqrtPb = sqrt(pb)
         sqrtP = sqrt(self.p)
-        tkn0reserve = self.liquidity * (sqrtPb - sqrtP) / (sqrtP * sqrtPb)
-        tkn0reserve *= self.decf
+        tkn0reserve = self.L * (sqrtPb - sqrtP) / (sqrtP * sqrtPb)
         if not incltoken:
             return tkn0reserve
         return (tkn0reserve, self.tkn0)
@@ -197,8 +196,7 @@ class Univ3Calculator():
         pa, _ = self.papb
         sqrtPa = sqrt(pa)
         sqrtP = sqrt(self.p)
-        tkn1reserve = self.liquidity * (sqrtP - sqrtPa)
-        tkn1reserve *= self.decf
+        tkn1reserve = self.L * (sqrtP - sqrtPa)
         if not incltoken:
             return tkn1reserve
         return (tkn1reserve, self.tkn1)
-- 
2.43.0


From 1f2b95b4ff3fb0a0d317b7504d875f03520a987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 060/120] fix: Univ3Calculator resolves the address of token 1
 if that of token 0 is not known

---
 carbon/tools/univ3calc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/carbon/tools/univ3calc.py b/carbon/tools/univ3calc.py
index fe2ba30..c5463cf 100644
--- a/carbon/tools/univ3calc.py
+++ b/carbon/tools/univ3calc.py
@@ -57,11 +57,8 @@ class Univ3Calculator():
     ADDRR = {v[0]:k for k,v in ADDRDEC.items()}
     
     def __post_init__(self, tkn0decv=None, tkn1decv=None):
-        try:
-            super().__setattr__('tkn0', self.ADDRR[self.tkn0])
-            super().__setattr__('tkn1', self.ADDRR[self.tkn1])
-        except Exception as e:
-            pass
+        super().__setattr__('tkn0', self.ADDRR.get(self.tkn0, self.tkn0))
+        super().__setattr__('tkn1', self.ADDRR.get(self.tkn1, self.tkn1))
 
         if tkn0decv is None:
             super().__setattr__('_tkn0dec', self.ADDRDEC[self.tkn0][1]) 
-- 
2.43.0


From da2ba36f32ed2f16844dbc03899b50cbffb41ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 061/120] fix: a transport beyond the capacity of one of
 several edges is refused before any of them is recorded

---
 carbon/tools/arbgraphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 02ebb40..db47a72 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1741,7 +1741,9 @@ class ArbGraph(_DCBase):
         amounts_in = [amt_in * routing_factor for amt_in in capacities_in]
         print(f"routing_factor: {routing_factor}; amounts_in: {amounts_in} {amount_in} {capacity_in}")
 
-        # check that the node has the entire amount before recording anything on any of the edges
+        # check all edges, and that the node has the entire amount, before recording anything on any of the edges
+        for edge, amt_in in zip(edges, amounts_in):
+            edge.transport(amt_in)
         if record and raiseonerror and node_in.state.amount - amount_in < -EPS:
             raise ValueError(f"amount {amount_in} exceeds node capacity {node_in.state.amount}")
 
-- 
2.43.0


From 38901b91f96a413519388e3fb56fee27fd1a8a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 062/120] fix: mCreateStrategy creates the strategy on the pair
 it was given, not always on ETH/USDC

---
 carbon/sdk/carbonsdk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 556067c..ebf2d3a 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -661,7 +661,7 @@ class CarbonSDK(CarbonSDK0):
 
     ########################################################################
     ## maker actions
-    def mCreateStrategy(self, pair, sellRangeStart, sellRangeEnd, sellAmountTknB, buyRangeStart, buyRangeEnd, buyAmountTknQ, overrides):
+    def mCreateStrategy(self, pair, sellRangeStart, sellRangeEnd, sellAmountTknB, buyRangeStart, buyRangeEnd, buyAmountTknQ, overrides=None):
         """
         creates a strategy buying and selling tokens on a given pair
 
@@ -696,8 +696,8 @@ class CarbonSDK(CarbonSDK0):
             raise ValueError("sellRangeStart <= buyRangeStart", sellRangeStart, buyRangeStart)
         
         data = self.createBuySellStrategy(
-            baseToken = T.ETH.a, 
-            quoteToken = T.USDC.a, 
+            baseToken = T[pair.tknb].a, 
+            quoteToken = T[pair.tknq].a, 
             buyPriceLow = buyRangeEnd, 
             buyPriceHigh = buyRangeStart, 
             buyBudget = buyAmountTknQ,
-- 
2.43.0


From 85d405a660ec50670580d5a5a5f1421d55dac03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 063/120] fix: the SDK does not change the overrides dict of
 the caller

---
 carbon/sdk/carbonsdk0.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 049a3e9..2a6ea6b 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -321,7 +321,7 @@ class CarbonSDK0(SDKBase):
         """
         if deadline is None: deadline = self.MAXDEADLINE
         if maxInput is None: maxInput = self.MAXMAXINPUT
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         if tradeActions is None: tradeActions = []
         tradeActions = [self.int2strd(d) for d in tradeActions]
@@ -350,7 +350,7 @@ class CarbonSDK0(SDKBase):
 
         if deadline is None: deadline = self.MAXDEADLINE
         if minReturn is None: minReturn = 1
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         if tradeActions is None: tradeActions = []
         tradeActions = [self.int2strd(d) for d in tradeActions]
@@ -429,7 +429,7 @@ class CarbonSDK0(SDKBase):
         :sync:              whether to call sync or async
         :returns:           unsigned transaction that can be used to create the strategy
         """
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         r = self.call(n("createBuySellStrategy"), params={
                 "baseToken": str(baseToken), 
@@ -505,7 +505,7 @@ class CarbonSDK0(SDKBase):
         :returns:               ??? TODO
         """
         assert isinstance(update, self.StrategyUpdate), "update must be of type StrategyUpdate"     
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         return self.call(n("updateStrategy"), params={
                 "strategyId": str(strategyId), 
@@ -526,7 +526,7 @@ class CarbonSDK0(SDKBase):
         :overrides:         overrides to apply to the transaction
         :returns:           ??? TODO
         """
-        if overrides is None: overrides = dict()
+        overrides = dict() if overrides is None else dict(overrides)
         if not overrides.get("gasLimit"): overrides["gasLimit"] = 999999999
         r = self.call(n("deleteStrategy"), params={
                 "strategyId": str(strategyId), 
-- 
2.43.0


From 8aa166c9e35b801e6693a35f9f48659bd2eedba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 064/120] fix: signsubmittx sends the sign parameter under its
 name

---
 carbon/sdk/carbonsdk0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 2a6ea6b..5ca4165 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -575,7 +575,7 @@ class CarbonSDK0(SDKBase):
         :sign:      whether to sign the transaction (True=sign)
         :returns:   the transaction receipt
         """
-        r = self.req(n("signsubmittx"), params={"tx": tx, sign: bool(sign)})
+        r = self.req(n("signsubmittx"), params={"tx": tx, "sign": bool(sign)})
         return self._checkresult(r)
     
     ########################################
-- 
2.43.0


From ad8022ba3b048af7d95a0b2ac8f13000bc4c5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 065/120] fix: calls that are synchronous by default return the
 response of the synchronous endpoint

---
 carbon/sdk/sdkbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index 6818cf3..7158fda 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -139,6 +139,7 @@ class SDKBase:
         :sync:      whether to call sync or async
         """
         #print("\n\n[call]", ep, params, method, sync)
+        if sync is None: sync = self.syncdefault
         url = self.join(self.callapi0(sync), ep)
         if sync: 
             #print("\n\n[call] calling req", ep, params, method, sync)
-- 
2.43.0


From 3521942972b3a74cfd66dc697d4717b8611ed696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 066/120] fix: the SDK uses the URL that was given to its
 constructor

---
 carbon/sdk/sdkbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index 7158fda..a972c46 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -99,7 +99,7 @@ class SDKBase:
         if method == self.GET and params:
             raise self.CarbonSDKValueError("Must not provide params for GET request", params, method)
 
-        url = self.join(self.URL, path)
+        url = self.join(self.url, path)
         if self.verbose:
             print(f"[req0] method={method}, url={url}, params={params}")
         if method == self.GET:
-- 
2.43.0


From ef1756eaf4ae5881ec5ae1b8c20c02149d66f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 067/120] fix: pairs looks up tokens in the tokens of the SDK
 object, and lists unknown ones by address

---
 carbon/sdk/carbonsdk0.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 5ca4165..9078741 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -150,12 +150,12 @@ class CarbonSDK0(SDKBase):
         T = self.Tokens
         r = self.call(n("pairs"), params={}, sync=True)
         pairs_raw = self._checkresult(r)
-        if Tokens is None:
+        if T is None:
             return pairs_raw
-        pairs = [ [Tokens(p[0]), Tokens(p[1])] for p in pairs_raw]
+        pairs = [ [T(p[0]), T(p[1])] for p in pairs_raw]
         if not inclstr:
             return pairs
-        pairs_s = ", ".join([f"{p[0].T}/{p[1].T}" for p in pairs])
+        pairs_s = ", ".join(["/".join(t if isinstance(t, str) else t.T for t in p) for p in pairs])
         return pairs, pairs_s
         
     def hasLiquidityByPair(self, sourceTokenAddr=None, targetTokenAddr=None, pairs=None):
-- 
2.43.0


From 0e7e4fa34375c4c41817860b161be30c79c9e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 068/120] fix: updateStrategy sends the marginal prices it is
 given

---
 carbon/sdk/carbonsdk0.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 9078741..26c6591 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -500,6 +500,8 @@ class CarbonSDK0(SDKBase):
         :baseToken:             base token (as address)
         :quoteToken:            quote token (as address)
         :update:                update to apply to the strategy (as StrategyUpdate object)
+        :buyMarginalPrice:      buy marginal price (overrides that of the update object)
+        :sellMarginalPrice:     sell marginal price (overrides that of the update object)
         :overrides:             overrides to apply to the transaction
         :sync:                  whether to call sync or async
         :returns:               ??? TODO
@@ -513,8 +515,8 @@ class CarbonSDK0(SDKBase):
                 "baseToken": str(baseToken), 
                 "quoteToken": str(quoteToken), 
                 "update": update.asdict(omitMarginalPrices=True), 
-                "buyMarginalPrice": update.buyMarginalPriceStr,
-                "sellMarginalPrice": update.sellMarginalPriceStr, 
+                "buyMarginalPrice": update.buyMarginalPriceStr if buyMarginalPrice is None else str(buyMarginalPrice),
+                "sellMarginalPrice": update.sellMarginalPriceStr if sellMarginalPrice is None else str(sellMarginalPrice), 
                 "overrides": overrides
             }, sync=sync)
     
-- 
2.43.0


From 5cb103785c121de12c45a96e58256a7b85d58d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 069/120] fix: an answer that is not json is reported as such

---
 carbon/sdk/carbonsdk0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 26c6591..a45fff1 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -593,7 +593,7 @@ class CarbonSDK0(SDKBase):
         try:
             rj = r.json()
         except:
-            raise RuntimeError(f"ERROR: can't convert to json {r.body}")
+            raise RuntimeError(f"ERROR: can't convert to json {r.text}")
         try:
             return rj["data"]
         except:
-- 
2.43.0


From 685dcdc61d3708b384a57acede1c9f4fd8a6bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 070/120] fix: hasLiquidityByPair refuses a missing token
 instead of asking for the token None

---
 carbon/sdk/carbonsdk0.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index a45fff1..81b4c84 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -177,6 +177,8 @@ class CarbonSDK0(SDKBase):
                 "pairList": [{k: str(v) for k,v in p.items()} for p in pairs], 
             }, sync=True)
         else:
+            if sourceTokenAddr is None or targetTokenAddr is None:
+                raise ValueError("ERROR: either pairs or sourceTokenAddr and targetTokenAddr must be provided")
             r = self.call(n("hasLiquidityByPair"), params={
                     "sourceToken": str(sourceTokenAddr), 
                     "targetToken": str(targetTokenAddr)
-- 
2.43.0


From 54f7bb8d87f0e60e73ccfb88fb904f3356b5ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 071/120] fix: the range of a pair is marked as inverted if its
 prices are inverted, not if they are not

---
 carbon/sdk/carbonsdk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index ebf2d3a..94c4957 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -580,7 +580,7 @@ class CarbonSDK(CarbonSDK0):
             AMMsells  = targetTokenO.T,
             bidAsk    = "ask" if pair.has_basetoken(AMMsells) else "bid",
             pair      = pair, 
-            inverted  = pair.has_quotetoken(targetTokenO.T), 
+            inverted  = pair.has_basetoken(targetTokenO.T), 
         )
 
     def mGetRateLiquidityDepthByPair(self, rate, pair, AMMsells):
-- 
2.43.0


From 81a28aec15a751dbc98835d53bf43d5830b120f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 072/120] fix: the json of an encoded strategy is made without
 changing the strategy

---
 carbon/sdk/carbonsdk.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 94c4957..43eaa3b 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -401,12 +401,11 @@ class EncodedStrategy():
     @property
     def raw_json(self):
         """returns the raw field as a json string"""
-        raw = self.raw
+        raw = dict(self.raw)
         raw["id"] = str(raw["id"])
         for dk in ["order0", "order1"]:
-            for k in raw[dk]:
-                raw[dk][k] = str(raw[dk][k])
-        return json.dumps(self.raw, indent=4)
+            raw[dk] = {k: str(v) for k, v in raw[dk].items()}
+        return json.dumps(raw, indent=4)
     
     @property
     def descr(self):
-- 
2.43.0


From bbcad0be5cabbedf77d0ebf87ffcf2201da9e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 073/120] fix: mPrepareTrade checks the tokens of the SDK
 object

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 43eaa3b..75c4937 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -733,8 +733,8 @@ class CarbonSDK(CarbonSDK0):
         sourceTokenO = T[sourceToken]
         targetTokenO = T[targetToken]
         tradeByTargetAmount = (tkn == targetToken)
-        if not Tokens.containsall({sourceToken, targetToken}):
-            raise ValueError("not all token addresses are availabe", pair, Tokens)
+        if not T.containsall({sourceToken, targetToken}):
+            raise ValueError("not all token addresses are availabe", pair, T)
         data = self.getTradeData(
             sourceToken=sourceTokenO.a, 
             targetToken=targetTokenO.a, 
-- 
2.43.0


From 49fa4d572d8fdbc4abd4e9db47ccf573775ab48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 074/120] fix: tokens without decimals convert with the default
 of 18

---
 carbon/sdk/sdktoken.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index cfdd06a..9baebd1 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -50,13 +50,18 @@ class SDKToken():
         """alias for self.decimals"""
         return self.decimals
 
+    @property
+    def _decimals(self):
+        """number of decimals used for conversions (default is 18)"""
+        return 18 if self.decimals is None else self.decimals
+
     def w2t(self, wei):
         """converts wei to token"""
-        return wei / 10**self.decimals
+        return wei / 10**self._decimals
     
     def t2w(self, tokenmt):
         """converts tokenmt to wei"""
-        return int(tokenmt * 10**self.decimals)
+        return int(tokenmt * 10**self._decimals)
     
     @property
     def isnul(self):
-- 
2.43.0


From 7c23dc4258b3ea0a8a1cec905fa216ce70390bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 075/120] fix: token amounts convert to wei exactly (0.29 of a
 token with 2 decimals is 29 wei, not 28)

---
 carbon/sdk/sdktoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index 9baebd1..3cccc90 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -5,6 +5,7 @@ __VERSION__ = "1.0"
 __DATE__ = "8/Mar/2023"
 
 from dataclasses import dataclass
+from fractions import Fraction
 
 @dataclass
 class SDKToken():
@@ -61,7 +62,7 @@ class SDKToken():
     
     def t2w(self, tokenmt):
         """converts tokenmt to wei"""
-        return int(tokenmt * 10**self._decimals)
+        return int(Fraction(str(tokenmt)) * 10**self._decimals)
     
     @property
     def isnul(self):
-- 
2.43.0


From 0e53dd9ff50b50c971ebe000068dc16bc80f8dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 076/120] fix: TokenContainer.restore looks into the container

---
 carbon/sdk/sdktoken.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index 3cccc90..3f72553 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -106,16 +106,15 @@ class TokenContainer():
         """creates a TokenContainer from a csv string"""
         return cls.fromlist([t.split(",") for t in csv.strip().splitlines()], raiseonerror)
     
-    @classmethod
-    def restore(cls, ticker_or_addr_or_tkn, raiseonerror=None):
+    def restore(self, ticker_or_addr_or_tkn, raiseonerror=None):
         """converts a ticker or address to an SDKToken from the TokenContainer (SDKToken not touched)"""
         if isinstance(ticker_or_addr_or_tkn, SDKToken):
             return ticker_or_addr_or_tkn
         try:
-            tkn = cls.byaddr(ticker_or_addr_or_tkn, raiseonerror=True)
+            tkn = self.byaddr(ticker_or_addr_or_tkn, raiseonerror=True)
         except:
             try:
-                tkn = cls.byticker(ticker_or_addr_or_tkn, raiseonerror=True)
+                tkn = self.byticker(ticker_or_addr_or_tkn, raiseonerror=True)
             except:
                 if raiseonerror:
                     raise ValueError(f"ticker or address {ticker_or_addr_or_tkn} not found in container")
-- 
2.43.0


From ac2667e1ee3fe814b8ac8910ea8283c71de1eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 077/120] fix: tokens and token containers are hashable (the
 hash was defined on the wrong class)

---
 carbon/sdk/sdktoken.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index 3f72553..edaf55e 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -75,6 +75,9 @@ class SDKToken():
     def __iter__(self):
         return iter((self.token, self.address, self.decimals, self.name))
 
+    def __hash__(self):
+        return int(self.address, 16)
+
 NULTKN = SDKToken("NULTKN", "0x0000000000000000000000000000000000000000") 
 
 class TokenContainer():
@@ -197,9 +200,6 @@ class TokenContainer():
     def __repr__(self):
         return f"{self.__class__.__name__}({self._all})"
     
-    def __hash__(self):
-        return int(self.address, 16)
-    
     def __str__(self):
         return str(tuple(self._byticker.keys()))
     
-- 
2.43.0


From 3910f8600c6035024ef2f0ebfc47cdc9274141e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 078/120] fix: containsall accepts lists

---
 carbon/sdk/sdktoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index edaf55e..08f648f 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -178,7 +178,7 @@ class TokenContainer():
     
     def containsall(self, tokenListorSet):
         """checks if all tokens in the list are in the container"""
-        return tokenListorSet.issubset(self._tickers)
+        return set(tokenListorSet).issubset(self._tickers)
 
     @property
     def _all(self):
-- 
2.43.0


From aeef76aab10afcd4c817fa817e9fb991332ebbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 079/120] fix: every ambiguous ticker or address in a token
 container is found

---
 carbon/sdk/sdktoken.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index 08f648f..728a32e 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -93,11 +93,13 @@ class TokenContainer():
     def __init__(self, tokens, raiseonerror=None):
         if raiseonerror is None: raiseonerror = True
         self.raiseonerror = raiseonerror
+        tokens = tuple(tokens)
         self._byticker = {t.token: t for t in tokens}
         self._byaddr   = {t.address: t for t in tokens}
         self._tickers  = set(self._byticker.keys())
-        if not len(self._tickers) == len(self._byaddr):
-            raise ValueError(f"{len(self._tickers) - len(self._byaddr)} duplicate token tickers found", self._tickers, self._byaddr)
+        ntokens = len({(t.token, t.address) for t in tokens})
+        if not len(self._tickers) == len(self._byaddr) == ntokens:
+            raise ValueError(f"{2*ntokens - len(self._tickers) - len(self._byaddr)} duplicate token tickers or addresses found", self._tickers, self._byaddr)
 
     @classmethod
     def fromlist(cls, tokens, raiseonerror=None):
-- 
2.43.0


From e9e8922755827d8548bdd74a4ac8e283972d844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 080/120] fix: roundsd rounds negative numbers as well

---
 carbon/sdk/sdkbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index a972c46..9206582 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -190,7 +190,7 @@ class SDKBase:
         :nsd:    number of significant decimals
         """
         try:
-            magnitude = floor(log10(x))
+            magnitude = floor(log10(abs(x)))
         except:
             return x
         if magnitude <= nsd:
-- 
2.43.0


From 81bde20edf51dd3b3d043485370a5dfa786794aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 081/120] fix: from_SDK recognises the tokens of a strategy by
 their addresses, whatever their case

---
 carbon/carbon_order_ui.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index b311b75..b5c8691 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -298,20 +298,20 @@ class CarbonOrderUI:
         s = {k:cls.roundsd(float(sdkStrategy[k]), nsd) 
             for k in ['buyPriceLow', 'buyPriceHigh', 'buyBudget', 'sellPriceLow', 'sellPriceHigh', 'sellBudget']}
         sid = cls.bn2int(sdkStrategy["id"])
-        if not {sdkStrategy["baseToken"], sdkStrategy["quoteToken"]} == {sdkStrategy["encoded"]["token0"], sdkStrategy["encoded"]["token1"]}:
+        tknba, tknqa = (sdkStrategy[k].lower() for k in ("baseToken", "quoteToken"))
+        tkn0a, tkn1a = (sdkStrategy["encoded"][k].lower() for k in ("token0", "token1"))
+        if not {tknba, tknqa} == {tkn0a, tkn1a}:
             raise ValueError("tokens do not match encoded tokens", sdkStrategy)
-        if sdkStrategy["baseToken"] == sdkStrategy["encoded"]["token0"]:
+        if tknba == tkn0a:
             tknbe = sdkStrategy["encoded"]["order0"]
             tknqe = sdkStrategy["encoded"]["order1"]
         else:
             tknbe = sdkStrategy["encoded"]["order1"]
             tknqe = sdkStrategy["encoded"]["order0"]
-        tknqa = sdkStrategy["quoteToken"]
-        tknqo = Tokens.byticker(tknqa, raiseonerror=False, returnnultkn=False)
+        tknqo = Tokens.restore(tknqa, raiseonerror=False)
         tknq = tknqo.T if not tknqo is None else "TKNQ"
         tknql = cls.bn2int(tknqe["y"]) / cls.bn2int(tknqe["z"])
-        tknba = sdkStrategy["baseToken"]
-        tknbo = Tokens.byticker(tknba, raiseonerror=False, returnnultkn=False)
+        tknbo = Tokens.restore(tknba, raiseonerror=False)
         tknb = tknbo.T if not tknbo is None else "TKNB"
         tknbl = cls.bn2int(tknbe["y"]) / cls.bn2int(tknbe["z"])
         
-- 
2.43.0


From c22d1d88849a714cb339300b1281ca96134637ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 082/120] fix: from_SDK converts strategies one order of which
 is empty and has no capacity

---
 carbon/carbon_order_ui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index b5c8691..2fe3fd8 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -310,10 +310,10 @@ class CarbonOrderUI:
             tknqe = sdkStrategy["encoded"]["order0"]
         tknqo = Tokens.restore(tknqa, raiseonerror=False)
         tknq = tknqo.T if not tknqo is None else "TKNQ"
-        tknql = cls.bn2int(tknqe["y"]) / cls.bn2int(tknqe["z"])
+        tknql = cls.bn2int(tknqe["y"]) / (cls.bn2int(tknqe["z"]) or 1)
         tknbo = Tokens.restore(tknba, raiseonerror=False)
         tknb = tknbo.T if not tknbo is None else "TKNB"
-        tknbl = cls.bn2int(tknbe["y"]) / cls.bn2int(tknbe["z"])
+        tknbl = cls.bn2int(tknbe["y"]) / (cls.bn2int(tknbe["z"]) or 1)
         
         pair = CarbonPair(tknq=tknq, tknb=tknb)
         # the tkn in the constructor is the one that is being sold
-- 
2.43.0


From 420efbfb25a42f41af045f68cdf491ce4f8a9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 083/120] fix: interpolation keeps points that are closer to
 each other than the resampling period

---
 carbon/helpers/pathinterpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/pathinterpolation.py b/carbon/helpers/pathinterpolation.py
index f884c84..2a8580c 100644
--- a/carbon/helpers/pathinterpolation.py
+++ b/carbon/helpers/pathinterpolation.py
@@ -87,7 +87,7 @@ class PathInterpolation():
         path_td_yrs = path_td/_pd.Timedelta(days=1)/365.25
         if period > path_td:
             print("[interpolate_segment] sample period too large; returning original")
-            return path_segment.iloc[:1]
+            return path_segment
         numsegments = int(round(path_td/period,0))
         period_act = path_td/numsegments
         sample_path_np = cls.gaussian_bridge(path_segment[0], path_segment[1], sig*_sqrt(path_td_yrs), numsegments)
-- 
2.43.0


From af972554f0b0166240828a8ec715d97c3df74b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 084/120] fix: pathdf uses the column name given to the path
 generator

---
 carbon/helpers/pathgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/pathgenerator.py b/carbon/helpers/pathgenerator.py
index 5575ec6..d60606b 100644
--- a/carbon/helpers/pathgenerator.py
+++ b/carbon/helpers/pathgenerator.py
@@ -125,7 +125,7 @@ class PathGenerator():
         """
         
         if numpaths is None: numpaths = self.DEFAULTS["numpaths"]
-        if colname is None: colname = self.DEFAULTS["colname"]
+        if colname is None: colname = self.colname
         
         paths = [self.path() for _ in range(numpaths)]
         #df0 = pd.DataFrame(data=self.vec2ar([self.times, self.datetimes]), columns=["time", "datetime"])
-- 
2.43.0


From be12677b3e5ed85b95dd103a6093ef3f497af70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 085/120] fix: the columns of pathdf show the parameters (a
 volatility of 0.29 is p029, not p028)

---
 carbon/helpers/pathgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/helpers/pathgenerator.py b/carbon/helpers/pathgenerator.py
index d60606b..453dad8 100644
--- a/carbon/helpers/pathgenerator.py
+++ b/carbon/helpers/pathgenerator.py
@@ -132,8 +132,8 @@ class PathGenerator():
         df0 = pd.DataFrame(data=self.vec2ar([self.datetimes]), columns=["datetime"])
         cols = [
             colname.format(
-                sig100 = int(self.sig*100),
-                mu100  = int(self.mu*100),   
+                sig100 = int(round(self.sig*100, 6)),
+                mu100  = int(round(self.mu*100, 6)),   
                 ix     = ix
                 ) 
             for ix in range(len(paths))
-- 
2.43.0


From ac2632e66127c2ae753837431cf1ac3cc5d5c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 086/120] fix: filter_isnan returns values that are not nan

---
 carbon/helpers/strategym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index b966ce4..137a7c7 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -481,4 +481,5 @@ class strategy():
             if _isnan(val):
                 return ""
         except TypeError:
-            return val
\ No newline at end of file
+            pass
+        return val
\ No newline at end of file
-- 
2.43.0


From 0af9d33d59abdd630bca067ca6600261f494d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 087/120] fix: drr finds dr and pandas

---
 carbon/helpers/strategym.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 137a7c7..4bdcfe8 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -9,6 +9,7 @@ from dataclasses import dataclass as _dataclass
 from math import sqrt as _sqrt
 from copy import copy as _copy
 from math import isnan as _isnan
+import pandas as _pd
 
 @_dataclass
 class strategy():
@@ -458,14 +459,14 @@ class strategy():
         r0k = tuple(rr)[0]
         r0 = rr[r0k]
         if not asdf:
-            result = {k:dr(r, r0, purge) for k,r in rr.items()}
+            result = {k:strategy.dr(r, r0, purge) for k,r in rr.items()}
             if not baseline:
                 return result
             result[r0k] = {k:v for k,v in r0.items() if not k in ["id0", "comment"]}
             return result
         else:
-            result = {k:dr(r, r0, purge=False) for k,r in rr.items()}
-            df = pd.DataFrame.from_records(result).T.fillna("")
+            result = {k:strategy.dr(r, r0, purge=False) for k,r in rr.items()}
+            df = _pd.DataFrame.from_records(result).T.fillna("")
             del df["id0"]
             if not comment: 
                 del df["comment"]
-- 
2.43.0


From 31f353b6788c37fd9b40be9da9ab86771c787391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 088/120] fix: strategies have the documented alias properties
 for their prices

---
 carbon/helpers/strategym.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 4bdcfe8..f4f05af 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -376,6 +376,26 @@ class strategy():
             rescale = False,
         )
 
+    @property
+    def p_ask_a(self):
+        """alias for p_sell_a"""
+        return self.p_sell_a
+
+    @property
+    def p_ask_b(self):
+        """alias for p_sell_b"""
+        return self.p_sell_b
+
+    @property
+    def p_bid_a(self):
+        """alias for p_buy_a"""
+        return self.p_buy_a
+
+    @property
+    def p_bid_b(self):
+        """alias for p_buy_b"""
+        return self.p_buy_b
+
     @property
     def descr(s):
         """returns a description of the strategy"""
-- 
2.43.0


From 53fd94b5511c28394dd1b5f479aba2c3fba2aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 089/120] fix: effective_price finds the default pair of the
 simulator

---
 carbon/simulators/sim_analytics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 37744c9..cbc10b9 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -175,7 +175,7 @@ class Analytics:
         if pair is None: 
             if sim is None:
                 raise ValueError("If pair is None then sim must be provided in arguments or class defaults")
-            pair = sim.pair 
+            pair = sim.slashpair
         if bidask == self.BID_BOOK: 
             price_f = sim.amm_buys
             fail_value = self.MAXPRICE
-- 
2.43.0


From d95f94a5dc5e41272f408d6df179ba69c77cde16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 090/120] fix: effective_price accepts the documented constants
 BID and ASK

---
 carbon/simulators/sim_analytics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index cbc10b9..88e8d34 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -176,10 +176,10 @@ class Analytics:
             if sim is None:
                 raise ValueError("If pair is None then sim must be provided in arguments or class defaults")
             pair = sim.slashpair
-        if bidask == self.BID_BOOK: 
+        if bidask in (self.BID_BOOK, self.BID): 
             price_f = sim.amm_buys
             fail_value = self.MAXPRICE
-        elif bidask == self.ASK_BOOK: 
+        elif bidask in (self.ASK_BOOK, self.ASK): 
             price_f = sim.amm_sells
             fail_value = 0.
         else:
-- 
2.43.0


From 7ed3a1b3de1dbaa7ca441a349a8fc5d80228e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 091/120] fix: simulate_trades trades against the simulator it
 is given

---
 carbon/simulators/sim_analytics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 88e8d34..e5b4787 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -211,9 +211,8 @@ class Analytics:
         """
         if sim is None: sim = self.sim
         if carbon_pair is None:
-            if self.sim is None:
+            if sim is None:
                 raise ValueError("The `sim` object must be provided and have a default carbon pair if `carbon_pair` is not given.")
-            sim = self.sim
             if sim.carbon_pair is None:
                 raise ValueError("The `sim` object must have a default carbon pair if `carbon_pair` is not given.")
             carbon_pair = sim.carbon_pair
-- 
2.43.0


From e188ab4f453bbb0ecd76e117fefd536701e9ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 092/120] fix: truncate removes missing values from the end
 only, so that sizes and amounts stay together

---
 carbon/simulators/sim_analytics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index e5b4787..bf81b1f 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -139,7 +139,10 @@ class Analytics:
         :s2:                truncated of NaN / None at the end
         :returns:           truncated (s1, s2)
         """
-        s2r = cls.vec(x for x in s2 if not cls.isnonenan(x))
+        s2r = list(s2)
+        while s2r and cls.isnonenan(s2r[-1]):
+            s2r.pop()
+        s2r = cls.vec(s2r[:len(s1)])
         s1r = s1[:len(s2r)]
         return s1r, s2r
 
-- 
2.43.0


From bf873e598adbff417ed1df806ffe8d31f366dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 093/120] fix: the first call of set_default sets the defaults
 as well

---
 carbon/tools/params.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 330e392..6b22277 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -97,9 +97,8 @@ class Params():
         """
         if self._defaults is None:
             self._defaults = dict()
-        else:
-            for k, v in kwargs.items():
-                self._defaults[k] = v
+        for k, v in kwargs.items():
+            self._defaults[k] = v
         return self
     
     @property
-- 
2.43.0


From acc7a4355f2b0e41cf09e7b68ddc2dbbd017c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 094/120] fix: a replicated Params object has the defaults of
 the original

---
 carbon/tools/params.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 6b22277..3c2865b 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -59,8 +59,10 @@ class Params():
             result = cls()
         elif isinstance(dct, cls):
             result = cls(**dct._params)
-            if not dct._defaults is None and not defaults is None:
+            if dct._defaults and not defaults is None:
                 raise ValueError("Must not provide default in both constructor and dct", dct, defaults)
+            if dct._defaults:
+                result._defaults = {**dct._defaults}
         else:
             result = cls(**dct)
 
-- 
2.43.0


From 2b8e837f453f977713f0e5373f423a78819d5c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 095/120] fix: shared variables can be rounded to integers

---
 carbon/helpers/sharedvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/sharedvar.py b/carbon/helpers/sharedvar.py
index 5d13848..d01b77b 100644
--- a/carbon/helpers/sharedvar.py
+++ b/carbon/helpers/sharedvar.py
@@ -85,7 +85,7 @@ class SharedVar:
     def __abs__(self):
         return self._wrap(abs(self._value))
 
-    def __round__(self, n):
+    def __round__(self, n=None):
         return self._wrap(round(self._value,n))
 
     def __floor__(self):
-- 
2.43.0


From 51595c1dcf03e02ed938b7731d17af62b9164ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 096/120] fix: a shared variable that holds zero is false, like
 zero

---
 carbon/helpers/sharedvar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carbon/helpers/sharedvar.py b/carbon/helpers/sharedvar.py
index d01b77b..c4ebd2c 100644
--- a/carbon/helpers/sharedvar.py
+++ b/carbon/helpers/sharedvar.py
@@ -71,6 +71,9 @@ class SharedVar:
     def __gt__(self, other):
         return self._value > other
 
+    def __bool__(self):
+        return bool(self._value)
+
     # unitary operations (return values, not the object)
     def _wrap(self, val):
         """result wrapper"""
-- 
2.43.0


From 017aa9bc74909fec88481b5305c46a2a84c1cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 097/120] fix: operations between two shared variables result
 in one that holds a number

---
 carbon/helpers/sharedvar.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/carbon/helpers/sharedvar.py b/carbon/helpers/sharedvar.py
index c4ebd2c..1e5d26f 100644
--- a/carbon/helpers/sharedvar.py
+++ b/carbon/helpers/sharedvar.py
@@ -43,6 +43,15 @@ class SharedVar:
         """the object value"""
         return self._value
 
+    @property
+    def _value(self):
+        return self.__value
+
+    @_value.setter
+    def _value(self, newval):
+        # results of operations with another shared variable hold numbers, not shared variables
+        self.__value = newval._value if isinstance(newval, SharedVar) else newval
+
     def setval(self, newval):
         """sets the object value to `newval`"""
         self._value = newval
-- 
2.43.0


From a301576006887f94946dd3ea0cc98b2d318f454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 098/120] fix: a version requirement of 1.3.0 is met by version
 1.3

---
 carbon/helpers/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/version.py b/carbon/helpers/version.py
index 01e0583..c572732 100644
--- a/carbon/helpers/version.py
+++ b/carbon/helpers/version.py
@@ -51,5 +51,5 @@ def _require_version(rl, al):
             return False
         elif r < a:
             return True
-    return len(al) >= len(rl)
+    return not any(rl[len(al):])
     
\ No newline at end of file
-- 
2.43.0


From 54909dbbe159f1931c3face3dcef8ad01a683fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 099/120] fix: require_version returns True if the requirements
 are met

---
 carbon/helpers/version.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/helpers/version.py b/carbon/helpers/version.py
index c572732..fcad1bc 100644
--- a/carbon/helpers/version.py
+++ b/carbon/helpers/version.py
@@ -36,6 +36,7 @@ def require_version(required, actual=None, raiseonfail=True):
         return result
     if not result:
         raise VersionRequirementNotMetError(f"Version requirements not met (required = {rl}, actual = {al})", required, actual)
+    return result
 
 def _require_version(rl, al):
     """
-- 
2.43.0


From e5408479c015c4c50a00827504ebbf411f819957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 100/120] fix: binary data can be saved compressed

---
 carbon/helpers/fls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/fls.py b/carbon/helpers/fls.py
index 9ded010..be10c87 100644
--- a/carbon/helpers/fls.py
+++ b/carbon/helpers/fls.py
@@ -62,7 +62,7 @@ def fsave(data, fn, path=None, binary=False, json=False, yaml=False, wrapper=Non
         data = wrapper.format(data)
     
     if compressed:
-        data = _gzip.compress(data.encode())
+        data = _gzip.compress(data.encode() if isinstance(data, str) else data)
 
     with open (ffn, ftype) as f:
         f.write(data)
-- 
2.43.0


From 6bcc6f96a74e614e894ef8dc79367745efdb51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 101/120] fix: iseq compares all its arguments

---
 carbon/helpers/stdimports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/helpers/stdimports.py b/carbon/helpers/stdimports.py
index 1eb8768..758e826 100644
--- a/carbon/helpers/stdimports.py
+++ b/carbon/helpers/stdimports.py
@@ -38,11 +38,11 @@ def iseq(arg0, *args, eps=1e-6):
             for arg in args:
                 if abs(arg) > eps: 
                     return False
-                return True
+            return True
         for arg in args:
             if abs(arg/arg0-1) > eps:
                 return False
-            return True
+        return True
     else:
         for arg in args:
             if not arg == arg0:
-- 
2.43.0


From 316a1d84b5d1f283fcd638cd92149a066fa5aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 102/120] fix: plus-minus sliders accept a negative initial
 value

---
 carbon/helpers/widgets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/widgets.py b/carbon/helpers/widgets.py
index 93612c6..4993537 100644
--- a/carbon/helpers/widgets.py
+++ b/carbon/helpers/widgets.py
@@ -154,7 +154,7 @@ class PcSliderManager():
             values = (0.,)*len(self.choice_ids)
         else:
             try:
-                if values >= 0 and values <= 1:
+                if values <= 1 and (values >= 0 or pm is True and values >= -1):
                     values = (float(values),)*len(self.choice_ids)
                 else:
                     raise ValueError("Value must be between 0..1", values)
-- 
2.43.0


From bd5b94e7c23ac10879476e0485ad987125e65d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 103/120] fix: the cached queries pass on whether to read and
 update on a cache miss

---
 carbon/helpers/cryptocompare.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 51467b2..34acc99 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -176,7 +176,9 @@ class CryptoCompare():
         """cached access to query_allexchanges"""
         return self._cache_xxx(
             item="query_allexchanges", 
-            updatemethod=self.query_allexchanges
+            updatemethod=self.query_allexchanges,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
     
     def query_ratelimit(self):
@@ -207,7 +209,9 @@ class CryptoCompare():
         """cached access to query_coinlist"""
         return self._cache_xxx(
             item="query_coinlist", 
-            updatemethod=self.query_coinlist
+            updatemethod=self.query_coinlist,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
         
     def query_indexlist(self):
@@ -226,7 +230,9 @@ class CryptoCompare():
         """cached access to query_indexlist"""
         return self._cache_xxx(
             item="query_indexlist", 
-            updatemethod=self.query_indexlist
+            updatemethod=self.query_indexlist,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
     
     @staticmethod
-- 
2.43.0


From d5131ac636d8b02d17b8e427c5a75e4428fdb405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 104/120] fix: a cache miss leads to a query even if errors are
 not raised

---
 carbon/helpers/cryptocompare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 34acc99..6f28e34 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -156,7 +156,8 @@ class CryptoCompare():
         if updateonfail:
             readonfail = True
         try:
-            return self.cache(item)
+            with open(self.datafn(f"{item}.pickle"), "rb") as f:
+                return _pickle.load(f)
         except:
             print(f"[_cache_xxx] cache miss for item {item}")
             if readonfail:
-- 
2.43.0


From f52155f857e2b7bc06a49c0817f4128bb85b790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 105/120] fix: a failed query raises the documented exception

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 6f28e34..863c71c 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -125,7 +125,7 @@ class CryptoCompare():
         
         if not r:
             if self.raiseonerror:
-                raise RuntimeError(f"API query not successfull (status={r.status})", r)
+                raise RuntimeError(f"API query not successfull (status={r.status_code})", r)
             else:
                 return None
         return r
-- 
2.43.0


From 37cae4cfc099fb067d47bda95d5f695d7cf06832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 106/120] fix: query_freqlypair returns the data with
 aspandas=False

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 863c71c..4b3e52f 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -294,7 +294,7 @@ class CryptoCompare():
             else:
                 return None
         if not aspandas:
-            return r_json().get("Data")
+            return r_json.get("Data")
         try:   
             # print("[query_freqlypair]", endpoint, params, r)
             # print("[query_freqlypair] r", r_json())
-- 
2.43.0


From 232d96e651631dfbe933b68aba39d90c46e34f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 107/120] fix: aggr_query passes its other arguments on to the
 query

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 4b3e52f..03e2466 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -439,7 +439,7 @@ class CryptoCompare():
             
         print("[aggr_query] Querying for raw table", len(pairs))
         raw_tables = {
-            (fsym, tsym): self.query_freqlypair(freq, fsym=fsym, tsym=tsym)
+            (fsym, tsym): self.query_freqlypair(freq, fsym=fsym, tsym=tsym, **kwargs)
             for fsym, tsym in pairs
         }
         df_raw = _pd.concat(raw_tables, axis=1)
-- 
2.43.0


From 2cdc2b233e2b914d627ab0ff69644aca991359a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 108/120] fix: query_freqlypair accepts time stamps as strings

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 03e2466..bc3d5ba 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -283,7 +283,7 @@ class CryptoCompare():
                 "tsym":     tsym if not tsym is None else self.DEFAULT_TSYM,
                 "e":        e,
                 "limit":    limit if not limit is False else self.DEFAULT_LIMIT,
-                "toTs":     toTs,
+                "toTs":     self.ts_tocc(toTs) if isinstance(toTs, str) and not toTs.isdigit() else toTs,
         }
         r = self.query(endpoint=endpoint, params=params)
         if r is None: return r
-- 
2.43.0


From fef55790b769a06f4161a7589ca54ccf8ff2dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 109/120] fix: the data path can be given to the constructor as
 documented

---
 carbon/helpers/cryptocompare.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index bc3d5ba..190d0b3 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -35,10 +35,12 @@ class CryptoCompare():
     DEFAULT_TSYM = "usd"
     DEFAULT_LIMIT = 2000
     
-    def __init__(self, apikeyname=None, apikey=None, raiseonerror=None):
+    def __init__(self, apikeyname=None, apikey=None, raiseonerror=None, datapath=None):
         if raiseonerror is None:
             raiseonerror = self.RAISEONERROR
         self.raiseonerror = raiseonerror  
+        if not datapath is None:
+            self.DATAPATH = datapath
         if not (isinstance(apikey, str) or apikey is None or apikey is True):
             raise ValueError("apikey must be a string, None, or True", apikey)  
         if apikey is None:
-- 
2.43.0


From e4c554d058cc960347580f1add2bded91a0ec135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 110/120] fix: the result of a failed query is not written to
 the cache

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 190d0b3..694c7f5 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -165,7 +165,7 @@ class CryptoCompare():
             if readonfail:
                 print(f"[_cache_xxx] reading {item} from API")
                 data = updatemethod()
-                if updateonfail:
+                if updateonfail and not data is None:
                     print(f"[_cache_xxx] updating cache for {item} from API")
                     self.write_cache(item, data)
                 return data
-- 
2.43.0


From 48548d1a2971e36e4c4987a61dcdbeff633cdc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 111/120] fix: the alpha router's order selector compares sums
 taken in the same order

---
 carbon/routers/alpha_router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index 100cd1a..ba403d6 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -24,7 +24,8 @@ class AlphaRouter(BaseRouter):
 
     # returns the sum of the values in an enumerated list
     def sum_me(lst):
-        return(sum([c for i,c in lst]))
+        # in a fixed order: sums that differ in the last digit would not compare as equal
+        return(sum(sorted([c for i,c in lst], reverse=True)))
 
     # returns the first single min value in an enumerated list
     def min_item(lst):
-- 
2.43.0


From 37aa1eef0b819c585c148d7773a97ec5707113da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 112/120] fix: CarbonOrderUI.roundsd rounds negative numbers as
 well

---
 carbon/carbon_order_ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 2fe3fd8..896e30c 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -1234,7 +1234,7 @@ class CarbonOrderUI:
         """
         if nsd is None: return x
         try:
-            magnitude = floor(log10(x))
+            magnitude = floor(log10(abs(x)))
         except:
             return x
         if magnitude <= nsd:
-- 
2.43.0


From ed59dd73fd2074d1f75ae4ebfcac896f68d199f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:20 +0000
Subject: [PATCH 113/120] fix: curves added to a container get its token scale

---
 carbon/tools/cpc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 1a67fbd..fc0eb83 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -979,6 +979,7 @@ class CPCContainer():
         else:
             pass
             #print("[add] item.cid =", item.cid)
+        item.set_tokenscale(self.tokenscale)
         self.curves_by_cid[item.cid] = item
         self.curveix_by_curve[item] = len(self)
         self.curves += [item]
-- 
2.43.0


From 4ee8516cfb59ba09f2a50f02b54f5e92375d00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 114/120] fix: trades only use orders of their own pair
 (ETH/XETH and ETHX/ETH have the same iso name)

---
 carbon/simulators/carbon_simulator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index de1e44b..7fd9ce6 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -673,7 +673,6 @@ class CarbonSimulatorUI:
             
         try:
             decimals = self.decimals
-            carbon_pair_r = carbon_pair.reverse
 
             if not inpair:
                 raise NotImplementedError(
@@ -684,8 +683,8 @@ class CarbonSimulatorUI:
             order_ids = [
                 k
                 for k in self.orders.keys()
-                if self.orders[k].pair_name
-                   in [carbon_pair.pair_iso, carbon_pair_r.pair_iso]
+                if {self.orders[k].pair.tknb, self.orders[k].pair.tknq}
+                   == {carbon_pair.tknb, carbon_pair.tknq} # (iso names can coincide, eg ETH/XETH and ETHX/ETH)
                    and self.orders[k].tkn == tkn
                    and not self.orders[k].disabled
                 if self.orders[k].y > 0
-- 
2.43.0


From af3d09bf4bc22f15c46a383ff062a6ca1dfb00e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 115/120] fix: calc_liquidity_approx only uses orders of the
 pair asked for

---
 carbon/simulators/sim_analytics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index bf81b1f..70680f5 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -498,11 +498,11 @@ class OrderBook():
         
         curves_ask = [
             r for r in orderuis.values() 
-            if r.pair.pair_iso == pair_iso and r.tkn == tkn_ask
+            if (r.pair.tknb, r.pair.tknq) == (tkn_ask, tkn_bid) and r.tkn == tkn_ask
         ]
         curves_bid = [
             r for r in orderuis.values() 
-            if r.pair.pair_iso == pair_iso and r.tkn == tkn_bid
+            if (r.pair.tknb, r.pair.tknq) == (tkn_ask, tkn_bid) and r.tkn == tkn_bid
         ]
         print(f"[calc_liquidity_approx] ask:{len(curves_ask)} bid:{len(curves_bid)}")
         
-- 
2.43.0


From 4ec3eaffc545592b83537d5d9cefa908ccad6b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:13 +0000
Subject: [PATCH 116/120] fix: partial fills by the alpha router of less than
 1e-10 do not change direction

---
 carbon/routers/alpha_router.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index ba403d6..8cfcc53 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -256,10 +256,9 @@ class AlphaRouter(BaseRouter):
         # print(f'is_by_target {is_by_target}') # True
         # print(tabulate(results,headers=list(results.columns)))
         if support_partial & (results.ordered_associated_liquidity.sum() < abs(x)):
-            if x < 0:
-                x = -results.ordered_associated_liquidity.sum() + Decimal('0.0000000001')
-            else:
-                x = results.ordered_associated_liquidity.sum() - Decimal('0.0000000001')
+            available = results.ordered_associated_liquidity.sum()
+            available = max(available - Decimal('0.0000000001'), available / 2) # (must not change sign)
+            x = -available if x < 0 else available
         passed_indexes = AlphaRouter.gen_one_order_selector(results.ordered_associated_liquidity, abs(x), threshold_orders)
         top_n_threshold_orders = [results.indexes[i] for i in passed_indexes]
 
@@ -385,10 +384,9 @@ class AlphaRouter(BaseRouter):
         # print(f'is_by_target {is_by_target}') #False
         # print(tabulate(results,headers=list(results.columns)))
         if support_partial & (results.available_value.sum() < abs(x)):
-            if x < 0:
-                x = -results.available_value.sum() + Decimal('0.0000000001')
-            else:
-                x = results.available_value.sum() - Decimal('0.0000000001')
+            available = results.available_value.sum()
+            available = max(available - Decimal('0.0000000001'), available / 2) # (must not change sign)
+            x = -available if x < 0 else available
         passed_indexes = AlphaRouter.gen_one_order_selector(results.available_value, abs(x), threshold_orders)
         top_n_threshold_orders = [results.indexes[i] for i in passed_indexes]
 
-- 
2.43.0


From 5c16d63962426dd5a01bd6774d6d47b18f6814c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:42 +0000
Subject: [PATCH 117/120] fix: a transport that exceeds what remains on one of
 several edges is refused before any of them is recorded

---
 carbon/tools/arbgraphs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index db47a72..971ffe5 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1744,6 +1744,8 @@ class ArbGraph(_DCBase):
         # check all edges, and that the node has the entire amount, before recording anything on any of the edges
         for edge, amt_in in zip(edges, amounts_in):
             edge.transport(amt_in)
+            if record and raiseonerror and edge.state.amount_in_remaining - amt_in < -EPS:
+                raise ValueError(f"amount {amt_in} exceeds remaining edge capacity {edge.state.amount_in_remaining}")
         if record and raiseonerror and node_in.state.amount - amount_in < -EPS:
             raise ValueError(f"amount {amount_in} exceeds node capacity {node_in.state.amount}")
 
-- 
2.43.0


From 3f01d1c15a239379d525376e467ebf1a4a21d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:33 +0000
Subject: [PATCH 118/120] fix: state() finds a pair in slash notation, and
 reports one without orders as empty

---
 carbon/simulators/carbon_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 7fd9ce6..7e7379f 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -1152,7 +1152,7 @@ class CarbonSimulatorUI:
                     applicable_orders = [
                         order
                         for order in self.orders.values()
-                        if order.pair_name in pair
+                        if order.pair_name in pair or order.pair.slashpair in pair
                     ]
                 else:
                     applicable_orders = [order for order in self.orders.values()]
@@ -1161,7 +1161,7 @@ class CarbonSimulatorUI:
                         self._to_pandas(o, decimals=self.decimals)
                         for o in applicable_orders
                     ]
-                )
+                ) if applicable_orders else pd.DataFrame({})
                 orderuis = {o.id: CarbonOrderUI.from_order(o) for o in applicable_orders}
                 for o in applicable_orders:
                     orderuis[o.id].set_linked(orderuis[o.linked_to_id])
-- 
2.43.0


From 2b8f67c59dc9c786d87f11a01600caaa35b00db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:25 +0000
Subject: [PATCH 119/120] fix: errors the data API reports in its answer fail
 the query and are not cached

---
 carbon/helpers/cryptocompare.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 694c7f5..f2d594c 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -132,6 +132,18 @@ class CryptoCompare():
                 return None
         return r
     
+    def _data(self, r):
+        """
+        extracts the data from a query response; errors the API reports in the response body fail the query
+        """
+        if r is None: return r
+        r_json = r.json()
+        if r_json.get("Response") == "Error":
+            if self.raiseonerror:
+                raise RuntimeError("Query not successfull", r, r_json)
+            return None
+        return r_json.get("Data")
+
     def query_allexchanges(self):
         """
         endpoint = /data/v4/all/exchanges
@@ -141,8 +153,7 @@ class CryptoCompare():
         r = self.query(
             endpoint="/data/v4/all/exchanges"
         )
-        if r is None: return r
-        return r.json().get("Data")
+        return self._data(r)
 
     
     def _cache_xxx(self, item, updatemethod, readonfail=True, updateonfail=False):
@@ -193,8 +204,7 @@ class CryptoCompare():
         r = self.query(
             endpoint="/stats/rate/limit"
         )
-        if r is None: return r
-        return r.json().get("Data")
+        return self._data(r)
         
     def query_coinlist(self):
         """
@@ -205,8 +215,7 @@ class CryptoCompare():
         r = self.query(
             endpoint="/data/all/coinlist"
         )
-        if r is None: return r
-        return r.json().get("Data")
+        return self._data(r)
     
     def cache_coinlist(self, readonfail=True, updateonfail=False):
         """cached access to query_coinlist"""
@@ -226,8 +235,7 @@ class CryptoCompare():
         r = self.query(
             endpoint="/data/index/list"
         )
-        if r is None: return r
-        return r.json().get("Data")
+        return self._data(r)
     
     def cache_indexlist(self, readonfail=True, updateonfail=False):
         """cached access to query_indexlist"""
-- 
2.43.0


From d8aeaa082862c256e802b14efe10d05dcf04796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:55 +0000
Subject: [PATCH 120/120] fix: data that cannot be written to the cache leaves
 the cached item as it was

---
 carbon/helpers/cryptocompare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index f2d594c..6b6e19a 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -90,8 +90,9 @@ class CryptoCompare():
         :returns:    `item` on success, None (or raises) on failure
         """
         try:
+            pickled = _pickle.dumps(data) # before the file is opened, so that a failure leaves the item as it was
             with open(self.datafn(f"{item}.pickle"), "wb") as f:
-                _pickle.dump(data, f)
+                f.write(pickled)
         except:
             if not self.raiseonerror:
                 return None
-- 
2.43.0

