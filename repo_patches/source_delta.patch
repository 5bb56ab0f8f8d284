From 7a6fab0c31f28cf229512f128e01aa442e2c7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 01/69] fix: CarbonOrderUI range errors raised NameError
 instead of ValueError

---
 carbon/carbon_order_ui.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 4ce0add..c64fd56 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -547,7 +547,7 @@ class CarbonOrderUI:
         
         if self.yint == 0:
             if not self.y == 0 and dy == 0:
-                raise ValueError("If yint=0 you must also have y,dy=0", yint, y, dy)
+                raise ValueError("If yint=0 you must also have y,dy=0", self.yint, y, dy)
             dydx = ((self.B + self.S))**2
         else:
             dydx = ((self.B + self.S * y/self.yint))**2
@@ -583,7 +583,7 @@ class CarbonOrderUI:
 
         if self.yint == 0:
             if not y0 == 0 and dy == 0:
-                raise ValueError("If yint=0 you must also have y,dy=0", yint, y, dy)
+                raise ValueError("If yint=0 you must also have y,dy=0", self.yint, y, dy)
             dydx = ((self.B + self.S))**2
         else:
             if dy==0:
@@ -798,7 +798,7 @@ class CarbonOrderUI:
         if checkbounds:
             if y < 0:
                 if raiseonerror:
-                    raise ValueError("The value of x is out of bounds (x>xint; y<0)", x, xint, y)
+                    raise ValueError("The value of x is out of bounds (x>xint; y<0)", x, self.xint, y)
                 return None 
         return y
 
-- 
2.43.0


From 6867d34cf6762e0519169b417d331a63e3d76958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 02/69] fix: CarbonOrderUI.dyfromdx_f did not check the
 available liquidity

---
 carbon/carbon_order_ui.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index c64fd56..324d841 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -688,13 +688,15 @@ class CarbonOrderUI:
         #         -------------------------------------------------------------
         denom =   self.S*dx * (self.S*self.y + self.B*self.yint) + self.yint**2
 
+        dy = dx * (num/denom)
+
         if checkbounds:
-            if num < 0:
+            if dy - self.y > self.EPSILON * max(1, self.y):
                 if raiseonerror:
-                    raise ValueError("AMM does not have enough y liquidity to purchase dx", y, dx, num)
+                    raise ValueError("AMM does not have enough y liquidity to purchase dx", self.y, dx, dy)
                 return None
 
-        return dx * (num/denom) 
+        return dy
 
     def dxfromdy_f(self, dy, checkbounds=True, raiseonerror=False):
         """
-- 
2.43.0


From a50cb6c217d45da720f7e97c902e29dbdf9400fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 03/69] fix: CarbonOrderUI._from_SDK0 passed the capacity under
 a wrong name

---
 carbon/carbon_order_ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 324d841..b1b4ceb 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -284,7 +284,7 @@ class CarbonOrderUI:
         B = AByz['B']/scalefctr
         y = AByz['y']/decimalfctr
         z = AByz['z']/decimalfctr
-        return cls.from_BSy(pair=pair, tkn=tkn, S=S, B=B, y=y, z=z)
+        return cls.from_BSy(pair=pair, tkn=tkn, S=S, B=B, y=y, yint=z)
     
     @classmethod
     def from_SDK(cls, sdkStrategy, nsd=None):
-- 
2.43.0


From 2e915fb0f765df14de01727e625d208181dfe80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 04/69] fix: CarbonOrderUI.selly changed curves when not
 executing or when the linked curve refuses

---
 carbon/carbon_order_ui.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index b1b4ceb..b6bbea1 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -977,20 +977,27 @@ class CarbonOrderUI:
             else:
                 yintold = self.yint
                 yint = ynew
-                if execute:
-                    self.yint = ynew
                 curve_expanded = True
         else:
             curve_expanded = False
             yint = self.yint
             if ynew<0: ynew = 0  # see if ynew < -self.EPSILON
 
+        if self.linked and dy < 0:
+            # the linked curve would have to pay; must be refused before anything is changed
+            raise ValueError("Can't buy back on a curve that has a linked curve", dy)
+
+        if execute:
+            self.yint = yint
         dx = self.dxfromdy_f(dy, checkbounds=False, raiseonerror=True)
         if execute:
             self.y = ynew
 
         if self.linked:
+            linked_y, linked_yint = self.linked.y, self.linked.yint
             result_linked = self.linked.addliqy(dx)
+            if not execute:
+                self.linked.y, self.linked.yint = linked_y, linked_yint
         else:
             result_linked = None
 
-- 
2.43.0


From bcc846808a6b4d6b16d323af873b57bfa7ce8ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 05/69] fix: CarbonOrderUI.tradeto crashed on constant-price
 curves (division by zero)

---
 carbon/carbon_order_ui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index b6bbea1..f85bf81 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -622,6 +622,9 @@ class CarbonOrderUI:
                 if raiseonerror:
                     raise self.PriceOutOfBoundsErrorBeyondEnd("Price out of bounds (beyond end)", p, self.pb)
                 return 0
+        if self.S == 0:
+            # constant price curve: every point of the curve has this price
+            return self.y
         y = self.yint * (sqrt(dydx) - self.B) / self.S
         if checkbounds:
             if y > self.y:
@@ -1058,7 +1061,7 @@ class CarbonOrderUI:
                 self.PriceOutOfBoundsErrorBeyondMarg):
             dy = 0
         except self.PriceOutOfBoundsErrorBeyondEnd:
-            dy = self.dyfromp_f(self.p_end, checkbounds=False, raiseonerror=False)
+            dy = self.y
         result = self.selly(dy, execute, allowneg=False, expandcurve=False, raiseonerror=True)
         if result is None:
             raise RuntimeError(f"Unexpected None value at {p_marg}", dy, self.yint, self.y, self.p_marg, p_marg, self)
-- 
2.43.0


From 79cbbbb9b7794083813aca633ed18fb16fa86175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 06/69] fix: CarbonOrderUI.tradeto left a capacity of 1e-50 on
 an empty curve

---
 carbon/carbon_order_ui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index f85bf81..45b3aa4 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -1053,7 +1053,8 @@ class CarbonOrderUI:
         :execute:       if False, only display results, but do not update the object
         :returns:       a dict containing extensive information about the tx
         """
-        if self.yint == 0:
+        empty = self.yint == 0
+        if empty:
             self.yint = 1e-50 # selly fails on a fully empty curve, even with dy=0
         try:
             dy = self.dyfromp_f(p_marg, checkbounds=True, raiseonerror=True)
@@ -1063,6 +1064,8 @@ class CarbonOrderUI:
         except self.PriceOutOfBoundsErrorBeyondEnd:
             dy = self.y
         result = self.selly(dy, execute, allowneg=False, expandcurve=False, raiseonerror=True)
+        if empty:
+            self.yint = 0
         if result is None:
             raise RuntimeError(f"Unexpected None value at {p_marg}", dy, self.yint, self.y, self.p_marg, p_marg, self)
         result["action"] = "byprice[tradeto]"
-- 
2.43.0


From 31746db93d6ba0a5a1b0ea5e8dcb42f19b908bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 07/69] fix: CarbonPair.from_slashpair assigned the decimals
 tuple to the base token

---
 carbon/pair.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index baf1a0e..4eb8938 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -228,7 +228,8 @@ class CarbonPair:
         tknb = tokens[0].strip()
         tknq = tokens[1].strip()
         newobj = cls(f"{tknb}/{tknq}")
-        newobj.set_decimals(decimals)
+        if not decimals is None:
+            newobj.set_decimals(*decimals)
         return newobj
         
 
-- 
2.43.0


From 992f781eea4c6aad08f7cd485878bc28a2b14078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 08/69] fix: CarbonPair.limit_is_met ignored its reverse
 parameter

---
 carbon/pair.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index 4eb8938..8006cf3 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -453,7 +453,8 @@ class CarbonPair:
         if current_price == limit_price:
             return True
 
-        reverse = self.has_quotetoken(tkn)
+        if self.has_quotetoken(tkn):
+            reverse = not reverse
 
         if buysell == self.BUY:
             # the order placer BUYs at limit or better
-- 
2.43.0


From 1e8f1a64dacace8aca40a10fefe246420802528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 09/69] fix: Order priced curves with a capacity below 1 as if
 their capacity was 1

---
 carbon/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/order.py b/carbon/order.py
index 56e2882..21a070d 100644
--- a/carbon/order.py
+++ b/carbon/order.py
@@ -101,7 +101,7 @@ class Order:
     def x0(self) -> Decimal:
         n: Decimal = self.n
         p: Decimal = self.p
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int if self.y_int > 0 else Decimal("1")
         return (y_int * (1 - n)) / (p * (2 - n))
 
     @property
@@ -124,7 +124,7 @@ class Order:
 
     @property
     def y0(self) -> Decimal:
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int if self.y_int > 0 else Decimal("1")
         n: Decimal = self.n
         return (y_int * (1 - n)) / (2 - n)
 
-- 
2.43.0


From b9be3615ec3d8d4114bc06b9d63c45a14d510efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 10/69] fix: amm_buys and amm_sells dropped use_positions for
 negative amounts

---
 carbon/simulators/carbon_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index eea72fa..e0b0b84 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -966,6 +966,8 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
+                    use_positions_matchlevel=use_positions_matchlevel,
                     support_partial=support_partial,
                 )
 
@@ -1045,6 +1047,8 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
+                    use_positions_matchlevel=use_positions_matchlevel,
                     support_partial=support_partial,
                 )
 
-- 
2.43.0


From 7f52edc02e4c4fee28a92131f8a5d4d3b9cd39de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 11/69] fix: limit of a by-target trade with the fast router
 was compared with the reciprocal price

---
 carbon/simulators/carbon_simulator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index e0b0b84..c16897c 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -721,6 +721,9 @@ class CarbonSimulatorUI:
             # :input:       the asset BOUGHT by the AMM, and SOLD by the TRADER
             #               input is a POSITIVE number
             raw_price = -final_route.total_output / final_route.total_input
+            if is_by_target and isinstance(self.matcher, FastRouter):
+                # input and output are swapped for the fast router by target
+                raw_price = 1 / raw_price
             if self.debug:
                 print("[_trade] final route", final_route)
                 print(
@@ -840,7 +843,7 @@ class CarbonSimulatorUI:
                         1
                     ],  # the number of routes across which the trade was executed
                     "price": [
-                        round(float(price_avg), decimals) if not (is_by_target and isinstance(self.matcher, FastRouter)) else round(float(1 / Decimal(price_avg)), decimals)
+                        round(float(price_avg), decimals)
                     ],  # the price amt_/amt_, in the convention of the pair
                     "p_unit": [
                         f"{tknq} per {tknb}"
@@ -892,7 +895,7 @@ class CarbonSimulatorUI:
                 "routeix": [str(order_ids)],
                 "nroutes": [num_trades],
                 "price": [
-                    round(float(price_avg), decimals) if not (is_by_target and isinstance(self.matcher, FastRouter)) else round(float(1 / Decimal(price_avg)), decimals)
+                    round(float(price_avg), decimals)
                     ],
                 "p_unit": [f"{tknq} per {tknb}"],
             }
-- 
2.43.0


From 0fa074275fc90398f5c2e3d45ac4b30a49cd5580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 12/69] fix: delete_order left the linked order behind when its
 id is 0

---
 carbon/simulators/carbon_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index c16897c..6e5d111 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -583,19 +583,19 @@ class CarbonSimulatorUI:
 
         del self.orders[position_id]
 
-        if linked_position_id:
+        if linked_position_id is not None:
             del self.orders[linked_position_id]
 
         if self.verbose:
             str2 = (
                 f"and linked position {linked_position_id}"
-                if linked_position_id
+                if linked_position_id is not None
                 else ""
             )
             print(f"Deleted position {position_id} {str2}[{pair}]")
 
         return (
-            [position_id, linked_position_id] if linked_position_id else [position_id]
+            [position_id, linked_position_id] if linked_position_id is not None else [position_id]
         )
     delete_strategy = delete_order
 
-- 
2.43.0


From 9def911a4f55abb10dd41cf7784c9d1e3e42bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 13/69] fix: add_strategy left its first order behind when the
 second one is invalid

---
 carbon/simulators/carbon_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 6e5d111..13e0916 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -485,6 +485,7 @@ class CarbonSimulatorUI:
         :y_int:         y_int >= amt is used as curve capacity, marginal price adapts
         """
         
+        id1 = id2 = None
         try:
 
             # validate tkn, pair and get CarbonPair object
@@ -554,6 +555,9 @@ class CarbonSimulatorUI:
 
 
         except Exception as e:
+            # do not leave one half of the strategy behind
+            self.orders.pop(id1, None)
+            self.orders.pop(id2, None)
             if self.raiseonerror:
                 raise
             return {"success": False, "error": str(e), "exception": e}
-- 
2.43.0


From 5ac8118997ee3843bfa0a5732d0f92e43424ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 14/69] fix: alpha router refused trades when the liquidity
 sums differed by rounding

---
 carbon/routers/alpha_router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index adc20fe..11990c1 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -57,7 +57,7 @@ class AlphaRouter(BaseRouter):
         if full_fill == True:
             assert(current_sum >= threshold)
         else:
-            assert(current_sum == max_fill)
+            assert(math.isclose(current_sum, max_fill)) # the sums are taken in different orders
 
         if len(threshold_list) < num_values:
             pass
-- 
2.43.0


From 1471ac575af61b00aa077cc2d7e4f1ef85c5e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 15/69] fix: from_pkpp records the constructor it is given
 (Uniswap v3 curves were labelled pkpp)

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 2fd16f4..1dfe458 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -345,7 +345,7 @@ class ConstantProductCurve():
         xa = x0 - sqrt(k/p_max)
         ya = y0 - sqrt(k*p_min)
         constr = constr or "pkpp"
-        return cls(k=k, x=x0, x_act=xa, y_act=ya, pair=pair, cid=cid, fee=fee, descr=descr, constr="pkpp", params=params)
+        return cls(k=k, x=x0, x_act=xa, y_act=ya, pair=pair, cid=cid, fee=fee, descr=descr, constr=constr, params=params)
     
     @classmethod
     def from_univ2(cls, x_tknb=None, y_tknq=None, k=None, pair=None, fee=None, cid=None, descr=None, params=None):
-- 
2.43.0


From 9798902032005259be97590b240e9d07d0c47da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 16/69] fix: execute refuses a trade whose proceeds exceed the
 actual balance unless bounds are ignored

---
 carbon/tools/cpc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 1dfe458..f9bd3df 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -536,6 +536,8 @@ class ConstantProductCurve():
                     raise ValueError(f"dx must be >= -x_act (dx={dx}, x_act={self.x_act} {self.tknx} [{self.cid}: {self.pair}])")
             newx = self.x + dx
             newy = self.k / newx
+            if not ignorebounds and self.isbigger(small=newy, big=self.y_min):
+                raise ValueError(f"dy must be >= -y_act (dy={newy-self.y}, y_act={self.y_act} {self.tkny} [{self.cid}: {self.pair}])")
 
         else:
             if not dy >= -self.y_act:
@@ -543,6 +545,8 @@ class ConstantProductCurve():
                     raise ValueError(f"dy must be >= -y_act (dy={dy}, y_act={self.y_act} {self.tkny} [{self.cid}: {self.pair}])")
             newy = self.y + dy
             newx = self.k / newy
+            if not ignorebounds and self.isbigger(small=newx, big=self.x_min):
+                raise ValueError(f"dx must be >= -x_act (dx={newx-self.x}, x_act={self.x_act} {self.tknx} [{self.cid}: {self.pair}])")
         
         if verbose:
             if dx is None: dx=newx-self.x
-- 
2.43.0


From c9f34863fab8899fa904ae62c255ba5ad195cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 17/69] fix: CPCInverter.p_min and p_max are None where the
 curve has no limit

---
 carbon/tools/cpc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index f9bd3df..305b049 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1810,11 +1810,13 @@ class CPCInverter():
     
     @property
     def p_min(self):
-        return 1/self.curve.p_max
+        p_max = self.curve.p_max
+        return 1/p_max if not p_max is None else None
     
     @property
     def p_max(self):
-        return 1/self.curve.p_min
+        p_min = self.curve.p_min
+        return 1/p_min if not p_min is None else None
     
     @property
     def y_act(self):
-- 
2.43.0


From 84fabe00bdc4dec05e377261d45b69d2f86740e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:09 +0000
Subject: [PATCH 18/69] fix: CarbonFloatInt.from_int counts bits exactly and
 refuses exponents that do not fit (significants had 41 bits)

---
 carbon/helpers/floatint.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/carbon/helpers/floatint.py b/carbon/helpers/floatint.py
index 287f271..4648db2 100644
--- a/carbon/helpers/floatint.py
+++ b/carbon/helpers/floatint.py
@@ -5,7 +5,6 @@ __VERSION__ = "1.0"
 __DATE__ = "10/Feb/2023"
 
 from dataclasses import dataclass as _dataclass, asdict as _asdict
-from math import log2 as _log2, ceil as _ceil
 
 @_dataclass
 class CarbonFloatInt64():
@@ -46,8 +45,8 @@ class CarbonFloatInt64():
     
     @staticmethod
     def bindig(num):
-        """binary digits for num >0 [_ceil(_log2(rawint+1))]"""
-        return _ceil(_log2(num+1))
+        """binary digits for num >0"""
+        return num.bit_length()
 
     @classmethod
     def from_int(cls, rawint):
@@ -63,7 +62,7 @@ class CarbonFloatInt64():
         
         bindig = cls.bindig(rawint)
         exponent = bindig - cls.BITS_SIGNIFICANT
-        assert exponent <= 2**cls.BITS_EXPONENT, f"exponent must be <= {2**cls.BITS_EXPONENT}, is {exponent} [{intval}]"
+        assert exponent < 2**cls.BITS_EXPONENT, f"exponent must be < {2**cls.BITS_EXPONENT}, is {exponent} [{rawint}]"
         if exponent <= 0:
             return cls(rawint, 0)
         return cls(rawint >> exponent, exponent)
-- 
2.43.0


From ee20554d91ed72f82813fc5806eedeef0e010be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:09 +0000
Subject: [PATCH 19/69] fix: Uniswap v3 reserves are scaled by the token
 decimals, whatever they are

---
 carbon/tools/univ3calc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/univ3calc.py b/carbon/tools/univ3calc.py
index 94d7164..fe2ba30 100644
--- a/carbon/tools/univ3calc.py
+++ b/carbon/tools/univ3calc.py
@@ -186,8 +186,7 @@ class Univ3Calculator():
         _, pb = self.papb
         sqrtPb = sqrt(pb)
         sqrtP = sqrt(self.p)
-        tkn0reserve = self.liquidity * (sqrtPb - sqrtP) / (sqrtP * sqrtPb)
-        tkn0reserve *= self.decf
+        tkn0reserve = self.L * (sqrtPb - sqrtP) / (sqrtP * sqrtPb)
         if not incltoken:
             return tkn0reserve
         return (tkn0reserve, self.tkn0)
@@ -197,8 +196,7 @@ class Univ3Calculator():
         pa, _ = self.papb
         sqrtPa = sqrt(pa)
         sqrtP = sqrt(self.p)
-        tkn1reserve = self.liquidity * (sqrtP - sqrtPa)
-        tkn1reserve *= self.decf
+        tkn1reserve = self.L * (sqrtP - sqrtPa)
         if not incltoken:
             return tkn1reserve
         return (tkn1reserve, self.tkn1)
-- 
2.43.0


From 562941829d0a63768667c9c9b5a04070122352cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:22 +0000
Subject: [PATCH 20/69] fix: round() of a SharedVar works without a number of
 digits, as for any number

---
 carbon/helpers/sharedvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/sharedvar.py b/carbon/helpers/sharedvar.py
index 5d13848..d01b77b 100644
--- a/carbon/helpers/sharedvar.py
+++ b/carbon/helpers/sharedvar.py
@@ -85,7 +85,7 @@ class SharedVar:
     def __abs__(self):
         return self._wrap(abs(self._value))
 
-    def __round__(self, n):
+    def __round__(self, n=None):
         return self._wrap(round(self._value,n))
 
     def __floor__(self):
-- 
2.43.0


From 79b58fec99d56e895e17b0bcf3d6f0e334b900e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 21/69] fix: mCreateStrategy creates the strategy on the pair
 given, not always on ETH/USDC

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 65f53a6..4c83183 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -693,8 +693,8 @@ class CarbonSDK(CarbonSDK0):
             raise ValueError("sellRangeStart <= buyRangeStart", sellRangeStart, buyRangeStart)
         
         data = self.createBuySellStrategy(
-            baseToken = T.ETH.a, 
-            quoteToken = T.USDC.a, 
+            baseToken = T[pair.tknb].a, 
+            quoteToken = T[pair.tknq].a, 
             buyPriceLow = buyRangeEnd, 
             buyPriceHigh = buyRangeStart, 
             buyBudget = buyAmountTknQ,
-- 
2.43.0


From 92470fcc1a49ab730998f9bf7b1e6573bdae01d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 22/69] fix: RangeByPair.inverted said the opposite of what it
 documents (and of PairLiquidity.inverted)

---
 carbon/sdk/carbonsdk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 4c83183..fb18aed 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -577,7 +577,7 @@ class CarbonSDK(CarbonSDK0):
             AMMsells  = targetTokenO.T,
             bidAsk    = "ask" if pair.has_basetoken(AMMsells) else "bid",
             pair      = pair, 
-            inverted  = pair.has_quotetoken(targetTokenO.T), 
+            inverted  = pair.has_basetoken(targetTokenO.T), 
         )
 
     def mGetRateLiquidityDepthByPair(self, rate, pair, AMMsells):
-- 
2.43.0


From 4bc2e8466279699bc8bd3354c0db3c1513a50457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 23/69] fix: mPrepareTrade looks up tokens in the SDK's own
 container

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index fb18aed..e3cdc07 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -731,8 +731,8 @@ class CarbonSDK(CarbonSDK0):
         sourceTokenO = T[sourceToken]
         targetTokenO = T[targetToken]
         tradeByTargetAmount = (tkn == targetToken)
-        if not Tokens.containsall({sourceToken, targetToken}):
-            raise ValueError("not all token addresses are availabe", pair, Tokens)
+        if not T.containsall({sourceToken, targetToken}):
+            raise ValueError("not all token addresses are availabe", pair, T)
         data = self.getTradeData(
             sourceToken=sourceTokenO.a, 
             targetToken=targetTokenO.a, 
-- 
2.43.0


From e2f900c539acbf59ca2312defd40b570051b5ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 24/69] fix: pairs() looks up tokens in the SDK's own container
 and returns addresses if it has none

---
 carbon/sdk/carbonsdk0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 049a3e9..69372b7 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -150,9 +150,9 @@ class CarbonSDK0(SDKBase):
         T = self.Tokens
         r = self.call(n("pairs"), params={}, sync=True)
         pairs_raw = self._checkresult(r)
-        if Tokens is None:
+        if T is None:
             return pairs_raw
-        pairs = [ [Tokens(p[0]), Tokens(p[1])] for p in pairs_raw]
+        pairs = [ [T(p[0]), T(p[1])] for p in pairs_raw]
         if not inclstr:
             return pairs
         pairs_s = ", ".join([f"{p[0].T}/{p[1].T}" for p in pairs])
-- 
2.43.0


From 3494c8d78540116cd486fcf50297ed7a2c2baa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 25/69] fix: signsubmittx sent its sign flag under the name
 true or false

---
 carbon/sdk/carbonsdk0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 69372b7..7f95e52 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -575,7 +575,7 @@ class CarbonSDK0(SDKBase):
         :sign:      whether to sign the transaction (True=sign)
         :returns:   the transaction receipt
         """
-        r = self.req(n("signsubmittx"), params={"tx": tx, sign: bool(sign)})
+        r = self.req(n("signsubmittx"), params={"tx": tx, "sign": bool(sign)})
         return self._checkresult(r)
     
     ########################################
-- 
2.43.0


From a2609c374f1b2770ad9e7fd8d6d881c32cf6d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 26/69] fix: the URL given to the SDK was ignored

---
 carbon/sdk/sdkbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index 6818cf3..ee81526 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -99,7 +99,7 @@ class SDKBase:
         if method == self.GET and params:
             raise self.CarbonSDKValueError("Must not provide params for GET request", params, method)
 
-        url = self.join(self.URL, path)
+        url = self.join(self.url, path)
         if self.verbose:
             print(f"[req0] method={method}, url={url}, params={params}")
         if method == self.GET:
-- 
2.43.0


From 5db4669b4e26351f5e1032190965c80487096e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 27/69] fix: call() with sync by default returned the request
 id of a synchronous response

---
 carbon/sdk/sdkbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index ee81526..a972c46 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -139,6 +139,7 @@ class SDKBase:
         :sync:      whether to call sync or async
         """
         #print("\n\n[call]", ep, params, method, sync)
+        if sync is None: sync = self.syncdefault
         url = self.join(self.callapi0(sync), ep)
         if sync: 
             #print("\n\n[call] calling req", ep, params, method, sync)
-- 
2.43.0


From 91b9b4f7d139c2c30145356395cda2d4783a3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 28/69] fix: EncodedOrder.encode with a marginal price gave a
 negative capacity

---
 carbon/sdk/carbonsdk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index e3cdc07..37ccfab 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -294,7 +294,8 @@ class EncodedOrder():
                 if p_marg >= p_start_hi:
                     z = y
                 else:
-                    z = y * (p_start_hi - p_end_lo) // (p_marg - p_start_hi)
+                    H, M, L = cls.encodeRate(p_start_hi), cls.encodeRate(p_marg), cls.encodeRate(p_end_lo)
+                    z = y * (H - L) // (M - L)
         return cls(
             y=int(y), 
             z=int(z), 
-- 
2.43.0


From 63db45f89aadde6d614d23577a22850c62d0929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 29/69] fix: EncodedOrder.encode_yzAB crashed on the floats it
 documents (A, B were not scaled)

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 37ccfab..4cb6984 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -317,8 +317,8 @@ class EncodedOrder():
         return cls(
             y=int(y), 
             z=int(z), 
-            A=cls.encodeFloat(A), 
-            B=cls.encodeFloat(B),
+            A=cls.encodeFloat(int(A*cls.ONE)), 
+            B=cls.encodeFloat(int(B*cls.ONE)),
             token=str(token)
         )
         
-- 
2.43.0


From 62c15386256d0620ea070e5fac7c42f7db3c1f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 30/69] fix: reading EncodedStrategy.raw_json turned the
 numbers in raw into strings

---
 carbon/sdk/carbonsdk.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 4cb6984..9b397da 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -399,12 +399,11 @@ class EncodedStrategy():
     @property
     def raw_json(self):
         """returns the raw field as a json string"""
-        raw = self.raw
+        raw = {**self.raw}
         raw["id"] = str(raw["id"])
         for dk in ["order0", "order1"]:
-            for k in raw[dk]:
-                raw[dk][k] = str(raw[dk][k])
-        return json.dumps(self.raw, indent=4)
+            raw[dk] = {k: str(v) for k, v in raw[dk].items()}
+        return json.dumps(raw, indent=4)
     
     @property
     def descr(self):
-- 
2.43.0


From cfc71f778d5b62a1d5bba9a4ad2d30cb8e9cef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 31/69] fix: tokens without decimals have 18, as documented,
 also when converting to and from wei

---
 carbon/sdk/sdktoken.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index cfdd06a..789873e 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -52,11 +52,11 @@ class SDKToken():
 
     def w2t(self, wei):
         """converts wei to token"""
-        return wei / 10**self.decimals
+        return wei / 10**(18 if self.decimals is None else self.decimals)
     
     def t2w(self, tokenmt):
         """converts tokenmt to wei"""
-        return int(tokenmt * 10**self.decimals)
+        return int(tokenmt * 10**(18 if self.decimals is None else self.decimals))
     
     @property
     def isnul(self):
-- 
2.43.0


From 1786ae3373d8d964b1996029040439f45d843e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 32/69] fix: TokenContainer.restore never found anything (a
 classmethod using instance methods)

---
 carbon/sdk/sdktoken.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index 789873e..5a61e95 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -100,16 +100,15 @@ class TokenContainer():
         """creates a TokenContainer from a csv string"""
         return cls.fromlist([t.split(",") for t in csv.strip().splitlines()], raiseonerror)
     
-    @classmethod
-    def restore(cls, ticker_or_addr_or_tkn, raiseonerror=None):
+    def restore(self, ticker_or_addr_or_tkn, raiseonerror=None):
         """converts a ticker or address to an SDKToken from the TokenContainer (SDKToken not touched)"""
         if isinstance(ticker_or_addr_or_tkn, SDKToken):
             return ticker_or_addr_or_tkn
         try:
-            tkn = cls.byaddr(ticker_or_addr_or_tkn, raiseonerror=True)
+            tkn = self.byaddr(ticker_or_addr_or_tkn, raiseonerror=True)
         except:
             try:
-                tkn = cls.byticker(ticker_or_addr_or_tkn, raiseonerror=True)
+                tkn = self.byticker(ticker_or_addr_or_tkn, raiseonerror=True)
             except:
                 if raiseonerror:
                     raise ValueError(f"ticker or address {ticker_or_addr_or_tkn} not found in container")
-- 
2.43.0


From 9056ee0293333156d46beb31f2674c2385f2f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 33/69] fix: TokenContainer accepted duplicate tickers if there
 were as many duplicate addresses

---
 carbon/sdk/sdktoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index 5a61e95..a8df723 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -87,7 +87,7 @@ class TokenContainer():
         self._byticker = {t.token: t for t in tokens}
         self._byaddr   = {t.address: t for t in tokens}
         self._tickers  = set(self._byticker.keys())
-        if not len(self._tickers) == len(self._byaddr):
+        if not len(self._tickers) == len(self._byaddr) or not all(self._byticker[t.token] == t == self._byaddr[t.address] for t in tokens):
             raise ValueError(f"{len(self._tickers) - len(self._byaddr)} duplicate token tickers found", self._tickers, self._byaddr)
 
     @classmethod
-- 
2.43.0


From 7af71f4b74fec83b6a34dff2f427cd499de35675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 34/69] fix: ArbGraph.transport accepts an Amount (Amount and
 Node have no attribute token)

---
 carbon/tools/arbgraphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 7bab36f..10f20b2 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1709,8 +1709,8 @@ class ArbGraph(_DCBase):
 
         # if amount_in is a Amount, ensure the token is correct
         if isinstance(amount_in, Amount):
-            if amount_in.token != node_in.token:
-                raise ValueError(f"amount_in token {amount_in.token} does not match node_in token {node_in.token}")
+            if amount_in.node != node_in:
+                raise ValueError(f"amount_in token {amount_in.node} does not match node_in token {node_in}")
             amount_in = amount_in.amount
 
         # get the edges
-- 
2.43.0


From 28c5fbfd1567bd4bb94740b62772e6b5326e7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 35/69] fix: ArbGraph.duplicate keeps the quote convention of
 the edges and returns a graph that can be indexed and extended

---
 carbon/tools/arbgraphs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 10f20b2..f0e0f33 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -911,7 +911,7 @@ class ArbGraph(_DCBase):
         nodes = {node.tkn: Node(node.tkn) for node in self.nodes}
         if not consolidate:
             edges = (Edge(edge.node_in, edge.amount_in, edge.node_out, edge.amount_out, 
-                                        edge.inverse, uid=edge.uid) for edge in self.edges)
+                                        inverse=edge.inverse, uid=edge.uid) for edge in self.edges)
         else:
             edges = ( self.filter_edges(nin, nout)
                             for nin in self.nodes for nout in self.nodes if nin != nout)
@@ -919,8 +919,8 @@ class ArbGraph(_DCBase):
             edges = ( r for r in edges if not r == 0)    
         
         edges = ( r._replace_nodes(nodes) for r in edges)        
-        edges = tuple(edges)
-        return self.__class__(nodes=nodes.values(), edges=edges)
+        edges = list(edges)
+        return self.__class__(nodes=list(nodes.values()), edges=edges)
 
     def reset_state(self):
         """
-- 
2.43.0


From eb8ae1621fd71f8e24b0a3f5fb388e91ed7d8042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 36/69] fix: Node.reset_state sets the amount it is given

---
 carbon/tools/arbgraphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index f0e0f33..3631660 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -166,6 +166,7 @@ class Node(_DCBase):
         if amount is None:
             amount = 0
         self._state = self.State(amount=amount)
+        self._state.amount_.reset(amount)
 
     @property
     def tkn_p(self):
-- 
2.43.0


From aba2bc70405fa25b38b8bf9c251323efb8753815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 37/69] fix: a transport that an edge refuses leaves the state
 of the edge and of its nodes alone

---
 carbon/tools/arbgraphs.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 3631660..4e2d994 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -603,15 +603,18 @@ class Edge(_DCBase):
         amount_out = amount_in * self.amount_out / self.amount_in
         
         if record:
-            self.state.amount_in_remaining -= amount_in
-            if self.state.amount_in_remaining < -EPS:
+            if self.state.amount_in_remaining - amount_in < -EPS:
                 if raiseonerror:
                     raise ValueError(f"amount {amount_in} exceeds remaining edge capacity {self.state.amount_in_remaining}")
-            self.node_out.state.amount += amount_out
-            self.node_in.state.amount -= amount_in
-            if self.node_in.state.amount < -EPS:
+            available_in = self.node_in.state.amount
+            if self.node_in is self.node_out:
+                available_in += amount_out
+            if available_in - amount_in < -EPS:
                 if raiseonerror:
                     raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
+            self.state.amount_in_remaining -= amount_in
+            self.node_out.state.amount += amount_out
+            self.node_in.state.amount -= amount_in
         return Amount(amount_out, self.node_out)
 
     def __str__(self):
-- 
2.43.0


From 12b882c1b979379dda6fae99acd562b6c4f2b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 38/69] fix: ArbGraph.price of a token in itself accepts token
 names with units

---
 carbon/tools/arbgraphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 4e2d994..bc433bc 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1317,9 +1317,9 @@ class ArbGraph(_DCBase):
         get the price (estimate) expressed in units of end per start [only on connection-type graphs]
         """
         assert not self.is_amounttype, "cannot get price on amount-type graphs"
+        node_tknb = self.node_by_tkn(node_tknb)
+        node_tknq = self.node_by_tkn(node_tknq)
         if node_tknb != node_tknq:
-            node_tknb = self.node_by_tkn(node_tknb)
-            node_tknq = self.node_by_tkn(node_tknq)
             price = self.ptransport(self.shortest_path(node_tknb, node_tknq)).multiplier
         else:
             price = 1
-- 
2.43.0


From 4a6df8477189219af55baceaeab2f444f3825d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 39/69] fix: ArbGraph.degree(as_matrix=True) referred to an
 undefined graph

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index bc433bc..040637d 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1404,7 +1404,7 @@ class ArbGraph(_DCBase):
         degree = dict(degree)
         if not as_matrix:
             return degree
-        matrix = np.diag([degree.get(node, 0) for node in G.nodes()])
+        matrix = np.diag([degree.get(node.ix, 0) for node in self.nodes])
         return matrix
     
     def in_degree(self, as_matrix=False):
-- 
2.43.0


From 9447baba18a8184b31f4afff217c139aa7b557b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 40/69] fix: the formatted results of run_arbitrage_cycles are
 returned (asdict takes keywords only; undefined constant)

---
 carbon/tools/arbgraphs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 040637d..d078675 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1487,7 +1487,7 @@ class ArbGraph(_DCBase):
             return super().asdict(dct=dct, exclude=exclude, include=include)
         
         def astuple(self, include_cycle=True):
-            return tuple(self.asdict(include_cycle).values())
+            return tuple(self.asdict(include_cycle=include_cycle).values())
         
         def tokens(self):
             return ", ".join(str(t.tkn) for t in self.cycle.data)
@@ -1656,12 +1656,12 @@ class ArbGraph(_DCBase):
         :format:       same as in `run_arbitrage_cycles`
         """
         if format is None:
-            format = self.ACREF_DF
+            format = self.ACRET_DF
 
         arbcycles = rawresults
         if format == self.ACRET_GEN or format == self.ACRET_TUPLE:
             return rawresults
-        arbcycles_dcts = tuple(r.asdict(False) for r in arbcycles)
+        arbcycles_dcts = tuple(r.asdict(include_cycle=False) for r in arbcycles)
         if format == self.ACRET_DICTS:
             return arbcycles_dcts
         df0 = pd.DataFrame.from_dict(arbcycles_dcts)
-- 
2.43.0


From 03a95cd47dbad2241e4fb5bba4e48e85c3cd2d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 41/69] fix: edge_statistics of a pair with bothways=True is
 about the edges of this pair only

---
 carbon/tools/arbgraphs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index d078675..1e65485 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1873,15 +1873,15 @@ class ArbGraph(_DCBase):
         """
         if not self.is_amounttype:
             raise ValueError("edge_statistics only supported for AmountGraphs")
+        if not pair is None:
+            assert node_in is None and node_out is None, f"cannot specify both pair and node_in/node_out {pair}, {node_in}, {node_out}"
+            node_in, node_out = pair.split("/")
+            return self.edge_statistics(node_in, node_out, bothways=True)
         if bothways:
             return (
                 self.edge_statistics(node_in, node_out, edges=edges, bothways=False),
                 self.edge_statistics(node_out, node_in, edges=edges, bothways=False),
             )
-        if not pair is None:
-            assert node_in is None and node_out is None, f"cannot specify both pair and node_in/node_out {pair}, {node_in}, {node_out}"
-            node_in, node_out = pair.split("/")
-            return self.edge_statistics(node_in, node_out, bothways=True)
         
         if isinstance(node_in, str):
             node_in = self.node_by_tkn(node_in)
-- 
2.43.0


From 5471423da01a699189b5ec063ec9cb5308e60ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 42/69] fix: run_arbitrage_cycle reports the index of the token
 around which the cycle was run

---
 carbon/tools/arbgraphs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 1e65485..e9fd7de 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1538,9 +1538,12 @@ class ArbGraph(_DCBase):
         current_amount_in = None      # tracks the amount currently being pushed (None: to be initialised)
 
         # try to set the cycle to the token we want to use (if any)
+        start_ix = 0
         if not token is None:
             try:
-                cycle_pairs = cycle.pairs(start_val=self.node_by_tkn(token))
+                start_val = self.node_by_tkn(token)
+                cycle_pairs = cycle.pairs(start_val=start_val)
+                start_ix = cycle.data.index(start_val)
             except:
                 if P("allow_any_token"):
                     cycle_pairs = cycle.pairs()
@@ -1612,7 +1615,7 @@ class ArbGraph(_DCBase):
         
         result = self.RunArbCycleResult(
             cycle = cycle,
-            start_ix = 0,
+            start_ix = start_ix,
             token = e.tkn_out,
             profit = profit_amount,
             amount_in = effective_amount_in,
-- 
2.43.0


From 92aeafc256a80cc106ace3e06f67eefa7a305feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 43/69] fix: strategies seeded with no risk asset get the
 minimum seed amount (typo amt_risk)

---
 carbon/helpers/strategym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 6d466ad..2916355 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -134,7 +134,7 @@ class strategy():
     def __post_init__(self):
         # the ==0 is important: do not touch None!
         # (None means: to be filled in later)
-        if self.amt_rsk == 0: self.amt_risk = self.MIN_SEED_AMT
+        if self.amt_rsk == 0: self.amt_rsk  = self.MIN_SEED_AMT
         if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
         if self.rsk is None: self.rsk = "RSK"
         if self.csh is None: self.csh = "CSH"
-- 
2.43.0


From 84c21647078682abd23dc5f5e4078d1795363652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 44/69] fix: strategy refuses marginal prices together with
 y_int again (the check was shadowed by a second __post_init__)

---
 carbon/helpers/strategym.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 2916355..89902f5 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -57,12 +57,6 @@ class strategy():
     rescale: bool = True
     rescaled_fctr: float = None
 
-    def __post_init__(self):
-        pm_provided = not self.psell_marginal is None or not self.pbuy_marginal is None
-        yi_provided = not self.y_int_sell is None or not self.y_int_buy is None
-        if pm_provided and yi_provided:
-            raise ValueError("Not both p_marginal and y_int can be provided", self.psell_marginal, self.y_int_sell, self.pbuy_marginal, self.y_int_buy)
-        
     MIN_SEED_AMT = 1e-10
 
     def rescale_strat(self, newspot=100, oldspot=100, force=False):
@@ -132,6 +126,11 @@ class strategy():
         return newobj
 
     def __post_init__(self):
+        pm_provided = not self.psell_marginal is None or not self.pbuy_marginal is None
+        yi_provided = not self.y_int_sell is None or not self.y_int_buy is None
+        if pm_provided and yi_provided:
+            raise ValueError("Not both p_marginal and y_int can be provided", self.psell_marginal, self.y_int_sell, self.pbuy_marginal, self.y_int_buy)
+
         # the ==0 is important: do not touch None!
         # (None means: to be filled in later)
         if self.amt_rsk == 0: self.amt_rsk  = self.MIN_SEED_AMT
-- 
2.43.0


From e78c8a802b6ddc0b942105e4dd4e8dfeaa8ae3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 45/69] fix: strategy.from_mgw accepts a zero width in a (sell,
 buy) tuple and reports tuple values out of range as ValueError

---
 carbon/helpers/strategym.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 89902f5..63cc8b6 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -275,14 +275,14 @@ class strategy():
         try:
             # this will work on tuple / list of length 2...
             usell, ubuy = (cls._validate(uu) for uu in u)
-        except:
+        except TypeError:
             # ...and this for a single one
             usell = ubuy = cls._validate(u)
         #print("[from_mgw] u, usell, ubuy", u, usell, ubuy)
     
         try:
-            wsell, wbuy = (cls._validate(ww) for ww in w)
-        except:
+            wsell, wbuy = (cls._validate(ww if ww != 0 else 0.0001) for ww in w)
+        except TypeError:
             wsell = wbuy = cls._validate(w)
         #print("[from_mgw] w, wsell, wbuy", w, wsell, wbuy)
     
-- 
2.43.0


From 3dd49e7f3b39a2f397cdeb4dc48befeb290ac0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 46/69] fix: strategy.drr referred to undefined names (dr, pd)

---
 carbon/helpers/strategym.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 63cc8b6..3fd8aef 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -9,6 +9,7 @@ from dataclasses import dataclass as _dataclass
 from math import sqrt as _sqrt
 from copy import copy as _copy
 from math import isnan as _isnan
+import pandas as _pd
 
 @_dataclass
 class strategy():
@@ -456,14 +457,14 @@ class strategy():
         r0k = tuple(rr)[0]
         r0 = rr[r0k]
         if not asdf:
-            result = {k:dr(r, r0, purge) for k,r in rr.items()}
+            result = {k:strategy.dr(r, r0, purge) for k,r in rr.items()}
             if not baseline:
                 return result
             result[r0k] = {k:v for k,v in r0.items() if not k in ["id0", "comment"]}
             return result
         else:
-            result = {k:dr(r, r0, purge=False) for k,r in rr.items()}
-            df = pd.DataFrame.from_records(result).T.fillna("")
+            result = {k:strategy.dr(r, r0, purge=False) for k,r in rr.items()}
+            df = _pd.DataFrame.from_records(result).T.fillna("")
             del df["id0"]
             if not comment: 
                 del df["comment"]
-- 
2.43.0


From a405aa21e1e421821b947c2ee461bedad56c4625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:37 +0000
Subject: [PATCH 47/69] fix: strategy.filter_isnan returned None for numbers
 that are not nan

---
 carbon/helpers/strategym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 3fd8aef..7803a1c 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -480,4 +480,5 @@ class strategy():
             if _isnan(val):
                 return ""
         except TypeError:
-            return val
\ No newline at end of file
+            pass
+        return val
-- 
2.43.0


From 686499ad2d302cf056bb1ab012393ab5db2036c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 48/69] fix: goalseek returned a bare number instead of a
 result when it hit the zero exactly

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index b171771..3c2d45a 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -292,7 +292,7 @@ class OptimizerBase:
         while (b - a) > cls.GOALSEEKEPS:
             c = (a + b) / 2
             if func(c) == 0:
-                return c
+                return cls.SimpleResult(result=c, method="findminmax_nr")
             elif func(a) * func(c) < 0:
                 b = c
             else:
-- 
2.43.0


From ce62e56c00cb5175282b6cd9cc1fe0fda174fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 49/69] fix: goalseek missed a zero at the lower end of the
 interval

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 3c2d45a..af2d37c 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -293,7 +293,7 @@ class OptimizerBase:
             c = (a + b) / 2
             if func(c) == 0:
                 return cls.SimpleResult(result=c, method="findminmax_nr")
-            elif func(a) * func(c) < 0:
+            elif func(a) * func(c) <= 0:
                 b = c
             else:
                 a = c
-- 
2.43.0


From 2575ed62c18405d5899d84b0f673381f9ef022b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 50/69] fix: simple_optimizer stopped its goal seek too early
 (or before it started) for prices below unity

---
 carbon/tools/optimizer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index af2d37c..761b530 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -278,10 +278,14 @@ class OptimizerBase:
     
     GOALSEEKEPS = 1e-6
     @classmethod
-    def goalseek(cls, func, a, b):
+    def goalseek(cls, func, a, b, *, eps=None):
         """
         finds the value of `x` where `func(x)` x is zero, using binary search between a,b
+
+        :eps:   length of the interval at which the search stops (default: GOALSEEKEPS)
         """
+        if eps is None:
+            eps = cls.GOALSEEKEPS
         if func(a) * func(b) > 0:
             cls.SimpleResult(
                 result=None, 
@@ -289,7 +293,7 @@ class OptimizerBase:
                 method="findminmax_nr"
                 )
             raise ValueError("function must have different signs at a,b")
-        while (b - a) > cls.GOALSEEKEPS:
+        while (b - a) > eps:
             c = (a + b) / 2
             if func(c) == 0:
                 return cls.SimpleResult(result=c, method="findminmax_nr")
@@ -996,13 +1000,15 @@ class CPCArbOptimizer(OptimizerBase):
             p_max = np.max([c.p for c in curves_t])
             assert targettkn in {c0.tknx, c0.tkny}, f"targettkn {targettkn} not in {c0.tknx}, {c0.tkny}"
             # we are now running a goalseek == 0 on the token that is NOT the target token
+            # (the interval is relative to the price if prices are smaller than unity)
+            eps = self.GOALSEEKEPS*min(1, p_min)
             if targettkn == c0.tknx:
                 func = lambda p: dxdyfromp_sum_f(p)[1]
-                p_optimal = self.goalseek(func, p_min*0.99, p_max*1.01)
+                p_optimal = self.goalseek(func, p_min*0.99, p_max*1.01, eps=eps)
                 opt_result = dxdyfromp_sum_f(float(p_optimal))[0]
             else:
                 func = lambda p: dxdyfromp_sum_f(p)[0]
-                p_optimal = self.goalseek(func, p_min*0.99, p_max*1.01)
+                p_optimal = self.goalseek(func, p_min*0.99, p_max*1.01, eps=eps)
                 opt_result = dxdyfromp_sum_f(float(p_optimal))[1]
             method = "simple-targettkn"
             
-- 
2.43.0


From bf836ad2f705b5b980f4315a8bad0a06442dcbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 51/69] fix: simple_optimizer crashed instead of returning the
 error result when the maximum was not found

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 761b530..87d6e98 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -989,7 +989,7 @@ class CPCArbOptimizer(OptimizerBase):
         if not result == self.SO_TARGETTKN:
             p_avg = np.mean([c.p for c in curves_t])
             p_optimal = self.findmax(dxdyfromp_valx_f, p_avg)
-            opt_result = dxdyfromp_valx_f(float(p_optimal))
+            opt_result = None if p_optimal.is_error else dxdyfromp_valx_f(float(p_optimal))
             if result == self.SO_PMAX:
                 return p_optimal
             elif result != self.SO_GLOBALMAX:
-- 
2.43.0


From b87830cd13509cf63541321b49eae2df27bf8560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 52/69] fix: margp_optimizer reported an error if it converged
 in the last iteration allowed

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 87d6e98..31aa9fb 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1314,7 +1314,7 @@ class CPCArbOptimizer(OptimizerBase):
         
         NOMR = lambda f: f if not result==self.MO_MINIMAL else None
         
-        if i == maxiter-1:
+        if not criterium < eps:
             return self.MargpOptimizerResult(
                 optimizer=NOMR(self),
                 result =  None,
-- 
2.43.0


From 76904b7f3062aa7f8943681fc6823494fa3e3943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 53/69] fix: nofees_optimizer with an arbitrage constraint did
 not constrain any of the other tokens

---
 carbon/tools/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 31aa9fb..04099db 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -757,7 +757,8 @@ class CPCArbOptimizer(OptimizerBase):
         
             
         # self-financing constraints
-        for tkn, tknvalue in sfc.items():
+        # (the value is zero for all tokens the constraint does not mention)
+        for tkn, tknvalue in {**{t: 0 for t in tt}, **sfc.asdict()}.items():
             if not isinstance(tknvalue, str):
                 constraints += [
                     cp.sum([dy[i] for i in tt[tkn].y])+cp.sum([dx[i] for i in tt[tkn].x]) == tknvalue*c0.scale(tkn)
-- 
2.43.0


From 51194eb7942b5e3085749b4f2b4edc379e2006f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 54/69] fix: jacobian used a vanishing step for arguments close
 to zero, so margp_optimizer accepted wrong prices of tokens worth about one
 target token

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 04099db..c828f9e 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1066,7 +1066,7 @@ class CPCArbOptimizer(OptimizerBase):
         y = func(x)
         jac = np.zeros((n, n))
         for j in range(n):  # through columns to allow for vector addition
-            Dxj = (abs(x[j])*eps if x[j] != 0 else eps)
+            Dxj = (abs(x[j])*eps if abs(x[j]) > eps else eps)
             x_plus = [(xi if k != j else xi + Dxj) for k, xi in enumerate(x)]
             jac[:, j] = (func(x_plus) - y)/Dxj
         return jac
-- 
2.43.0


From 017607fc3774d9e4dcf575bbd303b9e5dcf35f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 55/69] fix: findminmax_nr reported nan or infinity as a valid
 result when it diverged

---
 carbon/tools/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index c828f9e..f7407f9 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -266,6 +266,8 @@ class OptimizerBase:
             #print("[NR]", x, func(x), cls.deriv(func, x), cls.deriv2(func, x))
             try:
                 x -= cls.deriv(func, x) / cls.deriv2(func, x)
+                if not math.isfinite(x):
+                    raise ValueError("diverged")
             except Exception as e:
                 return cls.SimpleResult(
                         result=None, 
-- 
2.43.0


From 1f5085da4d1f4ca8930e33714ec4195ad31870fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:50 +0000
Subject: [PATCH 56/69] fix: Analytics.truncate removed missing values from the
 middle of the series, pairing the remaining ones with the wrong trade sizes

---
 carbon/simulators/sim_analytics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 37744c9..1462612 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -139,7 +139,10 @@ class Analytics:
         :s2:                truncated of NaN / None at the end
         :returns:           truncated (s1, s2)
         """
-        s2r = cls.vec(x for x in s2 if not cls.isnonenan(x))
+        s2 = list(s2)
+        while s2 and cls.isnonenan(s2[-1]):
+            s2.pop()
+        s2r = cls.vec(s2)
         s1r = s1[:len(s2r)]
         return s1r, s2r
 
-- 
2.43.0


From fddf4592197ea635c4d9a63c44e6eb3374c98a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:50 +0000
Subject: [PATCH 57/69] fix: Analytics.effective_price without pair referred to
 an attribute that the simulator does not have

---
 carbon/simulators/sim_analytics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 1462612..7ce434e 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -178,7 +178,7 @@ class Analytics:
         if pair is None: 
             if sim is None:
                 raise ValueError("If pair is None then sim must be provided in arguments or class defaults")
-            pair = sim.pair 
+            pair = sim.slashpair
         if bidask == self.BID_BOOK: 
             price_f = sim.amm_buys
             fail_value = self.MAXPRICE
-- 
2.43.0


From 71741ff72bb4c557e2ab667475036bc29d3678ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:50 +0000
Subject: [PATCH 58/69] fix: Analytics.effective_price did not accept the
 constants BID and ASK that it documents (they are redefined further down)

---
 carbon/simulators/sim_analytics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 7ce434e..12ec6c2 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -179,10 +179,10 @@ class Analytics:
             if sim is None:
                 raise ValueError("If pair is None then sim must be provided in arguments or class defaults")
             pair = sim.slashpair
-        if bidask == self.BID_BOOK: 
+        if bidask in (self.BID_BOOK, self.BID):
             price_f = sim.amm_buys
             fail_value = self.MAXPRICE
-        elif bidask == self.ASK_BOOK: 
+        elif bidask in (self.ASK_BOOK, self.ASK):
             price_f = sim.amm_sells
             fail_value = 0.
         else:
-- 
2.43.0


From eb37b9e11714e6b57fc8705d39e4097adecd7cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:50 +0000
Subject: [PATCH 59/69] fix: Analytics.simulate_trades ignored the simulator
 passed to it if no pair was given

---
 carbon/simulators/sim_analytics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 12ec6c2..e4c9da4 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -214,9 +214,8 @@ class Analytics:
         """
         if sim is None: sim = self.sim
         if carbon_pair is None:
-            if self.sim is None:
+            if sim is None:
                 raise ValueError("The `sim` object must be provided and have a default carbon pair if `carbon_pair` is not given.")
-            sim = self.sim
             if sim.carbon_pair is None:
                 raise ValueError("The `sim` object must have a default carbon pair if `carbon_pair` is not given.")
             carbon_pair = sim.carbon_pair
-- 
2.43.0


From 9c4aa4ea68344f66ac5e8d12b5c0394a7df55489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 60/69] fix: Params.set_default lost the defaults of its first
 call

---
 carbon/tools/params.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 330e392..6b22277 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -97,9 +97,8 @@ class Params():
         """
         if self._defaults is None:
             self._defaults = dict()
-        else:
-            for k, v in kwargs.items():
-                self._defaults[k] = v
+        for k, v in kwargs.items():
+            self._defaults[k] = v
         return self
     
     @property
-- 
2.43.0


From b00e6a437a6d2f03820b93f4be51da570c5392bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 61/69] fix: Params.construct dropped the defaults of the
 object it replicates

---
 carbon/tools/params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 6b22277..274ee5d 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -61,6 +61,8 @@ class Params():
             result = cls(**dct._params)
             if not dct._defaults is None and not defaults is None:
                 raise ValueError("Must not provide default in both constructor and dct", dct, defaults)
+            if not dct._defaults is None:
+                defaults = dct._defaults
         else:
             result = cls(**dct)
 
-- 
2.43.0


From b6f64a5c8e7594b0739fd0c4c1ac0aebbcaad3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 62/69] fix: iseq only looked at its second argument

---
 carbon/helpers/stdimports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/helpers/stdimports.py b/carbon/helpers/stdimports.py
index 1eb8768..758e826 100644
--- a/carbon/helpers/stdimports.py
+++ b/carbon/helpers/stdimports.py
@@ -38,11 +38,11 @@ def iseq(arg0, *args, eps=1e-6):
             for arg in args:
                 if abs(arg) > eps: 
                     return False
-                return True
+            return True
         for arg in args:
             if abs(arg/arg0-1) > eps:
                 return False
-            return True
+        return True
     else:
         for arg in args:
             if not arg == arg0:
-- 
2.43.0


From 45e265970a8c21848bc734ff87bc2b30aaafa8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 63/69] fix: path interpolation lost all data points if the
 sample period is longer than the spacing of the path

---
 carbon/helpers/pathinterpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/pathinterpolation.py b/carbon/helpers/pathinterpolation.py
index f884c84..2a8580c 100644
--- a/carbon/helpers/pathinterpolation.py
+++ b/carbon/helpers/pathinterpolation.py
@@ -87,7 +87,7 @@ class PathInterpolation():
         path_td_yrs = path_td/_pd.Timedelta(days=1)/365.25
         if period > path_td:
             print("[interpolate_segment] sample period too large; returning original")
-            return path_segment.iloc[:1]
+            return path_segment
         numsegments = int(round(path_td/period,0))
         period_act = path_td/numsegments
         sample_path_np = cls.gaussian_bridge(path_segment[0], path_segment[1], sig*_sqrt(path_td_yrs), numsegments)
-- 
2.43.0


From 68d709af260a12dcb57368124b379ede89a81d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 64/69] fix: PathGenerator.pathdf ignored the column name given
 to the constructor

---
 carbon/helpers/pathgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/pathgenerator.py b/carbon/helpers/pathgenerator.py
index 5575ec6..d60606b 100644
--- a/carbon/helpers/pathgenerator.py
+++ b/carbon/helpers/pathgenerator.py
@@ -125,7 +125,7 @@ class PathGenerator():
         """
         
         if numpaths is None: numpaths = self.DEFAULTS["numpaths"]
-        if colname is None: colname = self.DEFAULTS["colname"]
+        if colname is None: colname = self.colname
         
         paths = [self.path() for _ in range(numpaths)]
         #df0 = pd.DataFrame(data=self.vec2ar([self.times, self.datetimes]), columns=["time", "datetime"])
-- 
2.43.0


From 7ba98b13d938d378241ef3604d7db2ef7706cad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 65/69] fix: Cycle.pairs_s ignored the start it was given

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index e9fd7de..31e60dd 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -799,7 +799,7 @@ class Cycle(_DCBase):
         """
         runs pairs and returns the results as slashpairs
         """
-        return [f"{p[0].tkn}/{p[1].tkn}" for p in self.pairs()]
+        return [f"{p[0].tkn}/{p[1].tkn}" for p in self.pairs(start_ix=start_ix, start_val=start_val)]
     
     def run_arbitrage_cycle(self, token=None, **params):
         """
-- 
2.43.0


From 278434e1e901c030ae152e2fdacf98316ecee72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 66/69] fix: the text of an arbitrage result showed the profit
 per step as its return per step

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 31e60dd..dc72e8d 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1477,7 +1477,7 @@ class ArbGraph(_DCBase):
         amount_out: float=None
 
         def __str__(self):
-            return f"RACResult(profit: {self.profit:2.1f} [{self.token}], in: {self.amount_in:2.1f}, rpcs: {self.ppcs*100:.1f}%, ppcs: {self.ppcs:.1f}, len: {self.length},  uid: {self.cycle.uid})"
+            return f"RACResult(profit: {self.profit:2.1f} [{self.token}], in: {self.amount_in:2.1f}, rpcs: {self.rpcs*100:.1f}%, ppcs: {self.ppcs:.1f}, len: {self.length},  uid: {self.cycle.uid})"
         
         def asdict(self, *, include_cycle=True, exclude=None, include=None):
             dct =  {**asdict(self), "tokens": self.tokens(), "length": self.length, "r": self.r, 
-- 
2.43.0


From bf914e04008d3ad7ea58dfc97693d524e9091790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 67/69] fix: filter_edges both ways returned edges twice if
 they meet the filter in both directions

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index dc72e8d..569c889 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1206,7 +1206,7 @@ class ArbGraph(_DCBase):
         if bothways:
             l1 = self.filter_edges(node_in=node_in, node_out=node_out, node=node, bothways=False)
             l2 = self.filter_edges(node_in=node_out, node_out=node_in, node=node, bothways=False)
-            return l1 + l2
+            return l1 + [e for e in l2 if not e in l1]
         if isinstance(node_in, str):
             node_in = self.node_by_tkn(node_in)
         if isinstance(node_out, str):
-- 
2.43.0


From 363cdf83ab4080892e883c6696fe716cc146d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 68/69] fix: a transport refused for lack of funds on one of
 several parallel edges left the other edges' parts recorded

---
 carbon/tools/arbgraphs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 569c889..d8be8fb 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1735,6 +1735,13 @@ class ArbGraph(_DCBase):
         amounts_in = [amt_in * routing_factor for amt_in in capacities_in]
         print(f"routing_factor: {routing_factor}; amounts_in: {amounts_in} {amount_in} {capacity_in}")
 
+        # refuse before any of the edges records its part
+        if record and raiseonerror:
+            if capacity_in - amount_in < -EPS:
+                raise ValueError(f"amount {amount_in} exceeds remaining edge capacity {capacity_in}")
+            if not node_in is node_out and node_in.state.amount - amount_in < -EPS:
+                raise ValueError(f"amount {amount_in} exceeds node capacity {node_in.state.amount}")
+
         # transport the amounts through the edges
         amounts_out = []
         for edge, amt_in in zip(edges, amounts_in):
-- 
2.43.0


From 4339ecf3a8d7e3e50ebcc4538b5f1517edae74c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:25 +0000
Subject: [PATCH 69/69] fix: ArbGraph.edgedf put the number of reverse edges
 next to the wrong pair if a pair has edges in one direction only

---
 carbon/tools/arbgraphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index d8be8fb..351277b 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1844,7 +1844,9 @@ class ArbGraph(_DCBase):
                 ).reset_index()
             dff = df[df["is_reverse"]==False]
             dft = df[df["is_reverse"]==True]
-            df = pd.concat([dff.reset_index(drop=True), dft[["n"]].rename(columns={"n":"n_rev"}).reset_index(drop=True)], axis=1)
+            dft = dft[["pair", "n", "price"]].rename(columns={"n": "n_rev", "price": "price_rev"})
+            df = dff.merge(dft, on="pair", how="outer")
+            df["price"] = df["price"].fillna(df["price_rev"])
             df = df[["pair", "n", "n_rev", "price"]]
         
             if not resetindex:
-- 
2.43.0

