PROP = "R01"
FILE = "carbon/routers/alpha_router.py"
EDITS = [("                    dx\n                    * (S * y + B * y_int) ** 2\n                    / (S * dx * (S * y + B * y_int) + y_int ** 2)", "                    dx\n                    * (S * y + B * y_int) ** 2\n                    / (S * min(dx, x_max) * (S * y + B * y_int) + y_int ** 2)"),
         ("        An alternative trade by source function that performs a hypothetical\n        swap against a subject order not constrained by available liquidity.\n\n        :x:         the required source amount\n        :subject:   the \"subject\" order index\n        \"\"\"\n        order = self.orders[subject]\n        S = Decimal(str(order.S))\n        B = Decimal(str(order.B))\n",
          "        An alternative trade by source function that performs a hypothetical\n        swap against a subject order not constrained by available liquidity.\n\n        :x:         the required source amount\n        :subject:   the \"subject\" order index\n        \"\"\"\n        order = self.orders[subject]\n        S = Decimal(str(order.S))\n        B = Decimal(str(order.B))\n        x_max = Decimal(str(order.y_int)) / (B * (B + S)) / 2\n")]
NEEDS = "a source amount larger than half of what the order can absorb"
BREAKS = "the alpha router overestimates what an order pays for a large source amount"
DEMO = '''
from decimal import Decimal
from carbon.order import Order
from carbon.routers.alpha_router import AlphaRouter
from carbon.routers.fast_router import FastRouter
o = Order(p_low=Decimal(1000), p_high=Decimal(2000), y_int=Decimal(1000), _y=Decimal(1000))
for dx in ("0.05", "0.1", "0.3", "0.5", "0.6"):
    a, f = AlphaRouter(), FastRouter()
    a.orders = f.orders = {0: o}
    x, y = a.amt_by_src(0, Decimal(dx)), f.amt_by_target(0, Decimal(dx))
    assert abs(x / y - 1) < Decimal("1e-12"), (dx, x, y)
'''
