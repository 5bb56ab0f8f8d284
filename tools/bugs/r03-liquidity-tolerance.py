PROP = "R03"
FILE = "carbon/routers/exact_base_router.py"
EDITS = [("                test_liquidity = position_liquidity + trade_target < 0\n", "                test_liquidity = position_liquidity + trade_target < -position_liquidity / 10 ** 5\n")]
NEEDS = "two or more orders and an amount that exhausts one of them by less than one part in 100000"
BREAKS = "an order gives more than its liquidity"
DEMO = '''
from decimal import Decimal
from carbon.order import Order
from carbon.pair import CarbonPair
from carbon.routers.exact_router_x0y0n import ExactRouterX0Y0N
pair = CarbonPair("ETH/USDC")
def book(*spec):
    return {i: Order(p_high=Decimal(h), p_low=Decimal(l), y_int=Decimal(y), _y=Decimal(y), pair=pair, tkn="USDC", id=i) for i, (h, l, y) in enumerate(spec)}
r = ExactRouterX0Y0N()
r.orders = book((2000, 1800, 300), (2000, 1000, 5000))
# the amount for which the first order is exactly exhausted
lo, hi = Decimal(1), Decimal(5000)
for _ in range(200):
    mid = (lo + hi) / 2
    if -r.amt_by_target(0, -mid, [0, 1]) < 300: lo = mid
    else: hi = mid
for k in ("1.000001", "1.000005", "1.000009"):
    acts = r.match_by_target(-lo * Decimal(k))
    for a in acts:
        assert -a.output <= float(r.orders[a.index].y), (k, a)
'''
