PROP = "R02"
FILE = "carbon/routers/exact_router_x0y0n.py"
EDITS = [("        d = -n * x0 + n * x + x0\n", "        d = x0 - n * x0 if x < 0 or n * x * x > x0 * x0 else x0 - n * x0 + n * x\n")]
NEEDS = "an order that is mostly sold (it has already received a large amount x relative to its x0) trading by source together with another order"
BREAKS = "the split by source does not use the whole amount and leaves different marginal rates"
DEMO = '''
from decimal import Decimal
from carbon.order import Order
from carbon.pair import CarbonPair
from carbon.routers.exact_router_x0y0n import ExactRouterX0Y0N
pair = CarbonPair("ETH/USDC")
def book(*spec):
    return {i: Order(p_high=Decimal(h), p_low=Decimal(l), y_int=Decimal(yi), _y=Decimal(y), pair=pair, tkn="USDC", id=i) for i, (h, l, yi, y) in enumerate(spec)}
r = ExactRouterX0Y0N()
for y in (100, 70, 50, 20, 5, 1):
    r.orders = book((2000, 500, 100, y), (1600, 500, 400, 2 * y))
    dys = [r.amt_by_src(i, Decimal("0.05"), [0, 1]) for i in range(2)]
    tot = sum(r.dxdy(i, dy) for i, dy in enumerate(dys))
    assert abs(tot - Decimal("0.05")) < Decimal("1e-9"), (y, tot)
'''
