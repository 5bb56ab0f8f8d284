PROP = "R04"
FILE = "carbon/routers/fast_router.py"
EDITS = [("        output = min(target_amount, order.y)\n        _input", "        output = min(target_amount, max(order.y, order.y_int // 2))\n        _input")]
NEEDS = "a source amount that exhausts an order filled to less than half of its capacity"
BREAKS = "an order is matched beyond its liquidity"
DEMO = '''
from decimal import Decimal as D
from carbon.order import Order
from carbon.pair import CarbonPair
from carbon.routers.fast_router import FastRouter
pair = CarbonPair("ETH/USDC")
for y in (100, 40, 10):
    o = Order(p_high=D(2000), p_low=D(1000), y_int=D(100), _y=D(y), pair=pair, tkn="USDC", id=0, linked_to_id=0)
    r = FastRouter()
    r.orders = [o]
    acts = r.match_by_src(D(1))
    assert abs(acts[0].output) <= D(y) * D("1.000001"), (y, acts)
'''
