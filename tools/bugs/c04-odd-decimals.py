PROP = "C04"
FILE = "carbon/carbon_order_ui.py"
EDITS = [("        B_ns = self.B * 10 ** ( (decy-decx)/2)\n", "        B_ns = self.B * 10 ** ( (decy-decx)//2)\n")]
NEEDS = "tokens whose decimals differ by an odd number"
BREAKS = "the B parameter of the contract encoding is scaled by a truncated power of ten, so the encoded curve has other prices"
DEMO = '''
from carbon.carbon_order_ui import CarbonOrderUI
from carbon.pair import CarbonPair
from math import sqrt
p = CarbonPair(tknb="ETH", tknq="ODD").set_decimals(18, 7)
a = CarbonOrderUI.from_prices(p, "ETH", 2000, 3000, yint=10, y=10)
r = a.yzABS(sx=48)
want = a.B * sqrt(10 ** (18 - 7)) * 2 ** 48
assert abs(r.B / want - 1) < 1e-6, (r.B, want)
'''
