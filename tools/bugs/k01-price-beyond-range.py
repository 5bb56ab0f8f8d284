PROP = "K01"
FILE = "carbon/tools/cpc.py"
EDITS = [("            if not self.y_max is None:\n                if y > self.y_max:\n                    y = self.y_max\n        \n        if withunits:\n            return x, y, p, self.tknxp", "            if not self.y_max is None:\n                if y > self.y_max:\n                    y = self.k / x if self.x_act else y\n        \n        if withunits:\n            return x, y, p, self.tknxp")]
NEEDS = "a price beyond the upper end of the range of a curve that holds none of its token x (like a Carbon order selling y)"
BREAKS = "the point returned is off the curve: x is at the end of the range but y is not"
DEMO = '''
from carbon.tools.cpc import ConstantProductCurve as CPC
c = CPC.from_carbon(yint=100, y=100, pa=3000, pb=2000, pair="ETH/USDC", tkny="USDC", fee=0, cid="1", descr="")
for p in (1000, 1999, 2500, 2999, 5000, 50000):
    x, y, _ = c.xyfromp_f(p)
    assert abs(x * y / c.k - 1) < 1e-9, (p, x, y, c.k)
'''
