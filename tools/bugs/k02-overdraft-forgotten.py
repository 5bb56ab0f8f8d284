PROP = "K02"
FILE = "carbon/tools/cpc.py"
EDITS = [("            x_act = self.x_act + newx - self.x,\n            y_act = self.y_act + newy - self.y,\n            pair = self.pair,", "            x_act = max(self.x_act + newx - self.x, 0),\n            y_act = max(self.y_act + newy - self.y, 0),\n            pair = self.pair,")]
NEEDS = "a swap beyond the bounds with ignorebounds=True"
BREAKS = "the curve after the swap has another price range, and a reverse swap does not restore the original curve"
DEMO = '''
from carbon.tools.cpc import ConstantProductCurve as CPC
c = CPC(k=400, x=10, x_act=2, y_act=5, pair="A/B", cid="1", fee=0, descr="", constr="", params={})
d = c.execute(dx=-3, ignorebounds=True).execute(dx=3, ignorebounds=True)
assert abs(d.x - c.x) < 1e-9 and abs(d.x_act - c.x_act) < 1e-9 and abs(d.y_act - c.y_act) < 1e-9, (d, c)
'''
