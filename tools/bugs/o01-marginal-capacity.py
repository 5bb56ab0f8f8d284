PROP = "O01"
FILE = "carbon/order.py"
EDITS = [("                if self.p_high < self.p_low:\n                    paa = self.p_high\n                    self.p_high = self.p_low\n                    self.p_low = paa\n\n                self.B = sqrt(self.p_low)\n                self.S = sqrt(self.p_high) - sqrt(self.p_low)\n",
          "                self.B = sqrt(min(self.p_low, self.p_high))\n                self.S = sqrt(max(self.p_low, self.p_high)) - self.B\n\n                if self.p_high < self.p_low and self.p_marginal is None:\n                    self.p_low, self.p_high = self.p_high, self.p_low\n")]
NEEDS = "prices given in reverse order together with a marginal price"
BREAKS = "the capacity is computed from the wrong end of the range, so the order's marginal price is not the one given"
DEMO = '''
from decimal import Decimal
from carbon.order import Order
a = Order(p_low=Decimal(1000), p_high=Decimal(2000), p_marginal=Decimal(1500), _y=Decimal(10))
b = Order(p_low=Decimal(2000), p_high=Decimal(1000), p_marginal=Decimal(1500), _y=Decimal(10))
for o in (a, b):
    assert o.p_high == 2000 and o.p_low == 1000
    m = (float(o.B) + float(o.S) * float(o.y) / float(o.y_int)) ** 2
    assert abs(m - 1500) < 1e-6, m
'''
