PROP = "U01"
FILE = "carbon/tools/univ3calc.py"
EDITS = [("        ticka = (self.tick // self.ticksize) * self.ticksize\n", "        ticka = int(self.tick / self.ticksize) * self.ticksize\n")]
NEEDS = "a negative tick that is not a multiple of the tick spacing"
BREAKS = "the price range is the next one up, not the one that contains the price"
DEMO = '''
from carbon.tools.univ3calc import Univ3Calculator as U
for tick in (199782, 5, 60, -60, -5, -199782):
    c = U("A", "B", int(1.0001 ** ((tick + .5) / 2) * 2 ** 96), tick, 10 ** 18, 3000, 18, 18)
    a, b = c.papb
    assert a <= c.p <= b, (tick, a, c.p, b)
'''
