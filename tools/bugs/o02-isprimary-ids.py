PROP = "O02"
FILE = "carbon/tools/simplepair.py"
EDITS = [("            return self.tknb < self.tknq\n", "            return self.tknb_n < self.tknq_n\n")]
NEEDS = "a pair of two tokens that differ only in their id suffix"
BREAKS = "both orientations are secondary, so the primary price depends on the orientation"
DEMO = '''
from carbon.tools.simplepair import SimplePair
a, b = SimplePair("WETH-6Cc2/WETH-0123"), SimplePair("WETH-0123/WETH-6Cc2")
assert a.isprimary != b.isprimary
assert abs(a.primary_price(2.0) - b.primary_price(0.5)) < 1e-12
'''
