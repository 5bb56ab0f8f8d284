PROP = "L01"
FILE = "carbon/helpers/strategym.py"
EDITS = [("            psell_marginal  = self.psell_marginal*fctr if not self.psell_marginal is None else None,",
          "            psell_marginal  = self.psell_marginal*fctr if not self.pbuy_marginal is None else None,")]
NEEDS = "a strategy with a utilisation on the sell range only, rescaled to another spot price"
BREAKS = "the marginal price of the sell range is lost"
DEMO = '''
from carbon.helpers.strategym import strategy
s = strategy.from_mgw(m=100, g=.1, w=.1, u=(.5, 0), amt_rsk=1, amt_csh=1)
r = s.rescale_strat(200, 100)
assert r.psell_marginal is not None and abs(r.psell_marginal - 2*s.psell_marginal) < 1e-9, r
'''
