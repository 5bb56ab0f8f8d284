PROP = "H01"
FILE = "carbon/helpers/simulation.py"
EDITS = [("    strat = tuple(s.rescale_strat(spot*(1+shift)) for s in strat)", "    strat = tuple(s.rescale_strat(spot*(1+shift), force=len(strat)>1) for s in strat)")]
NEEDS = "a portfolio of at least two strategies, one of which is not to be rescaled, and a path not starting at 100"
BREAKS = "the fixed strategy is moved to other prices"
DEMO = '''
from carbon.helpers.simulation import run_sim
from carbon.helpers.strategym import strategy
import pandas as pd
f = lambda: strategy.from_sb(sell=(210, 220), buy=(190, 180), fixed=True)
def seed(s):
    s.amt_rsk, s.amt_csh = 1, 100
    return s
path = pd.Series([200., 215., 185.])
one = run_sim(seed(f()), path)
two = run_sim([seed(f()), seed(f())], path)
assert max(abs(two.value_r-2*one.value_r)) < 1e-6, (list(one.value_r), list(two.value_r))
'''
