PROP = "H02"
FILE = "carbon/helpers/pathgenerator.py"
EDITS = [("        self.halfsig2dt = 0.5*self.sig*self.sig*self.dt", "        self.halfsig2dt = 0.5*self.sig*self.sig/self.N")]
NEEDS = "a path over a time other than one year"
BREAKS = "the mean of the log returns is not that of the parameters"
DEMO = '''
from carbon.helpers.pathgenerator import PathGenerator
import numpy as np
seen = []
class R:
    def lognormal(self, mean, sigma, size):
        seen.append((mean, sigma)); return np.ones(size)
np.random.default_rng = lambda *a: R()
g = PathGenerator(mu=.1, sig=.5, time=4, N=8, s0=100)
g.path()
assert abs(seen[0][0] - (.1-.125)*.5) < 1e-12 and abs(seen[0][1] - .5*.5**.5) < 1e-12, seen
'''
