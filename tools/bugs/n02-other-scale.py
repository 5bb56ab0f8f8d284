PROP = "N02"
FILE = "carbon/tools/optimizer.py"
EDITS = [("                    dy[i]/c.scaley >= c.dy_min,", "                    dy[i]/c.scalex >= c.dy_min,")]
NEEDS = "tokens of different scales and an optimum at the end of a range"
BREAKS = "the convex problem allows a curve to pay more than its liquidity"
DEMO = '''
from carbon.tools.cpc import ConstantProductCurve as CPC, CPCContainer
from carbon.tools.optimizer import CPCArbOptimizer
from carbon.tools.tokenscale import TokenScale
c = CPC.from_pkpp(pair="ETH/USDC", p=2000, k=2000*10**2, p_min=1900, p_max=2100, cid="a")
O = CPCArbOptimizer(CPCContainer([c], tokenscale=TokenScale.from_tokenscales(ETH=2000, USDC=1)))
r = O.nofees_optimizer(O.SFCd({"USDC": O.OptimizationVar}), nosolve=True, verbose=False)
dx, dy = r.dx.variable, r.dy.variable
# selling a thousand ETH: pays far more USDC than there is, on the invariant
a = 1000.
b = c.k/(c.x+a) - c.y
assert b < 2*c.dy_min < 0
dx.value, dy.value = [a*2000], [b]
def viol(q):
    v = q.violation()
    return float(v.max() if hasattr(v, "max") else v)
bad = [str(q) for q in r.problem.constraints if viol(q) > 1]
# the self-financing constraint on ETH is violated, and so must be the liquidity of USDC
assert len(bad) == 2, (bad, b, c.dy_min)
'''
