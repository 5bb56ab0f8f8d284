PROP = "K03"
FILE = "carbon/tools/cpc.py"
EDITS = [("        r = self.curve.dxdyfromp_f(1/p if not p is None else None, ignorebounds=ignorebounds, withunits=False)", "        r = self.curve.dxdyfromp_f(1/p if not p is None else None, ignorebounds=ignorebounds and not withunits, withunits=False)")]
NEEDS = "an inverted curve asked for the swap to a price beyond its range with both ignorebounds and withunits"
BREAKS = "the bounds are respected although they were to be ignored"
DEMO = '''
from carbon.tools.cpc import ConstantProductCurve as CPC, CPCInverter
c = CPC(k=400, x=10, x_act=2, y_act=5, pair="A/B", cid="1", fee=0, descr="", constr="", params={})
i = CPCInverter(c)
for p in (0.01, 0.25, 10):
    a = i.dxdyfromp_f(p, ignorebounds=True)
    b = i.dxdyfromp_f(p, ignorebounds=True, withunits=True)
    assert abs(a[0] - b[0]) < 1e-9 and abs(a[1] - b[1]) < 1e-9, (p, a, b)
'''
