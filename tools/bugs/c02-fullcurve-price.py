PROP = "C02"
FILE = "carbon/carbon_order_ui.py"
EDITS = [("                return self.p_marg_f(self.yint-y, checkbounds=False, fullcurve=True)", "                return self.p_marg_f(0, checkbounds=False)")]
NEEDS = "the effective price of an infinitesimal trade (dy=0) on the full curve, for a curve that is partly sold"
BREAKS = "returns the current marginal price instead of the start price of the curve"
DEMO = '''
from carbon.carbon_order_ui import CarbonOrderUI
a = CarbonOrderUI.from_prices("ETH/USDC", "ETH", 2000, 3000, yint=10, y=5)
assert abs(a.p_eff_f(0, fullcurve=True) / a.p_eff_f(1e-9, fullcurve=True) - 1) < 1e-3
'''
