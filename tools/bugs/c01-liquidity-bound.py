PROP = "C01"
FILE = "carbon/carbon_order_ui.py"
EDITS = [("            elif dy > self.y:\n                if raiseonerror:\n                    raise ValueError(\"AMM sell amount dy must be within available liquidity\"", "            elif dy > self.yint:\n                if raiseonerror:\n                    raise ValueError(\"AMM sell amount dy must be within available liquidity\"")]
NEEDS = "a partly sold curve and an amount between its liquidity and its capacity"
BREAKS = "a price is quoted for more than the curve has"
DEMO = '''
from carbon.carbon_order_ui import CarbonOrderUI
a = CarbonOrderUI.from_prices("ETH/USDC", "ETH", 2000, 3000, yint=10, y=5)
assert a.dxfromdy_f(4) > 0
assert a.dxfromdy_f(7) is None, a.dxfromdy_f(7)
'''
