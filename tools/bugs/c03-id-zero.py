PROP = "C03"
FILE = "carbon/carbon_order_ui.py"
EDITS = [("        if not self.id is None:\n            raise ValueError(\"Curve ID", "        if self.id:\n            raise ValueError(\"Curve ID")]
NEEDS = "a curve whose id is 0 (or an empty string) and a second set_id"
BREAKS = "the id of the first curve can be overwritten"
DEMO = '''
from carbon.carbon_order_ui import CarbonOrderUI
a = CarbonOrderUI.from_prices("ETH/USDC", "ETH", 2000, 3000, yint=10, y=5)
a.set_id(0)
try:
    a.set_id(1)
except ValueError:
    pass
assert a.id == 0
'''
