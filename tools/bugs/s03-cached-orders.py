PROP = "S03"
FILE = "carbon/routers/alpha_router.py"
EDITS = [("        self.exact_router.orders = self.orders\n        use_positions_matchlevel = top", "        if len(getattr(self.exact_router, \"orders\", ())) != len(self.orders) or self.exact_router.orders[-1] is not self.orders[-1]:\n            self.exact_router.orders = self.orders\n        use_positions_matchlevel = top")]
NEEDS = "two trades in a row with different sets of positions of the same size that share the last order"
BREAKS = "a trade is priced against orders that it may not use; records and orders disagree with the prices"
DEMO = '''
from carbon import CarbonSimulatorUI
sim = CarbonSimulatorUI(pair="ETH/USDC", matching_method="alpha")
for k in range(3):
    sim.add_strategy("ETH", 10, 2000 + 300 * k, 2001 + 300 * k, 1000, 1500, 1000)
a = sim.amm_sells("ETH", 15, use_positions=[2, 4])
b = sim.amm_sells("ETH", 10.5, use_positions=[0, 4])
assert a["success"] and b["success"], (a, b)
for o in sim.orders.values():
    if o.tkn == "ETH":
        assert o.y >= 0, (o.id, o.y)
t = b["trades"]
assert abs(float(t[t["routeix"] == 0]["price"].iloc[0]) - 2030) < 200, t
'''
