PROP = "G02"
FILE = "carbon/tools/arbgraphs.py"
EDITS = [("                    current_multiplier *= capacity_in / current_amount_in", "                    current_multiplier = capacity_in / current_amount_in")]
NEEDS = "a cycle of at least three steps in which two steps reduce the amount pushed"
BREAKS = "the input and the profit of the arbitrage are wrong"
DEMO = '''
import carbon.tools.arbgraphs as ag
g = ag.ArbGraph()
g.add_edge("ETH", 16, "USDC", 16)
g.add_edge("USDC", 8, "LINK", 8)
g.add_edge("LINK", 2, "ETH", 3)
n = [g.n(t) for t in ("ETH", "USDC", "LINK")]
r = g.run_arbitrage_cycle(ag.Cycle(n, graph=g, uid=0))
assert (r.amount_in, r.amount_out, r.profit) == (2, 3, 1), r
'''
