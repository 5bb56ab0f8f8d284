PROP = "G01"
FILE = "carbon/tools/arbgraphs.py"
EDITS = [("            if self.state.amount_in_remaining - amount_in < -EPS:\n                if raiseonerror:",
          "            if self.state.amount_in_remaining - amount_in < -EPS*max(1, self.amount_in):\n                if raiseonerror:")]
NEEDS = "an edge of a very large amount, largely used up before, and a recorded transport slightly above what is left"
BREAKS = "more than the remaining capacity of an edge is recorded"
DEMO = '''
import carbon.tools.arbgraphs as ag
a, b = ag.Node("ETH"), ag.Node("USDC")
e = ag.Edge(a, 1e12, b, 2e12)
a.reset_state(1e13)
e.transport(1e12-5, record=True)
try:
    e.transport(10, record=True)
except ValueError:
    pass
else:
    raise SystemExit("overdrawn: %s left" % e.state.amount_in_remaining)
'''
