PROP = "K04"
FILE = "carbon/tools/cpc.py"
EDITS = [("            condition0 = condition.split(\"_\")[0]\n", "            condition0 = condition.split(\"_\")[0]\n            if condition0 in conditions: cpairs = self.pairset(conditions[condition0])\n")]
NEEDS = "two conditions of the same type, one of them without a differentiator (onein and onein_2)"
BREAKS = "the second condition is evaluated with the list of the first one, so pairs are selected that do not meet it"
DEMO = '''
from carbon.tools.cpc import ConstantProductCurve as CPC, CPCContainer
CC = CPCContainer([CPC(k=400, x=10, pair=p, cid=p, fee=0, descr="", constr="", params={}) for p in ("A/B", "A/C", "B/C", "C/D")])
r = CC.filter_pairs(onein="A", onein_2="C")
assert r == {"A/C"}, r
r = CC.filter_pairs(onein="A", onein_2="D", anyall=CC.FP_ANY)
assert r == {"A/B", "A/C", "C/D"}, r
'''
