PROP = "R04"
FILE = "carbon/routers/fast_router.py"
EDITS = [("        is_lt = lt or (eq and x.rate.output < y.rate.output)\n", "        is_lt = lt or (eq and x.rate.input * 2 < y.rate.output)\n")]
NEEDS = "two quotes at the same rate"
BREAKS = "quotes at equal rates are not ranked by size, and the comparison is not antisymmetric"
DEMO = '''
from decimal import Decimal as D
from carbon.routers.fast_router import FastRouter
from carbon.routers.base_router import Quote, Rate
r = FastRouter()
for i in (1, 2, 5):
    for o in (1, 3, 10):
        for k in (2, 3, 7):
            a, b = Quote(0, Rate(D(i), D(o))), Quote(1, Rate(D(i * k), D(o * k)))
            assert r.cmp_min(a, b) == 1 and r.cmp_min(b, a) == -1, (a, b)
            assert r.cmp_max(a, b) == -1 and r.cmp_max(b, a) == 1, (a, b)
'''
