PROP = "R05"
FILE = "carbon/routers/alpha_router.py"
EDITS = [("                    if min_val >= max_val:\n", "                    if min_val > next_val and i + 2 == len(numbers) - 1:\n")]
NEEDS = "more orders than allowed, the last but one of them smaller than all selected, and only the last large enough"
BREAKS = "an amount that the allowed number of orders can deliver is refused"
DEMO = '''
from carbon.routers.alpha_router import AlphaRouter
sel = AlphaRouter.gen_one_order_selector
for v, t, k in (([5, 3, 20], 20, 1), ([5, 4, 3, 20], 24, 2), ([5, 3, 4, 20], 9, 2), ([9, 2, 20], 19, 1), ([9, 8, 2, 20], 28, 2), ([9, 8, 7, 2, 20], 28, 2)):
    r = sel(v, t, k)
    assert sum(v[i] for i in r) >= t, (v, t, k, r)
'''
