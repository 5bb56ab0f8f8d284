PROP = "T01"
FILE = "benchmark/core/trade/impl.py"
EDITS = [("    return temp2 // add(A, mulDivC(temp1, temp1, temp3))", "    return temp2 // add(A, mulDivF(temp1, temp1, temp3))")]
NEEDS = "an order and amount for which both scaled terms of the denominator are close to 2^256, so that their sum overflows and the fallback formula is used"
BREAKS = "the fallback rounds the denominator down, so the trade pays out more than the exact curve"
DEMO = '''
# fixed-point trade by source amount must never pay more than the exact curve
from fractions import Fraction
import random
from core.trade.impl import tradeBySourceAmountFunc, ONE, MAX_UINT256
rnd = random.Random(5)
bad = 0
for _ in range(20000):
    z = rnd.randrange(2 ** 79, 2 ** 82)
    y = rnd.randrange(1, z + 1)
    A = rnd.randrange(1, 2 ** rnd.randrange(2, 30))
    B = rnd.randrange(0, 2 ** rnd.randrange(1, 30))
    t = y * A + z * B
    f = max(1, -(-(z * ONE) ** 2 // MAX_UINT256))
    x = MAX_UINT256 * f // (A * t) * rnd.randrange(50, 100) // 100
    try:
        got = tradeBySourceAmountFunc(x, y, z, A, B)
    except AssertionError:
        continue
    if got > Fraction(x * t * t, A * x * t + z * z * ONE * ONE):
        bad += 1
assert not bad, bad
'''
