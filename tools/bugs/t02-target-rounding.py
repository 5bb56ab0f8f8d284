PROP = "T02"
FILE = "benchmark/core/trade/impl.py"
EDITS = [("    temp5 = mulDivF(temp2, temp3, factor)\n    return mulDivC(x, temp4, temp5)", "    temp5 = mulDivC(temp2, temp3, factor)\n    return mulDivC(x, temp4, temp5)")]
NEEDS = "an order so large that the products exceed 256 bits and the scaled denominator is small"
BREAKS = "the required source amount is rounded down"
DEMO = '''
from fractions import Fraction
import random
from core.trade.impl import tradeByTargetAmountFunc, ONE
rnd = random.Random(3)
bad = 0
for _ in range(40000):
    z = rnd.randrange(2 ** 90, 2 ** 150)
    B = rnd.randrange(0, 2 ** rnd.randrange(1, 40))
    A = rnd.randrange(1, 2 ** rnd.randrange(2, 40))
    y = rnd.randrange(1, 2 ** rnd.randrange(2, 90))
    x = rnd.randrange(1, y + 1)
    try:
        got = tradeByTargetAmountFunc(x, y, z, A, B)
    except (AssertionError, ZeroDivisionError):
        continue
    t = y * A + z * B
    if got < Fraction(x * z * z * ONE * ONE, t * (t - A * x)):
        bad += 1
assert not bad, bad
'''
