PROP = "T03"
FILE = "benchmark/core/trade/impl.py"
EDITS = [("    data = int(value.sqrt() * ONE)\n    length = bitLength(data // ONE)\n    return (data >> length) << length",
          "    data = int(value.sqrt() * ONE)\n    length = bitLength(data // ONE)\n    return ((data >> length) + (1 if length > 40 else 0)) << length")]
NEEDS = "a rate above 2^78, so that more than 40 low bits of its square root are cut off"
BREAKS = "the encoded rate is rounded up instead of down: the decoded order is better for the trader than the one encoded"
DEMO = '''
from decimal import Decimal
from core.trade.impl import encodeRate, decodeRate
for e in range(-60, 130):
    for m in (1, 3, 5, 7, 11, 1023):
        v = Decimal(m) * Decimal(2) ** e
        assert decodeRate(Decimal(encodeRate(v))) <= v, v
'''
