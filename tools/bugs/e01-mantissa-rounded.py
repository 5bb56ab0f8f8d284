PROP = "E01"
FILE = "carbon/sdk/carbonsdk.py"
EDITS = [("        mantissa = value >> exponent\n", "        mantissa = (value + (1 << exponent) // 2) >> exponent\n")]
NEEDS = "an integer of more than 48 bits whose cut off bits are at least half a unit"
BREAKS = "decoding gives more than was encoded, and a full mantissa overflows into the exponent"
DEMO = '''
from carbon.sdk.carbonsdk import EncodedOrder as E
for v in (5, 2 ** 48 - 1, 2 ** 48, 2 ** 49 + 3, 2 ** 60 - 1, 3 ** 40):
    r = E.decodeFloat(E.encodeFloat(v))
    assert r <= v and (v - r) * 2 ** 47 <= v, (v, r)
'''
