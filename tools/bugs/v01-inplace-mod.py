PROP = "V01"
FILE = "carbon/helpers/sharedvar.py"
EDITS = [("        self._value%=other   \n", "        self._value = _math.copysign(_math.fmod(abs(self._value), abs(other)), self._value)   \n")]
NEEDS = "a negative value or modulus"
BREAKS = "x %= m has the sign of the value instead of that of the modulus, unlike x % m"
DEMO = '''
from carbon.helpers.sharedvar import SharedVar
for a in (7, -7, 0, 12):
    for m in (3, -3, 5):
        x = SharedVar(a)
        x %= m
        assert x == a % m, (a, m, x)
'''
