PROP = "F01"
FILE = "carbon/helpers/floatint.py"
EDITS = [("        return cls.from_int( int(floatval * cls._one()) )", "        return cls.from_int( round(floatval * cls._one()) )")]
NEEDS = "a number whose distance to the next grid point above is less than half the grid"
BREAKS = "the represented float is above the number it was made from"
DEMO = '''
from carbon.helpers.floatint import CarbonFloatInt64
class F(CarbonFloatInt64):
    ONE_EXPONENT = 4
for x in (0.99, 1.0, 1.24, 1.249, 3.03125, 3.05):
    v = F.from_float(x)
    assert v.asint / 16 <= x, (x, v.asint / 16)
'''
