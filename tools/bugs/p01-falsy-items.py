PROP = "P01"
FILE = "carbon/tools/params.py"
EDITS = [("            if item in self._params:", "            if self._params.get(item):")]
NEEDS = "an item that exists with a value that counts as false (0, None, False, empty)"
BREAKS = "an existing item is overwritten although updates are not allowed"
DEMO = '''
from carbon.tools.params import Params
p = Params(a=1, b=0)
for k in "ab":
    try:
        p[k] = 5
    except ValueError:
        continue
    raise SystemExit("overwritten " + k)
'''
