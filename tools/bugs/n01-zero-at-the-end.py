PROP = "N01"
FILE = "carbon/tools/optimizer.py"
EDITS = [("            elif func(a) * func(c) <= 0:", "            elif func(a) * func(c) < 0:")]
NEEDS = "a function that is zero exactly at the lower end of the interval"
BREAKS = "the goal seek returns the other end of the interval, where the function is not zero"
DEMO = '''
from carbon.tools.optimizer import OptimizerBase as O
assert abs(float(O.goalseek(lambda x: x-1, 0, 3)) - 1) < 1e-5
assert abs(float(O.goalseek(lambda x: x, 0, 3))) < 1e-5, O.goalseek(lambda x: x, 0, 3)
'''
