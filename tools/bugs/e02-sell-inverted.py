PROP = "E02"
FILE = "carbon/sdk/carbonsdk.py"
EDITS = [("                    minReturn=tradeData[\"totalTargetAmount\"]*(1-maxDeviationPc),", "                    minReturn=tradeData[\"totalTargetAmount\"]/(1+maxDeviationPc),")]
NEEDS = "a trade by source composed with some deviation"
BREAKS = "the transaction demands more than the given deviation allows, so it fails within the tolerance"
DEMO = '''
from carbon.sdk import CarbonSDK, Tokens
s = CarbonSDK(Tokens=Tokens, disclaimer=False, verbose=False)
got = []
class R:
    status_code = 200
    def json(self): return {"data": "tx"}
def call(ep, params=None, method=None, sync=None):
    got.append(params)
    return R()
s.call = call
for dev in (0, .1, .5):
    s.mComposeTradeTransaction(Tokens.ETH, Tokens.USDC, [], {"totalTargetAmount": 100., "totalSourceAmount": 7.}, False, maxDeviationPc=dev)
    assert abs(float(got[-1]["minReturn"]) - 100 * (1 - dev)) < 1e-9, got[-1]
'''
