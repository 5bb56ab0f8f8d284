PROP = "E03"
FILE = "carbon/sdk/sdktoken.py"
EDITS = [("        :returns:   token name or object, depending on tknonly\n        \"\"\"\n        addr = addr.lower()\n        try:\n            tkno = self._byaddr[addr]", "        :returns:   token name or object, depending on tknonly\n        \"\"\"\n        try:\n            tkno = self._byaddr[addr]")]
NEEDS = "an address in checksum (mixed case) spelling, as the contract returns them"
BREAKS = "known tokens are not recognised by their address"
DEMO = '''
from carbon.sdk import Tokens
a = Tokens.USDC.a
assert Tokens.byaddr1(a) is Tokens.USDC
assert Tokens.byaddr1("0xA0b86991c6218b36c1d19D4a2e9Eb0cE3606eB48") is Tokens.USDC
assert Tokens.byaddr1("0xA0b86991c6218b36c1d19D4a2e9Eb0cE3606eB48", tknonly=True) == "USDC"
'''
