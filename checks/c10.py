from checks.life2 import *

TECHNIQUE = """outcome table of the parse entry point by abstract interpretation of the MIR: which text is looked up, parsed, stored and returned on
every path"""


def run(r, tier):
    for cfg in ("host", "release"):
        cache(r, cfg)
