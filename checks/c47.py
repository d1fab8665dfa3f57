from checks.astconv import *

TECHNIQUE = """enumeration of every conversion into a node of a sheet and every view of one; outcome table of each, by abstract interpretation of
the MIR: the value's only content is the argument, the view is the stored content"""


def run(r, tier):
    for cfg in ("host", "release", "wasm"):
        conversions_kept(r, cfg)
