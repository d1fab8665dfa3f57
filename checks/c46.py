from checks.parse import *

TECHNIQUE = """grammar extracted from the MIR of the parser functions; language inclusion (automata) of every text that becomes part of a sheet in
the texts whose braces, semicolons and comment openers are enclosed"""


def run(r, tier):
    for cfg in ("host", "release"):
        confined(r, cfg)
