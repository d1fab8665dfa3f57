from checks.parse import *

TECHNIQUE = """grammar and semantic actions extracted from the MIR of the parser functions; conservation analysis: each part of a recogniser that can carry
text (automata: not only blanks and separators) is used exactly once, in order and untransformed but for trimming, by the node built from it"""


def run(r, tier):
    for cfg in ("host", "release"):
        conservation(r, cfg)
