from checks.parse import *

TECHNIQUE = """grammar extracted from the MIR of the parser functions; language equality (automata) of the recogniser in each role (key, value, selector,
condition, declaration, blanks) with the lexical specification"""


def run(r, tier):
    for cfg in ("host", "release"):
        lexing(r, cfg)
