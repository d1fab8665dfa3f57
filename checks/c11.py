from checks.parse import *

TECHNIQUE = """grammar extracted from the MIR of the parser functions; automata over all texts of the conditional at-rules (with blank, declaration and
interpolated parts): each list of statements of the grammar accepts them, reads them exactly to their closing brace and as a rule"""


def run(r, tier):
    for cfg in ("host", "release") if tier == "thorough" else ("host",):
        nesting(r, cfg, tier)
