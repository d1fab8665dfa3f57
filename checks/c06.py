from checks.parse import *

TECHNIQUE = """grammar extracted from the MIR of the parser functions; outcome table of each parse entry point by abstract interpretation (success only with
the value of one parser run on the given text, failure only from a failed run); automata inclusion: every success of the root recogniser stops at
the end of the input"""


def run(r, tier):
    for cfg in ("host", "release"):
        for what in ("sheet", "fstr"):
            whole_input(r, cfg, what)
