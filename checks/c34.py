from checks.parse import *
from checks.literal import interpolation

TECHNIQUE = """grammar of the splitter extracted from its MIR; language equality (automata) of its alternatives with the escape, interpolation and literal
syntax; values built from them; outcome tables of the lookup of each name"""


def run(r, tier):
    for cfg in ("host",):
        whole_input(r, cfg, "fstr")
        splitting(r, cfg)
        fragments_kept(r, cfg)
    interpolation(r, "substitution")
