from checks.macros import *

TECHNIQUE = """summaries of the exported macros down to the two sheet forms; the generated tokens parsed as an expression and compared"""


def run(r, tier):
    thin(r, "expansion")
