from checks.literal import *

TECHNIQUE = """fixpoint over the abstract states of the argument loop next to a monitor of its grammar; summary of the fragment conversion"""


def run(r, tier):
    arguments(r, "arguments")
    interpolation(r, "interpolation")
