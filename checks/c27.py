from checks.macros import *

TECHNIQUE = """information flow over summaries of every Reify implementation: what reaches the context, what may stand in a const or static"""


def run(r, tier):
    usage_rules(r, "usage")
    no_cache(r, "expansion")
