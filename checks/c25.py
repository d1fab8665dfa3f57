from checks.life import *

TECHNIQUE = """outcome tables of every public constructor in debug and release configurations: effects before, and outcomes after, the
check that parses the rendered text again"""


def run(r, tier):
    cs = creations(r, ALL)
    for c in cs:
        debug_check(r, c)
