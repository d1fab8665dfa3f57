from checks.life import *

TECHNIQUE = """outcome tables of every public constructor split by whether the manager has a writer: registry, writer data and DOM effects"""


def run(r, tier):
    cs = creations(r, QUICK)
    for c in cs:
        collecting(r, c)
