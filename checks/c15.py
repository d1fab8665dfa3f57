from checks.life import *

TECHNIQUE = """outcome tables of every public constructor, down to registry, writer data and DOM calls: failing outcomes have no effect and carry
the error, successful ones register exactly the returned style under the requested key"""


def run(r, tier):
    cs = creations(r, ALL)
    for c in cs:
        traces(r, c)
