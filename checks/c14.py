from checks.life import *

TECHNIQUE = """symbolic value of the id, class name and text of every created style, computed by abstract interpretation of the MIR of the
public constructors in the random and the counter configuration"""


def run(r, tier):
    cs = creations(r, ALL)
    for c in cs:
        ids(r, c)
