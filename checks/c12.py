from checks.identity import identity
from checks.life import *

TECHNIQUE = """outcome tables of every public constructor, computed by abstract interpretation of the MIR: a registry hit returns the
registered value and has no other effect; a miss registers under the key that was looked up;
outcome tables of == and hash of every type the key is made of"""


def run(r, tier):
    cs = creations(r, QUICK)
    for c in cs:
        hits(r, c)
    sharing(r, cs)
    identity(r, "host")
