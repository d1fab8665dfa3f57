from checks import randomness
from checks.life import *

TECHNIQUE = """symbolic value of the id of every created style, computed by abstract interpretation of the MIR; its random bits counted from the
draws it is made of (function of the generator, number of repetitions), a draw used twice counted once"""
NOTE = "trusts fastrand's generator to be uniform and seeded per process and thread"


def run(r, tier):
    n = 0
    for c in creations(r, [x for x in ALL if x != "norandom"] if isinstance(ALL, (list, tuple)) else ALL):
        n += 1
        randomness.counted(r, c)
    r.floor("ways to create a style", n, 8)
