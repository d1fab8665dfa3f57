from checks.life2 import *

TECHNIQUE = """type closure of the style data (no interior mutability), pair construction, consumption of the reader, and copy-on-write access only"""


def run(r, tier):
    snapshots(r)
