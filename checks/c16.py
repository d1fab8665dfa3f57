from checks.life import *
from checks.life2 import manager_handles

TECHNIQUE = """identity of every copy and reference of a manager, and provenance of every registry access, stored value and back reference in the outcomes of the public constructors"""


def run(r, tier):
    cs = creations(r, QUICK)
    for c in cs:
        managers(r, c)
    for cfg in QUICK:
        manager_handles(r, cfg)
