from checks.identity import identity
from checks.life import *

TECHNIQUE = """type closure of the registry key; for every type in it, the outcome tables of == (every field of equal kinds is compared)
and hash (only compared fields are hashed), by abstract interpretation of the MIR; provenance of the key's parts in every constructor"""


def run(r, tier):
    identity(r, "host")
    cs = creations(r, ["host"])
    for c in cs:
        for w in c.rows:
            for M, K, _ in w.look:
                key_value(r, "key", c, K)
    sharing(r, cs)
