from checks.life2 import *

TECHNIQUE = """outcome tables of unregister and drop by abstract interpretation of the MIR (identity test, keys removed, elements removed); ownership
queries over the type definitions and call graph (reference counts, Clone, leaks, strong references)"""


def run(r, tier):
    for cfg in ("host", "wasm"):
        unregistering(r, cfg)
        ownership(r, cfg)
    unmounting(r)
