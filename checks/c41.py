from checks.life2 import *

TECHNIQUE = """summaries of the accessors and clones of the handles and ids by abstract interpretation of the MIR"""


def run(r, tier):
    for cfg in ("host", "wasm"):
        handles(r, cfg)
