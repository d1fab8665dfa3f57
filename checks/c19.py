from checks.life2 import *

TECHNIQUE = """summaries of the builder setters, defaults, build and accessors by abstract interpretation of the MIR, in the host and browser views"""


def run(r, tier):
    for cfg in ("host", "wasm"):
        configuration(r, cfg)
