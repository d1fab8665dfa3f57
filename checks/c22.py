from checks.life2 import *

TECHNIQUE = """what load_style_data registers for each entry, by abstract interpretation of the MIR in the host and browser views"""


def run(r, tier):
    for cfg in ("host", "wasm"):
        hydration(r, cfg)
