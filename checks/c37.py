from checks.yew import *

TECHNIQUE = """outcome table of the component up to Yew's hooks; the data it transfers, its effect on the manager compared with that of
load_style_data, and the virtual node, by abstract interpretation of the MIR"""


def run(r, tier):
    for cfg in ["yew", "host"] + (["wasm", "release"] if tier == "thorough" else []):
        provider(r, cfg)
