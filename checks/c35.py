from checks.yew import *

TECHNIQUE = """outcome table of the component up to Yew's hooks; keys of its memo, outcomes of the closure it keeps, Drop of the value kept,
by abstract interpretation of the MIR"""


def run(r, tier):
    for cfg in ["host", "yew", "wasm"] + (["release"] if tier == "thorough" else []):
        global_component(r, cfg)
