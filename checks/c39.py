from checks.shared import check

TECHNIQUE = """type queries: closure of the sheet's types, auto traits as the compiler decides them, unsafe blocks, signatures with mutable access;
outcomes of Clone by abstract interpretation of the MIR"""


def run(r, tier):
    for cfg in ["host", "norandom", "nodebugparser", "wasm"] + (["yew", "release"] if tier == "thorough" else []):
        check(r, cfg)
