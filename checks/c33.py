from checks.component import *

TECHNIQUE = """token terms of the attribute macros from summaries of their code, parsed as Rust and compared with the function they are put on;
summaries of their parsers and of the function that attaches a manager"""


def run(r, tier):
    generated(r, "generated")
    inputs(r, "input")
    for cfg in ("host", "release") if tier == "thorough" else ("host",):
        manager(r, "attach", cfg)
