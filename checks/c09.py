from checks.parse import *

TECHNIQUE = """call-graph reachability of panicking constructs from parsing and rendering, each shown unreachable by abstract interpretation of the MIR;
left-recursion and empty-repetition analysis of the extracted grammar; every loop consumes a finite iterator or counts"""


def run(r, tier):
    for cfg in ("host", "release"):
        total(r, cfg)
        for what in ("sheet", "fstr"):
            progress(r, cfg, what)
