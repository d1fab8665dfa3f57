from lib import repo
from . import render
from . import life2 as life

TECHNIQUE = """decision table of the selector rendering without a class; class handed to the renderer on every creating and hydrating
path; both by abstract interpretation of the MIR"""


def run(r, tier):
    P = repo.program("host")
    render.check_selector(r, P, "selector-global", False)
    for c in life.creations(r, life.QUICK):
        life.rendering(r, c)
    life.hydration(r, "host")
