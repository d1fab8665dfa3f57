from checks.life2 import *

TECHNIQUE = """DOM calls of every creating path and of dropping a style in the browser view, by abstract interpretation of the MIR"""


def run(r, tier):
    for c in creations(r, ["wasm"]):
        mounting(r, c)
    unmounting(r)
