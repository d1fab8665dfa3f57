from checks.life2 import *

TECHNIQUE = """the text and order of the writes of write_static_markup, and what follows a failed write, by abstract interpretation of the MIR"""


def run(r, tier):
    markup(r)
