from lib import repo
from . import render

TECHNIQUE = "decision-table summary of Selector rendering, class name flow through contexts"


def run(r, tier):
    P = repo.program("host")
    render.check_selector(r, P, "selector-scoped", True)
    render.check_fragment(r, P)
    C = render.Ctx(P)
    render.check_block(r, P)
    render.check_new(r, P, C, "class-flow", [C.cls])
    render.check_children(r, P, C, "class-flow", [C.cls])
    render.check_entry(r, P)
