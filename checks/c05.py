from lib import repo
from . import render

TECHNIQUE = "path-sensitive MIR summaries (abstract interpretation) compared with decision tables"


def run(r, tier):
    P = repo.program("host")
    C = render.Ctx(P)
    render.check_new(r, P, C, "context", [C.rules, C.sel])
    render.check_children(r, P, C, "context", [C.rules, C.sel])
    render.check_block(r, P)
    render.check_rule(r, P)
