from lib import repo
from . import render

TECHNIQUE = "path-sensitive MIR summaries of StyleContext::start/finish matched against an open/close automaton specification"


def run(r, tier):
    P = repo.program("host")
    C = render.Ctx(P)
    render.check_open_close(r, P, C, "open-close")
    render.check_new(r, P, C, "context", [C.parent, C.open, C.rules])
    render.check_children(r, P, C, "context", [C.parent, C.open, C.rules])
    render.check_attr(r, P)
    render.check_block(r, P)
    render.check_rule(r, P)
