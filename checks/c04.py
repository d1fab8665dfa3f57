from lib import repo
from . import render

TECHNIQUE = "path-sensitive MIR summaries (abstract interpretation) compared with decision tables"


def run(r, tier):
    P = repo.program("host")
    render.check_fragment(r, P)
    render.check_attr(r, P)
    render.check_block(r, P)
    render.check_rule(r, P)
    render.check_enum(r, P, "ScopeContent")
    render.check_enum(r, P, "RuleBlockContent")
    render.check_sheet(r, P)
    render.check_entry(r, P)
