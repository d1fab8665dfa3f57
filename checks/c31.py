from checks.hygiene import *

TECHNIQUE = """scope analysis of the generated code: token terms of every template from summaries of the macro code, every identifier judged by
where it stands, names a group brings into scope against the user code inside it (cleared only by the kinds the path condition bounds)"""


def run(r, tier):
    templates(r, "names")
    forms(r, "forms")
