from checks.locks import reentry

TECHNIQUE = """MIR dataflow: guards that may be held at each call and drop, against the interprocedural effects (locks and borrows) of
what runs there: callees, closures, destructors, trait implementations picked by bounds, lazy initialisers; order of acquisition acyclic"""
NOTE = ""


def run(r, tier):
    for cfg in ("host", "wasm") if tier == "quick" else ("host", "release", "norandom", "wasm"):
        reentry(r, cfg)
