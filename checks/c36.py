from checks.yew import *

TECHNIQUE = """outcome tables of the hooks up to Yew's own hooks; of the initial state, the effect keyed by the query, its listener and its end,
by abstract interpretation of the closures in the MIR"""


def run(r, tier):
    for cfg in ["host", "yew", "wasm"]:
        media_hook(r, cfg, "use_media_query", False)
        media_hook(r, cfg, "use_prepared_media_query", True)
