from checks.wire import check

TECHNIQUE = """comparison of write and read shapes of every Serialize/Deserialize pair, by abstract interpretation of the (derived and
hand-written) implementations up to serde's data model, plus a call-graph query for the fields left out"""


def run(r, tier):
    for cfg in ["host", "wasm"] + (["yew", "release"] if tier == "thorough" else []):
        types = check(r, cfg)
        r.floor("types written and read (%s)" % cfg, len(types), 10)
        r.check("StyleData" in types, "pairs", "StyleData", "StyleData is not serialised and read back in configuration %s" % cfg)
