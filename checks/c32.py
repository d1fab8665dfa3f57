from checks.yew import *

TECHNIQUE = """enumeration of every conversion into classes or style sources; outcome table of each, by abstract interpretation of the MIR:
manager, registry key and class of the style, parse result"""


def run(r, tier):
    for cfg in ["host", "release", "yew"] + (["wasm"] if tier == "thorough" else []):
        n, fields = conversion_rules(r, cfg)
        r.floor("conversions into classes (%s)" % cfg, sum(v for k, v in n.items() if k[1] == "Classes"), 4)
        r.floor("conversions into style sources (%s)" % cfg, sum(v for k, v in n.items() if k[1] == "StyleSource"), 9)
        r.check(cfg in ("host", "wasm",) or len(fields) == 2, "location", cfg,
                "style sources carry %s in a build without debug locations" % [f["name"] for f in fields])
        attaching(r, cfg)
        use_style(r, cfg)
