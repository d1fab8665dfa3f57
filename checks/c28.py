from checks import astconv, inline, literal, macros

TECHNIQUE = """explored token ledger of every parser of the inline form; summaries of every conversion of the parsed nodes and of the
generated builders compared with structure-preserving forms; outcome tables of the conversions the generated code calls"""


def run(r, tier):
    literal.conversion(r, "literal form")
    macros.built(r, "generated code")
    inline.parsing(r, "tokens")
    inline.deciding(r, "kinds")
    inline.stream(r, "stream")
    inline.gathering(r, "order", None)
    inline.conversions(r, "nodes", None)
    astconv.conversions_kept(r, "host", "conversions")
