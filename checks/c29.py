from checks import inline

TECHNIQUE = """token ledger extended with the errors each parser found; summaries of every conversion projected on the error list; outcome
tables of each validation and of the entry point"""


def run(r, tier):
    inline.parsing(r, "tokens")
    inline.stream(r, "stream")
    inline.gathering(r, None, "kept")
    inline.conversions(r, None, "kept")
    inline.validation(r, "raised")
    inline.unsupported(r, "unsupported")
    inline.reporting(r, "reported")
