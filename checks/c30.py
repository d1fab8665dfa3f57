from checks import spacing

TECHNIQUE = """total table of the spacing rule over the token classes; fixpoint of the spacing iterator's states next to a monitor of its
specification; printed form of each token; exploration of the identifier parser next to a maximal-munch
monitor; decision table of what each token is read as"""


def run(r, tier):
    spacing.table(r, "table")
    spacing.transducer(r, "sequence")
    spacing.texts(r, "text")
    spacing.joining(r, "identifiers")
    spacing.kinds_of_tokens(r, "kinds of tokens")
    spacing.used(r, "use")
