from checks.features import check

TECHNIQUE = """compile witness: rustc's type check of the crate and of a program using what each feature promises, for selections of
features, in a user's debug and release build and in the browser's view"""
NOTE = "Each listed selection is decided by the compiler; quick: none, default, each alone, all, all but one; thorough: every selection, up to what features imply."


def run(r, tier):
    check(r, tier)
