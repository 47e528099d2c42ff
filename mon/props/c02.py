from mon import ytypes as T
from mon.typecheck import Bench

TITLE = "String nodes hold exactly the texts their lengths and patterns admit"
RULE = ("A case is a module of random string types (lengths of one or several parts and up to two patterns per level, behind up "
        "to three typedefs), given 120 texts (samples of the patterns, their mutations, boundary lengths, control and non-ASCII "
        "characters) by every route; distinct = distinct (verdict, route, text).")
COUNT = (800, 8000)
NEED = ["acceptances", "refusals"]
ASSUMPTIONS = ["patterns are from a generated subset of XSD regular expressions, matched by the harness's own matcher"]


def gen(rng, td):
    return T.gen_type(rng, ["string"], tdname=td, depth=rng.choice([0, 0, 1, 1, 1, 2, 2, 3]))


def case(rng, rec, tier):
    Bench(rng, rec, gen).run(120)
