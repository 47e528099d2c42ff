from mon import ytypes as T
from mon.typecheck import Bench

TITLE = "decimal64 nodes hold exactly the values on their scale and in their range"
RULE = ("A case is a module of random decimal64 types (one to eighteen fraction digits, ranges of one or several parts on each of "
        "up to three typedef levels), given 120 values as Decimal and text, boundary values included, by every route; distinct = "
        "distinct (verdict, route, value).")
COUNT = (800, 8000)
NEED = ["acceptances", "refusals"]


def gen(rng, td):
    return T.gen_type(rng, ["decimal64"], tdname=td, depth=rng.choice([0, 0, 1, 1, 2]))


def case(rng, rec, tier):
    Bench(rng, rec, gen).run(120)
