from mon import ytypes as T
from mon.typecheck import Bench

TITLE = "Integer nodes hold exactly the values their type admits"
RULE = ("A case is a module of random integer types (all eight kinds, behind up to three typedefs, each level with a range of "
        "its own of one or several parts, min/max included), given 120 values by assignment, setter, leaf-list operation, list "
        "key and JSON; distinct = distinct (verdict, kind, route, value).")
COUNT = (600, 8000)
NEED = ["acceptances", "refusals"]


def gen(rng, td):
    return T.gen_type(rng, list(T.INTS), tdname=td, depth=rng.choice([0, 0, 1, 1, 1, 2, 2, 3]))


def case(rng, rec, tier):
    Bench(rng, rec, gen).run(120)
