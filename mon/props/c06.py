from mon import ytypes as T
from mon.typecheck import Bench

TITLE = "Boolean, empty and binary nodes hold exactly their values"
RULE = ("A case is a module of boolean, empty and binary leaves (binary with lengths on up to three typedef levels), given 100 "
        "values by every route; distinct = distinct (verdict, kind, route, value).")
COUNT = (800, 8000)
NEED = ["acceptances", "refusals"]


def gen(rng, td):
    return T.gen_type(rng, ["boolean", "binary", "binary", "empty"], tdname=td)


def case(rng, rec, tier):
    b = Bench(rng, rec, gen)
    b.lls = [l for l in b.lls if l.type.kind != "empty"]
    b.run(100)
