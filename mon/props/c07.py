from mon import ytypes as T
from mon.typecheck import Bench

TITLE = "A union value takes the first member type that admits it"
RULE = ("A case is a module of random unions of two to four member types (integers, strings, enumerations, decimals, booleans, "
        "bits, restricted and typedef'd), given 120 texts and numbers by every route; the type and value that is read back is "
        "compared with that of the first admitting member; distinct = distinct (verdict, route, value).")
COUNT = (700, 7000)
NEED = ["acceptances", "refusals"]


class U(T.UnionT):
    """also takes Python integers, which each member reads as it reads their text"""

    def canon(self, v):
        if isinstance(v, int) and not isinstance(v, bool):
            v = str(v)
        return T.UnionT.canon(self, v)

    def good(self, rng):
        v = self.value(rng)
        try:
            n = int(v)
        except ValueError:
            return v
        return n if str(n) == v and rng.random() < 0.4 and self.canon(v)[0] in ("int", "str") else v

    def bad(self, rng):
        for _ in range(30):
            v = rng.choice(self.members).bad(rng)
            if isinstance(v, (str, int)) and not isinstance(v, bool) and not self.accepts(v):
                return v
        return None


def gen(rng, td):
    t = T.UnionT.gen(rng)
    t.__class__ = U
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        p = T.Typedef(td(), t)
        t = U(t.members, p)
    return t


def case(rng, rec, tier):
    Bench(rng, rec, gen).run(120)
