from mon import ytypes as T
from mon.schema import Identity, Module
from mon.typecheck import Bench

TITLE = "identityref nodes hold exactly the identities derived from their base"
RULE = ("A case is three modules with a random forest of identities (deep chains, several bases, derivations in other modules, identities of one name in two, "
        "import prefixes different from the modules' own) and identityref leaves, leaf-lists and keys on random bases, given "
        "100 values with and without prefixes; distinct = distinct (verdict, route, value).")
COUNT = (800, 8000)
NEED = ["acceptances", "refusals"]


def forest(rng, mods):
    ids = []
    for i in range(rng.randint(5, 12)):
        m = rng.choice(mods)
        bases = []
        for b in rng.sample(ids, min(len(ids), rng.choice([0, 1, 1, 1, 2] if i > 1 else [0]))):
            if b.module is m or b.module in m.imports:
                bases.append(b)
        if len(bases) > 1:
            m.version = "1.1"
        # two modules may have identities of one name
        again = [y.name for y in ids if y.module is not m and y.name not in [z.name for z in m.identities]]
        x = Identity(m, rng.choice(again) if again and rng.random() < 0.25 else rng.choice(["ID%d", "id-%d", "x%d.y", "T_%d"]) % i, bases)
        m.identities.append(x)
        ids.append(x)
    for x in ids:
        d = x.derived()
        x.others = [y.name for y in ids if y not in d and y is not x and y.name not in [z.name for z in d]]
    return [x for x in ids if x.derived()]


def modules(rng, m):
    a, b = Module("base-a", rng.choice(["a", "base-a"])), Module("b", rng.choice(["b", "pb"]))
    used = {"a", "base-a", "b", "pb", "m"}
    b.add_import(a, rng.choice([None, "ia"]))
    m.add_import(a, rng.choice([None, "ja"]))
    m.add_import(b, rng.choice([None, "jb"]))
    mods = [a, b, m]
    roots = []
    while not roots:
        for x in mods:
            x.identities = []
        roots = [r for r in forest(rng, mods)]
    if any(x.version for x in mods):
        for x in mods:
            x.version = "1.1"
    return [a, b], roots


def case(rng, rec, tier):
    state = {}

    def extra(m):
        mods, state["roots"] = modules(rng, m)
        state["m"] = m
        return mods

    def gen(rng, td):
        r = rng.choice(state["roots"])
        m = state["m"]

        # with several bases the first one decides, as the project's tests have it (see DESIGN.md)
        return T.IdentityT(r, r.name if r.module is m and rng.random() < 0.6 else "%s:%s" % (m.prefix_of(r.module), r.name))

    Bench(rng, rec, gen, extra=extra).run(100)
