"""What the properties about histories share: a random schema, its bindings, and a monitored session."""
from . import build, model as M, schema
from .drive import Session

ALLK = ["string", "int8", "uint8", "int32", "uint64", "int64", "uint16", "decimal64", "boolean", "enumeration", "bits", "binary",
        "empty", "union"]
SIMPLE = ["string", "uint8", "int32", "boolean", "enumeration"]


def world(rng, rec, own=None, gen=None, flags=None, alter=None, **kw):
    o = dict(keyless=0.1, presence=0.2, config_false=0.1)
    o.update(gen or {})
    g = schema.Gen(rng, **o)
    m = g.module()
    for _ in range(20):
        n = sum(1 for _ in schema.all_nodes(m))
        if 0 < n <= g.o["maxnodes"]:
            break
        m = g.module()
    fl = ["--presence"] if flags is None else list(flags)
    if alter is not None:
        alter(m)
    rec.sample(m.text()[:1500])
    b = build.build([m.text()], fl)
    s = Session(rng, rec, m, b.m(), own=own, **kw)
    s.b, s.flagset, s.mod = b, fl, m
    return s


def reset_model(s):
    s.m = M.MTree(s.schema)
    s.hist = []


def world2(rng, rec, own=None, gen=None, flags=None, idkeys=0.0, augments=2, **kw):
    """a module that another one augments, with identities from two more"""
    from .props import c05
    o = dict(keyless=0.1, presence=0.2, config_false=0.1)
    o.update(gen or {})
    g = schema.Gen(rng, **o)
    for _ in range(30):
        m = g.module()
        n = sum(1 for _ in schema.all_nodes(m))
        if 0 < n <= g.o["maxnodes"]:
            break
    mods, roots = c05.modules(rng, m)
    by = schema.Module("aug", rng.choice(["aug", "ag"]))
    by.add_import(m, rng.choice([None, "mm"]))
    for x in mods:
        by.add_import(x, rng.choice([None, "k" + x.prefix]))
    schema.augment(rng, g, m, by, augments)
    schema.identities(rng, m, roots, keys=idkeys)
    # what aug adds is found in m's tree
    def walk(nodes):
        for n in nodes:
            if n.module is by and isinstance(n, schema.Leaf) and rng.random() < 0.2 and not is_key(n, m):
                r = rng.choice([r for r in roots if r.module is not m] or [None])
                if r is not None:
                    n.type = schema.identityref(rng, by, r)
                    n.default = None
            walk(n.children)

    walk(m.children)
    fl = ["--presence"] if flags is None else list(flags)
    if rng.random() < 0.3:
        by.submodule = rng.choice(["aug-sub", "a0", "zsub"])
    texts = [t for x in [m, by] + mods for t in x.texts()]
    rec.sample("\n".join(texts)[:2500])
    b = build.build(texts, fl)
    s = Session(rng, rec, m, b.m(), own=own, **kw)
    s.b, s.flagset, s.mod, s.by = b, fl, m, by
    s.texts = texts
    return s


def is_key(n, root):
    for x in schema.all_nodes(root):
        if isinstance(x, schema.List) and n in x.keynodes():
            return True
    return False
