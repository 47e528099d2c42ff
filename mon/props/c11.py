from mon import hist, model as M
from mon.schema import LeafList, Leaf, List

TITLE = "What has been set, and only that, is reported as changed"
RULE = ("A case is a random schema and a history of 60 operations; after each one the change flag of every leaf, leaf-list, list, entry "
        "and container is compared with the history, and get(filter=True) and get() are compared with what is set and "
        "with the schema; distinct = distinct (operation, kind of node, value).")
COUNT = (200, 1800)
NEED = ["operations", "snapshots compared", "filtered gets", "full gets"]


def cmp(node, s, got, path, full):
    """s: a snapshot; got: what get() gave"""
    for n in M.data_children(node):
        x = s[3][n.name]
        p = "%s/%s" % (path, n.name)
        if not full and not shown(x):
            if n.name in got:
                return "%s: has not been set, but is there: %r" % (p, got[n.name])
            continue
        if n.name not in got:
            return "%s: is missing" % p
        g = got[n.name]
        if isinstance(n, LeafList):
            if [n.type.read(i) for i in g] != x[2]:
                return "%s: %r, expected %r" % (p, g, x[2])
        elif isinstance(n, Leaf):
            if x[1] and n.type.read(g) != x[2]:
                return "%s: %r, expected %r" % (p, g, x[2])
        elif isinstance(n, List):
            if len(g) != len(x[2]):
                return "%s: has %d entries, expected %d" % (p, len(g), len(x[2]))
            for (k, e), v in zip(x[2], g.values()):
                d = cmp(n, e, v, "%s[%s]" % (p, k), full)
                if d:
                    return d
        else:
            d = cmp(n, x, g, p, full)
            if d:
                return d
    extra = set(got) - {n.name for n in M.data_children(node)}
    if extra:
        return "%s: has what is not in the schema: %r" % (path, sorted(extra))
    return None


def shown(x):
    """whether something of a snapshot is set: containers of nothing are left out"""
    if x[0] == "leaf":
        return x[1]
    if x[0] == "leaf-list":
        return x[1] and bool(x[2])
    if x[0] == "list":
        return bool(x[2])
    return bool(x[2]) or any(shown(k) for k in x[3].values())


def case(rng, rec, tier):
    s = hist.world(rng, rec, own=("changed", "failed-op-effect", "state"), gen=dict(choices=0.25, presence=0.25), every=1)
    for _ in range(6):
        for _ in range(10):
            s.step()
        o = rng.choice([s.m] + s.nodes(M.MTree))
        live = s.live(o)
        snap = M.snap(o)
        for full in (False, True):
            rec.obs("full gets" if full else "filtered gets")
            d = cmp(o.node, snap, live.get(filter=not full), s.name(o), full)
            if d:
                s.fail("changed", "get(filter=%s) of %s: %s" % (not full, s.name(o) or "/", d))
        s.check()
    s.run(0)
