import pyangbind.lib.pybindJSON as J

from mon import encode, hist, model as M
from mon.model import attrs, child

TITLE = "The keys of a list entry cannot be changed"
RULE = ("A case is a schema of lists and a history of 60 operations in which every third tries to change a key of an entry, by "
        "attribute and by setter, with its own and with other values, on entries that were added, appended and loaded; "
        "the refusal, the entry and the key it is found under are compared with the reference list; distinct = distinct (operation, node).")
COUNT = (220, 1800)
NEED = ["operations", "refused operations", "snapshots compared"]


def case(rng, rec, tier):
    s = hist.world(rng, rec, value_filter=encode.rt_value, own=("accepted", "failed-op-effect", "wrong-error", "lookup"), flags=[],
                   gen=dict(lists=0.6, containers=0.15, multikey=0.4, choices=0.1, presence=0, keyless=0.0,
                            keykinds=["string", "int8", "uint8", "int32", "enumeration", "uint64", "boolean", "decimal64"]),
                   ops=dict(add=8, delete=1, lookup=1, set=2, addbad=0.3, bad=0.3, present=0, keyset=8, ll=0.5, unset_tree=0.3))
    s.run(60)
    s.tidy()
    if rng.random() < 0.5:
        o = J.loads(J.dumps(s.root, filter=True), s.b, "m")
        how = "loaded from JSON"
    else:
        o = J.loads_ietf(J.dumps(s.root, filter=True, mode="ietf"), s.b, "m")
        how = "loaded from IETF JSON"
    walk(s, s.m, o, how)


def walk(s, m, o, how):
    for k in m.kids.values():
        if isinstance(k, M.MTree):
            walk(s, k, child(o, k.node.name), how)
        elif isinstance(k, M.MList):
            l = child(o, k.node.name)
            es = list(l.values())
            if len(es) != len(k.entries):
                continue        # another property
            for key, me, e in zip(k.entries, k.entries.values(), es):
                for n, c in zip(k.node.keynodes(), key):
                    v = n.type.good(s.rng)
                    where = "key %s of the entry %r of %s, %s" % (n.name, key, s.name(k), how)
                    s.rec.obs("keys of loaded entries")
                    try:
                        M.setter(e, n.name)(v)
                    except AttributeError:
                        pass
                    else:
                        s.fail("accepted", "%s: was set to %r" % (where, v))
                    if n.type.read(child(e, n.name)) != c:
                        s.fail("failed-op-effect", "%s: became %r" % (where, child(e, n.name)))
                    if not child(e, n.name)._is_keyval:
                        s.fail("lookup", "%s: does not say that it is a key" % where)
                walk(s, me, e, how)
