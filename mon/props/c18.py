from mon import hist, model as M
from mon.model import attrs
from mon.schema import Leaf, List, all_nodes

TITLE = "Operational data cannot be assigned like configuration"
RULE = ("A case is a schema with config true and config false statements at every level and a history of 60 operations; for nodes "
        "of all kinds plain assignment and deletion are tried: they are refused exactly where the node or one above it is config false and nothing "
        "changes, and backends can populate the same node with its setter method; distinct = distinct (kind, config, depth, state).")
COUNT = (200, 2600)
NEED = ["assignments refused", "assignments carried out", "populated by the setter", "deletions refused"]


def case(rng, rec, tier):
    s = hist.world(rng, rec, own=("config",), gen=dict(config_false=0.3, depth=3, containers=0.45, choices=0.15), ops=dict(bad=0.5), every=4)
    for _ in range(12):
        for _ in range(5):
            s.step()
        for _ in range(6):
            probe(s, rec)
    s.run(0)


def depth(m):
    n = 0
    while m.parent is not None:
        m, n = m.parent, n + 1
    return n


def probe(s, rec):
    rng = s.rng
    m = s.pick((M.MLeaf, M.MLeafList, M.MTree, M.MList), lambda m: not M.is_entry(m) and not (isinstance(m, M.MLeaf) and s.is_key(m)))
    if m is None:
        return
    o = s.live(m.parent)
    a = attrs(o)[m.node.name]
    rw = m.node.rw
    if bool(getattr(o, a)._is_config) != rw:
        s.fail("config", "%s says it is config %s" % (s.name(m), getattr(o, a)._is_config))
    kind = type(m.node).__name__
    rec.seen(kind, rw, depth(m), m.node.config)

    def delete():
        delattr(o, a)

    try:
        delete()
    except AttributeError:
        rec.obs("deletions refused")
    except NotImplementedError:
        rec.obs("deletions refused")
    else:
        s.fail("config", "%s could be deleted as an attribute" % s.name(m))
    if isinstance(m, (M.MTree, M.MList)):
        # as a whole: only what is the same kind of thing can be assigned, and here no more than refusal is judged
        if not rw:
            refused(s, rec, o, a, getattr(type(o)(), a) if rng.random() < 0.5 else "x", m)
        return
    t = m.node.type
    v = [s.value(t)] if isinstance(m, M.MLeafList) else s.value(t)
    if isinstance(m, M.MLeafList) and t.kind == "string" and not isinstance(v[0], str):
        return
    if not rw:
        refused(s, rec, o, a, v, m)
        if rng.random() < 0.5:
            s.do("populate %s with %r" % (s.name(m), v), lambda: getattr(o, "_set_" + a)(v))
            rec.obs("populated by the setter")
        else:
            return
    else:
        try:
            setattr(o, a, v)
        except Exception as e:
            s.fail("config", "%s is config true but %r cannot be assigned: %s: %s" % (s.name(m), v, type(e).__name__, e))
        rec.obs("assignments carried out")
    if isinstance(m, M.MLeafList):
        M.set_leaflist(m, [t.canon(x) for x in v])
    else:
        M.set_leaf(m, t.canon(v))
    got = getattr(o, a)
    if ([t.read(i) for i in got] if isinstance(m, M.MLeafList) else t.read(got)) != (m.vals if isinstance(m, M.MLeafList) else m.val):
        s.fail("config", "%s was set to %r but holds %r" % (s.name(m), v, got))


def refused(s, rec, o, a, v, m):
    s.hist.append("assign %s = %r" % (s.name(m), v))
    try:
        setattr(o, a, v)
    except AttributeError:
        rec.obs("assignments refused")
    except Exception as e:
        s.fail("config", "%s is config false, assigning to it gave %s: %s" % (s.name(m), type(e).__name__, e))
    else:
        s.fail("config", "%s is config false and could be assigned %r" % (s.name(m), v))
    d = M.diff(M.snap(s.m), M.observe_tree(s.schema, s.root))
    if d:
        s.fail("config", "the refused assignment to %s: %s" % (s.name(m), d))
