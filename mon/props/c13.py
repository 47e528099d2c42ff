from mon import hist, model as M
from mon.model import attrs, child
from mon.drive import pystr

TITLE = "A list holds one entry per key value, in order"
RULE = ("A case is a schema of lists (one to three keys of all kinds, nested, keyless) and a history of 80 operations, most of them "
        "additions, deletions and look-ups by text, value, keyword and position; after each one keys, order and "
        "contents are compared with the reference list; distinct = distinct (operation, kinds of keys, number of entries).")
COUNT = (220, 2000)
NEED = ["operations", "lookups", "snapshots compared", "entries appended", "looked up by keyword"]


def append(s):
    """an entry that was made outside of the list"""
    rng = s.rng
    m = s.pick(M.MList, lambda m: m.node.keys)
    if m is None or len(m.entries) > 5:
        return
    kv = s.keyvals(m.node)
    if kv is None or tuple(c for _, c in kv) in m.entries:
        return
    l = s.live(m)
    o = l._new_item()
    plain = [n for n in M.data_children(m.node) if type(n).__name__ == "Leaf" and n.name not in m.node.keys and not n.choice]
    more = [(n, s.value(n.type)) for n in rng.sample(plain, min(len(plain), rng.randint(0, 2)))]

    def f():
        for n, (v, c) in zip(m.node.keys, kv):
            M.setter(o, n)(v)
        for n, v in more:
            M.setter(o, n.name)(v)
        l.append(o)

    s.do("append an entry of %r and %r to %s" % ([v for v, _ in kv], [(n.name, v) for n, v in more], s.name(m)), f)
    e = M.add_entry(m, tuple(c for _, c in kv))
    for n, v in more:
        k = e.kids[n.name]
        M.set_leaf(k, n.type.canon(v))
    s.rec.obs("entries appended")
    s.check()


def item(s):
    """by keywords"""
    m = s.pick(M.MList, lambda m: m.node.keys and m.entries)
    if m is None:
        return
    l = s.live(m)
    key = s.rng.choice(list(m.entries))
    names = [attrs(l._new_item())[k] for k in m.node.keys]
    kw = dict(zip(names, [pystr(n.type, c) for n, c in zip(m.node.keynodes(), key)]))
    s.rec.obs("looked up by keyword")
    if l._item(**kw) is not l[s.keytext(m, key)]:
        s.fail("lookup", "%s does not yield its entry for %r" % (s.name(m), kw))


def case(rng, rec, tier):
    s = hist.world(rng, rec, own=("lookup", "state", "refused", "accepted", "failed-op-effect", "wrong-error"), flags=[],
                   gen=dict(lists=0.6, containers=0.15, multikey=0.45, choices=0.05, presence=0, config_false=0.05, keyless=0.12,
                            keykinds=["string", "int8", "uint8", "int32", "enumeration", "uint64", "int64", "boolean", "decimal64", "keyunion"]),
                   ops=dict(add=12, delete=3, lookup=3, set=2, addbad=1.5, bad=0.3, present=0, ll=0.5))
    for _ in range(8):
        for _ in range(8):
            s.step()
        append(s)
        item(s)
    s.run(2)
