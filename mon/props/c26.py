from pyangbind.lib.xpathhelper import YANGPathHelperException

from mon import model as M, xph
from mon.drive import pystr
from mon.schema import Leaf, LeafList, List, data_children

TITLE = "Queries of the path helper give exactly the objects they describe"
RULE = ("A case is a random schema, a history on a tree with a path helper, and 80 queries in between: absolute and relative paths, as text and as lists, with any of the keys as "
        "predicates in each form that there is, with and without prefixes; what is found is compared by identity with the objects in the tree that the reference tree says; "
        "distinct = distinct (query, number of objects).")
COUNT = (200, 2400)
NEED = ["queries", "objects found", "queries that find nothing", "queries that find several", "relative queries", "unique lookups", "unique lookups refused", "lists found"]


def key_ok(t, v, c):
    return xph.key_ok(t, v, c) and t.kind not in ("decimal64", "boolean")


def case(rng, rec, tier):
    s = xph.world(rng, rec, own=("query",), two=rng.random() < 0.3, key_filter=key_ok, every=10**9,
                  gen=dict(depth=rng.choice([2, 3]), width=(2, 3), choices=0.15, lists=0.5, maxnodes=50, keykinds=["text", "text", "text", "string", "int8", "uint32", "enumeration", "uint64", "bits", "binary"]),
                  ops=dict(copy=0.4, unset_tree=0.6, delete=1.0, add=8, bad=0.5))
    for _ in range(8):
        for _ in range(8):
            s.step()
        for _ in range(10):
            query(s, rng, rec)


def query(s, rng, rec):
    # a walk in the schema, and the objects that it leads to
    start, up = s.m, 0
    parts = []
    at = [s.m]
    caller = None
    if rng.random() < 0.3:
        # relative: from an object of the tree up and down again
        o = s.pick((M.MLeaf, M.MTree, M.MLeafList))
        if o is None:
            return
        caller = s.live(o)._path()
        names = ancestors(o)
        up = rng.randint(0, len(names) - 1)
        x = names[-1 - up]
        if x is s.m:
            return
        at = [x]
        parts = [".."] * up or ["."]
        rec.obs("relative queries")
    node = at[0].node
    lastlist = None
    while True:
        kids = [c for c in data_children(node)]
        if not kids or (parts and parts[-1] not in ("..", ".") and rng.random() < 0.25):
            break
        n = rng.choice([c for c in kids if isinstance(c, List)] if rng.random() < 0.5 and any(isinstance(c, List) for c in kids) else kids)
        preds = None
        if isinstance(n, List):
            preds = predicates(n, at, s, rng)
        lastlist = (at, n) if isinstance(n, List) and not preds else None
        at = follow(at, n, preds)
        parts.append(text(n, preds, rng))
        node = n
        if isinstance(n, (Leaf, LeafList)):
            break
    if not parts or parts[-1] in (".", "..") and rng.random() < 0.7:
        return
    want = [s.live(m) for m in at]
    if parts[0] in (".", "..") or rng.random() < 0.3:
        path = "/".join(parts) if rng.random() < 0.6 else list(parts)
        if isinstance(path, str) and caller is None:
            path = "/" + path
    else:
        path = "/" + "/".join(parts)
    what = "%r%s" % (path, " from %r" % caller if caller else "")
    kw = {"caller": caller} if caller is not None else {}
    s.hist.append("look up %s" % what)
    keep = list(path) if isinstance(path, list) else None
    try:
        got = s.ph.get(path, **kw)
    except Exception as e:
        import traceback
        s.fail("query", "looking up %s failed: %s: %s\n%s" % (what, type(e).__name__, str(e)[:200], traceback.format_exc()[-700:]))
    if len(got) != len(want) or {id(x) for x in got} != {id(x) for x in want}:
        s.fail("query", "looking up %s gave %d objects, expected %d:\n %r\n %r" % (what, len(got), len(want), got, [(s.name(m), o) for m, o in zip(at, want)]))
    if keep is not None and keep != path:
        s.fail("query", "looking up %s changed the path to %r" % (keep, path))
    rec.obs("queries")
    rec.obs("objects found", len(got))
    rec.obs("queries that find nothing" if not got else "queries that find several" if len(got) > 1 else "queries that find one")
    rec.seen([p.split("[")[0] for p in parts], [p.count("[") for p in parts], len(got), up)
    # unique
    exc = rng.choice([YANGPathHelperException, KeyError, ValueError])
    kw2 = dict(kw)
    if exc is not YANGPathHelperException:
        kw2["exception_to_raise"] = exc
    try:
        r = s.ph.get_unique(path, **kw2)
    except Exception as e:
        if len(want) == 1:
            s.fail("query", "get_unique of %s failed: %s: %s" % (what, type(e).__name__, str(e)[:200]))
        if type(e) is not exc:
            s.fail("query", "get_unique of %s failed with %s, expected %s" % (what, type(e).__name__, exc.__name__))
        rec.obs("unique lookups refused")
    else:
        if len(want) != 1 or r is not want[0]:
            s.fail("query", "get_unique of %s gave %r, expected %r" % (what, r, want))
        rec.obs("unique lookups")
    if lastlist is not None and len(lastlist[0]) == 1:
        l = M.child(s.live(lastlist[0][0]), lastlist[1].name)
        if len(parts) < 2 and not caller or (parts[-2] in (".", "..") and lastlist[0][0] is s.m):
            return
        q = path
        if ":" in parts[-1]:
            return
        try:
            r = s.ph.get_list(q, **kw)
        except Exception as e:
            s.fail("query", "get_list of %s failed: %s: %s" % (what, type(e).__name__, str(e)[:200]))
        if r is not l:
            s.fail("query", "get_list of %s gave %r, expected %r" % (what, r, l))
        rec.obs("lists found")


def ancestors(m):
    out = []
    while m is not None:
        if not isinstance(m, M.MList):
            out.insert(0, m)
        m = m.parent
    return out


def follow(at, n, preds):
    out = []
    for m in at:
        k = m.kids.get(n.name)
        if isinstance(k, M.MList):
            for key, e in k.entries.items():
                d = {x.name: pystr(x.type, c) for x, c in zip(n.keynodes(), key)}
                if all(d[a] == b for a, b in preds or []):
                    out.append(e)
        elif k is not None:
            out.append(k)
    return out


def predicates(n, at, s, rng):
    """values for some of the keys: those of an entry, those of two entries, or others"""
    if rng.random() < 0.2:
        return None
    es = [(k, key) for m in at for k in [m.kids[n.name]] for key in k.entries]
    keys = list(n.keynodes())
    r = rng.random()
    if es and r < 0.8:
        a, b = rng.choice(es)[1], rng.choice(es)[1]
        vals = [rng.choice([x, y]) if r < 0.2 else x for x, y in zip(a, b)]
        vals = [pystr(k.type, c) for k, c in zip(keys, vals)]
    else:
        kv = s.keyvals(n)
        if kv is None:
            return None
        vals = [pystr(k.type, c) for k, (_, c) in zip(keys, kv)]
    out = [(k.name, v) for k, v in zip(keys, vals)]
    if len(out) > 1 and rng.random() < 0.3:
        out = rng.sample(out, rng.randint(1, len(out) - 1))
    rng.shuffle(out)
    return out


def text(n, preds, rng):
    name = n.name
    if rng.random() < 0.25:
        name = "%s:%s" % (rng.choice(["m", "aug", n.module.name if n.module else "m", "p-x"]), name)
    if not preds:
        return name
    out = []
    for k, v in preds:
        qs = [q for q in "'\"" if q not in v]
        q = rng.choice(qs)
        if v and all(c.isalnum() or c in "-_." for c in v) and rng.random() < 0.15:
            q = ""
        sp = rng.choice(["", "", "", " "])
        out.append("%s%s%s=%s%s%s%s" % (rng.choice(["", "", "@"]), rng.choice(["", "", "m:"]) + k, sp, sp, q, v, q))
    if rng.random() < 0.5:
        return name + "[" + " and ".join(out) + "]"
    return name + "".join("[%s]" % o for o in out)
