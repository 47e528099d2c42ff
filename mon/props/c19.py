import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J

from mon import encode as E, hist, model as M

TITLE = "pyangbind's JSON holds what is set and loads back into the same tree"
RULE = ("A case is a schema over several modules (all types, augmentations, keyless and user-ordered lists, choices, presence) and a history of 60 operations; at "
        "intervals the JSON of the set data is compared with the reference document and loaded into a new tree, which is compared "
        "with the reference tree; distinct = distinct documents.")
COUNT = (170, 2200)
NEED = ["documents compared", "documents loaded"]
ASSUMPTIONS = ["decimals that are not exact as floats are kept out: this format writes floats"]


def value_ok(t, v):
    return E.rt_value(t, v)


def case(rng, rec, tier):
    s = hist.world2(rng, rec, own=("doc", "load"), gen=dict(depth=rng.choice([2, 3]), width=(2, 4), maxnodes=60), idkeys=0.15, every=10**9, bad=False, ops=dict(grow=0.3), value_filter=value_ok)
    for _ in range(4):
        for _ in range(15):
            s.step()
        s.tidy()
        one(s, rec)


def one(s, rec):
    snap = M.snap(s.m)
    text = J.dumps(s.root, filter=True)
    doc = json.loads(text, object_pairs_hook=OrderedDict)
    d = E.cmp_default(E.default_doc(s.schema, snap), doc)
    if d:
        s.fail("doc", "the JSON of the tree: %s\n%s" % (d, text[:3000]))
    rec.obs("documents compared")
    rec.seen(text)
    whole = J.dumps(s.root, filter=False)
    d = everything(s.m, json.loads(whole, object_pairs_hook=OrderedDict), "default")
    if d:
        s.fail("doc", "the JSON of the tree with all that is unset: %s\n%s" % (d, whole[:3000]))
    rec.obs("documents compared")
    how = s.rng.choice(["text", "object", "plain object"])
    n = J.loads(text if how == "text" else doc if how == "object" else json.loads(text), s.b, "m")
    same(s, rec, n, "the JSON of the tree (as %s)" % how, text)
    return n


def same(s, rec, n, what, text=""):
    want, got = M.only_set(M.snap(s.m)), M.only_set(M.observe_tree(s.schema, n))
    rec.obs("documents loaded")
    if want is None or got is None:
        d = None if want is got else "one of the trees holds nothing: %r, %r" % (want, got)
    else:
        d = M.diff(want, got)
    if d:
        s.fail("load", "loading %s: %s\n%s" % (what, d, text[:3000]))
    # and what is loaded can be asked for its entries
    walk_keys(s, s.m, n, what)


def everything(m, got, mode):
    from mon.props.c23 import everything as f
    return f(m, got, mode)


def walk_keys(s, m, o, what):
    for k, v in m.kids.items():
        c = M.child(o, k)
        if isinstance(v, M.MList) and v.node.keys:
            for key in v.entries:
                t = s.keytext(v, key)
                if t not in c:
                    s.fail("load", "after loading %s, %s has no entry %r, only %r" % (what, s.name(v), t, list(c.keys())))
                walk_keys(s, v.entries[key], c[t], what)
        elif isinstance(v, M.MTree):
            walk_keys(s, v, c, what)
