import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J

from mon import encode as E, hist, model as M

TITLE = "IETF JSON has the shape that RFC 7951 prescribes"
RULE = ("A case is a schema over several modules (all types, augmentations, identities of other modules, keyless lists, choices, presence) and a history of 60 operations; "
        "at intervals the IETF JSON of the tree and of nodes in it is compared member by member with the reference document: names and where they are "
        "qualified, representation of each type, order of entries, nothing unset; distinct = distinct documents.")
COUNT = (170, 2200)
NEED = ["documents compared", "parts compared", "scalars compared"]


def case(rng, rec, tier):
    s = hist.world2(rng, rec, own=("doc",), gen=dict(depth=rng.choice([2, 3]), width=(2, 4), maxnodes=60), idkeys=0.15, every=10**9, bad=False, ops=dict(grow=0.3),
                    value_filter=lambda t, v: t.kind != "union" or t.stable(v))
    for _ in range(6):
        for _ in range(10):
            s.step()
        s.tidy()
        snap = M.snap(s.m)
        text = J.dumps(s.root, mode="ietf")
        got = json.loads(text, object_pairs_hook=pairs)
        rec.seen(text)
        d = E.cmp_json(E.ietf_doc(s.schema, snap), got)
        if d:
            s.fail("doc", "the IETF JSON of the tree: %s\n%s" % (d, text[:3000]))
        rec.obs("documents compared")
        m = s.pick((M.MTree, M.MList))
        if m is not None:
            part = J.dumps(s.live(m), mode="ietf")
            ref = E.ietf_doc(m.node, M.snap(m)) if isinstance(m, M.MTree) else [E.ietf_doc(m.node, x) for _, x in M.snap(m)[2]]
            d = E.cmp_json(ref, json.loads(part, object_pairs_hook=pairs))
            if d:
                s.fail("doc", "the IETF JSON of %s: %s\n%s" % (s.name(m), d, part[:3000]))
            rec.obs("parts compared")
        rec.obs("scalars compared", text.count(":"))


def pairs(items):
    d = {}
    for k, v in items:
        if k in d:
            raise AssertionError("member %r is twice in one object" % k)
        d[k] = v
    return d
