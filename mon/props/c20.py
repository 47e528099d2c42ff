import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J

from mon import encode as E, hist, model as M
from mon.props.c19 import same

TITLE = "IETF JSON loads back into the same tree"
RULE = ("A case is a schema over several modules (all types, augmentations, identities of other modules, keyless lists, choices, presence) and a history of 60 "
        "operations; at intervals the IETF JSON of the tree, and the reference document for it written with and without module names, and with empty containers and lists that are not in the tree, are "
        "loaded into a new tree, which is compared with the reference tree; distinct = distinct documents.")
COUNT = (170, 2200)
NEED = ["documents loaded", "reference documents loaded"]


def case(rng, rec, tier):
    s = hist.world2(rng, rec, own=("load",), gen=dict(depth=rng.choice([2, 3]), width=(2, 4), maxnodes=60), idkeys=0.15, every=10**9, bad=False, ops=dict(grow=0.3),
                    value_filter=lambda t, v: t.kind != "union" or t.stable(v))
    for _ in range(4):
        for _ in range(15):
            s.step()
        s.tidy()
        snap = M.snap(s.m)
        text = J.dumps(s.root, filter=True, mode="ietf")
        rec.seen(text)
        n = J.loads_ietf(text if rng.random() < 0.5 else json.loads(text), s.b, "m")
        same(s, rec, n, "the IETF JSON of the tree", text)
        ref = E.ietf_doc(s.schema, snap)
        if rng.random() < 0.4:
            ref = E.with_nothing(rng, ref, s.schema, snap)
        if rng.random() < 0.5:
            ref = unqualified(ref, rng)
        n = J.loads_ietf(json.loads(json.dumps(ref)), s.b, "m")
        rec.obs("reference documents loaded")
        same(s, rec, n, "the reference IETF JSON", json.dumps(ref))


def unqualified(d, rng):
    """member names with and without the module's name, in another order"""
    if isinstance(d, dict):
        it = [(k.split(":")[-1] if rng.random() < 0.5 else k, unqualified(v, rng)) for k, v in d.items()]
        rng.shuffle(it)
        return dict(it)
    if isinstance(d, list):
        return [unqualified(x, rng) if isinstance(x, dict) else x for x in d]
    return d
