import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder, pybindJSONDecoder

from mon import encode as E, model as M, xph
from mon.props.c24 import merge, twin

TITLE = "The path helper has exactly the nodes of the tree, at their paths"
RULE = ("A case is a random schema and a history of 50 operations (including copies between trees and loading documents) on a tree with a path helper; after each "
        "one, refused ones too, what the path helper has is compared with the reference tree, and each object of the tree is looked up by its path; "
        "distinct = distinct operations and values.")
COUNT = (200, 2400)
NEED = ["operations", "refused operations", "objects found at their paths", "copies", "documents merged", "trees loaded"]


def case(rng, rec, tier):
    s = xph.world(rng, rec, own=("registry", "refused", "state", "failed-op-effect", "lookup"), two=rng.random() < 0.3, plain=True,
                  gen=dict(depth=rng.choice([2, 3]), width=(2, 3), choices=0.25, lists=0.35, maxnodes=50, keykinds=["text"] * 3 + ["string", "int8", "uint32", "enumeration", "int64", "boolean", "decimal64", "bits", "binary", "keyunion"]),
                  ops=dict(copy=0.8, unset_tree=1.2, delete=1.5))
    xph.watch(s)
    for _ in range(5):
        s.run(10)
        if rng.random() < 0.4:
            document(s, rng, rec)
    if rng.random() < 0.4:
        reload(s, rng, rec)
        s.run(8)


def document(s, rng, rec):
    """loads a document of another tree into this one"""
    p = s.other()
    p.tidy()
    a, b = s.m, p.m
    if rng.random() < 0.4:
        m = s.pick(M.MTree)
        o = m and twin(m, p.m)
        if o is not None:
            a, b = m, o
    fmt = rng.choice(["default", "ietf"])
    opts = {"overwrite": True} if rng.random() < 0.5 else {}
    text = J.dumps(p.live(b), mode=fmt)
    s.hist.append("load %s into %s with %s" % (text[:800], s.name(a) or "the tree", opts))
    f = pybindJSONDecoder.load_json if fmt == "default" else pybindJSONDecoder.load_ietf_json
    f(json.loads(text, object_pairs_hook=OrderedDict), None, None, obj=s.live(a), path_helper=s.ph, **opts)
    merge(b, a, fmt, opts.get("overwrite", False))
    rec.obs("documents merged")
    s.check()


def reload(s, rng, rec):
    """a tree that is loaded with the path helper that another one has takes its place"""
    s.tidy()
    fmt = rng.choice(["default", "ietf", "xml"])
    s.hist.append("load a copy of the tree with its path helper, from %s" % fmt)
    if fmt == "xml":
        s.root = pybindIETFXMLDecoder.load_xml(E_xml(s), s.b, "m", path_helper=s.ph)
    else:
        text = J.dumps(s.root, mode=fmt)
        s.root = (J.loads if fmt == "default" else J.loads_ietf)(text, s.b, "m", path_helper=s.ph)
    try:
        got = M.observe_tree(s.schema, s.root)
    except M.Mismatch as e:
        return s.fail("roundtrip", str(e))
    if M.diff(M.snap(s.m), got, flags=False):
        s.fail("roundtrip", "")
    rec.obs("trees loaded")
    s.flags = False
    s.check()


def E_xml(s):
    from lxml import objectify
    return objectify.fromstring(pybindIETFXMLEncoder.serialise(s.root))
