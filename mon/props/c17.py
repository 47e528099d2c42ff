import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from lxml import etree
from pyangbind.lib.serialise import pybindIETFXMLEncoder, pybindJSONDecoder, pybindIETFXMLDecoder

from mon import encode as E, hist, model as M
from mon.schema import Container, all_nodes

TITLE = "Presence containers exist when made present, and only then"
RULE = ("A case is a schema of presence and ordinary containers, also empty ones, nested, in entries and in cases, and a history of 60 "
        "operations; after each one presence is compared with the reference, and at times all three documents are compared "
        "with it and loaded into a new tree; distinct = distinct (operation, state of presence of the containers).")
COUNT = (200, 2400)
NEED = ["operations", "snapshots compared", "documents compared", "documents loaded", "present again"]


def case(rng, rec, tier):
    s = hist.world(rng, rec, own=("changed", "state", "refused", "doc", "load"),
                   gen=dict(presence=0.8, keyless=0, containers=0.7, lists=0.15, choices=0.2, leaflists=0.1, depth=3, kinds=["string", "int8", "uint32", "enumeration"],
                            width=(1, 3), keyspaces=False, multikey=0.0, keykinds=["uint8", "enumeration"], config_false=0.1),
                   ops=dict(present=8, set=3, add=3, bad=0.5, addbad=0, keyset=0, unset_tree=1.5, lookup=0),
                   value_filter=lambda t, v: E.rt_value(t, v) and (not isinstance(v, str) or E.xml_text(v)))
    pres = [n for n in all_nodes(s.schema) if getattr(n, "presence", None)]
    if not pres:
        rec.skip("no presence container")
    for i in range(6):
        for _ in range(10):
            s.step()
            if rng.random() < 0.2:
                anew(s)
            rec.seen("state", s.hist[-1].split(" ")[:2] if s.hist else None, [bool(m.present) for m in s.nodes(M.MTree) if getattr(m.node, "presence", None)])
        s.tidy()
        snap = M.snap(s.m)
        d = E.cmp_default(E.default_doc(s.schema, snap), json.loads(J.dumps(s.root, filter=True), object_pairs_hook=OrderedDict))
        if d:
            s.fail("doc", "default JSON: %s" % d)
        text = J.dumps(s.root, mode="ietf")
        d = E.cmp_json(E.ietf_doc(s.schema, snap), json.loads(text))
        if d:
            s.fail("doc", "IETF JSON: %s" % d)
        rec.obs("documents compared", 2)
        n = s.b.m()
        pybindJSONDecoder.load_ietf_json(json.loads(text), None, None, obj=n)
        again(s, n, "IETF JSON")
        n = s.b.m()
        pybindJSONDecoder.load_json(json.loads(J.dumps(s.root, filter=True), object_pairs_hook=OrderedDict), None, None, obj=n)
        again(s, n, "default JSON")
        text = pybindIETFXMLEncoder.serialise(s.root)
        d = E.cmp_xml(E.xml_doc(s.schema, snap), etree.fromstring(text))
        if d:
            s.fail("doc", "XML: %s" % d)
        again(s, pybindIETFXMLDecoder.decode(text, s.b, "m"), "XML")
        rec.obs("documents compared")
        rec.obs("documents loaded", 3)


def anew(s):
    """a container that was set absent comes back with what is made present in it"""
    def in_it(m):
        return [k for k in m.kids.values() if isinstance(k, M.MTree) and getattr(k.node, "presence", None)] + [
            x for k in m.kids.values() if isinstance(k, M.MTree) for x in in_it(k)]

    q = s.pick(M.MTree, lambda m: getattr(m.node, "presence", None) and m.present and not M.is_entry(m) and in_it(m))
    if q is None:
        return
    p = s.rng.choice([x for x in in_it(q) if x.present] or in_it(q))
    o = s.live(q)

    def f():
        o._set_present(False)
        s.live(p)._set_present()

    s.do("set %s absent, then %s present" % (s.name(q), s.name(p)), f)
    q.present = q.changed = False
    M.touch(p)
    s.check()
    s.rec.obs("present again")


def again(s, n, what):
    want, got = M.only_set(M.snap(s.m)), M.only_set(M.observe_tree(s.schema, n))
    if want is None or got is None:
        if want is not got:
            s.fail("load", "%s does not load into the same tree" % what)
        return
    d = M.diff(want, got)
    if d:
        s.fail("load", "loading the %s of the tree: %s" % (what, d))
