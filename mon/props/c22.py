from lxml import etree

from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder

from mon import encode as E, hist, model as M
from mon.props.c19 import same

TITLE = "XML holds what is set under the right namespaces and loads back"
RULE = ("A case is a schema over several modules (all types, augmentations, identities of other modules, choices, presence) and a history of 60 operations; at intervals "
        "the XML of the tree is compared element by element with the reference (names, namespaces, text, order of entries, what the prefix of an "
        "identityref denotes) and decoded into a new tree, as is a reference document written another way (prefixes, order of siblings, CDATA, empty containers), which is compared with the reference tree; distinct = distinct documents.")
COUNT = (170, 2200)
NEED = ["documents compared", "documents loaded", "reference documents loaded"]
ASSUMPTIONS = ["keyless lists are kept out: decoding them from XML is not implemented; so is text that XML cannot carry"]


def value_ok(t, v):
    return (t.kind != "union" or t.stable(v)) and (not isinstance(v, str) or E.xml_text(v))


def case(rng, rec, tier):
    s = hist.world2(rng, rec, own=("doc", "load"), gen=dict(depth=rng.choice([2, 3]), width=(2, 4), keyless=0, maxnodes=60), idkeys=0.15, every=10**9, bad=False, ops=dict(grow=0.3), value_filter=value_ok)
    for _ in range(4):
        for _ in range(15):
            s.step()
        s.tidy()
        snap = M.snap(s.m)
        text = pybindIETFXMLEncoder.serialise(s.root, pretty_print=rng.random() < 0.5)
        root = etree.fromstring(text)
        q = etree.QName(root)
        if (q.namespace, q.localname) != (s.mod.ns, "m"):
            s.fail("doc", "the root element is %s" % root.tag)
        d = E.cmp_xml(E.xml_doc(s.schema, snap), root)
        if d:
            s.fail("doc", "the XML of the tree: %s\n%s" % (d, text[:3000]))
        rec.obs("documents compared")
        rec.seen(text)
        if rng.random() < 0.4:
            # comments mean nothing
            for x in list(root.iter()):
                if isinstance(x.tag, str) and len(x) and rng.random() < 0.3:
                    x.insert(rng.randrange(len(x) + 1), etree.Comment("note"))
            text = etree.tostring(root).decode()
        n = pybindIETFXMLDecoder.decode(text, s.b, "m")
        same(s, rec, n, "the XML of the tree", text)
        ref = E.write_xml(rng, s.mod.ns, "m", E.xml_doc(s.schema, snap), s.schema)
        n = pybindIETFXMLDecoder.decode(ref, s.b, "m")
        rec.obs("reference documents loaded")
        same(s, rec, n, "a reference document of the same data", ref)
