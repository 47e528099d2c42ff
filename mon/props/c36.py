"""Each object of a tree knows what it is and where it stands."""
import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from lxml import objectify
from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder
from pyangbind.lib.xpathhelper import YANGPathHelper

from mon import encode as E, hist, model as M, paths, schema as S, xph
from mon.drive import Session

TITLE = "Every object of a tree knows what it is, its parent and its path"
RULE = ("A case is a random schema, augmented by another module, and a history of 60 operations with copies and documents of all three formats among them, with a path helper in a third of the cases; after every twelve, each "
        "node and entry is asked for its path, parent, names, namespace and kind, and its path is followed from the root; distinct = distinct (kind of node, depth, keys, config).")
COUNT = (150, 2600)
NEED = ["containers", "lists", "entries", "leaves", "leaf-lists", "paths followed", "augmented", "copies", "documents loaded", "trees with a helper"]


def value_ok(t, v):
    return E.rt_value(t, v) and (t.kind != "union" or t.stable(v)) and (not isinstance(v, str) or E.xml_text(v))


def case(rng, rec, tier):
    ph = YANGPathHelper() if rng.random() < 0.35 else None
    s = hist.world2(rng, rec, gen=dict(depth=rng.choice([2, 3]), width=(2, 3), lists=0.4, keyless=0, config_false=0.15, maxnodes=40), flags=["--presence"] + (["--use-xpathhelper"] if ph or rng.random() < 0.3 else []),
                    every=4, value_filter=value_ok, key_filter=xph.key_ok, ops=dict(copy=1, grow=0.2), bad=rng.random() < 0.4)
    kw = lambda: dict(path_helper=s.ph) if s.ph else {}
    s.ph = ph
    if ph:
        s.root = s.b.m(**kw())
        s.fresh = lambda: s.b.m(path_helper=YANGPathHelper())
        rec.obs("trees with a helper")
    check(s, rec)
    for i in range(5):
        s.run(12)
        check(s, rec)
        if rng.random() < 0.4:
            load(s, rng, rec, kw)
            check(s, rec)


def load(s, rng, rec, kw):
    s.tidy()
    if s.ph:
        s.ph = YANGPathHelper()
    k = rng.choice(["json", "ietf", "xml"])
    s.hist.append("load %s" % k)
    if k == "json":
        o = J.loads(J.dumps(s.root, filter=True), s.b, "m", **kw())
    elif k == "ietf":
        o = J.loads_ietf(J.dumps(s.root, mode="ietf"), s.b, "m", **kw())
    else:
        o = pybindIETFXMLDecoder.load_xml(objectify.fromstring(pybindIETFXMLEncoder.serialise(s.root)), s.b, "m", **kw())
    s.root = o
    # what documents cannot show: entries and containers without data, and their flags
    s.flags = False
    rec.obs("documents loaded")


def check(s, rec):
    seen = {}
    objects = paths.everything(s)
    lives = {id(m): o for m, o in objects}
    lives[id(s.m)] = s.root
    for m, o in objects:
        n = m.node
        entry = M.is_entry(m)
        p = o._path()
        d = paths.differs(m, p)
        if d:
            s.fail("path", "%s: %s" % (s.name(m), d))
        if o._register_path() != p or o._yang_path() != "/" + "/".join(p):
            s.fail("path", "%s has the path %r, _register_path() %r and _yang_path() %r" % (s.name(m), p, o._register_path(), o._yang_path()))
        if id(o) in seen:
            s.fail("object", "%s and %s are one object" % (s.name(m), s.name(seen[id(o)])))
        seen[id(o)] = m
        if o._parent is not lives[id(m.parent)] and not (entry and o._parent is lives[id(m.parent.parent)]):
            s.fail("parent", "the parent of %s is %r" % (s.name(m), o._parent))
        want = dict(name=n.name, leaf=isinstance(n, S.Leaf) and not isinstance(n, S.LeafList), container=False if isinstance(n, S.Leaf) else "container" if entry else n.keyword)
        got = dict(name=o.yang_name(), leaf=bool(o._is_leaf), container=o._is_container)
        if not entry:
            want.update(ns=n.module.ns, module=n.module.name, config=n.rw)
            got.update(ns=o._namespace, module=o._defining_module, config=bool(o._is_config))
            if isinstance(n, S.Leaf):
                want["key"] = not isinstance(n, S.LeafList) and s.is_key(m)
                got["key"] = bool(o._is_keyval)
        if want != got:
            s.fail("object", "%s is %r, expected %r" % (s.name(m), got, want))
        follow(s, m, o, p)
        rec.obs("paths followed")
        rec.obs("entries" if entry else {"leaf": "leaves"}.get(n.keyword, n.keyword + "s"))
        if n.module is s.by and not entry:
            rec.obs("augmented")
        rec.seen(n.keyword, len(p), entry and len(n.keys), n.rw, tuple(sorted(want.items(), key=str)))


def follow(s, m, o, p):
    """the path leads to the object"""
    x = s.root
    for step in p:
        name, keys = paths.parse(step)
        x = M.child(x, name)
        if keys:
            names = M.attrs(list(x.values())[0])
            try:
                x = x._item(**{names[k]: v for k, v in keys.items()})
            except KeyError as e:
                s.fail("path", "%s has the path %r, where no entry is found: %s" % (s.name(m), p, e))
    if x is not o:
        s.fail("path", "the path of %s, %r, leads to %r" % (s.name(m), p, x))
