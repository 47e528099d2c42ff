"""What is noted on nodes: extensions in the schema, and metadata in documents."""
import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from pyangbind.lib.serialise import pybindJSONDecoder

from mon import build, encode as E, model as M, paths, restructure as R, schema as S
from mon.drive import Session
from mon.model import child
from mon.props import c28

TITLE = "Nodes have the extensions and metadata that are noted on them"
RULE = ("A case is a random schema over two modules, written as for C28, with statements of three extension modules on its nodes, two of which are asked for; during a history of 40 operations each node and entry is asked for "
        "its extensions; then the tree's IETF JSON is loaded with metadata added at random, and each node is asked for it; distinct = distinct (kind of node, extensions or metadata).")
COUNT = (130, 2200)
NEED = ["nodes with extensions", "nodes without extensions", "metadata found", "nodes without metadata", "documents loaded", "copies"]


def case(rng, rec, tier):
    exts = [S.Module(n, p) for n, p in zip(rng.sample(["ext-a", "ext.b", "e_c", "types-ext", "class"], 3), ["ea", "e-b", "x.c"])]
    used = set()

    def prepare(roots, mods):
        for e in exts:
            for x in mods:
                x.add_import(e, rng.choice([None, "i" + e.prefix]))

        def walk(n):
            for c in n.children:
                if not isinstance(c, (S.Choice, S.Case)) and rng.random() < 0.3:
                    c.ext = []
                    for e in exts:
                        for name in rng.sample(["flag", "order", "e.x", "class", "_u"], rng.choice([0, 1, 1, 2])):
                            arg = None if name == "flag" else rng.choice(R.TEXTS + ["1", "0"])
                            c.ext.append((e, name, arg))
                            used.add((e, name))
                if getattr(c, "twin", None) is None:
                    walk(c)

        for r in roots:
            walk(r)

    roots, texts, flags, targets = c28.make(rng, rec, None, prepare)
    for e in exts:
        texts.append("module %s { yang-version 1.1; namespace \"urn:%s\"; prefix %s; %s }" % (e.name, e.name, e.prefix, " ".join(
            "extension %s%s;" % (n, "" if n == "flag" else " { argument a; }") for n in ["flag", "order", "e.x", "class", "_u"]).replace(" };;", " }").replace("};", "}")))
    asked = rng.sample(exts, rng.choice([0, 1, 2, 2]))
    for e in asked:
        flags += ["--interesting-extension", e.name] if rng.random() < 0.5 else ["--interesting-extension=" + e.name]
    try:
        b = build.build(texts, flags, targets)
    except build.BuildError as e:
        rec.bad("build", "no bindings: %s\n%s" % (e, "\n".join(texts)))
    for r in roots:
        s = Session(rng, rec, r, getattr(b, r.name)(), every=10, ops=dict(grow=0.4, copy=0.6), bad=False,
                    value_filter=lambda t, v: E.rt_value(t, v) and (t.kind != "union" or t.stable(v)))
        s.b, s.texts = b, texts
        s.fresh = lambda: getattr(b, r.name)()
        if not S.data_children(r):
            continue
        extensions(s, rec, asked)
        for _ in range(4):
            s.run(10)
            extensions(s, rec, asked)
        s.tidy()
        metadata(s, rng, rec, r, b)


def wanted(n, asked):
    out = {}
    for e, name, arg in getattr(n, "ext", ()):
        if e in asked:
            out.setdefault(e.name, {})[name] = arg
    return out or None


def extensions(s, rec, asked):
    for m, o in paths.everything(s):
        n = m.node if not isinstance(m.parent, M.MList) else m.parent.node
        want, got = wanted(n, asked), o._extensions()
        if want != got:
            s.fail("extensions", "%s has the extensions %r, expected %r" % (s.name(m), got, want))
        rec.obs("nodes with extensions" if want else "nodes without extensions")
        if want:
            rec.seen(type(m).__name__, repr(want))


def metadata(s, rng, rec, r, b):
    doc = json.loads(J.dumps(s.root, mode="ietf"), object_pairs_hook=OrderedDict)
    notes = {}      # id of a node of the reference tree -> metadata

    def note(keys=("m:tag", "origin", "or:origin", "a b", "@x", "")):
        return OrderedDict((k, rng.choice([1, "x", "", None, True, [1], {"a": "b"}])) for k in rng.sample(keys, min(len(keys), rng.randint(1, 3))))

    def add(m, what):
        notes.setdefault(id(m), {}).update(what)

    def walk(m, d):
        if m.parent is not None and rng.random() < 0.3:
            d["@"] = note()
            add(m, d["@"])
        for key in list(d):
            if key == "@":
                continue
            k = m.kids[key.split(":")[-1]]
            if isinstance(k, M.MList):
                whole = note(("whole", "w:x")) if rng.random() < 0.15 else None      # of other names than those of entries: which goes first is not said
                es = list(k.entries.values())
                assert len(es) == len(d[key])
                if whole is not None:
                    d["@" + key] = whole
                    for e in es:
                        add(e, whole)
                for e, x in zip(es, d[key]):
                    walk(e, x)
            elif isinstance(k, M.MTree):
                if rng.random() < 0.3:
                    d["@" + key] = note()
                    add(k, d["@" + key])
                walk(k, d[key])
            elif not isinstance(k, M.MLeafList) and rng.random() < 0.3:
                d["@" + key] = note()
                add(k, d["@" + key])
        if rng.random() < 0.5:
            ks = list(d)
            rng.shuffle(ks)
            for k in ks:
                d.move_to_end(k)

    walk(s.m, doc)
    opts = {"skip_unknown": True} if rng.random() < 0.2 else {}
    text = json.dumps(doc)
    s.hist.append("load %s" % text[:3000])
    if rng.random() < 0.5 and not opts:
        o = J.loads_ietf(text, b, r.name)
    else:
        o = getattr(b, r.name)()
        pybindJSONDecoder.load_ietf_json(json.loads(text, object_pairs_hook=OrderedDict), None, None, obj=o, **opts)
    rec.obs("documents loaded")
    want, got = M.only_set(M.snap(s.m)), M.only_set(M.observe_tree(r, o))
    d = M.diff(want, got) if want is not None and got is not None else None if want is got else "%r, %r" % (want, got)
    if d:
        s.fail("metadata", "a document with metadata: %s" % d)
    s.root = o

    def compare(m, o):
        want, got = notes.get(id(m), {}), o._metadata
        if want != got:
            s.fail("metadata", "%s has the metadata %r, expected %r" % (s.name(m), got, want))
        rec.obs("metadata found" if want else "nodes without metadata")
        if want:
            rec.seen(type(m).__name__, tuple(want))

    def both(m, o):
        for name, k in m.kids.items():
            c = child(o, name)
            if isinstance(k, M.MList):
                for key, e in k.entries.items():
                    if k.node.keys:
                        x = c[s.keytext(k, key)]
                        compare(e, x)
                        both(e, x)
            else:
                compare(k, c)
                if isinstance(k, M.MTree):
                    both(k, c)

    both(s.m, o)
