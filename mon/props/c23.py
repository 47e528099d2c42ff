import copy
import json
import os
import tempfile
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from pyangbind.lib.serialise import WithDefaults, pybindIETFXMLEncoder, pybindJSONIOError
from lxml import etree

from mon import build, encode as E, hist, model as M
from mon.props.c19 import same
from mon.props.c21 import pairs
from mon.schema import Container, Leaf, LeafList, List, all_nodes, data_children

TITLE = "Writing a tree changes nothing and leaves out only what it is asked to"
RULE = ("A case is a schema over two modules and a history of 45 operations; at intervals the tree, or a container or list in it, is written in every mode with random options "
        "(filter, with_defaults, skip_subtrees, select, indent, to a file), read in other ways, and loaded. The output is compared with the reference document less what "
        "the options leave out; afterwards the whole tree and the identity of its objects are compared with those before; distinct = distinct (options, output).")
COUNT = (170, 2000)
NEED = ["reads that changed nothing", "documents compared", "subtrees skipped", "entries selected", "files", "loaded documents left alone"]


def value_ok(t, v):
    return E.rt_value(t, v) and (not isinstance(v, str) or E.xml_text(v))


def case(rng, rec, tier):
    s = hist.world2(rng, rec, own=("purity", "doc", "load", "file"), gen=dict(depth=rng.choice([2, 3]), width=(2, 4), maxnodes=60, defaults=0.2), idkeys=0.1,
                    every=10**9, bad=False, value_filter=value_ok)
    for _ in range(3):
        for _ in range(15):
            s.step()
        s.tidy()
        before = state(s)
        for _ in range(7):
            f = rng.choice([whole, whole, skipping, skipping, selecting, selecting, other_reads, files, documents])
            s.hist.append("read the tree: %s" % f.__name__)
            f(s, rng, rec)
            after = state(s)
            if after[0] != before[0]:
                s.fail("purity", "%s changed the tree: %s" % (f.__name__, M.diff(before[0], after[0])))
            if after[1] != before[1]:
                s.fail("purity", "%s replaced objects of the tree" % f.__name__)
            rec.obs("reads that changed nothing")


def state(s):
    objs = []

    def walk(node, o):
        objs.append(id(o))
        if isinstance(node, List):
            for e in o.values():
                objs.append(id(e))
                for n in data_children(node):
                    walk(n, M.child(e, n.name))
        elif not isinstance(node, Leaf):
            for n in data_children(node):
                walk(n, M.child(o, n.name))

    walk(s.schema, s.root)
    return M.observe_tree(s.schema, s.root), objs


def twice(s, rec, f, what):
    a, b = f(), f()
    if a != b:
        s.fail("purity", "%s gives different results when repeated:\n%s\n%s" % (what, str(a)[:1500], str(b)[:1500]))
    rec.seen(what, a if isinstance(a, str) else repr(a))
    return a


def target(s, rng, cls=(M.MTree,)):
    """the module or a container in it, in the reference and live"""
    m = s.pick(cls) if rng.random() < 0.5 else None
    if m is None:
        m = s.m
    return m, s.live(m)


def compare(s, rec, mode, ref, text, what):
    if mode == "default":
        d = E.cmp_default(ref, json.loads(text, object_pairs_hook=OrderedDict))
    else:
        d = E.cmp_json(ref, json.loads(text, object_pairs_hook=pairs))
    if d:
        s.fail("doc", "%s: %s\n%s" % (what, d, text[:2500]))
    rec.obs("documents compared")


def reference(m, mode):
    snap = M.snap(m)
    if isinstance(m, M.MList):
        if mode == "default":
            return E.Entries(m.node, [(k, E.default_doc(m.node, e)) for k, e in snap[2]])
        return [E.ietf_doc(m.node, e) for _, e in snap[2]]
    return E.default_doc(m.node, snap) if mode == "default" else E.ietf_doc(m.node, snap)


def whole(s, rng, rec):
    m, o = target(s, rng, (M.MTree, M.MList))
    k = rng.choice(["default", "ietf", "if-set", "all", "all-ietf", "xml"])
    nm = s.name(m) or "the tree"
    if k in ("default", "ietf"):
        ind = rng.choice([4, 2, None])
        text = twice(s, rec, lambda: J.dumps(o, mode=k, indent=ind), "dumps of %s, mode %s" % (nm, k))
        compare(s, rec, k, reference(m, k), text, "dumps of %s, mode %s" % (nm, k))
    elif k == "if-set":
        flt = rng.random() < 0.5
        text = twice(s, rec, lambda: J.dumps(o, mode="ietf", filter=flt, with_defaults=WithDefaults.IF_SET), "dumps of what is set in %s" % nm)
        compare(s, rec, "ietf", reference(m, "ietf"), text, "dumps of what is set in %s (filter=%s)" % (nm, flt))
    elif k == "xml":
        text = twice(s, rec, lambda: pybindIETFXMLEncoder.serialise(s.root), "XML")
        d = E.cmp_xml(E.xml_doc(s.schema, M.snap(s.m)), etree.fromstring(text))
        if d:
            s.fail("doc", "XML: %s" % d)
        rec.obs("documents compared")
    elif isinstance(m, M.MTree):
        mode = "default" if k == "all" else "ietf"
        text = twice(s, rec, lambda: J.dumps(o, mode=mode, filter=False), "dumps of everything in %s, mode %s" % (nm, mode))
        got = json.loads(text, object_pairs_hook=OrderedDict)
        d = everything(m, got, mode)
        if d:
            s.fail("doc", "dumps of %s, filter=False, mode %s: %s\n%s" % (nm, mode, d, text[:2500]))
        rec.obs("documents compared")


def everything(m, got, mode, mod=None, path=""):
    """what is set is in it as it is, and in the default mode so are defaults"""
    for name, k in m.kids.items():
        n = k.node
        q = name if mode == "default" or n.module is mod else "%s:%s" % (n.module.name, name)
        p = "%s/%s" % (path, name)
        if isinstance(k, (M.MLeaf, M.MLeafList)):
            if k.set and not (isinstance(k, M.MLeafList) and not k.vals):
                want = (E.default_val(n, M.snap(k)) if mode == "default" else E.ietf_val(n, M.snap(k)))[0]
            elif mode == "default" and isinstance(k, M.MLeaf) and n.default is not None and n.type.kind != "union":
                want = n.type.dflt(n.type.canon(n.default))
            else:
                continue
            if q not in got:
                return "%s is not in it" % p
            d = (E.cmp_default if mode == "default" else E.cmp_json)(want, got[q], p)
            if d:
                return d
        elif isinstance(k, M.MTree):
            if q not in got:
                if E.default_doc(n, M.snap(k)) or k.present:
                    return "%s is not in it" % p
                continue
            d = everything(k, got[q], mode, n.module, p)
            if d:
                return d
        else:
            if q not in got:
                if k.entries:
                    return "%s is not in it" % p
                continue
            ents = list(got[q].values()) if mode == "default" else got[q]
            if len(ents) != len(k.entries):
                return "%s has %d entries, not %d" % (p, len(ents), len(k.entries))
            if mode == "default" and n.user and [g.get("__yang_order") for g in ents] != list(range(len(ents))):
                return "the entries of %s are numbered %r" % (p, [g.get("__yang_order") for g in ents])
            for e, g in zip(k.entries.values(), ents):
                d = everything(e, g, mode, n.module, p + "[]")
                if d:
                    return d
    return None


def prune(doc, path):
    """a reference document without what is at the path"""
    if isinstance(doc, E.Entries):
        return E.Entries(doc.node, [(k, prune(d, path)) for k, d in doc.items])
    if isinstance(doc, list):
        return [prune(d, path) for d in doc]
    if not isinstance(doc, dict):
        return doc
    out = {}
    for k, v in doc.items():
        if k.split(":")[-1] != path[0]:
            out[k] = v
        elif len(path) > 1:
            out[k] = prune(v, path[1:])
    return out


def schema_paths(s):
    out = []

    def walk(node, path, keyed):
        for n in data_children(node):
            out.append((path + [n.name], keyed))
            if not isinstance(n, Leaf):
                walk(n, path + [n.name], keyed or isinstance(n, List))

    walk(s.schema, [], False)
    return out


def skipping(s, rng, rec):
    m, o = target(s, rng)
    at = [p.split("[")[0] for p in o._path()]
    mode = rng.choice(["default", "ietf"])
    ps = [p for p, _ in schema_paths(s)]
    mine = [p for p in ps if p[:len(at)] == at and len(p) > len(at)]
    chosen = [rng.choice(mine if mine and rng.random() < 0.8 else ps) for _ in range(rng.randint(1, 3))]
    if at and mine and rng.random() < 0.5:
        # what is at the same place below a node of almost the same name
        p = list(rng.choice(mine))
        i = rng.randrange(len(at))
        p[i] = rng.choice([p[i][:-1], p[i] + "x", p[i][1:], "x" + p[i], p[i].swapcase()]) or "_"
        chosen.append(p)
        rec.obs("paths beside the object")
    # a part of a path may also be the key of an entry
    if mode == "default":
        keys = {s.keytext(l, k) for l in s.nodes(M.MList) if l.node.keys for k in l.entries}
        chosen = [p for p in chosen if not keys & set(p)]
    if not chosen:
        return
    ref = reference(m, mode)
    for p in chosen:
        if p[:len(at)] == at and len(p) > len(at):
            ref = prune(ref, p[len(at):])
    arg = ["/" + "/".join(p) for p in chosen]
    text = twice(s, rec, lambda: J.dumps(o, mode=mode, skip_subtrees=list(arg)), "dumps of %s without %s, mode %s" % (s.name(m), arg, mode))
    compare(s, rec, mode, ref, text, "dumps of %s without %s, mode %s" % (s.name(m) or "the tree", arg, mode))
    rec.obs("subtrees skipped")


def selecting(s, rng, rec):
    m = s.pick(M.MList, lambda l: len(l.entries) > 1)
    if m is None:
        return
    mode = rng.choice(["default", "ietf"])
    o = s.live(m)
    cands = []
    es = list(m.entries.values())

    def walk(e, path):
        for name, k in e.kids.items():
            if isinstance(k, M.MLeaf) and k.node.type.kind in ("string", "int8", "uint8", "int32", "uint32", "int64", "uint64", "enumeration", "uint16"):
                cands.append(path + [name])
            elif isinstance(k, M.MTree):
                walk(k, path + [name])

    walk(es[0], [])

    def at(e, p):
        for x in p:
            e = e.kids[x]
        return e

    cands = [p for p in cands if not any("." in x for x in p) and all(at(e, p).set for e in es)]
    if not cands:
        return
    ps = rng.sample(cands, min(len(cands), rng.choice([1, 1, 2])))
    pat = rng.choice(es)
    sel = {}
    for p in ps:
        leaf = at(pat, p)
        sel[".".join(p)] = leaf.val if rng.random() < 0.5 else str(leaf.val)
    keep = [e for e in es if all(at(e, p).val == at(pat, p).val for p in ps)]
    if mode == "default":
        ref = E.Entries(m.node, [(k, E.default_doc(m.node, M.snap(e))) for k, e in m.entries.items() if e in keep])
    else:
        ref = [E.ietf_doc(m.node, M.snap(e)) for e in keep]
    text = twice(s, rec, lambda: J.dumps(o, mode=mode, select=dict(sel)), "dumps of %s where %s, mode %s" % (s.name(m), sel, mode))
    if mode == "default" and m.node.user:
        # the order that entries had among all
        got = json.loads(text, object_pairs_hook=OrderedDict)
        if [g.get("__yang_order") for g in got.values()] != sorted(g.get("__yang_order") for g in got.values()):
            s.fail("doc", "the entries that are selected are out of order: %s" % text[:2000])
        for i, g in enumerate(got.values()):
            g["__yang_order"] = i
        text = json.dumps(got)
    compare(s, rec, mode, ref, text, "dumps of %s where %s, mode %s" % (s.name(m), sel, mode))
    rec.obs("entries selected", len(keep))


def other_reads(s, rng, rec):
    m, o = target(s, rng, (M.MTree, M.MList, M.MLeaf, M.MLeafList))
    k = rng.choice(["get", "get", "str", "iter", "path", "elements", "get all"])
    if k == "get" and isinstance(m, (M.MTree, M.MList)):
        twice(s, rec, lambda: repr(o.get(filter=True)), "get")
    elif k == "get all" and isinstance(m, (M.MTree, M.MList)):
        twice(s, rec, lambda: repr(o.get()), "get all")
    elif k == "str":
        twice(s, rec, lambda: (str(o), repr(o)), "str")
    elif k == "iter" and isinstance(m, M.MTree):
        got = [(a, v) for a, v in o]
        if [M.attrs(o)[x] for x in m.kids] != [a for a, _ in got] or any(v is not getattr(o, a) for a, v in got):
            s.fail("purity", "iterating over %s gives %s" % (s.name(m), got))
    elif k == "path" and m is not s.m:
        twice(s, rec, lambda: (o._path(), o._yang_path(), o.yang_name(), o.default(), o._extensions()), "path")
    elif k == "elements" and isinstance(m, M.MTree):
        twice(s, rec, lambda: list(o.elements()), "elements")


def files(s, rng, rec):
    mode = rng.choice(["default", "ietf"])
    d = tempfile.mkdtemp(dir=build.scratch())
    fn = os.path.join(d, "f.json")
    kw = dict(mode=mode, indent=rng.choice([4, 1, None]), filter=True)
    J.dump(s.root, fn, **kw)
    text = open(fn).read()
    if text != J.dumps(s.root, **kw):
        s.fail("file", "dump writes something else than dumps returns, mode %s" % mode)
    n = (J.load if mode == "default" else J.load_ietf)(fn, s.b, "m")
    same(s, rec, n, "the file that dump wrote, mode %s" % mode, text)
    if open(fn).read() != text:
        s.fail("file", "loading a file changed it")
    k = rng.choice(["fail", "missing", "nodir", "over"])
    if k == "fail":
        try:
            J.dump(s.root, fn, skip_subtrees="/x")
        except AttributeError:
            if open(fn).read() != text:
                s.fail("file", "a dump that failed destroyed the file that was there")
        else:
            s.fail("file", "dump takes skip_subtrees that is not a list")
    elif k == "over":
        # a longer file is replaced, not overwritten at its start
        with open(fn, "w") as f:
            f.write(text + " " * 50 + "x" * 50)
        J.dump(s.root, fn, **kw)
        if open(fn).read() != text:
            s.fail("file", "dump leaves some of the file that was there")
    else:
        p = os.path.join(d, "no", "such")
        try:
            (J.load if mode == "default" else J.load_ietf)(p, s.b, "m") if k == "missing" else J.dump(s.root, p, mode=mode)
        except pybindJSONIOError:
            pass
        else:
            s.fail("file", "no error for a file that does not exist")
    rec.obs("files")
    for x in os.listdir(d):
        os.unlink(os.path.join(d, x))
    os.rmdir(d)


def documents(s, rng, rec):
    """what is loaded is left as it was, and gives the same every time"""
    mode = rng.choice(["default", "ietf"])
    doc = json.loads(J.dumps(s.root, mode=mode), object_pairs_hook=rng.choice([None, OrderedDict]))
    keep = copy.deepcopy(doc)
    f = J.loads if mode == "default" else J.loads_ietf
    a, b = f(doc, s.b, "m"), f(doc, s.b, "m")
    if doc != keep or json.dumps(doc) != json.dumps(keep):
        s.fail("purity", "loading a document, mode %s, changed it:\n%s\n%s" % (mode, json.dumps(keep)[:1500], json.dumps(doc)[:1500]))
    same(s, rec, a, "a document, mode %s" % mode)
    same(s, rec, b, "a document a second time, mode %s" % mode)
    # an identity may be held with its prefix or without
    ta, tb = J.dumps(a, mode="ietf"), J.dumps(b, mode="ietf")
    if ta != tb:
        s.fail("purity", "two trees of the same document are written differently:\n%s\n%s" % (ta[:1500], tb[:1500]))
    rec.obs("loaded documents left alone")
