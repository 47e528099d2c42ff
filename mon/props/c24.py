import copy
import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from lxml import objectify
from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder, pybindJSONDecoder

from mon import encode as E, hist, model as M
from mon.props.c20 import unqualified
from mon.schema import Leaf, LeafList, List

TITLE = "Loading into a tree that holds data merges or overwrites, as asked"
RULE = ("A case is a schema over two modules and two trees of it with a history each; documents of one (whole or of a container or entry, in each format, with "
        "overwrite, or with unknown members and skip_unknown) are loaded into the other between further operations, and the whole tree is compared with the "
        "reference tree with the data merged in; distinct = distinct (format, options, document).")
COUNT = (200, 2200)
NEED = ["documents merged", "documents that overwrite", "unknown members skipped", "scalars loaded"]
ASSUMPTIONS = ["keyless lists are kept out of XML"]


def value_ok(t, v):
    return E.rt_value(t, v) and (not isinstance(v, str) or E.xml_text(v))


def case(rng, rec, tier):
    s = hist.world2(rng, rec, own=("load",), gen=dict(depth=rng.choice([2, 3]), width=(2, 4), maxnodes=60, choices=0.25, keyless=rng.choice([0, 0.15])), idkeys=0.1,
                    every=10**9, bad=False, value_filter=value_ok)
    keyless = any(isinstance(n, List) and not n.keys for n in nodes(s.schema))
    for _ in range(20):
        s.step()
    p = s.other()
    for _ in range(6):
        for _ in range(5):
            p.step()
            s.step()
        p.tidy()
        # where: the root, or the same container or list entry in both
        where = [(s.m, p.m)]
        for m in s.nodes(M.MTree):
            o = twin(m, p.m)
            if o is not None:
                where.append((m, o))
        a, b = rng.choice(where) if rng.random() < 0.4 else where[0]
        fmt = rng.choice(["default", "default", "ietf", "ietf", "xml"])
        if fmt == "xml" and (keyless or a is not s.m):
            fmt = rng.choice(["default", "ietf"])
        k = rng.random()
        if k < 0.15 and fmt != "xml":
            scalar(s, p, rng, rec, fmt)
            continue
        opts = {}
        if fmt == "xml":
            text = pybindIETFXMLEncoder.serialise(p.live(b))
            what = "the XML"
            if rng.random() < 0.5:
                fn = lambda: pybindIETFXMLDecoder.load_xml(objectify.fromstring(text), None, None, obj=s.live(a))
            else:
                # comments are no elements
                fn = lambda: pybindIETFXMLDecoder.load_xml(objectify.fromstring(text, objectify.makeparser(remove_comments=True)), None, None, obj=s.live(a))
        else:
            text = J.dumps(p.live(b), mode=fmt)
            doc = json.loads(text, object_pairs_hook=OrderedDict)
            if k < 0.5:
                opts["overwrite"] = True
            if rng.random() < 0.3:
                opts["skip_unknown"] = True
                rec.obs("unknown members skipped", unknown(rng, doc, b, fmt))
            if fmt == "ietf" and rng.random() < 0.5:
                doc = unqualified(doc, rng)
            what = "%s JSON" % fmt
            f = pybindJSONDecoder.load_json if fmt == "default" else pybindJSONDecoder.load_ietf_json
            fn = lambda: f(doc, None, None, obj=s.live(a), **opts)
        text = text if fmt == "xml" else json.dumps(doc)
        rec.seen(fmt, sorted(opts), text)
        s.hist.append("load %s into %s with %s" % (text[:800], s.name(a) or "the tree", opts))
        times = 2 if rng.random() < 0.15 and not keyless else 1
        for _ in range(times):
            try:
                r = fn()
            except Exception as e:
                import traceback
                s.fail("load", "loading %s was refused: %s: %s\n%s" % (what, type(e).__name__, str(e)[:300], traceback.format_exc()[-900:]))
            if r is not s.live(a):
                s.fail("load", "loading into an object returns another one")
            merge(b, a, fmt, opts.get("overwrite", False))
        got = M.observe_tree(s.schema, s.root)
        d = M.diff(M.snap(s.m), got, flags=False)
        if d:
            s.fail("load", "after loading %s %d times with %s: %s" % (what, times, opts, d))
        rec.obs("documents that overwrite" if opts.get("overwrite") else "documents merged")


def nodes(n):
    from mon.schema import all_nodes
    return list(all_nodes(n))


def twin(m, root):
    """the object at the same place in another reference tree"""
    path = []
    while m.parent is not None:
        if isinstance(m.parent, M.MList):
            path.append([k for k, v in m.parent.entries.items() if v is m][0])
        else:
            path.append(m.node.name)
        m = m.parent
    o = root
    for x in reversed(path):
        if isinstance(o, M.MList):
            if not o.node.keys:
                return None
            o = o.entries.get(x)
        else:
            o = o.kids.get(x)
        if o is None:
            return None
    return o


def holds(m):
    """whether m is in a document"""
    if isinstance(m, M.MLeaf):
        return m.set
    if isinstance(m, M.MLeafList):
        return m.set and m.vals
    if isinstance(m, M.MList):
        return bool(m.entries)
    return m.present or any(holds(k) for k in m.kids.values())


def merge(b, a, fmt, overwrite):
    for name, y in b.kids.items():
        if not holds(y):
            continue
        x = a.kids[name]
        if isinstance(y, M.MLeaf):
            M.set_leaf(x, y.val)
        elif isinstance(y, M.MLeafList):
            M.set_leaflist(x, (x.vals if fmt == "xml" else []) + y.vals)
        elif isinstance(y, M.MTree):
            if y.node.presence:
                x.present = True
                M.touch(x)
            if overwrite and fmt == "default":
                for k in x.kids.values():
                    k.reset()
            merge(y, x, fmt, overwrite)
        else:
            if overwrite:
                for k in list(x.entries):
                    if fmt == "ietf" or not x.node.keys or k not in y.entries:
                        del x.entries[k]
            for k, e in y.entries.items():
                if not x.node.keys:
                    n = M.new_keyless(x)
                elif k in x.entries:
                    n = x.entries[k]
                else:
                    n = M.add_entry(x, k)
                merge(e, n, fmt, overwrite)


def unknown(rng, doc, m, fmt):
    """adds members that the schema does not know"""
    n = 0

    def walk(d, m):
        nonlocal n
        for k in list(d):
            name = k.split(":")[-1]
            x = m.kids.get(name if fmt == "ietf" else k)
            if isinstance(x, M.MTree):
                walk(d[k], x)
            elif isinstance(x, M.MList):
                es = list(d[k].values()) if fmt == "default" else d[k]
                for e, y in zip(es, x.entries.values()):
                    walk(e, y)
        if rng.random() < 0.4:
            d[rng.choice(["nosuch", "no-such"] + (["m:nosuch"] if fmt == "ietf" else []))] = rng.choice(
                [1, "x", None, True, [], [1, 2], {}, {"a": 1}, [{"a": 1}], {"a": {"b": []}}])
            n += 1

    walk(doc, m)
    return n


def scalar(s, p, rng, rec, fmt):
    """a document that is the value of one leaf"""
    m = s.pick((M.MLeaf, M.MLeafList), lambda m: not s.is_key(m) and m.node.type.kind not in ("empty", "identityref"))
    if m is None:
        return
    t = m.node.type
    c = t.canon(s.value(t))
    one = t.dflt(c) if fmt == "default" else t.ietf(c)
    doc = [one] if isinstance(m, M.MLeafList) else one
    f = pybindJSONDecoder.load_json if fmt == "default" else pybindJSONDecoder.load_ietf_json
    s.hist.append("load %r into %s" % (doc, s.name(m)))
    try:
        f(doc, None, None, obj=s.live(m))
    except Exception as e:
        s.fail("load", "loading %r into %s was refused: %s %s" % (doc, s.name(m), type(e).__name__, str(e)[:300]))
    if isinstance(m, M.MLeafList):
        M.set_leaflist(m, [c])
    else:
        M.set_leaf(m, c)
    d = M.diff(M.snap(s.m), M.observe_tree(s.schema, s.root), flags=False)
    if d:
        s.fail("load", "after loading %r into %s: %s" % (doc, s.name(m), d))
    rec.obs("scalars loaded")
