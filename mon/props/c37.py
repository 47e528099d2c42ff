"""Documents that are not of the schema."""
import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from lxml import etree, objectify
from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder, pybindJSONDecoder

from mon import encode as E, hist, model as M, schema as S, ytypes as T

TITLE = "Documents that do not fit the schema are refused, and nothing wrong is kept"
RULE = ("A case is a random schema, augmented by another module, and a tree after 40 operations; its documents of all three formats each get one fault - an unknown member, a value that its type does not admit, a key that is missing or "
        "not that of its entry, something of another shape - at a random place, and are loaded as text or objects; distinct = distinct (format, fault, kind of node or type).")
COUNT = (180, 3000)
NEED = ["unknown members", "wrong values", "wrong members of leaf-lists", "wrong keys", "missing keys", "other keys", "other shapes", "refused", "trees after refusal"]


def value_ok(t, v):
    return E.rt_value(t, v) and (t.kind != "union" or t.stable(v)) and (not isinstance(v, str) or E.xml_text(v))


def case(rng, rec, tier):
    s = hist.world2(rng, rec, gen=dict(depth=rng.choice([2, 3]), width=(2, 4), lists=0.35, keyless=0, maxnodes=60), every=10, value_filter=value_ok, bad=False, ops=dict(unset_tree=0.2, unset=0.5))
    s.run(40)
    s.tidy()
    want = M.only_set(M.snap(s.m))
    if want is None:
        rec.skip("no data")
    docs = dict(json=json.loads(J.dumps(s.root, filter=True), object_pairs_hook=OrderedDict), ietf=json.loads(J.dumps(s.root, mode="ietf"), object_pairs_hook=OrderedDict), xml=pybindIETFXMLEncoder.serialise(s.root))
    for fmt in docs:
        for _ in range(6):
            d = json.loads(json.dumps(docs[fmt]), object_pairs_hook=OrderedDict) if fmt != "xml" else etree.fromstring(docs[fmt])
            f = Fault(s, rng, fmt, d)
            if f.make() is False:
                continue
            rec.obs(f.what)
            rec.seen(fmt, f.what, f.kind)
            o = s.b.m()
            text = json.dumps(d) if fmt != "xml" else etree.tostring(d, encoding="unicode")
            s.hist.append("load %s with %s at %s: %s" % (fmt, f.what, f.where, text[:2000]))
            try:
                r = rng.random()
                if fmt == "json":
                    J.loads(text, s.b, "m") if r < 0.3 else pybindJSONDecoder.load_json(d, None, None, obj=o)
                elif fmt == "ietf":
                    J.loads_ietf(text, s.b, "m") if r < 0.3 else pybindJSONDecoder.load_ietf_json(d, None, None, obj=o)
                else:
                    pybindIETFXMLDecoder.decode(text, s.b, "m") if r < 0.3 else pybindIETFXMLDecoder.load_xml(objectify.fromstring(text), None, None, obj=o)
            except Exception as e:
                rec.obs("refused")
            else:
                s.fail("accepted", "a document with %s (%s) at %s was loaded" % (f.what, f.detail, f.where))
            rec.obs("trees after refusal")
            try:
                got = M.only_set(M.observe_tree(s.schema, o))
            except Exception as e:
                s.fail("kept", "after a document with %s (%s) at %s the tree cannot be read: %s: %s" % (f.what, f.detail, f.where, type(e).__name__, e))
            bad = beyond(want, got, f, "")
            if bad:
                s.fail("kept", "a document with %s (%s) at %s was refused, and now %s" % (f.what, f.detail, f.where, bad))


def kr(key):
    """a key as part of a path"""
    return "(%s)" % ", ".join(repr(sorted(k)) if isinstance(k, frozenset) else repr(k) for k in key)


def beyond(want, got, f, at):
    """what there is in the tree that the document did not say"""
    if got is None:
        return None
    if want is None:
        return None if got[0] == "tree" and not got[3] else "%s holds %r" % (at, got)
    if want[0] in ("leaf", "leaf-list"):
        if want[0] == "leaf-list" and f.fmt == "xml" and at != f.target:
            # as many as there were before the fault
            left = list(want[2])
            for v in got[2]:
                if v not in left:
                    return "%s is %r" % (at, got[2])
                left.remove(v)
            return None
        if at == f.target or want[2] != got[2]:
            return "%s is %r" % (at, got[2])
        return None
    if want[0] == "list":
        w = dict(want[2])
        for k, e in got[2]:
            own = k
            if f.other and at == f.other[0] and k == (f.other[2],):
                own = (f.other[1],)
                leaf = e[3].get(f.other[3])
                if leaf is not None and leaf[2] != f.other[2]:
                    return "%s%r has %r for its key" % (at, k, leaf[2])
                e = e[:3] + ({x: y for x, y in e[3].items() if x != f.other[3]},) + e[4:]
            if own not in w:
                return "%s has an entry %r" % (at, k)
            r = beyond(w[own], e, f, at + kr(k))
            if r:
                return r
        return None
    for k in got[3]:
        if k not in want[3]:
            if got[3][k][0] == "tree" and not M.only_set(got[3][k]):
                continue
            return "%s/%s holds %r" % (at, k, got[3][k])
        r = beyond(want[3][k], got[3][k], f, at + "/" + k)
        if r:
            return r


class Fault:
    def __init__(self, s, rng, fmt, d):
        self.s, self.rng, self.fmt, self.d = s, rng, fmt, d
        self.detail = self.kind = self.target = self.where = self.other = None

    # (node, holder, name in it, path) of all that the document holds
    def walk(self):
        out = []
        if self.fmt == "xml":
            def go(node, el, at):
                for c in el:
                    n = E.kid(node, etree.QName(c).localname)
                    p = at + "/" + n.name
                    if isinstance(n, S.List):
                        p += kr(tuple(k.type.canon(self.text(c, k)) for k in n.keynodes()))
                    out.append((n, el, c, p))
                    go(n, c, p)
        else:
            def go(node, d, at):
                for k, v in d.items():
                    if k == "__yang_order":
                        continue
                    n = E.kid(node, k.split(":")[-1])
                    p = at + "/" + n.name
                    out.append((n, d, k, p))
                    if isinstance(n, S.List):
                        for e in (v.values() if self.fmt == "json" else v):
                            names = {x.split(":")[-1]: x for x in e}
                            q = p + kr(tuple(kn.type.canon(self.key(kn, e[names[kn.name]])) for kn in n.keynodes()))
                            out.append((n, v, e, q))
                            go(n, e, q)
                    elif isinstance(n, S.Container):
                        go(n, v, p)
        go(self.s.schema, self.d, "")
        return out

    def key(self, n, v):
        if n.type.kind == "decimal64":
            return str(v)
        if isinstance(n.type, T.UnionT) and not isinstance(v, str):
            return str(v).lower() if isinstance(v, bool) else str(v)
        return v

    def text(self, el, k):
        return [c for c in el if etree.QName(c).localname == k.name][0].text or ""

    def make(self):
        rng = self.rng
        all_ = self.walk()
        what = rng.choice(["unknown", "value", "value", "value", "leaf-list", "key", "missing", "other", "shape"])
        return getattr(self, "f_" + what.replace("-", ""))(all_)

    def f_unknown(self, all_):
        rng = self.rng
        self.what = "unknown members"
        name = rng.choice(["nosuch", "xx1", "no-such.node"])
        if self.fmt == "xml":
            places = [(n, c, p) for n, _, c, p in all_ if isinstance(n, (S.List, S.Container))] + [(None, self.d, "")]
            n, el, self.where = rng.choice(places)
            c = etree.Element("{%s}%s" % (rng.choice([self.s.schema.ns, "urn:aug"]), name))
            if rng.random() < 0.5:
                c.text = "1"
            elif rng.random() < 0.5:
                etree.SubElement(c, c.tag).text = "x"
            el.insert(rng.randint(0, len(el)), c)
        else:
            places = [(n, d[k], p) for n, d, k, p in all_ if isinstance(n, S.Container)] + [(n, e, p) for n, _, e, p in all_ if isinstance(n, S.List) and isinstance(e, dict)] + [(None, self.d, "")]
            n, d, self.where = rng.choice(places)
            key = name if self.fmt == "json" or rng.random() < 0.3 else "%s:%s" % (rng.choice(["m", "aug"]), name)
            d[key] = rng.choice([1, "x", True, [1], [{"a": 1}], {"a": "b"}, {}, [], None, [None]])
            if rng.random() < 0.5:
                d.move_to_end(key, last=False)
        self.kind = n.keyword if n else "root"

    def wrong(self, t):
        """a value that a leaf does not take in this format"""
        for _ in range(30):
            v = t.bad(self.rng)
            if isinstance(v, str) and ":" in v and t.kind == "identityref":
                continue
            if self.fmt == "xml":
                if isinstance(v, bool) or not isinstance(v, (str, int)):
                    continue
                v = str(v)
                if v == "" and t.kind == "empty":
                    continue
                if not E.xml_text(v) or t.accepts(v) or v.strip() != v:
                    continue
                return v
            if not isinstance(v, (str, int)) or t.kind == "string" and not isinstance(v, str):
                continue
            return v

    def f_value(self, all_, keys=False):
        self.what = "wrong values"
        ls = [x for x in all_ if isinstance(x[0], S.Leaf) and not isinstance(x[0], S.LeafList) and self.iskey(x) == keys]
        if not ls:
            return False
        n, d, k, self.where = self.rng.choice(ls)
        v = self.wrong(n.type)
        if v is None:
            return False
        self.kind, self.detail = n.type.kind, repr(v)
        self.target = self.where
        if self.fmt == "xml":
            k.text = v
        else:
            d[k] = v

    def iskey(self, x):
        n, _, _, p = x
        return getattr(n, "iskey_", None) if hasattr(n, "iskey_") else self.mark(n)

    def mark(self, n):
        n.iskey_ = hist.is_key(n, self.s.schema)
        return n.iskey_

    def f_leaflist(self, all_):
        self.what = "wrong members of leaf-lists"
        ls = [x for x in all_ if isinstance(x[0], S.LeafList)]
        if not ls:
            return False
        n, d, k, self.where = self.rng.choice(ls)
        v = self.wrong(n.type)
        if v is None:
            return False
        self.kind, self.detail = n.type.kind, repr(v)
        if self.fmt == "xml":
            k.text = v
            return
        self.target = self.where
        d[k].insert(self.rng.randint(0, len(d[k])), v)

    def f_key(self, all_):
        self.what = "wrong keys"
        if self.fmt == "json":
            # what the entry is under
            es = [x for x in all_ if isinstance(x[0], S.List) and len(x[0].keys) == 1 and isinstance(x[2], dict)]
            if not es:
                return False
            n, d, e, self.where = self.rng.choice(es)
            t = n.keynodes()[0].type
            v = self.wrong(t)
            if v is None or str(v) in d or t.accepts(str(v)):
                return False
            self.kind, self.detail = t.kind, repr(v)
            k = [k for k in d if d[k] is e][0]
            d[str(v)] = d.pop(k)
            return
        if self.f_value(all_, keys=True) is False:
            return False
        self.what = "wrong keys"
        self.target = None

    def f_missing(self, all_):
        self.what = "missing keys"
        if self.fmt == "json":
            return False
        ls = [x for x in all_ if isinstance(x[0], S.Leaf) and not isinstance(x[0], S.LeafList) and self.iskey(x)]
        if not ls:
            return False
        n, d, k, self.where = self.rng.choice(ls)
        self.kind = n.type.kind
        if self.fmt == "xml":
            d.remove(k)
        else:
            del d[k]

    def f_other(self, all_):
        """an entry under another key than its own"""
        self.what = "other keys"
        if self.fmt != "json":
            return False
        es = [x for x in all_ if isinstance(x[0], S.List) and len(x[0].keys) == 1 and isinstance(x[2], dict)]
        if not es:
            return False
        n, d, e, self.where = self.rng.choice(es)
        t = n.keynodes()[0].type
        if t.kind not in ("string", "int8", "uint32", "enumeration", "int64", "uint64"):
            return False
        own = [k for k in d if d[k] is e][0]
        for _ in range(30):
            v = t.lex(t.canon(self.s.value(t)))
            if v and t.canon(v) != t.canon(own) and v not in d:
                break
        else:
            return False
        self.kind, self.detail = t.kind, "%r under %r" % (own, v)
        self.other = (self.where[:-len(kr((t.canon(own),)))], t.canon(own), t.canon(v), n.keys[0])
        for k in list(d):
            d[v if k == own else k] = d.pop(k)

    def f_shape(self, all_):
        rng = self.rng
        self.what = "other shapes"
        if self.fmt == "xml":
            # elements where text should be
            ls = [x for x in all_ if isinstance(x[0], S.Leaf) and x[0].type.kind in ("int8", "uint8", "int32", "uint64", "int64", "uint16", "decimal64", "enumeration", "boolean") and not self.iskey(x)]
            if not ls:
                return False
            n, d, k, self.where = rng.choice(ls)
            self.kind = n.type.kind
            k.text = None
            etree.SubElement(k, "{%s}x" % n.module.ns).text = "1"
            self.target = self.where if not isinstance(n, S.LeafList) else None
            return
        n, d, k, self.where = rng.choice([x for x in all_ if isinstance(x[2], str)])
        self.kind = n.keyword
        if isinstance(n, S.Container):
            if not n.children:
                return False
            v = rng.choice(["x", 1, True, [1], ["a"], [{"a": 1}]])
        elif isinstance(n, S.List):
            v = rng.choice(["x", 1, True, [1], ["a"], [{}], [["a"]]] + ([{"a": 1}] if self.fmt == "ietf" else []))
        elif isinstance(n, S.LeafList):
            if n.type.kind in ("string", "union", "binary", "identityref"):
                return False
            v = rng.choice([{"a": 1}, [{"a": 1}], [["a", 1]]])
        else:
            if n.type.kind in ("string", "union", "binary", "bits") or self.iskey((n, 0, 0, 0)):
                return False
            v = rng.choice([{"a": 1}, ["nothing"], [{"a": 1}], [[]]])
        self.detail = repr(v)
        self.target = self.where if isinstance(n, S.Leaf) else None
        d[k] = v
