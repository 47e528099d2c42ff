"""Expected documents, built from the reference tree (a snapshot) and the schema alone, and
comparison of actual documents with them."""
from decimal import Decimal

from lxml import etree

from .schema import LeafList, Leaf, List, data_children
from . import model as M


def kid(node, name):
    for n in data_children(node):
        if n.name == name:
            return n
    raise KeyError(name)


class Ident(str):
    def __new__(cls, c, type):
        self = str.__new__(cls, c)
        self.type = type
        return self


# ---------------------------------------------------------------- pyangbind's own JSON
def default_doc(node, s):
    """what dumps(mode="default") of the set data holds. Lists become objects by key; the keys are
    left to the comparison, entries come as ("entries", [(key, doc)])"""
    out = {}
    for name, x in s[3].items():
        n = kid(node, name)
        d = default_val(n, x)
        if d is not None:
            out[name] = d[0]
    return out


def default_val(n, x):
    if isinstance(n, LeafList):
        return ([n.type.dflt(c) for c in x[2]],) if x[1] and x[2] else None
    if isinstance(n, Leaf):
        return (n.type.dflt(x[2]),) if x[1] else None
    if isinstance(n, List):
        if not x[2]:
            return None
        return (Entries(n, [(k, default_doc(n, e)) for k, e in x[2]]),)
    d = default_doc(n, x)
    return (d,) if d or x[2] else None


class Entries:
    def __init__(self, node, items):
        self.node, self.items = node, items

    def __repr__(self):
        return "Entries%r" % (self.items,)


def same_scalar(a, b):
    if isinstance(a, Ident):
        # the value is held as it was written, with a prefix or without
        return isinstance(b, str) and a.type.read(b) == a
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return type(a) is type(b) and a == b
    return type(a) is type(b) and a == b


def cmp_default(want, got, path=""):
    """first difference or None; got is parsed JSON (object_pairs_hook=OrderedDict)"""
    if isinstance(want, Entries):
        if not isinstance(got, dict):
            return "%s: expected the entries of a list, found %r" % (path, got)
        if len(got) != len(want.items):
            return "%s: expected %d entries, found %r" % (path, len(want.items), list(got))
        for i, ((key, doc), (gk, gv)) in enumerate(zip(want.items, got.items())):
            if want.node.keys:
                from .drive import pystr
                t = " ".join(pystr(n.type, c) for n, c in zip(want.node.keynodes(), key))
                if gk != t and gk != t.lower() and not _same_key(want.node, key, gk):
                    return "%s: entry %d is expected under %r, found under %r" % (path, i, t, gk)
            gv = dict(gv) if isinstance(gv, dict) else gv
            if want.node.user:
                if not isinstance(gv, dict) or gv.pop("__yang_order", None) != i:
                    return "%s[%s]: expected __yang_order %d" % (path, gk, i)
            d = cmp_default(doc, gv, "%s[%s]" % (path, gk))
            if d:
                return d
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s: expected an object, found %r" % (path, got)
        if set(want) != set(got):
            return "%s: expected members %r, found %r" % (path, sorted(want), sorted(got))
        for k in want:
            d = cmp_default(want[k], got[k], path + "/" + k)
            if d:
                return d
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(want) != len(got) or not all(same_scalar(a, b) for a, b in zip(want, got)):
            return "%s: expected %r, found %r" % (path, want, got)
        return None
    if not same_scalar(want, got):
        return "%s: expected %r, found %r" % (path, want, got)
    return None


def _same_key(node, key, text):
    """a key keeps the form the entry was added with"""
    parts = text.split(" ") if len(node.keys) > 1 else [text]
    if len(parts) != len(key):
        return False
    for n, c, p in zip(node.keynodes(), key, parts):
        try:
            if n.type.canon(p) != c:
                return False
        except Exception:
            return False
    return True


# ---------------------------------------------------------------- RFC 7951 JSON
def ietf_doc(node, s, mod=None):
    out = {}
    for name, x in s[3].items():
        n = kid(node, name)
        d = ietf_val(n, x)
        if d is not None:
            out[name if n.module is mod else "%s:%s" % (n.module.name, name)] = d[0]
    return out


def ietf_val(n, x):
    if isinstance(n, LeafList):
        return ([n.type.ietf(c, n.module) for c in x[2]],) if x[1] and x[2] else None
    if isinstance(n, Leaf):
        return (n.type.ietf(x[2], n.module),) if x[1] else None
    if isinstance(n, List):
        return ([ietf_doc(n, e, n.module) for _, e in x[2]],) if x[2] else None
    d = ietf_doc(n, x, n.module)
    return (d,) if d or x[2] else None


def cmp_json(want, got, path=""):
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s: expected an object, found %r" % (path, got)
        if set(want) != set(got):
            return "%s: expected members %r, found %r" % (path, sorted(want), sorted(got))
        for k in want:
            d = cmp_json(want[k], got[k], path + "/" + k)
            if d:
                return d
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(want) != len(got):
            return "%s: expected %r, found %r" % (path, want, got)
        for i, (a, b) in enumerate(zip(want, got)):
            d = cmp_json(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if not same_scalar(want, got):
        return "%s: expected %r, found %r" % (path, want, got)
    return None


# ---------------------------------------------------------------- XML
class El:
    def __init__(self, ns, name, text=None, kids=(), ident=None):
        self.ns, self.name, self.text, self.kids, self.ident = ns, name, text, list(kids), ident

    def __repr__(self):
        return "<{%s}%s %r %r>" % (self.ns, self.name, self.text, self.kids)


def xml_doc(node, s):
    out = []
    for name, x in s[3].items():
        n = kid(node, name)
        out += xml_val(n, x)
    return out


def xml_val(n, x):
    ns = n.module.ns

    def leaf(c):
        ident = n.type.ident(c) if n.type.kind == "identityref" else None
        return El(ns, n.name, n.type.xml(c), ident=ident)

    if isinstance(n, LeafList):
        return [leaf(c) for c in x[2]] if x[1] else []
    if isinstance(n, Leaf):
        return [leaf(x[2])] if x[1] else []
    if isinstance(n, List):
        return [El(ns, n.name, None, xml_doc(n, e)) for _, e in x[2]]
    d = xml_doc(n, x)
    return [El(ns, n.name, None, d)] if d or x[2] else []


def write_xml(rng, ns, name, els, schema, noise=True):
    """a document holding els, written in one of the ways that mean the same"""
    spaces = []

    def collect(es):
        for e in es:
            if e.ns not in spaces:
                spaces.append(e.ns)
            if e.ident is not None and e.ident.module.ns not in spaces:
                spaces.append(e.ident.module.ns)
            collect(e.kids)

    collect(els)
    if ns not in spaces:
        spaces.append(ns)
    prefixes = {u: "q%d" % i for i, u in enumerate(spaces)}
    style = rng.choice(["default", "prefix", "mixed"])

    def nsmap(u):
        m = {v: k for k, v in prefixes.items()} if style != "default" else {}
        if style == "default" or style == "mixed" and rng.random() < 0.5:
            m[None] = u
        return m

    root = etree.Element("{%s}%s" % (ns, name), nsmap={v: k for k, v in prefixes.items()} if style == "prefix" else nsmap(ns))

    def put(parent, es, node):
        for e in order(es, node):
            m = {} if style == "prefix" else nsmap(e.ns)
            if e.ident is not None:
                u = e.ident.module.ns
                if style != "prefix" and m.get(None) == u and rng.random() < 0.6:
                    el = etree.SubElement(parent, "{%s}%s" % (e.ns, e.name), nsmap=m)
                    el.text = e.ident.name
                else:
                    m[prefixes[u]] = u
                    el = etree.SubElement(parent, "{%s}%s" % (e.ns, e.name), nsmap=m)
                    el.text = "%s:%s" % (prefixes[u], e.ident.name)
            else:
                el = etree.SubElement(parent, "{%s}%s" % (e.ns, e.name), nsmap=m)
                if e.text:
                    if noise and rng.random() < 0.1 and "]]>" not in e.text:
                        el.text = etree.CDATA(e.text)
                    else:
                        el.text = e.text
            k = kid(node, e.name)
            put(el, e.kids, k)
        if noise and rng.random() < 0.3:
            # containers without presence may be written although they hold nothing
            have = {e.name for e in es}
            for n in data_children(node):
                if type(n).__name__ == "Container" and not n.presence and n.name not in have and rng.random() < 0.5:
                    etree.SubElement(parent, "{%s}%s" % (n.module.ns, n.name), nsmap={None: n.module.ns})

    def order(es, node):
        keys = list(getattr(node, "keys", ()) or ())
        first = sorted([e for e in es if e.name in keys], key=lambda e: keys.index(e.name))
        rest = [e for e in es if e.name not in keys]
        groups = {}
        for e in rest:
            groups.setdefault((e.ns, e.name), []).append(e)
        names = [k for k, g in groups.items() for _ in g]
        rng.shuffle(names)
        its = {k: iter(g) for k, g in groups.items()}
        return first + [next(its[k]) for k in names]

    put(root, els, schema)
    return etree.tostring(root, pretty_print=rng.random() < 0.5, encoding="unicode")


def with_nothing(rng, doc, node, s, ietf=True):
    """a copy of a document with containers and lists that hold nothing written out"""
    def walk(d, node, mod):
        out = {}
        for k, v in d.items():
            n = kid(node, k.split(":")[-1])
            if isinstance(v, dict) and type(n).__name__ == "Container":
                v = walk(v, n, n.module)
            elif isinstance(v, list) and type(n).__name__ == "List":
                v = [walk(x, n, n.module) for x in v]
            out[k] = v
        have = {k.split(":")[-1] for k in out}
        for n in data_children(node):
            if n.name in have or rng.random() < 0.7:
                continue
            name = n.name if not ietf or n.module is mod and rng.random() < 0.5 else "%s:%s" % (n.module.name, n.name)
            t = type(n).__name__
            if t == "Container" and not n.presence:
                out[name] = {}
            elif t == "List":
                out[name] = []
            elif t == "LeafList":
                out[name] = []
        return out

    return walk(doc, node, None)


def cmp_xml(want, got, path=""):
    """want: list of El; got: an lxml element whose children they should be. Elements of one name
    keep their order; others may come in any"""
    groups = {}
    for w in want:
        groups.setdefault((w.ns, w.name), []).append(w)
    found = {}
    for g in got:
        if not isinstance(g.tag, str):
            continue
        q = etree.QName(g)
        found.setdefault((q.namespace, q.localname), []).append(g)
    if set(groups) != set(found):
        return "%s: expected elements %r, found %r" % (path, sorted(groups, key=str), sorted(found, key=str))
    for k in groups:
        if len(groups[k]) != len(found[k]):
            return "%s/%s: expected %d elements, found %d" % (path, k[1], len(groups[k]), len(found[k]))
        for w, g in zip(groups[k], found[k]):
            p = "%s/%s" % (path, w.name)
            if w.ident is not None:
                t = g.text or ""
                pre, _, nm = t.rpartition(":")
                if nm != w.ident.name:
                    return "%s: expected the identity %s, found %r" % (p, w.ident.name, t)
                uri = g.nsmap.get(pre or None)
                if uri != w.ident.module.ns:
                    return "%s: %r resolves to namespace %r, the identity is of %r" % (p, t, uri, w.ident.module.ns)
            elif w.kids:
                d = cmp_xml(w.kids, g, p)
                if d:
                    return d
            elif (w.text or "") != (g.text or "") or len(g):
                return "%s: expected %r, found %r" % (p, w.text, g.text)
    return None


# ---------------------------------------------------------------- domains
def rt_value(t, v):
    """values whose encodings are exact in every format (pyangbind writes decimals as JSON floats by default)"""
    if t.kind == "union":
        return t.stable(v)
    if t.kind == "decimal64":
        return t.exact_float(t.canon(v))
    return True


def xml_text(s):
    """whether XML can carry the text unchanged"""
    return all(ch in "\t\n" or ord(ch) >= 32 for ch in s) and "\r" not in s
