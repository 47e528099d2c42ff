"""Sessions on trees with a path helper, and a monitor that compares its registry with the tree."""
from lxml import etree

from pyangbind.lib.xpathhelper import YANGPathHelper

from . import encode as E, hist, model as M
from .drive import pystr
from .schema import Leaf, LeafList, List, data_children


# text that means something in paths
HOSTILE = ["a/b", "a]b", "x[1]", "it's", 'say"so', "a=b", "a and b", "]/[", "x:y", "..", "../x", ".", "@x", "'", "/", "a='b'", "b", "and", "d", "x ", "]", "[", "or", "=", "*", "a or b", "\u00e9", "()", "k='",
           "a]", "[b", "1", "0", "01", "1.0", "true", "#", "%s", "\\1", "\\", "\\g<remaining>"]


def key_ok(t, v, c):
    s = pystr(t, c)
    return E.xml_text(s) and not ("'" in s and '"' in s) and "current()" not in s and (not isinstance(v, str) or v == s)


def world(rng, rec, own, gen=None, two=False, plain=False, key_filter=key_ok, **kw):
    """plain: with values that all documents can hold"""
    o = dict(keyless=0)
    o.update(gen or {})

    def value_ok(t, v):
        return (t.kind != "union" or t.stable(v)) and (not plain or E.rt_value(t, v) and (not isinstance(v, str) or E.xml_text(v)))

    s = (hist.world2 if two else hist.world)(rng, rec, own=own, gen=o, flags=["--presence", "--use-xpathhelper"], key_filter=key_filter,
                                             value_filter=value_ok, **kw)
    plainvalue = s.value

    def value(t):
        if t.kind == "string" and rng.random() < 0.5:
            v = rng.choice(HOSTILE)
            if t.accepts(v):
                return v
        return plainvalue(t)

    s.value = value
    s.ph = YANGPathHelper()
    s.root = s.b.m(path_helper=s.ph)
    s.fresh = lambda: s.b.m(path_helper=YANGPathHelper())
    return s


def expected(m):
    """[(tag, keys, children)] of what is registered under m"""
    out = []
    for name, k in m.kids.items():
        if isinstance(k, (M.MLeaf, M.MLeafList)):
            out.append((name, (), ()))
        elif isinstance(k, M.MTree):
            out.append((name, (), expected(k)))
        else:
            for key, e in k.entries.items():
                a = tuple(sorted((n.name, pystr(n.type, c)) for n, c in zip(k.node.keynodes(), key)))
                out.append((name, a, expected(e)))
    return tuple(sorted(out))


def found(el, node):
    """the same of what is registered; keys are compared as values of their types"""
    out = []
    kids = {c.name: c for c in data_children(node)} if node is not None else {}
    for c in el:
        n = kids.get(c.tag)
        ts = {x.name: x.type for x in n.keynodes()} if isinstance(n, List) else {}
        a = []
        for k, v in c.attrib.items():
            if k == "obj_ptr":
                continue
            if k in ts and ts[k].kind in ("decimal64", "bits", "boolean"):
                # documents may have these in other forms
                try:
                    v = pystr(ts[k], ts[k].canon(v))
                except Exception:
                    pass
            a.append((k, v))
        out.append((c.tag, tuple(sorted(a)), found(c, n)))
    return tuple(sorted(out))


def first_diff(a, b, path=""):
    for x in a:
        if x not in b:
            near = [y for y in b if y[:2] == x[:2]]
            if near:
                return first_diff(x[2], near[0][2], "%s/%s%s" % (path, x[0], list(x[1]) or ""))
            return "%s/%s%s is not registered, there are %s" % (path, x[0], list(x[1]) or "", [y[:2] for y in b if y[0] == x[0]])
    for x in b:
        if x not in a:
            near = [y for y in a if y[:2] == x[:2]]
            if near:
                return first_diff(near[0][2], x[2], "%s/%s%s" % (path, x[0], list(x[1]) or ""))
            return "%s/%s%s is registered, it is not in the tree" % (path, x[0], list(x[1]) or "")
    return "%s: %d registered, %d in the tree" % (path, len(b), len(a))


def objects(s):
    """[(path, object)] of all registered kinds of nodes, read from the live tree"""
    out = []

    def walk(m, o):
        for name, k in m.kids.items():
            c = M.child(o, name)
            if isinstance(k, M.MList):
                for key, e in k.entries.items():
                    x = c[s.keytext(k, key)]
                    out.append(x)
                    walk(e, x)
            else:
                out.append(c)
                if isinstance(k, M.MTree):
                    walk(k, c)

    walk(s.m, s.root)
    return out


def check(s):
    want, got = expected(s.m), found(etree.fromstring(s.ph.tostring()), s.schema)
    if want != got:
        s.fail("registry", "the path helper: %s" % first_diff(want, got))
    n = 0
    for o in objects(s):
        p = o._path()
        r = s.ph.get(p)
        if len(r) != 1 or r[0] is not o:
            s.fail("registry", "the path helper has %r at %r, which is %s" % (r, p, "not the object in the tree" if r else "in the tree"))
        n += 1
    s.rec.obs("objects found at their paths", n)


def watch(s):
    orig = s.check

    def f(failed=None, before=None):
        orig(failed, before)
        check(s)

    s.check = f
