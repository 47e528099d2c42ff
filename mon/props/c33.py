"""Extension methods: which objects have them, and what they are called with."""
import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder
from pyangbind.lib.xpathhelper import YANGPathHelper

from mon import encode as E, hist, model as M, paths, schema as S, xph

TITLE = "Extension methods are on all objects of their path, and only there"
RULE = ("A case is a random schema built with --use-extmethods, objects with random methods for some of its paths, and a history of 50 operations (copies and documents included); after each ten, all objects in the tree are "
        "asked for their methods, which are called with random arguments; distinct = distinct (kind of node, depth, names of methods).")
COUNT = (160, 2600)
NEED = ["objects with methods", "objects without methods", "calls", "entries of lists", "names not taken over", "trees loaded"]

NAMES = ["commit", "method", "reset", "zap", "a", "Check", "do_it", "x1", "methods", "n\u00e9e", "run", "value_", "obj"]
# what the bindings themselves have
TAKEN = ["path", "set", "changed", "yang_name", "parent", "default", "register_path", "extmethods", "set_present", "present", "namespace", "metadata", "choice", "mchanged", "path_helper", "yang_path", "presence", "is_config", "get", "unset"]


def helper(rng, name, calls):
    """an object whose methods record how they are called"""
    body, has = {}, set()

    def make(n, kind):
        def f(*args, **kw):
            calls.append((name, n, args, kw))
            return (name, n, len(calls))

        if kind == "static":
            return staticmethod(f)
        if kind == "class":
            return classmethod(lambda cls, *a, **kw: f(*a, **kw))
        if kind == "callable":
            class Callable:
                def __call__(self, *a, **kw):
                    return f(*a, **kw)
            return Callable()
        return lambda self, *a, **kw: f(*a, **kw)

    base = {}
    for n in rng.sample(NAMES, rng.randint(1, 6)):
        (base if rng.random() < 0.3 else body)[n] = make(n, rng.choice(["plain", "plain", "static", "class", "callable"]))
        has.add(n)
    for n in rng.sample(TAKEN, rng.choice([0, 0, 1, 3])):
        body[n] = make(n, "plain")
    body["_hidden"] = make("_hidden", "plain")
    body["attribute"] = rng.choice([0, "text", None, [1]])
    cls = type("Helper", (type("Base", (), base),), body)
    return cls(), has


def case(rng, rec, tier):
    ph = rng.random() < 0.5
    s = hist.world(rng, rec, gen=dict(depth=rng.choice([2, 3]), width=(2, 4), maxnodes=50, keyless=0, lists=0.35), flags=["--presence", "--use-extmethods"] + (["--use-xpathhelper"] if rng.random() < 0.5 or ph else []),
                   value_filter=lambda t, v: E.rt_value(t, v) and (not isinstance(v, str) or E.xml_text(v)), key_filter=xph.key_ok, ops=dict(copy=0.6, grow=0.3), bad=rng.random() < 0.5)
    calls = []
    all_paths = sorted(set(schema_paths(s.schema, "")))
    ext = {}
    want = {}
    for p in rng.sample(all_paths, min(len(all_paths), rng.randint(2, 6))):
        ext[p], want[p] = helper(rng, p, calls)
    if rng.random() < 0.5:
        # paths that are nobody's
        for p in rng.sample(all_paths, 1):
            ext[p + "x"], ext[p[1:]], ext[p + "/nothing"] = helper(rng, "x", calls)[0], helper(rng, "x", calls)[0], helper(rng, "x", calls)[0]
    s.texts = [s.schema.text() + "\n" + repr({p: [n for n in dir(o) if not n.startswith("_")] for p, o in ext.items()})]
    s.ph = YANGPathHelper() if ph else None
    make = lambda: s.b.m(extmethods=ext, **(dict(path_helper=s.ph) if ph else {}))
    s.root = make()
    s.fresh = lambda: s.b.m()
    check(s, rec, want, calls, ext)
    for _ in range(5):
        s.run(10)
        check(s, rec, want, calls, ext)
    s.tidy()
    fmt = rng.choice(["default", "ietf", "xml"])
    s.hist.append("load from %s" % fmt)
    if ph:
        s.ph = YANGPathHelper()
    kw = dict(extmethods=ext, **(dict(path_helper=s.ph) if ph else {}))
    if fmt == "xml":
        d = pybindIETFXMLEncoder.serialise(s.root)
        from lxml import objectify
        s.root = pybindIETFXMLDecoder.decode(d, s.b, "m", **{}) if False else pybindIETFXMLDecoder.load_xml(objectify.fromstring(d), s.b, "m", **kw)
    elif fmt == "ietf":
        s.root = J.loads_ietf(J.dumps(s.root, mode="ietf"), s.b, "m", **kw)
    else:
        s.root = J.loads(J.dumps(s.root, filter=True), s.b, "m", **kw)
    rec.obs("trees loaded")
    check(s, rec, want, calls, ext)
    s.flags = False
    s.run(6)
    check(s, rec, want, calls, ext)
    # a tree without them
    o = s.b.m()
    for n in S.data_children(s.schema):
        x = M.child(o, n.name)
        if any(hasattr(x, "_" + k) for k in NAMES):
            s.fail("extmethods", "%s of a tree without extension methods has them" % n.name)


def schema_paths(node, at):
    for n in S.data_children(node):
        p = at + "/" + n.name
        yield p
        yield from schema_paths(n, p)


def check(s, rec, want, calls, ext):
    rng = s.rng
    for m, o in paths.everything(s):
        p = paths.schema_path(m)
        has = want.get(p, set())
        for n in NAMES + ["attribute", "_hidden"]:
            if hasattr(o, "_" + n) != (n in has):
                s.fail("extmethods", "%s (%s) %s _%s" % (s.name(m), type(m).__name__, "has no" if n in has else "has", n))
        if p in ext:
            for n in TAKEN:
                if hasattr(type(ext[p]), n):
                    # it means what it means without
                    k = len(calls)
                    if n in ("path", "changed", "register_path", "present"):
                        getattr(o, "_" + n)()
                        d = paths.differs(m, o._path())
                        if d:
                            s.fail("extmethods", "%s: %s" % (s.name(m), d))
                    if len(calls) != k:
                        s.fail("extmethods", "_%s of %s is that of the extension" % (n, s.name(m)))
                    rec.obs("names not taken over")
        rec.obs("objects with methods" if has else "objects without methods")
        rec.seen(type(m).__name__, p.count("/"), tuple(sorted(has)))
        if isinstance(m.parent, M.MList):
            rec.obs("entries of lists")
        for n in rng.sample(sorted(has), min(2, len(has))):
            args = tuple(rng.choice([1, "x", None, (), [1]]) for _ in range(rng.randint(0, 2)))
            kw = {k: rng.choice([0, "y", None]) for k in rng.sample(["one", "self_", "two", "method", "value"], rng.randint(0, 2))}
            k = len(calls)
            r = getattr(o, "_" + n)(*args, **kw)
            rec.obs("calls")
            if len(calls) != k + 1:
                s.fail("extmethods", "a call of _%s of %s led to %d calls" % (n, s.name(m), len(calls) - k))
            where, name, a, b = calls[-1]
            b = dict(b)
            caller, helper_ = b.pop("caller", None), b.pop("path_helper", None)
            if (where, name, a, b) != (p, n, args, kw) or r != (p, n, k + 1):
                s.fail("extmethods", "_%s of %s with %r, %r was a call of %r" % (n, s.name(m), args, kw, calls[-1]))
            d = paths.differs(m, caller)
            if d:
                s.fail("extmethods", "_%s of %s was called with the caller %r: %s" % (n, s.name(m), caller, d))
            if (helper_ or None) is not (getattr(s, "ph", None) or None):
                s.fail("extmethods", "_%s of %s was called with the path helper %r" % (n, s.name(m), helper_))
