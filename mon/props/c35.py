"""RPCs and notifications: trees of their own, outside the data tree."""
import importlib.util
import inspect
import json
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from lxml import etree
from pyangbind.lib.base import PybindBase
from pyangbind.lib.serialise import pybindIETFXMLEncoder, pybindJSONDecoder
from pyangbind.lib.xpathhelper import YANGPathHelper

from mon import build, encode as E, model as M, paths, schema as S, xph
from mon.core import Skip
from mon.drive import Session
from mon.props import c28

TITLE = "RPCs and notifications have trees of their own, outside the data tree"
RULE = ("A case is a random schema with RPCs and notifications in two modules, some augmented from the other, built in one file or split; histories of 20 operations on input, output, whole RPCs and notifications and "
        "on the data tree are interleaved, with a path helper in half of the cases, whose registry must be the data tree's; distinct = distinct (kind, names, place, default, origin of a node).")
COUNT = (130, 2200)
NEED = ["inputs", "outputs", "rpcs", "notifications", "split", "in one file", "registries compared", "documents compared", "documents loaded", "references taken", "references refused", "augmented", "in a submodule"]

KINDS = ["string", "int8", "uint16", "int32", "uint64", "decimal64", "boolean", "enumeration", "bits", "binary", "empty", "union"]


class Op(S.Node):
    """an rpc or a notification"""

    def __init__(self, keyword, name, children):
        S.Node.__init__(self, name, children)
        self.keyword = keyword


class Side(S.Container):
    def __init__(self, name, children):
        S.Container.__init__(self, name, children)
        self.keyword = name

    def text(self, ind, mod):
        out = S.Container.text(self, ind, mod)
        out[0] = "%s%s {" % (ind, self.name)
        return out


class Mod(S.Module):
    def __init__(self, *a):
        S.Module.__init__(self, *a)
        self.ops, self.sub, self.insub = [], False, []

    def text(self):
        # data nodes, rpcs and notifications are all statements of the module
        kids, self.children = self.children, self.children + self.ops
        aside = [o for o in self.ops if o in self.insub]
        try:
            self.types = self.all_typedefs()
            self.all_typedefs = lambda: [] if self.sub else self.types
            self.children = [c for c in self.children if c not in aside]
            return S.Module.text(self)
        finally:
            self.children = kids
            del self.all_typedefs

    def subtext(self):
        # pyang sees typedefs of the submodule in the module, and not the other way round
        types = ["typedef %s { %s%s }" % (t.name, t.type.decl(self), " default %s;" % S.T.q(t.default) if t.default is not None else "") for t in self.types]
        return "submodule sub { yang-version 1.1; belongs-to %s { prefix %s; }\n%s\n}\n" % (self.name, self.prefix, "\n".join(types + ["\n".join(o.text("  ", self)) for o in self.insub]))


def ops(rng, g, m, used):
    for _ in range(rng.randint(1, 3)):
        sides = [Side(n, g.children(rng.choice([0, 1, 2]), set())) for n in ("input", "output") if rng.random() < 0.75]
        m.ops.append(Op("rpc", g.fresh(used), sides))
    for _ in range(rng.randint(0, 2)):
        m.ops.append(Op("notification", g.fresh(used), g.children(rng.choice([0, 1, 2]), set(), n=rng.choice([1, 2, 3]))))

    def plain(n):
        n.config = None
        for c in n.children:
            plain(c)

    def walk(n, mod):
        n.rw = True
        n.module = n.module or mod
        for c in n.children:
            walk(c, mod)

    for o in m.ops:
        plain(o)
        walk(o, m)


def augment(rng, rec, g, m, by):
    """the other module adds to RPCs and notifications"""
    where = []

    def walk(n, p):
        p = "%s/%s:%s" % (p, by.prefix_of(m), n.name)
        if n.keyword != "rpc" and isinstance(n, (Op, S.Container, S.List)):
            where.append((p, n))
        for c in n.children:
            if not isinstance(c, S.Choice):
                walk(c, p)

    for o in m.ops:
        walk(o, "")
    for p, n in rng.sample(where, min(len(where), rng.randint(0, 3))):
        kids = g.children(rng.choice([0, 1]), {S.safe(c.name) for c in S.data_children(n)} | {S.safe(c.name) for c in n.children}, n=rng.randint(1, 2))

        def own(n):
            n.module, n.rw, n.config = by, True, None
            for c in n.children:
                own(c)

        for k in kids:
            own(k)
        by.augments.append((p, kids))
        n.children += kids
        rec.obs("augmented")


def find(s, b, mod, op, split, names):
    """the class of an RPC or of a part of it"""
    kind = "%s_%s" % (S.safe(mod.name), "rpc" if op.keyword == "rpc" else "notification")
    if split:
        # a package whose name is taken has an underscore after it
        at = [b.__name__]
        for n in [kind] + names:
            n = S.safe(n)
            at = ["%s.%s" % (p, t) for p in at for t in (n, n + "_") if importlib.util.find_spec("%s.%s" % (p, t))]
        c = [c for p in at for c in vars(importlib.import_module(p)).values() if inspect.isclass(c) and issubclass(c, PybindBase) and c.__module__ == p]
    else:
        c = [c for c in vars(b).values() if inspect.isclass(c) and issubclass(c, PybindBase) and c is not PybindBase]
    c = [c for c in c if len(c._pyangbind_elements) and c._yang_name == names[-1] and c()._path() == [kind] + names]
    if len(c) != 1:
        s.bad("rpc", "the classes for %s of %s are %r" % (names, mod.name, c))
    return c[0]


def case(rng, rec, tier):
    names = rng.choice([S.NAMES, S.NAMES + c28.MORE, ["a", "b", "c", "a-b", "b-c", "a.b", "m", "input", "output", "rpc", "check", "m-rpc"]])
    g = S.Gen(rng, depth=2, width=(1, 3), maxnodes=60, presence=0.15, keyless=0, defaults=0.2, kinds=KINDS, names=names)
    m, by = Mod("m", rng.choice(["m", "p.x"])), Mod(rng.choice(["other", "m-x", "a"]), "o")
    by.add_import(m, rng.choice([None, "mm"]))
    used = {"m", "targets", "look"}
    m.children = g.children(rng.choice([1, 2]), used)
    usedby = {S.safe(by.name)}
    by.children = g.children(1, usedby, n=1) if rng.random() < 0.7 else []
    S.finish([m, by])
    ops(rng, g, m, used)
    if rng.random() < 0.6:
        ops(rng, g, by, usedby)
    augment(rng, rec, g, m, by)
    for x in (m, by):
        for o in x.ops + x.children:
            for n in [o] + list(S.all_nodes(o)):
                if isinstance(n, S.List):
                    for k in n.keynodes():
                        k.default = None
    m.extra = ["container targets { list t { key name; leaf name { type string; } } }",
               "rpc look { input { leaf ref { type leafref { path \"/%s:targets/%s:t/%s:name\"; %s} } } }" % ((m.prefix,) * 3 + (rng.choice(["", "require-instance true; "]),))]
    if rng.random() < 0.3:
        m.insub = rng.sample(m.ops, rng.randint(0, len(m.ops)))
        m.sub = True
        m.extra.insert(0, "include sub;")
        rec.obs("in a submodule", len(m.insub))
    texts = [m.text(), by.text()] + ([m.subtext()] if m.sub else [])
    flags = ["--presence"] + (["--build-rpcs"] if any(o.keyword == "rpc" for x in (m, by) for o in x.ops) else []) + ["--build-notifications"]
    helper = rng.random() < 0.5
    if helper:
        flags.append("--use-xpathhelper")
    split = rng.random() < 0.4
    try:
        b = build.build_split(texts, flags, keep=True) if split else build.build(texts, flags)
    except build.BuildError as e:
        rec.bad("build", "no bindings: %s\n%s" % (e, "\n".join(texts)))
    rec.obs("split" if split else "in one file")
    try:
        run(rng, rec, b, split, m, by, texts, YANGPathHelper() if helper else None)
    finally:
        if split:
            build.drop_split(b)


class Bad:
    def __init__(self, rec, texts):
        self.rec, self.texts = rec, texts

    def bad(self, mech, detail):
        self.rec.bad(mech, detail + "\n" + "\n".join(self.texts))


def value_ok(t, v):
    return E.rt_value(t, v) and (t.kind != "union" or t.stable(v))


def run(rng, rec, b, split, m, by, texts, ph):
    kw = dict(path_helper=ph) if ph else {}
    f = Bad(rec, texts)
    # the data tree, without the targets, which have no part in the histories
    data = Session(rng, rec, m, b.m(**kw), every=3, value_filter=value_ok, key_filter=xph.key_ok if ph else None)
    data.texts, data.b = texts, b
    trees = []
    for mod in (m, by):
        for o in mod.ops:
            tops = [(o, [o.name])] + [(c, [o.name, c.name]) for c in o.children if o.keyword == "rpc" and S.data_children(c)]
            for node, names in tops:
                if not S.data_children(node) or rng.random() < 0.3:
                    continue
                cls = find(f, b, mod, o, split, names)
                try:
                    live = cls(**kw)
                except Exception as e:
                    f.bad("rpc", "%s%r cannot be made: %s: %s" % (names, kw, type(e).__name__, e))
                s = Session(rng, rec, node, live, every=3, value_filter=value_ok)
                s.texts, s.b, s.mod, s.cls, s.at = texts, b, mod, cls, live._path()
                s.fresh = lambda cls=cls: cls(**kw)
                trees.append(s)
                rec.obs("rpcs" if node.keyword == "rpc" else node.keyword + "s")
                for n in S.data_children(node):
                    c28.walk(s, rec, node, live, n, ())
                c28.elements(s, node, live)
    want = {n.name for n in S.data_children(m)} | {"targets"}
    if set(M.attrs(data.root)) != want:
        f.bad("rpc", "the data tree has the nodes %r, expected %r" % (sorted(M.attrs(data.root)), sorted(want)))
    registry(data, ph, rec)
    for _ in range(4):
        for s in rng.sample([data] + trees, len(trees) + 1):
            s.run(5)
            registry(data, ph, rec, s)
    for s in trees:
        where(s, rec)
        s.tidy()
        documents(s, rng, rec, ph)
        registry(data, ph, rec, s)
    if any(o.keyword == "rpc" for x in (m, by) for o in x.ops):
        references(rng, rec, f, b, split, m, data, ph)


def registry(data, ph, rec, s=None):
    if ph is None:
        return
    got = etree.fromstring(ph.tostring())
    t = [c for c in got if c.tag == "targets"]
    if len(t) != 1:
        data.fail("registry", "the path helper has %d targets" % len(t))
    got.remove(t[0])
    want, have = xph.expected(data.m), xph.found(got, data.schema)
    if want != have:
        data.fail("registry", "the path helper: %s (after operations %s)" % (xph.first_diff(want, have), "on %s: %s" % (s.schema.name, s.hist[-5:]) if s else ""))
    rec.obs("registries compared")


def where(s, rec):
    """paths lead from the RPC to the node"""
    for k, o in paths.everything(s):
        p = o._path()
        if p[:len(s.at)] != s.at:
            s.fail("path", "%s has the path %r, that of the tree is %r" % (s.name(k), p, s.at))
        d = paths.differs(k, p[len(s.at):])
        if d:
            s.fail("path", "%s: %s" % (s.name(k), d))


def documents(s, rng, rec, ph):
    snap = M.snap(s.m)
    node = s.schema
    text = J.dumps(s.root, mode="ietf")
    d = E.cmp_json(E.ietf_doc(node, snap), json.loads(text, object_pairs_hook=OrderedDict))
    if d:
        s.fail("doc", "IETF JSON of %s: %s" % (node.name, d))
    rec.obs("documents compared")
    want = M.only_set(snap)
    kw = dict(path_helper=ph) if ph else {}
    for kind in ("ietf", "json"):
        o = s.cls(**kw)
        if kind == "ietf":
            pybindJSONDecoder.load_ietf_json(json.loads(text, object_pairs_hook=OrderedDict), None, None, obj=o)
        else:
            pybindJSONDecoder.load_json(json.loads(J.dumps(s.root, filter=True), object_pairs_hook=OrderedDict), None, None, obj=o)
        got = M.only_set(M.observe_tree(node, o))
        d = M.diff(want, got) if want is not None and got is not None else None if want is got else "%r, %r" % (want, got)
        if d:
            s.fail("load", "%s of %s: %s" % (kind, node.name, d))
        rec.obs("documents loaded")
    if not any(not E.xml_text(x) for x in c28.texts_of(snap)):
        d = E.cmp_xml(E.xml_doc(node, snap), etree.fromstring(pybindIETFXMLEncoder.serialise(s.root)))
        if d:
            s.fail("doc", "XML of %s: %s" % (node.name, d))
        rec.obs("documents compared")


def references(rng, rec, f, b, split, m, data, ph):
    """leafrefs of RPCs look into the data tree"""
    cls = find(f, b, m, Op("rpc", "look", []), split, ["look", "input"])
    x = cls(**(dict(path_helper=ph) if ph else {}))
    l = data.root.targets.t
    for _ in range(12):
        k = rng.choice(["a", "b", "c d", "1"])
        r = rng.random()
        if r < 0.35 and k not in l:
            l.add(k)
        elif r < 0.5 and k in l:
            l.delete(k)
        else:
            try:
                x.ref = k
                ok = True
            except (ValueError, KeyError):
                ok = False
            want = ph is None or k in l
            if ok != want:
                f.bad("reference", "an input %s the reference to %r, the targets are %r" % ("takes" if ok else "refuses", k, list(l)))
            if ok and str(x.ref) != k:
                f.bad("reference", "a reference to %r is %r" % (k, x.ref))
            rec.obs("references taken" if ok else "references refused")
