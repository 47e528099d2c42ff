"""The bindings against the schema that the YANG describes, however the YANG is put together."""
import json
import keyword
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from pyangbind.lib.serialise import pybindIETFXMLEncoder
from lxml import etree

from mon import build, encode as E, model as M, restructure as R, schema as S, ytypes as T
from mon.drive import Session
from mon.model import attrs, child
from mon.props import c12, c21

TITLE = "The bindings have exactly the nodes of the schema, as YANG describes it"
RULE = ("A case is a random schema tree over two modules, written as YANG with groupings (in other modules, nested, used several times with refinements and augmentations), submodules, augmentations of "
        "the module itself and from another, features, deviations and texts that mean something in Python; the bindings are compared with the tree node by node, and by a history of 40 operations and the documents "
        "of the result; distinct = distinct (kind, names, place, config, default, origin of a node).")
COUNT = (140, 2600)
NEED = ["nodes compared", "groupings", "groupings used again", "refinements", "augmentations of uses", "augmentations of the module itself", "augmentations of another module", "in submodules",
        "nodes not supported", "nodes without their feature", "operations"]

KINDS = ["string", "int8", "uint16", "int32", "uint64", "decimal64", "boolean", "enumeration", "bits", "binary", "empty", "union"]
# names whose paths can be mistaken for each other, or that mean something in Python or to the bindings
MORE = ["a", "b", "c", "a-b", "b-c", "a-b-c", "a.b", "b_c", "m", "aug", "yc", "get", "elements", "property", "object", "type", "super", "len", "range", "hasattr", "setattr", "getattr", "isinstance", "TypeError", "ValueError",
        "AttributeError", "tuple", "dict", "set", "list", "str", "int", "float", "long", "unicode", "bool", "bytes", "nonlocal", "global", "None", "True", "False", "async", "await", "match", "case", "self", "cls",
        "Decimal", "OrderedDict", "attrgetter", "YANGBool", "YANGDynClass", "YANGListType", "PybindBase", "PybindRestricted", "RestrictedClassType", "TypedListType", "ReferenceType", "xpathhelper", "load", "args", "kwargs", "helper", "extmethods",
        "e", "t", "nobj", "setmethod", "parent", "all_attr", "v", "base", "copy", "clear", "__builtin__".strip("_"), "builtins", "module", "input", "output", "rpc", "config", "state", "count", "index", "filter", "delete",
        "path", "name", "keys", "x-1", "x.1", "x1", "l", "ll", "I", "O", "exec", "print", "eval", "id", "hash", "repr", "iter", "next", "callable", "format", "dir", "vars", "staticmethod", "classmethod", "slots", "doc"]


def make(rng, rec, names=None, prepare=None):
    """roots, texts, flags and targets of a random schema"""
    names = names or (S.NAMES if rng.random() < 0.3 else MORE if rng.random() < 0.6 else S.NAMES + MORE)
    if rng.random() < 0.3:
        names = ["a", "b", "c", "a-b", "b-c", "a-b-c", "a.b", "m", "x", "y", "a-b.c", "m-a"]
    g = S.Gen(rng, depth=rng.choice([2, 3]), width=(2, 4), maxnodes=70, presence=0.15, config_false=0.08, defaults=0.3, tddefaults=0.2, keyless=0, kinds=KINDS, names=names)
    for _ in range(30):
        m = g.module()
        if 0 < sum(1 for _ in S.all_nodes(m)) <= g.o["maxnodes"]:
            break
    m.name, m.prefix = "m", rng.choice(["m", "p", "pre.fix"])
    if rng.random() < 0.2:
        m.ns = rng.choice(["urn:m'", "http://example.com/m?a=b&c='d'", "urn:m%20x"])
    types = S.Module("types", rng.choice(["t", "ty-pes"]))
    by = S.Module("aug", rng.choice(["aug", "a"])) if rng.random() < 0.6 else None
    groups = S.Module("groups", "g") if rng.random() < 0.5 else None
    m.add_import(types, rng.choice([None, "tt"]))
    if by:
        by.add_import(m, rng.choice([None, "mm"]))
        by.add_import(types)
        S.augment(rng, g, m, by, 3)
        by.augments = []
        cases(rng, g, m, by)
        by.children = g.children(1, set(["aug"]), n=rng.randint(0, 2))
    if groups:
        groups.add_import(types, "ty")
        m.add_import(groups, "grp")
        if by:
            by.add_import(groups)
    S.finish([x for x in (m, by) if x])
    ntwins = R.twins(rng, m, g, None)
    S.finish([x for x in (m, by) if x])
    roots = [m] + ([by] if by else [])
    for r in roots:
        for n in S.all_nodes(r):
            if isinstance(n, S.List):
                for k in n.keynodes():
                    k.iskey, k.default = True, None
            if isinstance(n, S.Leaf):
                for t in n.type.typedefs():
                    t.module = types
                    if t not in types.typedefs:
                        types.typedefs.append(t)
    if prepare is not None:
        prepare(roots, [x for x in (m, by, groups) if x])
    w = R.Writer(rng, m, by, types, groups, sub="sub" if rng.random() < 0.5 else None, dev="dev" if rng.random() < 0.4 else None)
    texts = w.texts()
    rec.sample("\n".join(texts)[:3000])
    flags = ["--presence", "-F", "m:on-f"]
    if rng.random() < 0.3:
        flags.append("--use-xpathhelper")
    if rng.random() < 0.3:
        flags.append("--use-extmethods")
    targets = [x.name for x in roots] + (["dev"] if w.devname else [])
    if by and rng.random() < 0.5:
        rng.shuffle(targets)
    for k, v in w.obs.items():
        rec.obs(k, v)
    return roots, texts, flags, targets


def case(rng, rec, tier):
    roots, texts, flags, targets = make(rng, rec)
    try:
        b = build.build(texts, flags, targets)
    except build.BuildError as e:
        rec.bad("build", "no bindings: %s\n%s" % (e, "\n".join(texts)))
    judge(rng, rec, roots, texts, b)


def judge(rng, rec, roots, texts, b):
    for r in roots:
        cls = getattr(b, r.name, None)
        if cls is None:
            rec.bad("structure", "there is no class %s\n%s" % (r.name, "\n".join(texts)))
        s = Session(rng, rec, r, cls(), every=8, ops=dict(grow=0.3), value_filter=lambda t, v: t.kind != "union" or t.stable(v))
        s.b, s.texts = b, texts
        if not S.data_children(r):
            continue
        for n in S.data_children(r):
            walk(s, rec, r, s.root, n, ())
        elements(s, r, s.root)
        for _ in range(4):
            for _ in range(10):
                s.step()
            for t in s.nodes(M.MTree):
                o = s.live(t)
                elements(s, t.node, o)
                if M.is_entry(t):
                    for n in S.data_children(t.node):
                        walk(s, rec, t.node, o, n, path(t))
        s.tidy()
        snap = M.snap(s.m)
        if not any(not E.xml_text(x) for x in texts_of(snap)):
            d = E.cmp_xml(E.xml_doc(r, snap), etree.fromstring(pybindIETFXMLEncoder.serialise(s.root)))
            if d:
                s.fail("doc", "XML: %s" % d)
        d = E.cmp_json(E.ietf_doc(r, snap), json.loads(J.dumps(s.root, mode="ietf"), object_pairs_hook=c21.pairs))
        if d:
            s.fail("doc", "IETF JSON: %s" % d)
        rec.obs("documents compared", 2)


def texts_of(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, (list, tuple)):
        for i in x:
            yield from texts_of(i)
    elif isinstance(x, dict):
        for i in x.values():
            yield from texts_of(i)


def cases(rng, g, m, by):
    """the augmenting module adds cases to choices"""
    def walk(node, near):
        for c in list(node.children):
            if c.module is not m:
                continue
            if isinstance(c, S.Choice):
                if rng.random() < 0.4:
                    used = {S.safe(x.name) for x in R.siblings(near)}
                    k = S.Case("case%d" % rng.randrange(10**6), g.children(0, used, n=rng.randint(1, 2)))

                    def own(n):
                        n.module = by
                        for x in n.children:
                            own(x)

                    own(k)
                    c.children.append(k)
                walk(c, near)
            else:
                walk(c, near if isinstance(c, S.Case) else c)

    walk(m, m)


def path(t):
    out = []
    while t.parent is not None:
        if not M.is_entry(t):
            out.insert(0, t.node.name)
        t = t.parent
    return tuple(out)


def elements(s, node, o):
    want = sorted(n.name for n in S.data_children(node))
    got = sorted(attrs(o))
    if want != got:
        s.fail("structure", "%s has the nodes %r, the schema has %r" % (node.name, got, want))
    if sorted(o.elements()) != sorted(attrs(o).values()):
        s.fail("structure", "elements() of %s is %r" % (node.name, list(o.elements())))


def walk(s, rec, parent, o, n, at):
    """one node and those beneath it, against the schema"""
    w = "/".join(at + (n.name,))
    bad = lambda t: s.fail("structure", "%s: %s" % (w, t))
    a = attrs(o).get(n.name)
    if a is None:
        bad("there is no such node in the bindings, only %r" % list(attrs(o)))
    plain = n.name.replace("-", "_").replace(".", "_")
    if a not in (plain, plain + "_") or not a.isidentifier() or keyword.iskeyword(a):
        bad("the attribute is called %r" % a)
    x = getattr(o, a)
    if x is not getattr(o, "_get_" + a)():
        bad("the attribute and _get_%s give different objects" % a)
    rec.obs("nodes compared")
    exp = dict(yang_name=n.name, _namespace=n.module.ns, _defining_module=n.module.name, _is_config=n.rw)
    got = dict(yang_name=x.yang_name(), _namespace=x._namespace, _defining_module=x._defining_module, _is_config=bool(x._is_config))
    if got != exp:
        bad("%r, expected %r" % (got, exp))
    if x._parent is not o:
        bad("its parent is another object")
    if isinstance(n, S.LeafList):
        if x._is_container or x._yang_type in ("container", "list"):
            bad("is no leaf-list")
        if not s.hist and (len(x) or x._changed()):
            bad("is not empty at first")
    elif isinstance(n, S.Leaf):
        if not x._is_leaf:
            bad("is no leaf")
        want = n.default
        d = n.type.typedefs()
        if want is None:
            for t in reversed(d):
                if t.default is not None:
                    want = t.default
                    break
        key = bool(x._is_keyval)
        if key != (isinstance(parent, S.List) and n.name in parent.keys):
            bad("_is_keyval is %s" % key)
        if want is None:
            if x._default is not False:
                bad("has the default %r, should have none" % (x._default,))
        elif not key and c12.as_value(n.type, x.default()) != n.type.canon(want):
            bad("has the default %r, expected %r" % (x.default(), want))
    elif isinstance(n, S.List):
        if x._is_container != "list":
            bad("is no list")
        if (x._yang_keys or "").split() != list(n.keys):
            bad("has the keys %r, expected %r" % (x._yang_keys, n.keys))
        if bool(x._ordered) != n.user:
            bad("is ordered by the user: %r, expected %r" % (x._ordered, n.user))
    else:
        if n.keyword == "container" and x._is_container != "container":
            bad("is no container")
        if bool(x._presence) != bool(n.presence):
            bad("presence is %r, expected %r" % (x._presence, n.presence))
        elements(s, n, x)
        for k in S.data_children(n):
            walk(s, rec, n, x, k, at + (n.name,))
    rec.seen(type(n).__name__, n.name, len(at), n.rw, getattr(n, "default", None), n.module.name, bool(n.choice))
