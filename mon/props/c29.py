"""Bindings in a directory of packages against the schema, and against the bindings in one file."""
import os
import sys

from mon import build, schema as S
from mon.drive import Session
from mon.model import attrs
from mon.props import c28

TITLE = "Bindings split into a directory are those that a single file would have"
RULE = ("A case is a random schema over two modules, written as for C28; the bindings are built with --split-class-dir, compared with the schema node by node, during a history of operations and by the documents of the "
        "result; each class must be in the package that its path leads to; then the bindings of one file must have the same nodes; distinct = distinct (kind, names, place, config, default, origin of a node).")
COUNT = (110, 2200)
NEED = ["nodes compared", "packages", "nested nodes of one name", "in submodules", "augmentations of another module", "operations", "documents compared"]


def case(rng, rec, tier):
    names = ["a", "b", "c", "a-b", "m", "aug", "x", "y", "a.b"] if rng.random() < 0.5 else None
    roots, texts, flags, targets = c28.make(rng, rec, names)
    try:
        b = build.build_split(texts, flags, targets)
    except build.BuildError as e:
        rec.bad("build", "no bindings: %s\n%s" % (e, "\n".join(texts)))
    try:
        c28.judge(rng, rec, roots, texts, b)
        one = build.build(texts, flags, targets)
        for r in roots:
            s = Session(rng, rec, r, getattr(b, r.name)())
            s.texts = texts
            same(s, rec, b.__name__, s.root, getattr(one, r.name)(), (), r.name)
    finally:
        build.drop_split(b)


def same(s, rec, pkg, x, y, at, above):
    """the objects of either kind of bindings, and the places of the classes"""
    w = "/" + "/".join(at)
    if list(attrs(x)) != list(attrs(y)):
        s.fail("split", "%s: the nodes are %r, in one file %r" % (w, list(attrs(x)), list(attrs(y))))
    for n, a in attrs(x).items():
        p, q = getattr(x, a), getattr(y, attrs(y)[n])
        f = lambda o: (o._yang_type, o._is_container, bool(o._is_config), o._namespace, o._defining_module, repr(o._default), bool(getattr(o, "_presence", None)), o._path() if hasattr(o, "_path") else None, o._yang_keys if hasattr(o, "_yang_keys") else None)
        if f(p) != f(q):
            s.fail("split", "%s/%s: %r, in one file %r" % (w, n, f(p), f(q)))
        if p._is_container:
            if n == (at[-1] if at else above):
                rec.obs("nested nodes of one name")
            k, l = (p._new_item(), q._new_item()) if p._is_container == "list" else (p, q)
            if p._is_container == "list" and p._keyval and p._keyval is not False:
                pass
            c = [c for c in type(k).__mro__ if c.__module__.startswith(pkg)]
            if not c:
                if len(attrs(k)):
                    s.fail("split", "%s/%s has no class in the package: %r" % (w, n, type(k).__mro__))
            else:
                mod, steps = c[0].__module__, at + (n,)
                if len(mod.split(".")) != len(steps) + 1 or any(part.rstrip("_") != S.safe(step).rstrip("_") for part, step in zip(mod.split(".")[1:], steps)):
                    s.fail("split", "%s/%s: its class is in %s" % (w, n, mod))
                if getattr(sys.modules.get(mod), c[0].__name__, None) is not c[0]:
                    s.fail("split", "%s/%s: its class is not in %s" % (w, n, mod))
                rec.obs("packages")
            same(s, rec, pkg, k, l, at + (n,), None)
