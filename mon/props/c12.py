import json

import pyangbind.lib.pybindJSON as J

from mon import build, ytypes as T
from mon.model import attrs, child, setter, unsetter
from mon.schema import Container, Identity, Leaf, List, Module, finish

TITLE = "A leaf's default is the one YANG gives it, and is not data"
RULE = ("A case is a module of 8 to 12 leaves of all types whose defaults are their own, those of a typedef in a chain of up to three, or "
        "none, in containers and list entries; default(), get(), the change flag and documents are compared with YANG's rules before and after "
        "histories of setting and unsetting, on several instances; distinct = distinct (type, where the default is from, state).")
COUNT = (440, 5000)
NEED = ["defaults compared", "leaves without default", "unfiltered gets", "documents without defaults"]
ASSUMPTIONS = ["the default of a typedef that is a member of a union is no default of the union; leaf-lists' defaults are not among what pyangbind offers"]

KINDS = ["string", "int8", "uint8", "int32", "uint64", "int64", "decimal64", "boolean", "enumeration", "bits", "binary", "union", "identityref"]


def text_of(rng, t):
    """a default as YANG text, and its canonical value"""
    for _ in range(50):
        if t.kind == "union":
            v = t.value(rng)
            return v, t.canon(v)
        c = t.value(rng)
        if t.kind in ("string", "enumeration", "identityref"):
            return c, c
        if t.kind == "binary" and c == b"":
            continue
        return t.lex(c), c
    return None, None


def make(rng, m, roots, tdname):
    """a leaf type and the default in force: (type, own default text, canonical or None, where from)"""
    k = rng.choice(KINDS)
    if k == "identityref":
        r = rng.choice(roots)
        mk = lambda parent=None: T.IdentityT(r, r.name, parent)
    elif k == "union":
        mk = lambda parent=None: T.UnionT.gen(rng, parent=parent)
    else:
        cls = T.CLASSES[k]
        kw = {"kind": k} if cls is T.IntT else {}
        mk = lambda parent=None: cls.gen(rng, parent=parent, **({} if parent else kw))
    t = mk()
    dflt, src = None, None
    chain = []
    for i in range(rng.choice([0, 0, 1, 2, 3])):
        td = T.Typedef(tdname(), t)
        if rng.random() < 0.5:
            text, c = text_of(rng, t)
            if text is not None:
                td.default, dflt, src = text, c, "typedef %d" % i
        chain.append(td)
        t = mk(parent=td)
        # what a typedef gives must be a value of what is derived from it
        if dflt is not None and not accepts(t, dflt, chain):
            for x in chain:
                x.default = None
            dflt, src = None, None
    own = None
    if rng.random() < 0.45:
        own, c = text_of(rng, t)
        if own is not None:
            dflt, src = c, "leaf, over %s" % src
    return t, own, dflt, src


def accepts(t, c, chain):
    if t.kind in ("union", "identityref", "boolean"):
        return True
    if t.kind == "decimal64":
        return any(lo <= c <= hi for lo, hi in t.space())
    if t.kind == "bits":
        return set(c) <= set(t.names())
    return t.accepts(c)


def case(rng, rec, tier):
    m = Module("m")
    roots = []
    for i in range(2):
        r = Identity(m, "base%d" % i)
        m.identities.append(r)
        for j in range(2):
            m.identities.append(Identity(m, "id%d%d" % (i, j), [r]))
        roots.append(r)
    for r in roots:
        r_d = r.derived()
        r.others = [y.name for y in m.identities if y not in r_d and y is not r]
    n = [0]

    def tdname():
        n[0] += 1
        return "td%d" % n[0]

    specs = []
    c, li = Container("c"), List("li", ["k"], [Leaf("k", T.BoolT())])
    m.children += [c, li]
    for i in range(rng.randint(8, 12)):
        t, own, dflt, src = make(rng, m, roots, tdname)
        l = Leaf("l%d" % i, t, default=own)
        (c if rng.random() < 0.6 else li).children.append(l)
        specs.append((l, dflt, src))
    c.children.append(Leaf("z", T.IntT("int8")))
    finish([m])
    text = m.text()
    rec.sample(text[:1500])
    b = build.build([text])

    def fail(mech, l, what):
        rec.bad(mech, "leaf %s: %s\n%s" % (l.name, what, text))

    roots_ = [b.m() for _ in range(2)]
    for r in roots_:
        r.li.add(True)
    held = [{} for _ in roots_]

    def place(r, l):
        return r.c if l in c.children else list(r.li.values())[0]

    def check():
        for i, r in enumerate(roots_):
            for l, dflt, src in specs:
                o = child(place(r, l), l.name)
                t = l.type
                d = o.default()
                state = "set" if l.name in held[i] else "unset"
                if dflt is None:
                    rec.obs("leaves without default")
                    if d is not False and d is not None:
                        fail("default", l, "%s, has no default but default() is %r" % (state, d))
                else:
                    rec.obs("defaults compared")
                    rec.seen(t.kind, src, state, repr(dflt)[:20])
                    try:
                        got = as_value(t, d)
                    except Exception as e:
                        got = e
                    if got != dflt:
                        fail("default", l, "%s, default() is %r, expected %r (that of the %s)" % (state, d, dflt, src))
                if bool(o._changed()) != (state == "set"):
                    fail("default-set", l, "is %s, but says changed=%s" % (state, o._changed()))
                if state == "set" and t.read(o) != held[i][l.name]:
                    fail("default-set", l, "holds %r, expected %r" % (o, held[i][l.name]))
            for full in (True, False):
                g = r.get(filter=not full)
                for l, dflt, src in specs:
                    gg = g.get("c", {}) if l in c.children else list(g["li"].values())[0]
                    if full:
                        rec.obs("unfiltered gets")
                        x = gg.get(l.name)
                        want = held[i].get(l.name, dflt)
                        if l.name not in gg:
                            fail("default-get", l, "is missing from get()")
                        if want is not None:
                            try:
                                got = as_value(l.type, x)
                            except Exception as e:
                                got = e
                            if got != want:
                                fail("default-get", l, "get() has %r, expected %r" % (x, want))
                    elif (l.name in gg) != (l.name in held[i]):
                        fail("default-get", l, "is %s get(filter=True)" % ("in" if l.name in gg else "missing from"))
        i = rng.randrange(len(roots_))
        r = roots_[i]
        mode = rng.choice(["default", "ietf"])
        doc = json.loads(J.dumps(r, filter=True, mode=mode))
        rec.obs("documents without defaults")
        dc = doc.get("c" if mode == "default" else "m:c", {})
        dl = list(doc["li"].values())[0] if mode == "default" else doc["m:li"][0]
        got = (set(dc) | set(dl)) - {"k"}
        if got != set(held[i]):
            rec.bad("default-doc", "the %s document holds %r, what is set is %r\n%s" % (mode, sorted(got), sorted(held[i]), text))

    check()
    for _ in range(rng.randint(1, 3)):
        for _ in range(6):
            i = rng.randrange(len(roots_))
            l, dflt, src = rng.choice(specs)
            p = place(roots_[i], l)
            if l.name in held[i] and rng.random() < 0.5:
                unsetter(p, l.name)()
                del held[i][l.name]
            else:
                # often the default itself: a value that is set is data even so
                if dflt is not None and rng.random() < 0.4 and l.type.kind != "union":
                    v, want = l.type.form(dflt, rng), dflt
                else:
                    v = l.type.good(rng)
                    want = l.type.canon(v)
                setter(p, l.name)(v)
                held[i][l.name] = want
        check()


def as_value(t, d):
    """a default as default() or get() gives it: a live value, or what the type would make of it"""
    if t.kind in T.INTS and isinstance(d, int) and not isinstance(d, bool) or t.kind == "boolean" and isinstance(d, bool):
        return d if t.kind == "boolean" else int(d)
    try:
        return t.read(d)
    except TypeError:
        return t.canon(d)
