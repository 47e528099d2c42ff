"""References: what a leafref accepts, holds and writes, against a model of the nodes that its path refers to."""
import json
from collections import OrderedDict
from decimal import Decimal

import pyangbind.lib.pybindJSON as J
from lxml import etree, objectify
from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder
from pyangbind.lib.xpathhelper import YANGPathHelper

from mon import build, encode as E, schema, xph, ytypes as T
from mon.drive import pystr
from mon.model import attrs, child, setter, unsetter

TITLE = "A reference takes the values that its target has, and no others"
RULE = ("A case is a random set of leafs and leaf-lists that refer to keys, leafs of entries, leaf-lists and single leafs, by absolute and relative paths, with current(), through typedefs "
        "and in unions, with and without require-instance; in a history of 90 operations on targets and references each assignment is judged by the values that the targets "
        "have in the model at that moment; distinct = distinct (kind of reference, form, type, outcome).")
COUNT = (500, 6000)
NEED = ["references set", "references refused", "references read", "pointers written through", "trees loaded", "references written"]
ASSUMPTIONS = ["a reference to a single leaf stands for that leaf, as the documentation and tests have it; its target is not removed while it does",
               "documents are loaded with the targets before the references, in schema order"]

KINDS = ["text", "text", "uint8", "int32", "enumeration", "boolean", "decimal64", "bits", "binary", "uint64", "identityref"]


class Ref:
    def __init__(self, name, at, kind, t, many, require, union):
        self.name, self.at, self.kind, self.type = name, at, kind, t
        self.many, self.require, self.union = many, require, union

    @property
    def pointer(self):
        return self.kind in ("one", "two", "own")


class World:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        n = [0]

        def td():
            n[0] += 1
            return "td%d" % n[0]

        def ty(kinds=KINDS):
            while True:
                k = rng.choice(kinds)
                if k == "identityref":
                    t = T.IdentityT(self.base, "%s:BASE" % self.own.imports[self.ids])
                    if rng.random() < 0.4:
                        t = T.IdentityT(self.base, "%s:BASE" % self.own.imports[self.ids], T.Typedef(td(), t))
                    return t
                t = T.gen_type(rng, [k], tdname=td)
                if t.kind == "decimal64" and not any(t.exact_float(t.canon(t.good(rng))) for _ in range(8)):
                    continue    # JSON documents hold decimals as floating point numbers
                vals = {repr(t.canon(self.good(t))) for _ in range(6)}
                if len(vals) > 1 or t.kind in ("enumeration", "boolean", "bits"):
                    return t

        # identities of the module and of another, which has a prefix of its own
        self.ids, self.own = schema.Module("id-mod", "ids"), schema.Module("m")
        self.own.add_import(self.ids, rng.choice(["ids", "x"]))
        self.base = schema.Identity(self.ids, "BASE")
        self.ids.identities = [self.base, schema.Identity(self.ids, "ONE", [self.base]), schema.Identity(self.ids, "t-w.o", [self.base])]
        self.own.identities = [schema.Identity(self.own, "THREE", [self.base])]
        keyk = [k for k in KINDS if k != "decimal64"]
        self.T = dict(k=ty(), v=ty(), j=ty(keyk), ll=ty(), a=ty(["text", "uint8", "enumeration"]), b=ty(keyk), one=ty(), two=ty())
        self.refs = []
        self.tds = []
        for at in ("r", "e", "l"):
            for _ in range(rng.randint(3, 6) if at != "l" else rng.randint(1, 3)):
                self.ref(at)
        self.history = []

    # -- schema
    def path(self, kind, at):
        rng = self.rng
        p = lambda x: ("m:" + x if rng.random() < 0.4 else x)
        steps = {"key": ["t", "l", "k"], "v": ["t", "l", "v"], "nested": ["t", "l", "n", "j"], "ll": ["t", "ll"], "mb": ["t", "mm", "b"],
                 "one": ["t", "one"], "two": ["t", "c", "two"]}
        if kind == "own":
            return "../" + p("v")
        if kind == "nown":
            return "../%s/%s" % (p("n"), p("j"))
        if kind == "cur":
            return "/%s/%s[%s%s=%scurrent()/../%s]/%s" % (p("t"), p("mm"), p("a"), rng.choice(["", " "]), rng.choice(["", " "]), "sel", p("b"))
        s = [p(x) for x in steps[kind]]
        if rng.random() < 0.5:
            return "/" + "/".join(s)
        if at == "r":
            return "../../" + "/".join(s)
        if at == "e":
            return "../../../" + "/".join(s)
        # in an entry of /t/l
        return "../../" + "/".join(s[1:]) if rng.random() < 0.5 else "../../../" + "/".join(s)

    def ref(self, at):
        rng = self.rng
        kinds = ["key", "key", "ll", "ll", "nested", "mb", "v", "one", "two", "cur"]
        if at == "l":
            kinds = ["ll", "own", "nown", "one"]
        kind = rng.choice(kinds)
        t = self.T[{"key": "k", "nested": "j", "mb": "b", "cur": "b", "own": "v", "nown": "j"}.get(kind, kind)]
        many = rng.random() < 0.25 and kind in ("key", "ll", "nested", "mb", "nown", "v")
        require = rng.random() < 0.8
        r = Ref("%s-%s-%d" % (rng.choice(["ref", "x", "to"]), at, len(self.refs)), at, kind, t, many, require, False)
        r.union = not r.pointer and kind != "cur" and rng.random() < 0.15 and require
        r.path = self.path(kind, at)
        body = 'type leafref { path "%s"; %s }' % (r.path, rng.choice(["", "require-instance true;"]) if require else "require-instance false;")
        if rng.random() < 0.3:
            n = "ref-type-%d" % len(self.tds)
            self.tds.append("typedef %s { %s }" % (n, body))
            body = "type %s;" % n
        if r.union:
            body = "type union { %s type enumeration { enum zz-all; enum zz-none; } }" % body
        r.text = "%s %s { %s }" % ("leaf-list" if many else "leaf", r.name, body)
        self.refs.append(r)

    def yang(self):
        ty = {k: t.decl() for k, t in self.T.items()}
        rs = lambda at: "\n      ".join(r.text for r in self.refs if r.at == at)
        tds, seen = [], set()
        for t in self.T.values():
            for d in t.typedefs():
                if d.name not in seen:
                    seen.add(d.name)
                    tds.append("typedef %s { %s }" % (d.name, d.type.decl()))
        return """module m {
  yang-version 1.1;
  namespace "urn:m";
  prefix m;
  import id-mod { prefix %s; }
  identity THREE { base %s:BASE; }
  %s
  container t {
    leaf-list ll { %s }
    leaf one { %s }
    container c { leaf two { %s } }
    list l {
      key k;
      leaf k { %s }
      leaf v { %s }
      list n { key j; leaf j { %s } }
      %s
    }
    list mm { key "a b"; leaf a { %s } leaf b { %s } }
  }
  container r {
    leaf sel { %s }
    %s
    list e {
      key id;
      leaf id { type string; }
      leaf sel { %s }
      %s
    }
  }
}
""" % (self.own.imports[self.ids], self.own.imports[self.ids], "\n  ".join(tds + self.tds), ty["ll"], ty["one"], ty["two"], ty["k"], ty["v"], ty["j"], rs("l"), ty["a"], ty["b"], ty["a"], rs("r"), ty["a"], rs("e"))

    # -- values
    def good(self, t):
        for _ in range(200):
            if t.kind == "string" and self.rng.random() < 0.3:
                v = self.rng.choice(xph.HOSTILE)
                if not t.accepts(v):
                    continue
            else:
                v = t.good(self.rng)
            c = t.canon(v)
            if t.kind == "identityref":
                return c
            if isinstance(v, (list, set, tuple)) or t.kind == "string" and not isinstance(v, str) or not E.rt_value(t, v):
                continue
            s = pystr(t, c)
            if t.kind == "decimal64" and not t.exact_float(c):
                continue
            if s == "" or not E.xml_text(s) or "'" in s and '"' in s or "current()" in s:
                continue
            return v
        return t.form(t.canon(t.good(self.rng)), self.rng)

    def keyval(self, t):
        """(input, canonical) of a key, spelled as it is looked up"""
        for _ in range(60):
            v = self.good(t)
            c = t.canon(v)
            s = pystr(t, c)
            if " " not in s and s and (not isinstance(v, str) or v == s or t.kind == "boolean") and not isinstance(v, bytes):
                return (c if t.kind == "boolean" else v), c
        return None


def case(rng, rec, tier):
    w = World(rng, rec)
    text = w.yang()
    rec.sample(text[:1500])
    b = build.build([text, w.ids.text()], ["--use-xpathhelper"])
    with_ph = rng.random() < 0.9
    s = Sess(w, b, YANGPathHelper() if with_ph else None)
    s.text = text
    for _ in range(90):
        s.step()
    s.rec.obs("references read", len(s.check()))
    if with_ph:
        for fmt in ("default", "ietf", "xml"):
            s.roundtrip(fmt)


class Sess:
    def __init__(self, w, b, ph):
        self.w, self.rng, self.rec, self.b, self.ph = w, w.rng, w.rec, b, ph
        self.root = b.m(path_helper=ph) if ph is not None else b.m()
        self.l = OrderedDict()        # k -> {"v": c or None, "n": [j], refs}
        self.mm = []
        self.ll = []
        self.one = self.two = None
        self.sel = None
        self.e = OrderedDict()
        self.rrefs = {}
        self.hist = []

    def fail(self, mech, d):
        self.rec.bad(mech, "%s\n  after:\n    %s\n%s" % (d, "\n    ".join(self.hist[-40:]), self.text))

    # -- live objects
    @property
    def t(self):
        return self.root.t

    def entry(self, k):
        return self.t.l[pystr(self.w.T["k"], k)]

    def places(self):
        """[(ref, context)]: context None for r, an entry's key otherwise"""
        out = []
        for r in self.w.refs:
            if r.at == "r":
                out.append((r, None))
            else:
                out += [(r, k) for k in (self.l if r.at == "l" else self.e)]
        return out

    def owner(self, r, ctx):
        return self.root.r if r.at == "r" else self.entry(ctx) if r.at == "l" else self.root.r.e[ctx]

    def store(self, r, ctx):
        return self.rrefs if r.at == "r" else self.l[ctx]["refs"] if r.at == "l" else self.e[ctx]["refs"]

    # -- reference semantics
    def targets(self, r, ctx):
        k = r.kind
        if k == "key":
            return list(self.l)
        if k == "v":
            return [x["v"] for x in self.l.values() if x["v"] is not None]
        if k == "nested":
            return [j for x in self.l.values() for j in x["n"]]
        if k == "ll":
            return list(self.ll)
        if k == "mb":
            return [y for _, y in self.mm]
        if k == "nown":
            return list(self.l[ctx]["n"])
        if k == "cur":
            sel = self.sel if r.at == "r" else self.e[ctx]["sel"]
            return [y for x, y in self.mm if sel is not None and x == sel]
        raise KeyError(k)

    def pointed(self, r, ctx):
        """(owner object, attribute name, model getter, model setter)"""
        if r.kind == "one":
            return self.t, "one", self.one
        if r.kind == "two":
            return self.t.c, "two", self.two
        return self.entry(ctx), "v", self.l[ctx]["v"]

    def point(self, r, ctx, c):
        if r.kind == "one":
            self.one = c
        elif r.kind == "two":
            self.two = c
        else:
            self.l[ctx]["v"] = c

    # -- the monitor
    def value_of(self, r, o):
        v = o
        n = 0
        while hasattr(v, "_referenced_object") and n < 3:
            v = v._get()
            n += 1
        if r.union and isinstance(v, str) and str(v) in ("zz-all", "zz-none") :
            return ("enum", str(v))
        return r.type.canon(r.type.form(r.type.read(v), self.rng)) if not isinstance(v, (str, bytes, int, float)) else norm(r.type, v)

    def check(self):
        seen = []
        root = self.root
        w = self.w

        def same(what, t, o, c):
            if c is None:
                if o._changed():
                    self.fail("target", "%s is set to %r, it should not be" % (what, o))
            else:
                got = t.read(o)
                if got != c:
                    self.fail("target", "%s is %r, expected %r" % (what, got, c))

        same("/t/one", w.T["one"], child(self.t, "one"), self.one)
        same("/t/c/two", w.T["two"], child(self.t.c, "two"), self.two)
        if [w.T["ll"].read(x) for x in self.t.ll] != self.ll:
            self.fail("target", "/t/ll is %r, expected %r" % (list(self.t.ll), self.ll))
        if len(self.t.l) != len(self.l) or len(self.t.mm) != len(self.mm):
            self.fail("target", "the lists have %d and %d entries, expected %d and %d" % (len(self.t.l), len(self.t.mm), len(self.l), len(self.mm)))
        for k, x in self.l.items():
            e = self.entry(k)
            same("/t/l[%r]/v" % (k,), w.T["v"], child(e, "v"), x["v"])
        for r, ctx in self.places():
            o = child(self.owner(r, ctx), r.name)
            st = self.store(r, ctx)
            want = st.get(r.name)
            where = "%s of %r (%s)" % (r.name, ctx, r.path)
            if r.many:
                if want is None:
                    want = []
                try:
                    got = [self.value_of(r, x) for x in o]
                except Exception as x:
                    self.fail("read", "%s cannot be read: %s %s" % (where, type(x).__name__, x))
                if got != want:
                    self.fail("read", "%s has %r, expected %r" % (where, got, want))
            elif want is None:
                if o._changed():
                    self.fail("read", "%s is set to %r, it should not be" % (where, o))
            elif want == "pointer":
                po, pn, c = self.pointed(r, ctx)
                x = child(po, pn)
                if not o._changed() or o._get() is not x or str(o) != str(x):
                    self.fail("read", "%s is %r, its target is %r" % (where, o, x))
            else:
                if not o._changed():
                    self.fail("read", "%s is not set, expected %r" % (where, want))
                got = self.value_of(r, o)
                if got != want:
                    self.fail("read", "%s is %r, expected %r" % (where, got, want))
            seen.append((r.name, want if not isinstance(want, list) else tuple(map(repr, want))))
        return seen

    def do(self, text, fn, refuse=None):
        self.hist.append(text)
        try:
            r = fn()
        except Exception as e:
            if refuse is None:
                self.fail("refused", "%s was refused: %s: %s" % (text, type(e).__name__, str(e)[:300]))
            if not isinstance(e, refuse):
                self.fail("wrong-error", "%s was refused with %s: %s" % (text, type(e).__name__, str(e)[:300]))
            return None
        if refuse is not None:
            self.fail("accepted", "%s was carried out, it must be refused" % text)
        return r

    # -- operations
    def step(self):
        rng = self.rng
        f = rng.choices([self.op_ref, self.op_target, self.op_remove, self.op_entry, self.op_sel, self.op_unset, self.op_many], [5, 4, 1, 1.2, 0.6, 0.5, 1.5])[0]
        f()
        self.check()

    def op_target(self):
        rng, w = self.rng, self.w
        k = rng.choice(["l", "l", "v", "n", "ll", "ll", "mm", "mm", "one", "two"])
        if k == "l":
            kv = w.keyval(w.T["k"])
            if kv is None or len(self.l) > 5 or kv[1] in self.l:
                return
            self.do("add %r to l" % (kv[0],), lambda: self.t.l.add(kv[0]))
            self.l[kv[1]] = {"v": None, "n": [], "refs": {}}
        elif k == "v" and self.l:
            e = rng.choice(list(self.l))
            v = w.good(w.T["v"])
            self.do("set v of l[%r] = %r" % (e, v), lambda: setter(self.entry(e), "v")(v))
            self.l[e]["v"] = w.T["v"].canon(v)
        elif k == "n" and self.l:
            e = rng.choice(list(self.l))
            kv = w.keyval(w.T["j"])
            if kv is None or kv[1] in self.l[e]["n"] or len(self.l[e]["n"]) > 3:
                return
            self.do("add %r to n of l[%r]" % (kv[0], e), lambda: self.entry(e).n.add(kv[0]))
            self.l[e]["n"].append(kv[1])
        elif k == "ll":
            v = w.good(w.T["ll"])
            self.do("append %r to ll" % (v,), lambda: self.t.ll.append(v))
            c = w.T["ll"].canon(v)
            if c not in self.ll:
                self.ll.append(c)
        elif k == "mm":
            if self.mm and rng.random() < 0.5:
                c = rng.choice(self.mm)[0]
                a = (pystr(w.T["a"], c), c)
            else:
                a = w.keyval(w.T["a"])
            b = w.keyval(w.T["b"])
            if a is None or b is None or (a[1], b[1]) in self.mm or len(self.mm) > 6:
                return
            self.do("add a=%r b=%r to mm" % (a[0], b[0]), lambda: self.t.mm.add(a=a[0], b=b[0]))
            self.mm.append((a[1], b[1]))
        elif k in ("one", "two"):
            v = w.good(w.T[k])
            o = self.t if k == "one" else self.t.c
            self.do("set %s = %r" % (k, v), lambda: setter(o, k)(v))
            setattr(self, k, w.T[k].canon(v))

    def op_remove(self):
        rng, w = self.rng, self.w
        k = rng.choice(["l", "n", "ll", "mm"])
        if k == "l" and self.l:
            e = rng.choice(list(self.l))
            self.do("delete %r of l" % (e,), lambda: self.t.l.delete(pystr(w.T["k"], e)))
            del self.l[e]
        elif k == "n" and self.l:
            e = rng.choice(list(self.l))
            if self.l[e]["n"]:
                j = rng.choice(self.l[e]["n"])
                self.do("delete %r of n of l[%r]" % (j, e), lambda: self.entry(e).n.delete(pystr(w.T["j"], j)))
                self.l[e]["n"].remove(j)
        elif k == "ll" and self.ll:
            i = rng.randrange(len(self.ll))
            self.do("remove item %d of ll" % i, lambda: self.t.ll.pop(i))
            self.ll.pop(i)
        elif k == "mm" and self.mm:
            x = rng.choice(self.mm)
            self.do("delete %r of mm" % (x,), lambda: self.t.mm.delete("%s %s" % (pystr(w.T["a"], x[0]), pystr(w.T["b"], x[1]))))
            self.mm.remove(x)

    def op_entry(self):
        if len(self.e) < 3:
            k = self.rng.choice(["e1", "a/b", "x]"])
            if k not in self.e:
                self.do("add %r to e" % k, lambda: self.root.r.e.add(k))
                self.e[k] = {"sel": None, "refs": {}}

    def op_sel(self):
        w = self.w
        t = w.T["a"]
        if self.mm and self.rng.random() < 0.8:
            v = pystr(t, self.rng.choice(self.mm)[0])
        else:
            kv = w.keyval(t)
            if kv is None:
                return
            v = kv[0]
        if self.e and self.rng.random() < 0.5:
            k = self.rng.choice(list(self.e))
            self.do("set sel of e[%r] = %r" % (k, v), lambda: setter(self.root.r.e[k], "sel")(v))
            self.e[k]["sel"] = t.canon(v)
        else:
            self.do("set sel = %r" % (v,), lambda: setter(self.root.r, "sel")(v))
            self.sel = t.canon(v)

    def op_unset(self):
        ps = self.places()
        if not ps:
            return
        r, ctx = self.rng.choice(ps)
        o = self.owner(r, ctx)
        self.do("unset %s of %r" % (r.name, ctx), lambda: unsetter(o, r.name)())
        self.store(r, ctx).pop(r.name, None)

    def free(self, r):
        """whether a reference holds what it is given, whatever that is"""
        return self.ph is None or not (r.require or r.pointer)

    def candidate(self, r, ctx):
        """a value for a reference: (input, canonical)"""
        rng, t = self.rng, r.type
        if not r.pointer and rng.random() < 0.65:
            cs = self.targets(r, ctx)
            if cs:
                c = rng.choice(cs)
                for _ in range(10):
                    v = t.form(c, rng)
                    if E.rt_value(t, v) and not (isinstance(v, str) and v == ""):
                        return v, c
                return (pystr(t, c) if t.kind != "binary" else c), c
        v = self.w.good(t)
        return v, t.canon(v)

    def op_ref(self):
        rng = self.rng
        ps = [p for p in self.places() if not p[0].many]
        if not ps:
            return
        r, ctx = rng.choice(ps)
        o = self.owner(r, ctx)
        st = self.store(r, ctx)
        if r.union and rng.random() < 0.25:
            v = rng.choice(["zz-all", "zz-none", "zz-not"])
            if v == "zz-not":
                if v in [str(x) for x in self.targets(r, ctx)] or not self.ph:
                    return
                self.do("set %s of %r = %r" % (r.name, ctx, v), self.assign(o, r, v), ValueError)
                return
            self.do("set %s of %r = %r" % (r.name, ctx, v), self.assign(o, r, v))
            st[r.name] = ("enum", v) if not (v in [str(x) for x in self.targets(r, ctx)]) else st.get(r.name)
            return
        v, c = self.candidate(r, ctx)
        if self.free(r) and not isinstance(v, (str, int, Decimal)):
            return
        text = "set %s of %r = %r" % (r.name, ctx, v)
        if self.ph is None:
            self.do(text, self.assign(o, r, v))
            st[r.name] = c
            return
        if r.pointer:
            if rng.random() < 0.2:
                v = r.type.bad(rng)
                if isinstance(v, (list, set, tuple, dict)) or v is None or r.type.kind == "string" and not isinstance(v, str):
                    return
                self.do("set %s of %r = %r" % (r.name, ctx, v), self.assign(o, r, v), ValueError)
                self.rec.obs("references refused")
                return
            self.do(text, self.assign(o, r, v))
            self.point(r, ctx, c)
            st[r.name] = "pointer"
            self.rec.obs("pointers written through")
            self.rec.seen(r.kind, r.type.kind, "pointer")
            return
        ok = not r.require or c in self.targets(r, ctx)
        self.do(text, self.assign(o, r, v), None if ok else ValueError)
        if ok:
            st[r.name] = c
        self.rec.obs("references set" if ok else "references refused")
        self.rec.seen(r.kind, r.path, r.type.kind, ok, type(v).__name__, r.union)

    def assign(self, o, r, v):
        if self.rng.random() < 0.7:
            return lambda: setattr(o, attrs(o)[r.name], v)
        return lambda: setter(o, r.name)(v)

    def op_many(self):
        rng = self.rng
        ps = [p for p in self.places() if p[0].many]
        if not ps:
            return
        r, ctx = rng.choice(ps)
        l = child(self.owner(r, ctx), r.name)
        st = self.store(r, ctx).setdefault(r.name, [])
        if st and rng.random() < 0.25:
            c = rng.choice(st)
            if isinstance(c, tuple):
                v = c[1]
            else:
                v = [x for x in l if self.value_of(r, x) == c][0]
            self.do("remove %r from %s of %r" % (v, r.name, ctx), lambda: l.remove(v))
            st.remove(c)
            return
        v, c = self.candidate(r, ctx)
        if self.free(r) and (c in st or not isinstance(v, (str, int, Decimal))):
            return
        ok = not r.require or self.ph is None or c in self.targets(r, ctx)
        self.do("append %r to %s of %r" % (v, r.name, ctx), lambda: l.append(v), None if ok else ValueError)
        if ok and c not in st:
            st.append(c)
        self.rec.obs("references set" if ok else "references refused")
        self.rec.seen(r.kind, r.path, r.type.kind, ok, type(v).__name__, "many")

    # -- documents
    def written(self, fmt):
        """a reference is written as its value is"""
        if fmt == "default":
            return
        x = fmt == "xml"
        if x:
            doc = etree.fromstring(pybindIETFXMLEncoder.serialise(self.root))
            ns = {"m": "urn:m"}
        else:
            doc = json.loads(J.dumps(self.root, mode="ietf"))
        for r, ctx in self.places():
            want = self.store(r, ctx).get(r.name)
            if want is None or want == [] or r.union or self.free(r):
                continue
            c = self.pointed(r, ctx)[2] if want == "pointer" else want
            cs = c if r.many else [c]
            if x:
                at = doc.findall("m:r", ns) if r.at == "r" else doc.findall("m:r/m:e", ns) if r.at == "e" else doc.findall("m:t/m:l", ns)
                at = at[list(self.l if r.at == "l" else self.e).index(ctx) if r.at != "r" else 0]
                els = at.findall("m:" + r.name, ns)
                d = E.cmp_xml([E.El("urn:m", r.name, r.type.xml(v), ident=r.type.ident(v) if r.type.kind == "identityref" else None) for v in cs], els)
            else:
                at = doc["m:r"] if r.at == "r" else doc["m:r"]["e"] if r.at == "e" else doc["m:t"]["l"]
                if r.at != "r":
                    at = at[list(self.l if r.at == "l" else self.e).index(ctx)]
                got = at.get(r.name)
                w = [r.type.ietf(v, self.w.own) for v in cs]
                d = E.cmp_json(w if r.many else w[0], got, r.name)
            if d:
                self.fail("document", "%s (%s) has %r, in %s it is written as: %s" % (r.name, r.path, cs, fmt, d))
            self.rec.obs("references written")

    def roundtrip(self, fmt):
        # references must have what they refer to when they are loaded
        for r, ctx in self.places():
            st = self.store(r, ctx)
            want = st.get(r.name)
            if want is None or want == "pointer":
                if want == "pointer" and self.pointed(r, ctx)[2] is None:
                    return
                continue
            ws = want if isinstance(want, list) else [want]
            if not all(isinstance(x, tuple) or x in self.targets(r, ctx) for x in ws):
                o = self.owner(r, ctx)
                self.do("unset %s of %r" % (r.name, ctx), lambda: unsetter(o, r.name)())
                st.pop(r.name)
        root = self.root
        try:
            self.written(fmt)
            if fmt == "xml":
                text = pybindIETFXMLEncoder.serialise(root)
                new = pybindIETFXMLDecoder.load_xml(objectify.fromstring(text), self.b, "m", path_helper=YANGPathHelper())
            else:
                text = J.dumps(root, mode=fmt)
                new = (J.loads if fmt == "default" else J.loads_ietf)(text, self.b, "m", path_helper=YANGPathHelper())
        except Exception as e:
            import traceback
            self.fail("load", "a tree with references cannot be written and loaded as %s: %s %s\n%s" % (fmt, type(e).__name__, str(e)[:300], traceback.format_exc()[-700:]))
        self.root = new
        self.hist.append("write and load as %s" % fmt)
        try:
            self.check()
        finally:
            self.root = root
        self.rec.obs("trees loaded")


def norm(t, v):
    return t.canon(v)
