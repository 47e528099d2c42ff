"""Decides a type property: a module of random types of some kinds, each used by leaves, leaf-lists
and list keys, is given values by every route a user has; the monitor compares what is accepted, and
what is then read back, with the reference type."""
import json

from . import build, encode
from . import ytypes as T
from .drive import keyok, pystr
from .model import attrs, child, setter
from .schema import Container, Leaf, LeafList, List, Module, finish


def jsonable(v):
    return v is None or isinstance(v, (str, int, bool)) or isinstance(v, list) and all(isinstance(i, str) for i in v)


class Bench:
    """gen(rng, tdname) -> a type"""

    def __init__(self, rng, rec, gen, n=4, extra=None, flags=()):
        from pyangbind.lib.serialise import pybindJSONDecoder
        self.dec = pybindJSONDecoder
        self.rng, self.rec = rng, rec
        self.ntd = 0
        m = self.mod = Module("m")
        mods = [m]
        if extra:
            mods += extra(m)
        c = Container("c")
        m.children.append(c)
        self.leaves, self.lls, self.keys = [], [], []
        for i in range(n):
            t = gen(rng, self.tdname)
            l = Leaf("l%d" % i, t)
            c.children.append(l)
            self.leaves.append(l)
            if rng.random() < 0.6:
                ll = LeafList("ll%d" % i, t)
                c.children.append(ll)
                self.lls.append(ll)
            if t.key_ok and rng.random() < 0.7:
                li = List("li%d" % i, ["k%d" % i], [Leaf("k%d" % i, t), Leaf("x", T.BoolT())])
                c.children.append(li)
                self.keys.append(li)
        finish(mods)
        self.texts = [x.text() for x in mods]
        self.b = build.build(self.texts, flags)
        self.fresh()

    def tdname(self):
        self.ntd += 1
        return "td%d" % self.ntd

    def fresh(self):
        self.root = self.b.m()
        self.c = self.root.c
        self.val = {}      # leaf name -> canonical
        self.lval = {}     # leaf-list name -> [canonical]
        self.kval = {}

    def bad(self, mech, t, text):
        self.rec.bad(mech, "%s\n  type: %s\n  typedefs: %s" % (text, t.decl(self.mod), "; ".join("typedef %s { %s }" % (d.name, d.type.decl(self.mod)) for d in t.typedefs())))

    # -- leaves
    def leaf(self, l, v, want):
        """want: the canonical value, or None if it must be refused"""
        t, rng, rec = l.type, self.rng, self.rec
        routes = ["attr", "attr", "method"]
        if want is None:
            if jsonable(v) and v is not None and not isinstance(v, (list, bool)):
                routes += ["json"]
                # IETF JSON: the module an identity is qualified with is not looked at
                if not (t.kind == "identityref" and ":" in v):
                    routes += ["ietf"]
        elif t.kind != "empty" and (t.kind != "union" or t.stable(v)):
            routes += ["ietf"]
            if t.kind != "decimal64" or t.exact_float(want):
                routes += ["json"]
        route = rng.choice(routes)
        given = v
        if route == "attr":
            fn = lambda: setattr(self.c, l.name, v)
        elif route == "method":
            fn = lambda: setter(self.c, l.name)(v)
        elif route == "ietf":
            given = v if want is None else t.ietf(want, self.mod)
            fn = lambda: self.load(self.dec.load_ietf_json, {"m:c": {l.name: given}})
        else:
            given = v if want is None else t.dflt(want)
            fn = lambda: self.load(self.dec.load_json, {"c": {l.name: given}})
        err = None
        try:
            fn()
        except Exception as e:
            err = e
        where = "leaf %s given %r by %s" % (l.name, given, route)
        if want is None:
            rec.obs("refusals")
            rec.seen("bad", t.kind, route, repr(v)[:24])
            if err is None:
                self.bad("accepted", t, "%s: accepted, it is not a value of the type" % where)
            if not isinstance(err, ValueError):
                self.bad("wrong-error", t, "%s: refused with %s: %s" % (where, type(err).__name__, str(err)[:200]))
            self.unchanged(l, where)
            return
        rec.obs("acceptances")
        rec.seen("good", t.kind, route, repr(given)[:24])
        if err is not None:
            self.bad("refused", t, "%s: refused (%s: %s), it is a value of the type" % (where, type(err).__name__, str(err)[:200]))
        self.val[l.name] = want
        got = self.get(t, self.c, l.name, where)
        if got != want or type(got) is not type(want):
            self.bad("value", t, "%s: reads back as %r, expected %r" % (where, got, want))

    def load(self, f, doc):
        return f(json.loads(json.dumps(doc)), None, None, obj=self.root)

    def get(self, t, c, name, where):
        try:
            return t.read(child(c, name))
        except TypeError as e:
            self.bad("value", t, "%s: %s" % (where, e))

    def unchanged(self, l, where):
        o = child(self.c, l.name)
        if bool(o._changed()) != (l.name in self.val):
            self.bad("kept", l.type, "%s: refused, but the leaf now reports changed=%s" % (where, o._changed()))
        if l.name in self.val:
            got = l.type.read(o)
            if got != self.val[l.name]:
                self.bad("kept", l.type, "%s: refused, but the leaf now holds %r, it held %r" % (where, got, self.val[l.name]))

    # -- leaf-lists
    def leaflist(self, l, v, want):
        t, rng, rec = l.type, self.rng, self.rec
        o = child(self.c, l.name)
        held = self.lval.setdefault(l.name, [])
        route = rng.choice(["append", "insert", "set"])
        where = "leaf-list %s given %r by %s" % (l.name, v, route)
        if route == "insert" and want is not None and want in held:
            route = "append"
        if want is None and isinstance(v, (list, tuple, set)) or isinstance(v, list) and route == "set":
            return
        if t.kind == "union" and want is not None and any(h[0] != want[0] and h[1] == want[1] for h in held):
            return     # e.g. false and 0.0, which Python takes to be equal
        new = list(held)
        try:
            err = None
            if route == "append":
                o.append(v)
                if want not in new:
                    new.append(want)
            elif route == "insert":
                i = rng.randint(0, len(held))
                o.insert(i, v)
                new.insert(i, want)
            else:
                setattr(self.c, l.name, [v])
                new = [want]
                o = child(self.c, l.name)
        except Exception as e:
            err = e
        if want is None:
            rec.obs("refusals")
            if err is None:
                self.bad("accepted", t, "%s: accepted, it is not a value of the type" % where)
            if not isinstance(err, ValueError):
                self.bad("wrong-error", t, "%s: refused with %s: %s" % (where, type(err).__name__, str(err)[:200]))
            new = held
        else:
            rec.obs("acceptances")
            if err is not None:
                self.bad("refused", t, "%s: refused (%s: %s), it is a value of the type" % (where, type(err).__name__, str(err)[:200]))
        self.lval[l.name] = new
        try:
            got = [t.read(i) for i in child(self.c, l.name)]
        except TypeError as e:
            self.bad("value", t, "%s: %s" % (where, e))
        if got != new:
            self.bad("value", t, "%s: the leaf-list holds %r, expected %r" % (where, got, new))

    # -- keys
    def key(self, li, v, want):
        n = li.keynodes()[0]
        t, rng, rec = n.type, self.rng, self.rec
        o = child(self.c, li.name)
        held = self.kval.setdefault(li.name, [])
        if want is not None and not keyok(t, v, want, False) or want is None and (not isinstance(v, (str, int)) or v == ""):
            return
        if want is not None and t.kind == "boolean" or len(held) > 8:
            return
        route = rng.choice(["add", "kw"])
        where = "list %s given the key %r by %s" % (li.name, v, route)
        err = None
        try:
            e = o.add(v) if route == "add" else o.add(**{li.keys[0]: v})
        except Exception as x:
            err = x
        if want is None:
            rec.obs("refusals")
            if err is None:
                self.bad("accepted", t, "%s: accepted, it is not a value of the type" % where)
            if not isinstance(err, (KeyError, ValueError)):
                self.bad("wrong-error", t, "%s: refused with %s: %s" % (where, type(err).__name__, str(err)[:200]))
        elif want in held:
            if not isinstance(err, KeyError):
                self.bad("duplicate", t, "%s: there is such an entry, expected a KeyError, got %r" % (where, err))
        else:
            rec.obs("acceptances")
            if err is not None:
                self.bad("refused", t, "%s: refused (%s: %s), it is a value of the type" % (where, type(err).__name__, str(err)[:200]))
            got = self.get(t, e, li.keys[0], where)
            if got != want:
                self.bad("value", t, "%s: the key reads back as %r, expected %r" % (where, got, want))
            held.append(want)
        if len(o) != len(held) or [t.read(child(x, li.keys[0])) for x in o.values()] != held:
            self.bad("kept", t, "%s: the list has %r, expected entries for %r" % (where, list(o.keys()), held))

    def run(self, n):
        rng = self.rng
        for _ in range(n):
            r = rng.random()
            pool = self.leaves if r < 0.65 else self.lls if r < 0.85 else self.keys
            if not pool:
                pool = self.leaves
            node = rng.choice(pool)
            t = node.keynodes()[0].type if isinstance(node, List) else node.type
            if rng.random() < 0.5:
                v = t.good(rng)
                want = t.canon(v)
                if t.kind == "identityref" and isinstance(node, LeafList):
                    v = want     # leaf-lists tell identities apart by how they are written
            else:
                v = t.bad(rng)
                want = None
                if v is None and t.kind in ("string", "union"):
                    continue
            if t.kind == "union" and isinstance(node, LeafList) and isinstance(v, int):
                # a leaf-list of text takes no numbers (README, tests)
                v = str(v)
            if isinstance(node, List):
                self.key(node, v, want)
            elif isinstance(node, LeafList):
                self.leaflist(node, v, want)
            else:
                self.leaf(node, v, want)
        self.rec.sample("\n".join(self.texts)[:1500])
