"""Names of types and identities mean what they mean where they are written."""
from mon import build
from mon.model import attrs, child

TITLE = "Type and identity names resolve where they are written"
RULE = ("A case is four modules and a submodule whose typedefs, identities, groupings and prefixes share names; every typedef in the "
        "end is an enumeration with one member of its own and every identity has one derivation of its own, besides those that have one name in several modules, so that what each "
        "leaf accepts tells which definition its type was resolved to; distinct = distinct (where the leaf is, where its type is defined, "
        "how it is referred to).")
COUNT = (400, 4000)
NEED = ["resolutions", "identities of one name", "parts that differ in what a prefix stands for", "groupings used elsewhere", "typedef chains", "identity bases"]
ASSUMPTIONS = ["YANG forbids a local typedef that hides one of an enclosing scope, so names are shared between modules and between "
               "scopes beside each other only"]

TOP = ["t", "u", "id", "val"]
LOCAL = ["loc", "aux"]
IDS = ["base", "kind", "t"]


class Mod:
    def __init__(self, w, name, prefix):
        self.w, self.name, self.prefix = w, name, prefix
        self.imports = {}
        self.tds, self.ids, self.groups, self.body = [], [], [], []
        self.parts = []
        self.owner = self       # the module a submodule belongs to

    def decl(self):
        return self.owner.parts or [self.owner]


class Def:
    """a typedef: tok is the enum name it accepts in the end"""

    def __init__(self, name, mod, tok, scope):
        self.name, self.mod, self.tok, self.scope = name, mod, tok, scope


class Ident:
    def __init__(self, name, mod, leaf):
        self.name, self.mod, self.leaf = name, mod, leaf
        self.same = []          # the modules that have an identity `same` derived from it


class World:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.n = 0
        m, s, a, b, c = self.mods = [Mod(self, "m", "p"), Mod(self, "s", rng.choice(["p", "q"])), Mod(self, "a", rng.choice(["p", "q", "a"])),
                                     Mod(self, "b", rng.choice(["p", "x", "b"])), Mod(self, "c", rng.choice(["p", "x", "c"]))]
        m.parts = [m, s]
        s.owner = m
        self.m, self.s, self.a, self.b = m, s, a, b
        for x, ys in ((b, []), (c, []), (a, [b, c]), (s, [a, b, c]), (m, [a, b, c])):
            for y in rng.sample(ys, len(ys)):
                # what only a part of a module imports is known to that part only, whatever the others use the prefix for
                if rng.random() < (0.5 if y is c else 0.8):
                    x.imports[y] = rng.choice([p for p in ["x", "y", "z", "q", "a", "b", "m"][:rng.choice([4, 7])] if p != x.prefix and p not in x.imports.values()])
        if any(m.imports.get(y) == p and y is not z for z, p in s.imports.items() for y in m.imports):
            rec.obs("parts that differ in what a prefix stands for")
        self.defs, self.idents = [], []
        for x in (b, c, a, s, m):
            self.top(x)
        self.expect = []       # (path, Def or Ident, how)
        for x in (b, c, a, s, m):
            for i in range(rng.randint(1, 2)):
                x.groups.append(self.grouping(x, "g%d" % i if x is not s else "sg%d" % i))
        for x in (m, s, a):
            self.data(x)

    def tok(self):
        self.n += 1
        return "k%d" % self.n

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def top(self, x):
        rng = self.rng
        taken = [d.name for d in self.defs if d.mod.owner is x.owner]
        for n in rng.sample(TOP, rng.randint(2, 3)):
            if n not in taken:
                x.tds.append(self.typedef(n, x, []))
        tids = [d.name for d in self.idents if d.mod.owner is x.owner]
        for n in rng.sample(IDS, 2):
            if n not in tids:
                i = Ident(n, x, self.name("d"))
                self.idents.append(i)
                x.ids.append("identity %s;" % n)
                x.ids.append("identity %s { base %s; }" % (i.leaf, self.ref(i, x)))
                # derivations made elsewhere belong to it too; `leaf` is what tells it apart
        if rng.random() < 0.6:
            vis = [i for i in self.idents if self.visible(i.mod, x)]
            i = rng.choice(vis)
            y = self.name("e")
            x.ids.append("identity %s { base %s; }" % (y, self.ref(i, x)))
        # the same name for what several modules derive
        if rng.random() < 0.6 and not any(x.owner is y for i in self.idents for y in i.same):
            i = rng.choice([i for i in self.idents if self.visible(i.mod, x)])
            x.ids.append("identity same { base %s; }" % self.ref(i, x))
            i.same.append(x.owner)

    def visible(self, mod, x):
        # pyang looks for nothing of its module in a submodule
        return (mod.owner is x.owner and (mod is x or x is x.owner)) or mod.owner in x.imports

    def ref(self, d, x):
        """how definition d is referred to in module x"""
        if d.mod.owner is x.owner:
            return d.name if self.rng.random() < 0.6 else "%s:%s" % (x.prefix, d.name)
        return "%s:%s" % (x.imports[d.mod.owner], d.name)

    def typedef(self, n, x, scope):
        """text of a typedef of name n; scope: the local definitions that can be seen"""
        rng = self.rng
        vis = scope + [d for d in self.defs if not d.scope and self.visible(d.mod, x)]
        # a top-level definition of one part of a module that is not read yet is left out
        if vis and rng.random() < 0.45:
            d = rng.choice(vis)
            r = self.lref(d, x)
            new = Def(n, x, d.tok, bool(scope) or scope is None)
            text = "typedef %s { type %s; }" % (n, r)
            self.rec.obs("typedef chains")
        else:
            k = self.tok()
            new = Def(n, x, k, False)
            text = "typedef %s { type enumeration { enum %s; } }" % (n, k)
        self.last = new
        self.defs.append(new)
        return text

    def lref(self, d, x):
        return d.name if d.scope else self.ref(d, x)

    def local(self, x, scope, avoid):
        """local typedefs of a scope: text, definitions"""
        rng, out, defs = self.rng, [], []
        for n in LOCAL:
            if n not in avoid and rng.random() < 0.4:
                t = self.typedef(n, x, scope + defs)
                self.defs.remove(self.last)
                self.last.scope = True
                defs.append(self.last)
                out.append(t)
        return out, defs

    def leaf(self, x, scope, where):
        """text and [(relative path, definition, how)]"""
        rng = self.rng
        n = self.name("l")
        if rng.random() < 0.3:
            i = rng.choice([i for i in self.idents if self.visible(i.mod, x)])
            self.rec.obs("identity bases")
            return "leaf %s { type identityref { base %s; } }" % (n, self.ref(i, x)), [([n], i, where)]
        vis = scope + [d for d in self.defs if self.visible(d.mod, x)]
        d = rng.choice(vis)
        r = self.lref(d, x)
        kw = rng.choice(["leaf", "leaf", "leaf", "leaf-list"])
        t = "type %s;" % r
        if rng.random() < 0.2:
            t = "type union { type uint8; type %s; }" % r
        return "%s %s { %s }" % (kw, n, t), [([n], d, where + (kw,))]

    def block(self, x, scope, avoid, depth, where):
        rng = self.rng
        out, exp = [], []
        l, defs = self.local(x, scope, avoid)
        out += l
        scope = scope + defs
        avoid = avoid | {d.name for d in defs}
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if depth and r < 0.25:
                n = self.name("c")
                t, e = self.block(x, scope, avoid, depth - 1, where + ("container",))
                out.append("container %s { %s }" % (n, t))
                exp += [([n] + p, d, h) for p, d, h in e]
            elif depth and r < 0.4:
                n = self.name("h")
                o = []
                for k in range(2):
                    t, e = self.leaf(x, scope, where + ("choice",))
                    o.append("case %s { %s }" % (self.name("k"), t))
                    exp += e
                out.append("choice %s { %s }" % (n, " ".join(o)))
            elif depth and r < 0.5:
                n = self.name("li")
                t, e = self.block(x, scope, avoid, depth - 1, where + ("list",))
                out.append("list %s { key kk; leaf kk { type string; } %s }" % (n, t))
                exp += [([n, 0] + p, d, h) for p, d, h in e]
            else:
                t, e = self.leaf(x, scope, where)
                out.append(t)
                exp += e
        return " ".join(out), exp

    def grouping(self, x, name):
        g = Def(name, x, None, False)
        t, e = self.block(x, [], set(), 1, ("grouping",))
        g.exp = e
        g.text = "grouping %s { %s }" % (name, t)
        return g

    def data(self, x):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            n = self.name("top")
            t, e = self.block(x, [], set(), 2, ("data",))
            gs = [g for y in self.mods for g in y.groups if self.visible(y, x)]
            for g in rng.sample(gs, min(len(gs), rng.randint(1, 2))):
                if rng.random() < 0.5:
                    u = self.name("w")
                    t += " container %s { uses %s; }" % (u, self.ref(g, x))
                    e = e + [([u] + p, d, h) for p, d, h in g.exp]
                else:
                    t += " uses %s;" % self.ref(g, x)
                    e = e + g.exp
                if g.mod.owner is not x.owner:
                    self.rec.obs("groupings used elsewhere")
            x.body.append("container %s { %s }" % (n, t))
            if x.owner is self.m or rng.random() < 2:
                self.expect += [(x.owner.name, [n] + p, d, h) for p, d, h in e]

    def texts(self):
        out = []
        for x in self.mods:
            o = []
            if x is self.s:
                o.append('submodule s { yang-version 1.1; belongs-to m { prefix %s; }' % x.prefix)
            else:
                o.append('module %s { yang-version 1.1; namespace "urn:%s"; prefix %s;' % (x.name, x.name, x.prefix))
            for y, p in x.imports.items():
                o.append("  import %s { prefix %s; }" % (y.name, p))
            if x is self.m:
                o.append("  include s;")
            parts = x.ids + x.tds + [g.text for g in x.groups]
            self.rng.shuffle(parts)
            o += ["  " + t for t in parts + x.body]
            o.append("}")
            out.append("\n".join(o) + "\n")
        return out


def case(rng, rec, tier):
    w = World(rng, rec)
    # what the submodule refers to of its module may come after it: YANG 1.1 allows that, and so the reverse
    texts = w.texts()
    b = build.build(texts, targets=["m", "a"])
    roots = {"m": b.m(), "a": b.a()}
    rec.sample("\n".join(texts)[:1500])
    toks = sorted({d.tok for d in w.defs})
    for mod, path, d, how in w.expect:
        o = roots[mod]
        for p in path[:-1]:
            if p == 0:
                o = o["x"] if "x" in o else o.add("x")
            else:
                o = child(o, p)
        where = "%s:/%s" % (mod, "/".join(map(str, path)))
        name = attrs(o)[path[-1]]
        rec.obs("resolutions")
        rec.seen(how, type(d).__name__, d.mod.name, d.mod.name == mod, d.scope if isinstance(d, Def) else None)
        ll = how[-1] == "leaf-list"
        if isinstance(d, Ident):
            good, bads = d.leaf, [i.leaf for i in w.idents if i is not d]
            what = "the identity %s of module %s" % (d.name, d.mod.name)
        else:
            good, bads = d.tok, [t for t in toks if t != d.tok]
            what = "the typedef %s of module %s that is an enumeration of %s" % (d.name, d.mod.name, d.tok)
        try:
            setattr(o, name, [good] if ll else good)
        except ValueError as e:
            rec.bad("unresolved", "%s is of %s, but refuses %r: %s\n%s" % (where, what, good, str(e)[:300], "\n".join(texts)))
        if isinstance(d, Ident):
            goods = ["%s:same" % x.name for x in d.same] + ["same"] * bool(d.same)
            bads += ["same"] * (not d.same)
            for x in goods:
                rec.obs("identities of one name")
                try:
                    setattr(o, name, [x] if ll else x)
                except ValueError as e:
                    rec.bad("unresolved", "%s is of %s, but refuses %r, which is derived from it: %s\n%s" % (where, what, x, str(e)[:300], "\n".join(texts)))
        for x in rng.sample(bads, min(len(bads), 4)):
            try:
                setattr(o, name, [x] if ll else x)
            except ValueError:
                continue
            rec.bad("misresolved", "%s is of %s, but accepts %r\n%s" % (where, what, x, "\n".join(texts)))
