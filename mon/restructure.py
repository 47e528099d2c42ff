"""The YANG text of a schema tree, written in the many ways in which the same tree can be: through groupings in the same or another
module, used once or several times with refinements and augmentations, in submodules, by augmenting one's own module, with features and
deviations that take nodes away again, and with descriptions of any text."""
import copy

from . import schema as S, ytypes as T
from .schema import Case, Choice, Container, Leaf, LeafList, List, Module

TEXTS = ['plain', 'it\'s', 'say "so"', '"""', "'''", 'ends with \\', 'back\\slash \\n', 'tri"""ple', 'two\n  lines\n', '%s %d', '{x}', '', ' ', '\u00e9\u65e5\u672c', '"', '\\"', '\\', '\t', "#", "'; drop", '\\u0041', '\\x41',
         'a"""b\'\'\'c', '//', '/* c */']


class File:
    """a module or submodule that text is written to"""

    def __init__(self, mod, name=None, belongs=None):
        self.mod, self.name, self.belongs = mod, name or mod.name, belongs
        self.groupings, self.body, self.augments = [], [], []


class Writer:
    def __init__(self, rng, m, by=None, types=None, groups=None, sub=None, dev=None, reuse=0.3):
        """m: the module (its children those of by too); types: holds all typedefs; groups: a module for groupings; sub: submodule's name;
        dev: the name of a module with deviations"""
        self.rng, self.m, self.by, self.types, self.groups = rng, m, by, types, groups
        self.files = {m: File(m)}
        if by:
            self.files[by] = File(by)
        if groups:
            self.files[groups] = File(groups)
        self.sub = File(m, sub, m) if sub else None
        self.ng = 0
        self.deviations = []
        self.devname = dev
        self.twins = {}
        self.obs = {}

    def n(self, what):
        self.obs[what] = self.obs.get(what, 0) + 1

    # -- the whole
    def texts(self):
        rng, m = self.rng, self.m
        for owner in [m] + ([self.by] if self.by else []):
            top = [c for c in m.children if c.module is owner] if owner is m else [c for c in owner.children]
            for c in top:
                f = self.sub if owner is m and self.sub and rng.random() < 0.5 else self.files[owner]
                if f is self.sub:
                    self.n("in submodules")
                f.body += self.nodes([c], f, "", owner, {})
        if self.by:
            for path, node in self.augmented():
                mine = [c for c in node.children if c.module is self.by]
                while mine:
                    k = rng.randint(1, len(mine))
                    f = self.files[self.by]
                    body = self.nodes(mine[:k], f, path, self.by, {})
                    f.augments.append(["augment %s {" % T.q(self.abs(path, f))] + body + ["}"])
                    self.n("augmentations of another module")
                    mine = mine[k:]
        out = [self.module(f) for f in ([self.files[m]] + ([self.sub] if self.sub else []) + [f for x, f in self.files.items() if x is not m])]
        if self.types:
            out.append("module %s {\n  yang-version 1.1;\n  namespace %s;\n  prefix %s;\n%s}\n" % (
                self.types.name, T.q(self.types.ns), self.types.prefix, "".join("  typedef %s { %s%s }\n" % (
                    t.name, t.type.decl(self.types), " default %s;" % T.q(t.default) if t.default is not None else "") for t in self.types.typedefs)))
        if self.devname:
            out.append("module %s {\n  yang-version 1.1;\n  namespace \"urn:%s\";\n  prefix %s;\n  import %s { prefix %s; }\n%s}\n" % (
                self.devname, self.devname, self.devname, m.name, m.prefix, "".join("  " + x + "\n" for x in self.deviations)))
        return out

    def module(self, f):
        o = []
        m = f.mod
        if f.belongs:
            o += ["submodule %s {" % f.name, "  yang-version 1.1;", "  belongs-to %s { prefix %s; }" % (m.name, m.prefix)]
        else:
            o += ["module %s {" % m.name, "  yang-version 1.1;", "  namespace %s;" % T.q(m.ns), "  prefix %s;" % m.prefix]
        for x, p in m.imports.items():
            o.append("  import %s { prefix %s; }" % (x.name, p))
        if self.sub and m is self.m and not f.belongs:
            o.append("  include %s;" % self.sub.name)
        o += ["  " + x for x in self.head()]
        if m is self.m and not f.belongs:
            o += ["  feature on-f;", "  feature off-f { description %s; }" % T.q(self.rng.choice(TEXTS)), "  extension note { argument text; }"]
        parts = f.groupings + [f.body] + f.augments
        if self.rng.random() < 0.5:
            self.rng.shuffle(parts)
        for p in parts:
            o += ["  " + x for x in p]
        o.append("}")
        return "\n".join(o) + "\n"

    def head(self):
        q = lambda: T.q(self.rng.choice(TEXTS))
        return [x for x in ["organization %s;" % q(), "contact %s;" % q(), "description %s;" % q()] if self.rng.random() < 0.4]

    def augmented(self):
        out = []

        def walk(nodes, path):
            for c in nodes:
                if c.module is not self.m:
                    continue
                p = path + self.steps(c)
                if any(k.module is self.by for k in c.children):
                    out.append((p, c))
                walk(c.children, p)

        walk(self.m.children, [])
        return out

    @staticmethod
    def steps(c):
        """the schema node identifiers that lead to a child: an implicit case has its own"""
        if isinstance(c, Case) and c.implicit:
            return [(c.children[0].module, c.children[0].name)]
        return [(c.module, c.name)]

    def abs(self, path, f):
        return "".join("/%s:%s" % (f.mod.prefix_of(x), n) for x, n in path)

    # -- siblings
    def nodes(self, nodes, f, path, owner, ctx):
        """path: schema path of the parent from the root, None in a grouping.
        ctx: {"neutral"} in a grouping whose users refine it"""
        rng = self.rng
        out = []
        i = 0
        nodes = [c for c in nodes if c.module is owner]
        path = [] if path == "" else path
        while i < len(nodes):
            j = i
            if rng.random() < 0.25 and not any(isinstance(c, Case) for c in nodes):
                j = min(len(nodes), i + rng.randint(1, 3))
            if j > i:
                out += self.uses(nodes[i:j], f, path, owner, ctx)
                i = j
            else:
                out += self.node(nodes[i], f, path, owner, ctx)
                i += 1
        return out

    def name(self):
        self.ng += 1
        return "%s-%d" % (self.rng.choice(["grp", "g.x", "base_g", "class", "config"]), self.ng)

    def uses(self, nodes, f, path, owner, ctx, twin=None):
        """prints nodes as a grouping and its use"""
        rng = self.rng
        neutral = twin is not None or rng.random() < 0.5 or bool(ctx.get("neutral"))
        if twin is not None and twin in self.twins:
            g, gf, moved = self.twins[twin]
            self.n("groupings used again")
        else:
            gf = f
            if twin is not None:
                gf = self.sub or self.files[self.m]
            elif self.groups and rng.random() < 0.4 and f.mod is not self.groups:
                gf = self.files[self.groups]
                self.n("groupings of another module")
            elif self.sub and f.mod is self.m and rng.random() < 0.5:
                gf = self.sub
            g = self.name()
            moved = []
            # (an inner one is not augmented where it is used)
            body = self.nodes_in(nodes, gf, owner, {"neutral": neutral, "moved": None if "rel" in ctx else moved, "rel": ""})
            gf.groupings.append(["grouping %s {" % g] + ["  " + x for x in self.noise() + body] + ["}"])
            if twin is not None:
                self.twins[twin] = (g, gf, moved)
        self.n("groupings")
        inner = self.noise() if rng.random() < 0.2 else []
        if neutral and not ctx.get("neutral"):
            inner += self.refines(nodes, "", {rel + "/" + k for rel, kids in moved for k in kids})
        for rel, kids in moved:
            # the nodes that this user has there
            at = self.find(nodes, rel)
            mine = [c for c in at.children if self.steps(c)[0][1] in kids and c.module is owner]
            sub = dict(ctx)
            sub["moved"] = None
            inner += ["augment %s {" % T.q(self.rel(rel, f, owner))] + self.nodes_in(mine, f, owner, sub) + ["}"]
            self.n("augmentations of uses")
        ref = g if gf.mod is f.mod else "%s:%s" % (f.mod.prefix_of(gf.mod), g)
        return ["uses %s {" % ref] + ["  " + x for x in inner] + ["}"] if inner else ["uses %s;" % ref]

    def nodes_in(self, nodes, f, owner, ctx):
        return self.nodes(nodes, f, None, owner, ctx)

    def rel(self, rel, f, owner):
        ns = rel.strip("/").split("/")
        p = f.mod.prefix_of(owner) + ":" if f.mod is owner and self.rng.random() < 0.5 else ""
        return "/".join(p + n for n in ns)

    def find(self, nodes, rel):
        at = None
        for n in rel.strip("/").split("/"):
            at = [c for c in nodes if self.steps(c)[0][1] == n][0]
            nodes = at.children
        return at

    def refines(self, nodes, rel, moved):
        """the refinements that make a neutral grouping what its nodes say"""
        out = []
        for c in nodes:
            r = rel + "/" + self.steps(c)[0][1]
            if r in moved:
                continue
            st = []
            if isinstance(c, Leaf) and c.default is not None:
                st.append("default %s;" % T.q(c.default))
            if c.config is not None:
                st.append("config %s;" % ("true" if c.config else "false"))
            if isinstance(c, Container) and c.presence:
                st.append("presence %s;" % T.q(self.rng.choice(TEXTS)))
            if self.rng.random() < 0.1:
                st.append("description %s;" % T.q(self.rng.choice(TEXTS)))
            if st:
                out.append("refine %s { %s }" % (T.q(r[1:]), " ".join(st)))
                self.n("refinements")
            out += self.refines([k for k in c.children if k.module is c.module], r, moved)
        return out

    # -- one node
    def noise(self):
        rng = self.rng
        q = lambda: T.q(rng.choice(TEXTS))
        out = []
        if rng.random() < 0.35:
            out.append("description %s;" % q())
        if rng.random() < 0.1:
            out.append("reference %s;" % q())
        return out

    def ghost(self, f, path, ctx):
        """a node that a feature or a deviation takes away"""
        rng = self.rng
        n = "ghost-%d" % rng.randrange(10**6)
        kind = rng.choice(["leaf %s { type string; %%s }", "container %s { %%s leaf x { type string; } }", "list %s { key k; leaf k { type string; } %%s }", "leaf-list %s { type int8; %%s }"]) % n
        if f.mod is self.m and not f.belongs and rng.random() < 0.5:
            self.n("nodes without their feature")
            return [kind % "if-feature off-f;"]
        if path is not None and self.devname and all(x is self.m for x, _ in path):
            self.deviations.append("deviation %s { deviate not-supported; }" % T.q("".join("/%s:%s" % (x.prefix, y) for x, y in path) + "/%s:%s" % (self.m.prefix, n)))
            self.n("nodes not supported")
            return [kind % ""]
        return []

    def node(self, c, f, path, owner, ctx):
        rng = self.rng
        neutral = ctx.get("neutral")
        if isinstance(c, Case) and c.implicit:
            # a case that consists of one node
            k = c.children[0]
            return self.node(k, f, None if path is None else path + self.steps(c), owner, self.at(ctx, c))
        p = None if path is None else path + self.steps(c)
        o = ["%s %s {" % (c.keyword, c.name)]
        sub = []
        if isinstance(c, (Leaf,)):
            sub.append(c.type.decl(f.mod))
            if c.default is not None and not neutral:
                if p is not None and self.devname and all(x is self.m for x, _ in p) and rng.random() < 0.15 and not isinstance(c, LeafList):
                    self.deviations.append("deviation %s { deviate add { default %s; } }" % (T.q("".join("/%s:%s" % (x.prefix, y) for x, y in p)), T.q(c.default)))
                    self.n("deviations of properties")
                else:
                    sub.append("default %s;" % T.q(c.default))
            if rng.random() < 0.1:
                sub.append("units %s;" % T.q(rng.choice(TEXTS)))
            if isinstance(c, LeafList) and c.user:
                sub.append("ordered-by user;")
        if isinstance(c, List):
            if c.keys:
                sub.append("key %s;" % T.q((" " * rng.choice([1, 1, 2])).join(c.keys)))
            if c.user or rng.random() < 0.2:
                sub.append("ordered-by %s;" % ("user" if c.user else "system"))
            if rng.random() < 0.1:
                sub.append("max-elements 1000;")
        if isinstance(c, Container) and c.presence and not neutral:
            sub.append("presence %s;" % T.q(rng.choice(TEXTS)))
        if c.config is not None and not neutral:
            sub.append("config %s;" % ("true" if c.config else "false"))
        if not isinstance(c, (Case, Choice)) and f.mod is self.m and not f.belongs and rng.random() < 0.1 and not getattr(c, "iskey", False):
            sub.append("if-feature on-f;")
            self.n("nodes with their feature")
        if f.mod is self.m and not f.belongs and rng.random() < 0.08:
            sub.append("%s:note %s;" % (self.m.prefix, T.q(rng.choice(TEXTS))))
        for x, name, arg in getattr(c, "ext", ()):
            sub.append("%s:%s%s;" % (f.mod.prefix_of(x), name, " " + T.q(arg) if arg is not None else ""))
        sub += self.noise()
        if rng.random() < 0.5:
            rng.shuffle(sub)
        kids = [k for k in c.children if k.module is owner]
        tail = []
        keys = set(getattr(c, "keys", ()) or ())
        body = []
        if isinstance(c, (Container, List, Case)) and kids:
            if getattr(c, "twin", None) is not None and f.mod is self.m:
                body = self.uses(kids, f, p, owner, ctx, twin=c.twin)
                kids = []
            else:
                # some are added by an augmentation
                free = [k for k in kids if k.name not in keys and not (isinstance(c, Case))]
                if len(free) > 1 and rng.random() < 0.2:
                    tail = rng.sample(free, rng.randint(1, len(free) - 1))
                elif isinstance(c, (Container,)) and free and rng.random() < 0.08:
                    tail = free
        elif isinstance(c, Choice) and len(kids) > 2 and rng.random() < 0.3:
            tail = [k for k in kids[1:] if not k.implicit][:1]
        if tail:
            if ctx.get("moved") is not None and p is None:
                ctx["moved"].append((ctx["rel"] + "/" + self.steps(c)[0][1], [self.steps(k)[0][1] for k in tail]))
            elif p is not None and not any(a == b for a, b in zip(p, p[1:])) and all(x is owner for x, _ in p):
                # (pyang cannot augment its own module through a case that is not written)
                af = self.files[self.m] if f is self.sub else f
                af.augments.append(["augment %s {" % T.q(self.abs(p, af))] + self.nodes(tail, af, p, owner, {}) + ["}"])
                self.n("augmentations of the module itself")
            else:
                tail = []
        rest = [k for k in kids if k not in tail]
        body = body + self.nodes(rest, f, p, owner, self.at(ctx, c))
        if not isinstance(c, (Choice, Leaf)) and rng.random() < 0.2:
            body += self.ghost(f, p, ctx)
        return o + ["  " + x for x in sub + body] + ["}"]

    def at(self, ctx, c):
        if "rel" in ctx:
            ctx = dict(ctx)
            ctx["rel"] = ctx["rel"] + "/" + self.steps(c)[0][1]
        return ctx


def twins(rng, m, g, used):
    """gives some containers a sibling with the same children, other defaults, config and presence"""
    found = []

    def walk(node):
        for c in list(node.children):
            if c.module is not m:
                continue
            if isinstance(c, Container) and c.children and rng.random() < 0.25 and len(found) < 3 and getattr(c, "twin", None) is None and not isinstance(node, (Case, Choice)):
                t = Container(g.fresh({S.safe(x.name) for x in siblings(node)}),
                              [clone(rng, g, k) for k in c.children], config=c.config)
                t.module = m
                t.presence = "p" if rng.random() < 0.3 or not S.data_children(t) else None
                c.twin = t.twin = len(found) + 1
                found.append(c)
                node.children.append(t)
            elif not isinstance(c, Leaf):
                walk(c)

    walk(m)
    return len(found)


def siblings(node):
    for c in node.children:
        yield c
        if isinstance(c, (Choice, Case)):
            yield from siblings(c)


def clone(rng, g, n):
    c = copy.copy(n)
    c.children = [clone(rng, g, k) for k in n.children]
    if isinstance(c, Leaf) and not isinstance(c, LeafList) and rng.random() < 0.5 and c.type.kind not in ("empty", "bits", "binary", "identityref") and not getattr(c, "iskey", False):
        c.default = None if rng.random() < 0.4 else g.default_text(c.type)
    if isinstance(c, Container) and rng.random() < 0.3 and S.data_children(c):
        c.presence = None if c.presence else "q"
    return c
