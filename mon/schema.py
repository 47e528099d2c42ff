"""Schema trees: an AST of the YANG this harness uses, its text, and a random generator."""
from . import ytypes as T


class Identity:
    def __init__(self, module, name, bases=()):
        self.module, self.name, self.bases = module, name, list(bases)
        self.children = []
        self.others = []
        for b in self.bases:
            b.children.append(self)

    def derived(self):
        out = []
        for c in self.children:
            for x in [c] + c.derived():
                if x not in out:
                    out.append(x)
        return out

    def prefixes(self):
        """what may precede the name: the module's name, its own prefix and those it is imported with"""
        return [self.module.name, self.module.prefix] + self.module.imported_as


class Module:
    def __init__(self, name, prefix=None, ns=None):
        self.name, self.prefix, self.ns = name, prefix or name, ns or "urn:%s" % name
        self.children, self.typedefs, self.identities, self.imports, self.augments = [], [], [], {}, []
        self.imported_as = []
        self.extra = []
        self.version = "1.1"
        self.submodule = None       # the submodule that holds all that this one defines

    def add_import(self, mod, prefix=None):
        self.imports[mod] = prefix or mod.prefix
        if self.imports[mod] not in mod.imported_as:
            mod.imported_as.append(self.imports[mod])

    def prefix_of(self, mod):
        return self.prefix if mod is self else self.imports[mod]

    def texts(self):
        return [self.text()] if self.submodule is None else [self.text(), self.text(sub=True)]

    def text(self, sub=False):
        o = ["submodule %s {" % self.submodule if sub else "module %s {" % self.name]
        if self.version:
            o.append("  yang-version %s;" % self.version)
        if sub:
            o.append("  belongs-to %s { prefix %s; }" % (self.name, self.prefix))
        else:
            o += ["  namespace %s;" % T.q(self.ns), "  prefix %s;" % self.prefix]
            if self.submodule is not None:
                return "\n".join(o + ["  include %s;" % self.submodule, "}"]) + "\n"
        for m, p in self.imports.items():
            o.append("  import %s { prefix %s; }" % (m.name, p))
        o += ["  " + x for x in self.extra]
        for i in self.identities:
            bs = "".join(" base %s%s;" % ("" if b.module is self else self.prefix_of(b.module) + ":", b.name) for b in i.bases)
            o.append("  identity %s%s" % (i.name, " {%s }" % bs if bs else ";"))
        for t in self.all_typedefs():
            o.append("  typedef %s { %s%s }" % (t.name, t.type.decl(self), " default %s;" % T.q(t.default) if t.default is not None else ""))
        for c in self.children:
            if c.module is None or c.module is self:
                o += c.text("  ", self)
        for target, nodes in self.augments:
            o.append('  augment "%s" {' % target)
            for n in nodes:
                o += n.text("    ", self)
            o.append("  }")
        o.append("}")
        return "\n".join(o) + "\n"

    def all_typedefs(self):
        seen = []
        for t in self.typedefs:
            if t not in seen:
                seen.append(t)

        def walk(nodes):
            for n in nodes:
                if n.module is not None and n.module is not self:
                    continue
                if getattr(n, "type", None) is not None:
                    for t in n.type.typedefs():
                        if t not in seen and (t.module is None or t.module is self):
                            seen.append(t)
                walk(getattr(n, "children", []))

        walk(self.children)
        for _, ns in self.augments:
            walk(ns)
        # a typedef must come with those it is made from
        for t in list(seen):
            for x in t.type.typedefs():
                if x not in seen and (x.module is None or x.module is self):
                    seen.append(x)
        return seen


class Node:
    keyword = None
    children = ()

    def __init__(self, name, children=(), config=None, ns=None):
        self.name, self.children, self.config = name, list(children), config
        self.module = None      # defining module
        self.choice = None      # [(choice, case), ...] innermost first

    def sub(self, mod):
        return []

    def text(self, ind, mod):
        o = ["%s%s %s {" % (ind, self.keyword, self.name)]
        o += [ind + "  " + x for x in self.sub(mod)]
        if self.config is not None:
            o.append("%s  config %s;" % (ind, "true" if self.config else "false"))
        for c in self.children:
            if c.module is None or c.module is mod:
                o += c.text(ind + "  ", mod)
        o.append(ind + "}")
        return o

    def __repr__(self):
        return "<%s %s>" % (self.keyword, self.name)


class Container(Node):
    keyword = "container"
    presence = None

    def sub(self, mod):
        return ["presence %s;" % T.q(self.presence)] if self.presence else []


class List(Node):
    keyword = "list"

    def __init__(self, name, keys, children, user=False, **k):
        Node.__init__(self, name, children, **k)
        self.keys, self.user = keys, user

    def sub(self, mod):
        o = ['key "%s";' % " ".join(self.keys)] if self.keys else []
        if self.user:
            o.append("ordered-by user;")
        return o

    def keynodes(self):
        return [[c for c in self.children if c.name == k][0] for k in self.keys]


class Leaf(Node):
    keyword = "leaf"

    def __init__(self, name, type_, default=None, **k):
        Node.__init__(self, name, (), **k)
        self.type, self.default = type_, default   # default: text

    def sub(self, mod):
        return [self.type.decl(mod)] + (["default %s;" % T.q(self.default)] if self.default is not None else [])


class LeafList(Leaf):
    keyword = "leaf-list"
    user = False

    def sub(self, mod):
        return [self.type.decl(mod)] + (["ordered-by user;"] if self.user else [])


class Choice(Node):
    keyword = "choice"


class Case(Node):
    keyword = "case"
    implicit = False

    def text(self, ind, mod):
        if self.implicit:
            return self.children[0].text(ind, mod)
        return Node.text(self, ind, mod)


def data_children(node):
    """the data nodes directly under a container, list or module, with choices seen through"""
    out = []

    def walk(nodes, ch):
        for n in nodes:
            if isinstance(n, Choice):
                for case in n.children:
                    walk(case.children, [(n, case)] + ch)
            else:
                n.choice = ch
                out.append(n)

    walk(node.children, [])
    return out


def finish(modules):
    """sets module and effective config on every node"""
    def walk(nodes, mod, cfg):
        for n in nodes:
            if n.module is None:
                n.module = mod
            n.rw = cfg and n.config is not False
            walk(n.children, n.module, n.rw)

    for m in modules:
        walk(m.children, m, True)


def all_nodes(root):
    for c in data_children(root):
        yield c
        yield from all_nodes(c)


NAMES = ["alpha", "beta", "gamma", "delta", "name", "id", "type", "value", "config", "state", "peer-as", "router-id", "mtu",
         "if.name", "x_y", "enabled", "class", "list", "from", "import", "in", "is", "max", "min", "set", "get", "default", "local",
         "global", "print", "int", "str", "add", "remove", "pop", "insert", "as", "if", "property", "while", "description",
         "address", "prefix-length", "n0", "A", "Z9", "long-name-with-dashes", "t.u-v_w", "speed", "keys", "items", "values",
         "append", "extend", "load", "path", "parent", "changed", "v", "self", "args", "d", "key", "index", "other", "async",
         "lambda", "yield", "not", "float", "decimal", "map", "def", "del", "try", "for", "with", "_under", "exec", "lists", "unit"]


def safe(n):
    return n.replace("-", "_").replace(".", "_").rstrip("_")


class Gen:
    """A random module. Options: kinds (leaf types), depth, keyless, choices, presence, config_false, multikey, keykinds,
    user_ordered, leaflists, defaults."""

    def __init__(self, rng, **o):
        self.rng = rng
        self.o = dict(kinds=["string", "int8", "uint8", "int32", "uint64", "int64", "uint16", "decimal64", "boolean", "enumeration",
                             "bits", "binary", "empty", "union"],
                      keykinds=["string", "string", "int8", "uint32", "enumeration", "int64", "uint64", "boolean", "decimal64", "bits", "binary",
                                "keyunion"], multikeykinds=None,
                      depth=2, width=(2, 4), keyless=0.0, choices=0.3, presence=0.0, config_false=0.0, multikey=0.3,
                      user=0.3, leaflists=0.25, lists=0.3, containers=0.4, defaults=0.0, tddefaults=0.0, names=NAMES, llkinds=None,
                      tddepth=None, keyspaces=True, maxnodes=150)
        self.o.update(o)
        self.ntd = 0

    def tdname(self):
        self.ntd += 1
        return "td%d" % self.ntd

    def type(self, kinds=None):
        return T.gen_type(self.rng, kinds or self.o["kinds"], depth=self.o["tddepth"], tdname=self.tdname)

    def nmax(self):
        return self.rng.randint(*self.o["width"])

    def fresh(self, used):
        for _ in range(200):
            n = self.rng.choice(self.o["names"])
            if safe(n) not in used:
                used.add(safe(n))
                return n
        i = len(used)
        while "n%d" % i in used:
            i += 1
        n = "n%d" % i
        used.add(n)
        return n

    def module(self, name="m"):
        m = Module(name)
        m.children = self.children(self.o["depth"], set([safe(name)]))
        finish([m])
        return m

    def children(self, depth, used, n=None, choice_depth=0):
        rng, o = self.rng, self.o
        out = []
        for _ in range(n or self.nmax()):
            r = rng.random()
            if depth > 0 and r < o["containers"]:
                c = Container(self.fresh(used), self.children(depth - 1, set()))
                if rng.random() < o["presence"]:
                    c.presence = "p"
                    if rng.random() < 0.3:
                        c.children = []
                out.append(c)
            elif depth > 0 and r < o["containers"] + o["lists"]:
                out.append(self.list(self.fresh(used), depth))
            elif rng.random() < o["choices"] and choice_depth < 2:
                ch = Choice(self.fresh(used))
                # a choice is not a data node, but its name is kept apart for readability
                for _ in range(rng.randint(2, 3)):
                    implicit = rng.random() < 0.3
                    k = self.children(max(0, depth - 1), used, n=1 if implicit else rng.randint(1, 3), choice_depth=choice_depth + 1)
                    if implicit and isinstance(k[0], Choice):
                        implicit = False
                    case = Case(k[0].name if implicit else "case%d" % rng.randrange(10**6), k)
                    case.implicit = implicit
                    if case.name in [c.name for c in ch.children]:
                        continue
                    ch.children.append(case)
                out.append(ch)
            elif rng.random() < o["leaflists"]:
                ll = LeafList(self.fresh(used), self.type(o["llkinds"] or [k for k in o["kinds"] if k not in ("empty", "union")]))
                ll.user = rng.random() < o["user"]
                out.append(ll)
            else:
                t = self.type()
                l = Leaf(self.fresh(used), t)
                if rng.random() < o["defaults"] and t.kind not in ("empty", "bits", "binary", "identityref"):
                    l.default = self.default_text(t)
                out.append(l)
            if rng.random() < o["config_false"]:
                out[-1].config = False
        return out

    def default_text(self, t):
        v = t.value(self.rng)
        return v if isinstance(v, str) else t.lex(v)

    def list(self, name, depth):
        rng, o = self.rng, self.o
        used = set()
        keys = []
        kn = []
        if rng.random() >= o["keyless"]:
            n = rng.choice([2, 2, 3]) if rng.random() < o["multikey"] else 1
            kinds = o["keykinds"] if n == 1 else (o["multikeykinds"] or o["keykinds"])
            for _ in range(n):
                k = Leaf(self.fresh(used), self.type(kinds))
                kn.append(k)
                keys.append(k.name)
        kids = kn + self.children(depth - 1, used)
        if rng.random() < 0.3:
            rng.shuffle(kids)
        l = List(name, keys, kids, user=rng.random() < o["user"])
        if not keys:
            l.config = False
        return l


def targets(mod):
    """[(path, node)] of what another module can augment"""
    out = []

    def walk(nodes, path):
        for n in nodes:
            if n.module is not mod:
                continue
            p = "%s/%s:%s" % (path, "%s", n.name)
            if isinstance(n, (Container, List)):
                out.append((p, n))
            walk(n.children, p)

    walk(mod.children, "")
    return out


def augment(rng, g, mod, by, n=2):
    """by (which imports mod) augments n random nodes of mod"""
    ts = targets(mod)
    rng.shuffle(ts)
    for path, t in ts[:n]:
        used = {safe(c.name) for c in data_children(t)} | {safe(c.name) for c in t.children}
        kids = g.children(rng.choice([0, 1, 1]), used, n=rng.randint(1, 3))
        by.augments.append((path.replace("%s", by.prefix_of(mod)), kids))

        def own(ns):
            for c in ns:
                c.module = by
                own(c.children)

        own(kids)
        t.children += kids
    finish([mod, by])


def identityref(rng, mod, r):
    """an identityref in the text of mod, at times behind typedefs of it or of the identity's module"""
    names = lambda by: r.name if r.module is by else "%s:%s" % (by.prefix_of(r.module), r.name)
    t = T.IdentityT(r, names(mod))
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        home = t.parent.module if t.parent and t.parent.module is not r.module else rng.choice([mod, r.module]) if not t.parent else mod
        if t.parent is None:
            t = T.IdentityT(r, names(home))
        td = T.Typedef("td-of-%s%d" % (r.name, len(home.typedefs)), t, module=home)
        home.typedefs.append(td)
        t = T.IdentityT(r, names(mod), parent=td)
    return t


def identities(rng, mod, roots, p=0.2, keys=0.0):
    """makes identityrefs of some of the leaves and leaf-lists in the text of mod"""
    def walk(nodes, keynames):
        for n in nodes:
            if n.module is mod and isinstance(n, Leaf) and rng.random() < (keys if n.name in keynames else p):
                n.type = identityref(rng, mod, rng.choice(roots))
                n.default = None
            walk(n.children, getattr(n, "keys", ()))

    walk(mod.children, ())
