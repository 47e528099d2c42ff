"""The reference data tree: what a tree of bindings should hold after a history of operations,
written from the documentation and RFC 7950; and `observe`, which reads the same from live bindings
through their public interface."""
from collections import OrderedDict

from .schema import Choice, Container, Leaf, LeafList, List, data_children


class MLeaf:
    def __init__(self, node, parent):
        self.node, self.parent = node, parent
        self.set, self.val, self.form = False, None, None

    def reset(self):
        self.__init__(self.node, self.parent)


class MLeafList:
    def __init__(self, node, parent):
        self.node, self.parent = node, parent
        self.set, self.vals = False, []

    def reset(self):
        self.__init__(self.node, self.parent)


class MTree:
    """a module, container or list entry"""

    def __init__(self, node, parent=None):
        self.node, self.parent = node, parent
        self.reset()

    def reset(self):
        self.changed = False
        self.present = False
        self.kids = OrderedDict()
        for n in data_children(self.node):
            self.kids[n.name] = make(n, self)


class MList:
    def __init__(self, node, parent):
        self.node, self.parent = node, parent
        self.reset()

    def reset(self):
        self.changed = False
        self.entries = OrderedDict()   # key tuple (canonical) -> MTree; keyless: running number
        self.forms = {}                # key tuple -> what the entry was added with
        self.serial = 0


def make(n, parent):
    if isinstance(n, LeafList):
        return MLeafList(n, parent)
    if isinstance(n, Leaf):
        return MLeaf(n, parent)
    if isinstance(n, List):
        return MList(n, parent)
    return MTree(n, parent)


def touch(m):
    """m has been set: its ancestors are changed, and cases that it excludes are unset"""
    while m is not None:
        node = m.node
        if isinstance(m, (MTree, MList)):
            m.changed = True
        if isinstance(m, MTree) and getattr(node, "presence", None):
            m.present = True
        # an entry is not itself in a case, its list is
        if getattr(node, "choice", None) and not is_entry(m):
            for ch, case in node.choice:
                for other in ch.children:
                    if other is not case:
                        for n in case_nodes(other):
                            m.parent.kids[n.name].reset()
        m = m.parent


def is_entry(m):
    return isinstance(m, MTree) and isinstance(m.node, List)


def case_nodes(case):
    out = []
    for c in case.children:
        if isinstance(c, Choice):
            for k in c.children:
                out += case_nodes(k)
        else:
            out.append(c)
    return out


# ---------------------------------------------------------------- model operations
def set_leaf(m, c, form=None):
    m.set, m.val, m.form = True, c, form
    touch(m)


def set_leaflist(m, cs):
    out = []
    for c in cs:
        if c not in out:
            out.append(c)
    m.vals = out
    m.set = True
    touch(m)


def add_entry(m, key, form=None):
    e = MTree(m.node, m)
    m.entries[key] = e
    m.forms[key] = form
    for kn, c in zip(m.node.keys, key):
        e.kids[kn].set, e.kids[kn].val = True, c
    touch(e)
    return e


def new_keyless(m):
    m.serial += 1
    e = MTree(m.node, m)
    m.entries[m.serial] = e
    # adding an entry marks the list, not (yet) the entry
    touch(m)
    return e


# ---------------------------------------------------------------- snapshots
def snap(m):
    """model -> comparable structure"""
    if isinstance(m, MLeaf):
        return ("leaf", m.set, m.val if m.set else None)
    if isinstance(m, MLeafList):
        return ("leaf-list", m.set, list(m.vals))
    if isinstance(m, MList):
        return ("list", m.changed, [(k if m.node.keys else None, snap(e)) for k, e in m.entries.items()])
    return ("tree", m.changed, m.present, OrderedDict((k, snap(v)) for k, v in m.kids.items()))


class Mismatch(Exception):
    pass


_names = {}


def attrs(o):
    """YANG name -> attribute name, as an object itself tells"""
    key = o._pyangbind_elements
    r = _names.get(id(key))
    if r is None or r[0] is not key:
        m = OrderedDict()
        for a in o.elements():
            m[getattr(o, a).yang_name()] = a
        _names[id(key)] = r = (key, m)
        if len(_names) > 5000:
            _names.clear()
    return r[1]


def child(o, name):
    a = attrs(o).get(name)
    if a is None:
        raise Mismatch("%r has no element for the YANG node %r (it has %s)" % (type(o).__name__, name, list(attrs(o))))
    return getattr(o, a)


def setter(o, name):
    return getattr(o, "_set_%s" % attrs(o)[name])


def unsetter(o, name):
    return getattr(o, "_unset_%s" % attrs(o)[name])


def read_leaf(node, o):
    return node.type.read(o)


def observe(node, o):
    """live bindings -> the same structure as snap()"""
    if isinstance(node, LeafList):
        return ("leaf-list", bool(o._changed()), [node.type.read(i) for i in o])
    if isinstance(node, Leaf):
        ch = bool(o._changed())
        return ("leaf", ch, node.type.read(o) if ch else None)
    if isinstance(node, List):
        ents = []
        for k in o:
            e = o[k]
            key = tuple(read_leaf(n, child(e, n.name)) for n in node.keynodes()) if node.keys else None
            ents.append((key, observe_tree(node, e)))
        if len(o) != len(ents):
            raise Mismatch("list %s has length %d but yields %d entries" % (node.name, len(o), len(ents)))
        return ("list", bool(o._changed()), ents)
    return observe_tree(node, o)


def observe_tree(node, o, root=False):
    kids = OrderedDict()
    for n in data_children(node):
        kids[n.name] = observe(n, child(o, n.name))
    ch = bool(o._changed()) if hasattr(o, "_changed") else None
    pr = bool(o._present()) if getattr(node, "presence", None) and hasattr(o, "_present") else False
    return ("tree", ch, pr, kids)


def diff(a, b, path="", flags=True):
    """first difference between an expected and an observed structure, or None.
    flags: compare the changed and present flags of inner nodes too"""
    if a[0] != b[0]:
        return "%s: expected a %s, found a %s" % (path, a[0], b[0])
    if a[0] in ("leaf", "leaf-list"):
        if a[1] != b[1]:
            return "%s: expected %s, found %s" % (path, "set to %r" % (a[2],) if a[1] else "unset", "set to %r" % (b[2],) if b[1] else "unset")
        if a[2] != b[2] or repr_types(a[2]) != repr_types(b[2]):
            return "%s: expected %r, found %r" % (path, a[2], b[2])
        return None
    if a[0] == "list":
        ka, kb = [k for k, _ in a[2]], [k for k, _ in b[2]]
        if ka != kb:
            return "%s: expected entries %r, found %r" % (path, ka, kb)
        if flags and a[1] is not None and b[1] is not None and a[1] != b[1]:
            return "%s: the list is expected to report changed=%s, reports %s" % (path, a[1], b[1])
        for (k, x), (_, y) in zip(a[2], b[2]):
            d = diff(x, y, "%s[%s]" % (path, ",".join(map(str, k)) if k else ""), flags)
            if d:
                return d
        return None
    if list(a[3]) != list(b[3]):
        return "%s: expected nodes %r, found %r" % (path, list(a[3]), list(b[3]))
    if flags and a[1] is not None and b[1] is not None and a[1] != b[1]:
        return "%s: expected to report changed=%s, reports %s" % (path, a[1], b[1])
    if flags and a[2] != b[2]:
        return "%s: expected to report present=%s, reports %s" % (path, a[2], b[2])
    for k in a[3]:
        d = diff(a[3][k], b[3][k], path + "/" + k, flags)
        if d:
            return d
    return None


def repr_types(v):
    if isinstance(v, (list, tuple)):
        return [repr_types(i) for i in v]
    return type(v).__name__


def only_set(s):
    """the structure without what is unset and without flags: what a document of set data holds"""
    if s[0] in ("leaf", "leaf-list"):
        # a leaf-list without values does not exist as far as documents go
        return s if s[1] and s[2] != [] else None
    if s[0] == "list":
        return ("list", None, [(k, only_set(e) or ("tree", None, False, OrderedDict())) for k, e in s[2]]) if s[2] else None
    kids = OrderedDict()
    for k, v in s[3].items():
        x = only_set(v)
        if x is not None:
            kids[k] = x
    if not kids and not s[2]:
        return None
    return ("tree", None, s[2], kids)
