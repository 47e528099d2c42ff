from mon import hist, model as M
from mon.schema import Leaf, LeafList, data_children
from mon.ytypes import RefT, StrT

TITLE = "At most one case of a choice holds data"
RULE = ("A case is a schema rich in choices (nested, of leaves, containers, lists and leaf-lists, inside containers and list entries) and "
        "a history of 80 operations; after each one the tree is compared with the reference, in which setting anything in "
        "a case unsets all of the other cases, and no other node; distinct = distinct (operation, kind of node, depth of choices).")
COUNT = (240, 2400)
NEED = ["operations", "snapshots compared", "cases exchanged", "references in cases"]


def case(rng, rec, tier):
    refs = rng.random() < 0.4

    def alter(m):
        if not refs:
            return
        n = Leaf("zztarget", StrT().built(rng))
        m.children.append(n)
        n.module = m.children[0].module
        for x in s_nodes(m):
            if isinstance(x, Leaf) and x.choice and not hist.is_key(x, m) and rng.random() < 0.4:
                x.type = RefT("/%s:zztarget" % m.prefix)
                x.default = None
                rec.obs("references in cases")

    s = hist.world(rng, rec, flags=["--presence"] + (["--use-xpathhelper"] if refs else []), alter=alter, own=("state", "refused", "changed", "failed-op-effect"),
                   gen=dict(choices=0.8, containers=0.25, lists=0.2, leaflists=0.2, depth=rng.choice([1, 2, 3]), keyless=0.15, width=(1, 3), maxnodes=45, kinds=hist.SIMPLE + ["union", "bits", "empty"]),
                   ops=dict(set=8, ll=3, add=4, bad=0.6, unset=0.7, unset_tree=0.4, lookup=0), key_filter=None)
    if not any(n.choice for n in s_nodes(s.schema)):
        rec.skip("no choice")
    for _ in range(80):
        before = [id(x) for x in chosen(s)]
        op = s.step()
        after = chosen(s)
        for x in after:
            if id(x) not in before:
                rec.obs("cases exchanged")
                rec.seen("case", op, len(x.node.choice), type(x.node).__name__, type(getattr(x.parent, "node", None)).__name__)
    s.run(0)


def s_nodes(root):
    for c in data_children(root):
        yield c
        yield from s_nodes(c)


def chosen(s):
    """the nodes in cases that hold data"""
    out = []
    for m in s.nodes():
        if getattr(m.node, "choice", None) and not M.is_entry(m):
            if m.set if isinstance(m, (M.MLeaf, M.MLeafList)) else bool(m.entries) if isinstance(m, M.MList) else m.changed:
                out.append(m)
    return out
