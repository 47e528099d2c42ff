from mon import hist

TITLE = "A refused operation changes nothing"
RULE = ("A case is a random schema and a history of 70 operations of which a third must be refused: values outside their type for "
        "leaves, leaf-lists and keys, duplicate and missing entries, assignments to keys and to nodes that do not exist; after "
        "each refusal the whole tree, its change and presence flags and the order of its entries are compared with what "
        "they were; distinct = distinct (operation, kind of node, value).")
COUNT = (220, 2400)
NEED = ["refused operations", "operations", "snapshots compared"]


def case(rng, rec, tier):
    s = hist.world(rng, rec, own=("failed-op-effect", "accepted", "wrong-error"), gen=dict(choices=0.35, multikey=0.4),
                   ops=dict(bad=6, addbad=3, keyset=1.5, unknown=1, add=5, lookup=0), every=3)
    s.run(70)
