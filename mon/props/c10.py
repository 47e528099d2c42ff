from mon import hist

TITLE = "A data tree holds exactly what its history of operations says"
RULE = ("A case is a random schema (containers, keyed and keyless lists, leaf-lists, choices, presence, config false) and a history "
        "of 80 operations; after each one every leaf, leaf-list, entry and their order is read back and compared "
        "with a reference tree; distinct = distinct (operation, kind of node, value).")
COUNT = (200, 2400)
NEED = ["operations", "snapshots compared"]


def case(rng, rec, tier):
    s = hist.world(rng, rec, own=("state", "refused", "failed-op-effect"), gen=dict(depth=rng.choice([2, 3]), choices=0.25), bad=rng.random() < 0.3,
                   ops=dict(copy=0.8, grow=0.1), value_filter=lambda t, v: t.kind != "union" or t.stable(v))
    s.run(80)
