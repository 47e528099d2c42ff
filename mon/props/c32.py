from mon import hist, model as M

TITLE = "Copying a container, list or entry copies all its data and shares none of it"
RULE = ("A case is a random schema and two trees of it, each with a history of operations; containers, lists and entries of one are assigned, appended or "
        "put under a key in the other (or elsewhere in the same one), and both trees are compared with their reference trees after every "
        "operation, before and after more operations on each; distinct = distinct copied data.")
COUNT = (160, 2400)
NEED = ["operations", "copies", "snapshots compared"]


def case(rng, rec, tier):
    s = hist.world(rng, rec, gen=dict(depth=rng.choice([2, 3]), choices=0.25, lists=0.35), bad=False, value_filter=lambda t, v: t.kind != "union" or t.stable(v),
                   ops=dict(copy=6, set=8, lookup=0.5))
    s.run(60)
    if s.peer is None:
        rec.skip("nothing to copy")
