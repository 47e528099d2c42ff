from mon import hist, model as M

TITLE = "A leaf-list holds distinct values of its type, in order"
RULE = ("A case is a schema of leaf-lists of every type, in containers, list entries and cases, and a history of 90 operations on "
        "them: appending, inserting, extending, assigning, popping, removing, deleting, clearing, and values outside the type or already "
        "held; after each one the values and their order are compared with the reference; distinct = distinct "
        "(operation, type, number of values).")
COUNT = (300, 2400)
NEED = ["operations", "lookups", "refused operations", "snapshots compared"]
ASSUMPTIONS = ["assigning to an index of a leaf-list inserts there (the test suite has it so), an appended value that is already held has no effect"]


def case(rng, rec, tier):
    s = hist.world(rng, rec, own=("state", "lookup", "refused", "accepted", "failed-op-effect", "wrong-error"),
                   gen=dict(leaflists=1.0, containers=0.2, lists=0.15, choices=0.1, depth=1, width=(3, 6), keyless=0.3),
                   ops=dict(ll=14, set=1, bad=4, unset=1.5, add=1.5, addbad=0, keyset=0, lookup=0.3))
    lls = s.nodes(M.MLeafList)
    if not lls:
        rec.skip("no leaf-list")
    # equality of what is held must be that of the values, whichever form they were given in
    for _ in range(9):
        for _ in range(10):
            s.step()
        m = s.pick(M.MLeafList)
        if m is None:
            continue
        l = s.live(m)
        if m.vals and m.node.type.kind != "union":
            c = rng.choice(m.vals)
            v = m.node.type.form(c, rng)
            if m.node.type.kind == "string" and not isinstance(v, str):
                continue
            how = rng.choice(["append", "extend"])
            s.do("%s %r, which it holds, to %s" % (how, v, s.name(m)), (lambda: l.append(v)) if how == "append" else (lambda: l.extend([v])))
            M.touch(m)
            m.set = True
            rec.seen("held", m.node.type.kind, how, len(m.vals), type(v).__name__)
            s.check()
    s.run(0)
