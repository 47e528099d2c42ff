from mon import ytypes as T
from mon.typecheck import Bench

TITLE = "Enumeration and bits nodes hold exactly the declared names"
RULE = ("A case is a module of random enumerations and bits types, with and without explicit values and positions, behind up to "
        "three typedefs, given 100 values by every route; the numbers of enum members and the order of bits are compared with "
        "RFC 7950's numbering; distinct = distinct (verdict, kind, route, value).")
COUNT = (800, 8000)
NEED = ["acceptances", "refusals", "enum values", "bits texts"]


def gen(rng, td):
    return T.gen_type(rng, ["enumeration", "bits"], tdname=td)


def case(rng, rec, tier):
    b = Bench(rng, rec, gen)
    b.run(100)
    for l in b.leaves:
        t = l.type
        for _ in range(6):
            c = t.value(rng)
            v = t.form(c, rng)
            setattr(b.c, l.name, v)
            o = getattr(b.c, l.name)
            if t.kind == "enumeration":
                rec.obs("enum values")
                if o.getValue(mapped=True) != t.intval(c):
                    b.bad("enum-value", t, "the value of %r is %r, expected %r" % (c, o.getValue(mapped=True), t.intval(c)))
                if o.getValue() != c:
                    b.bad("enum-value", t, "getValue() of %r is %r" % (c, o.getValue()))
            else:
                rec.obs("bits texts")
                if str(o) != t.lex(c):
                    b.bad("bits-text", t, "the text of %r is %r, expected %r" % (v, str(o), t.lex(c)))
                b.val[l.name] = c
                for _ in range(4):
                    bits(b, l, o, t, rng, rec)


def bits(b, l, o, t, rng, rec):
    """bits are sets that can be worked on in place"""
    held = set(b.val[l.name])
    n = rng.choice(t.names() + ["nosuch"])
    op = rng.choice(["add", "add", "discard", "remove", "clear"] if rng.random() < 0.9 else ["clear"])
    rec.obs("bits operations")
    if op == "clear" and rng.random() < 0.7:
        return
    want, exc = set(held), None
    if op == "add":
        want.add(n)
        exc = ValueError if n == "nosuch" else None
    elif op == "discard":
        want.discard(n)
    elif op == "remove":
        want.discard(n)
        exc = KeyError if n not in held else None
    else:
        want = set()
    if n == "nosuch" and op != "clear":
        exc = ValueError
    if exc:
        want = held
    err = None
    try:
        getattr(o, op)(*([] if op == "clear" else [n]))
    except Exception as e:
        err = e
    got = t.read(getattr(b.c, l.name))
    what = "%s(%r) on bits holding %r" % (op, n, sorted(held))
    if exc is not None and not isinstance(err, (exc, ValueError, KeyError)) or exc is None and err is not None:
        b.bad("bits-op", t, "%s: expected %s, got %r" % (what, exc.__name__ if exc else "success", err))
    if got != want:
        b.bad("bits-op", t, "%s: left %r, expected %r" % (what, sorted(got), sorted(want)))
    b.val[l.name] = frozenset(want)
