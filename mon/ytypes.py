"""Reference semantics of YANG types, written from RFC 6020/7950 and pyangbind's
documentation and independent of pyangbind's own code (patterns included: they are
matched by a small derivative-free set-of-positions matcher over an AST, not by the
regex engine under test).

A type knows how to write itself as YANG, which Python inputs it takes and to what
canonical value (`canon`), how to read a canonical value back from a live binding
object (`read`), and how a canonical value is encoded.
"""
import base64
from decimal import Decimal, ROUND_HALF_EVEN, InvalidOperation, localcontext


class Reject(Exception):
    pass


INTS = {
    "int8": (-(2**7), 2**7 - 1), "int16": (-(2**15), 2**15 - 1), "int32": (-(2**31), 2**31 - 1),
    "int64": (-(2**63), 2**63 - 1), "uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1),
    "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1),
}


class Typedef:
    def __init__(self, name, type_, default=None, module=None):
        self.name, self.type, self.default, self.module = name, type_, default, module


def q(s):
    """A YANG double-quoted string"""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


class Type:
    kind = None          # the YANG built-in type at the bottom
    parent = None        # the Typedef this is derived from, if any
    union_ok = True      # may be a member of a generated union
    key_ok = True
    typedef_ok = True

    def name(self, mod):
        """The name this type is referred to by in module `mod`"""
        if self.parent is None:
            return self.kind
        if self.parent.module is None or self.parent.module is mod or mod is None:
            return self.parent.name
        return "%s:%s" % (mod.prefix_of(self.parent.module), self.parent.name)

    def body(self, mod):
        return ""

    def decl(self, mod=None):
        b = self.body(mod)
        return "type %s%s" % (self.name(mod), " { %s }" % b if b else ";")

    def typedefs(self):
        out = []
        if self.parent is not None:
            out += self.parent.type.typedefs() + [self.parent]
        return out

    # -- values
    def canon(self, v):
        raise NotImplementedError

    def accepts(self, v):
        try:
            self.canon(v)
            return True
        except Reject:
            return False

    def forms(self, c, rng):
        """Python inputs that stand for the canonical value c"""
        return [c]

    def form(self, c, rng):
        return rng.choice(self.forms(c, rng))

    def good(self, rng):
        c = self.value(rng)
        return self.form(c, rng)

    def value(self, rng):
        """A canonical value of the type"""
        raise NotImplementedError

    def bad(self, rng):
        """A Python input the type must refuse, or None if there is none"""
        return None

    def read(self, o):
        raise NotImplementedError

    def lex(self, c):
        return str(c)

    def dflt(self, c):
        return c

    def ietf(self, c, mod=None):
        return self.dflt(c)

    def xml(self, c):
        return self.lex(c)

    def resolved(self):
        return self

    def origtype(self, mod=None):
        return self.name(mod)

    def basekind(self):
        return self.kind


# ---------------------------------------------------------------- intervals
def _subset(rng, ivs, pick, n=None):
    """A random list of disjoint ascending intervals, each within one of ivs. pick(lo, hi)
    draws a value."""
    out = []
    for lo, hi in ivs:
        if rng.random() < 0.35 and len(ivs) > 1:
            continue
        a = lo
        for _ in range(rng.choice([1, 1, 2, 3])):
            x, y = sorted((pick(a, hi), pick(a, hi)))
            if rng.random() < 0.25:
                y = x
            if rng.random() < 0.15:
                x = a
            if rng.random() < 0.15:
                y = hi
            out.append((x, y))
            nxt = rng_next(y)
            if nxt is None or nxt > hi:
                break
            a = nxt
            if a > hi:
                break
    if not out:
        lo, hi = rng.choice(ivs)
        x, y = sorted((pick(lo, hi), pick(lo, hi)))
        out = [(x, y)]
    # separate parts must not touch (kept simple for every YANG parser)
    res = [out[0]]
    for x, y in out[1:]:
        if x > res[-1][1]:
            res.append((x, y))
    return res


def anc_ranges(t):
    """pyang itself fails on min or max alone in a range of a type whose base has a range"""
    return any(d.type.ivs is not None for d in t.typedefs())


def lone(t):
    return any(p.strip() in ("min", "max") for d in t.typedefs() if d.type.text for p in d.type.text.split("|"))


def rng_next(y):
    return y + 2 if isinstance(y, int) else None


def _range_text(rng, ivs, whole, fmt=str, alone_ok=True):
    parts = []
    sp = rng.choice(["", "", " ", "\n  "])
    bar = rng.choice(["|", " | ", " |", "\n| ", "|\t"])
    for i, (x, y) in enumerate(ivs):
        if x == y:
            alone = fmt(x)
            if not alone_ok:
                pass    # pyang itself takes "length max" to be an error
            elif i == 0 and x == whole[0][0] and rng.random() < 0.4:
                alone = "min"
            elif i == len(ivs) - 1 and y == whole[-1][1] and rng.random() < 0.4:
                alone = "max"
            parts.append(alone)
            continue
        lo = "min" if i == 0 and x == whole[0][0] and rng.random() < 0.6 else fmt(x)
        hi = "max" if i == len(ivs) - 1 and y == whole[-1][1] and rng.random() < 0.6 else fmt(y)
        parts.append("%s%s..%s%s" % (lo, sp, sp, hi))
    return bar.join(parts)


class IntT(Type):
    def __init__(self, kind, parent=None, ivs=None, text=None):
        self.kind, self.parent, self.ivs, self.text = kind, parent, ivs, text

    def space(self):
        if self.ivs is not None:
            return self.ivs
        if self.parent is not None:
            return self.parent.type.space()
        return [INTS[self.kind]]

    @staticmethod
    def gen(rng, parent=None, restrict=None, kind=None):
        t = IntT(parent.type.kind if parent else (kind or rng.choice(list(INTS))), parent)
        whole = t.space()
        if not lone(t) and (restrict if restrict is not None else rng.random() < 0.6):

            def pick(lo, hi):
                if rng.random() < 0.5 and hi - lo > 40:
                    a = rng.choice([lo, max(lo, -3), max(lo, 0), max(lo, 1)])
                    a = min(a, hi)
                    return rng.randint(a, min(hi, a + 40))
                return rng.randint(lo, hi)

            t.ivs = _subset(rng, whole, pick)
            t.text = _range_text(rng, t.ivs, whole, alone_ok=not anc_ranges(t))
        return t

    def body(self, mod):
        return 'range "%s";' % self.text if self.text else ""

    def canon(self, v):
        if isinstance(v, bool):
            raise NotImplementedError
        if isinstance(v, int):
            n = v
        elif isinstance(v, str):
            try:
                n = int(v, 10)
            except ValueError:
                raise Reject
        elif isinstance(v, (float, Decimal)):
            if v != v or v in (float("inf"), float("-inf")) or int(v) != v:
                raise Reject
            n = int(v)
        else:
            raise Reject
        if any(lo <= n <= hi for lo, hi in self.space()):
            return n
        raise Reject

    def value(self, rng):
        lo, hi = rng.choice(self.space())
        r = rng.random()
        if r < 0.3:
            return lo
        if r < 0.6:
            return hi
        return rng.randint(lo, hi)

    def forms(self, c, rng):
        return [c, c, str(c)]

    def bad(self, rng):
        for _ in range(50):
            r = rng.random()
            if r < 0.6:
                lo, hi = rng.choice(self.space() + [INTS[self.kind]])
                v = rng.choice([lo - 1, hi + 1, lo - rng.randint(1, 10**6), hi + rng.randint(1, 10**30), 2**64, -(2**63) - 1])
                v = rng.choice([v, v, str(v)])
            else:
                v = rng.choice(["", "abc", "1.5", "0x1", None, 1.5, [], "1 2", "--1", float("inf"), float("nan")])
            if not self.accepts(v):
                return v
        return None

    def read(self, o):
        if not isinstance(o, int) or type(o).__name__ == "bool":
            raise TypeError("not an integer: %r" % (o,))
        return int(o)

    def ietf(self, c, mod=None):
        return str(c) if self.kind in ("int64", "uint64") else c


class DecT(Type):
    kind = "decimal64"

    def __init__(self, fd, parent=None, ivs=None, text=None):
        self.fd, self.parent, self.ivs, self.text = fd, parent, ivs, text

    def scale(self, n):
        return Decimal(n).scaleb(-self.fd)

    def space(self):
        """intervals of scaled integers"""
        if self.ivs is not None:
            return self.ivs
        if self.parent is not None:
            return self.parent.type.space()
        return [(-(2**63), 2**63 - 1)]

    @staticmethod
    def gen(rng, parent=None, restrict=None, fd=None):
        t = DecT(parent.type.fd if parent else (fd or rng.choice([1, 1, 2, 2, 3, 4, 6, 9, 12, rng.randint(13, 18)])), parent)
        whole = t.space()
        if not lone(t) and (restrict if restrict is not None else rng.random() < 0.5):

            def pick(lo, hi):
                m = 10**t.fd
                a = max(lo, min(hi, rng.randint(-20 * m, 20 * m)))
                if rng.random() < 0.4:
                    a = a // m * m
                    a = max(lo, min(hi, a))
                return a

            t.ivs = _subset(rng, whole, pick)
            t.text = _range_text(rng, t.ivs, whole, fmt=t.fmt, alone_ok=not anc_ranges(t))
        return t

    def fmt(self, n):
        s = format(self.scale(n), "f")
        if "." in s:
            s = s.rstrip("0")
            s = s + "0" if s.endswith(".") else s
        return s

    def body(self, mod):
        b = "" if self.parent else "fraction-digits %d;" % self.fd
        if self.text:
            b += ' range "%s";' % self.text
        return b.strip()

    def canon(self, v):
        if isinstance(v, (bool, type(None), list, dict)):
            raise Reject
        try:
            with localcontext() as c:
                c.prec = 80
                d = Decimal(v)
                if not d.is_finite():
                    raise Reject
                n = int(d.scaleb(self.fd).to_integral_value(rounding=ROUND_HALF_EVEN))
        except (InvalidOperation, ValueError, TypeError):
            raise Reject
        if any(lo <= n <= hi for lo, hi in self.space()):
            return n
        raise Reject

    def value(self, rng):
        lo, hi = rng.choice(self.space())
        r = rng.random()
        if r < 0.25:
            return lo
        if r < 0.5:
            return hi
        if r < 0.9:
            m = 10**self.fd
            n = rng.randint(-30 * m, 30 * m)
            if lo <= n <= hi:
                return n
            return rng.randint(max(lo, min(hi, -(10**15))), min(hi, max(lo, 10**15)))
        return rng.randint(lo, hi)

    def forms(self, c, rng):
        d = self.scale(c)
        return [d, format(d, "f"), self.fmt(c)]

    def bad(self, rng):
        for _ in range(50):
            if rng.random() < 0.6:
                lo, hi = rng.choice(self.space())
                n = rng.choice([lo - 1, hi + 1, lo - 10**self.fd, hi + 10**self.fd, 2**63, -(2**63) - 1, 10**25])
                v = rng.choice([self.scale(n), format(self.scale(n), "f")])
            else:
                v = rng.choice(["", "abc", "NaN", "inf", float("nan"), float("inf"), "1.2.3", "-", "1,5", None, []])
            if not self.accepts(v):
                return v
        return None

    def read(self, o):
        if not isinstance(o, Decimal):
            raise TypeError("not a Decimal: %r" % (o,))
        with localcontext() as c:
            c.prec = 80
            n = Decimal(o).scaleb(self.fd)
            if n != n.to_integral_value():
                raise TypeError("more fraction digits than allowed: %r" % (o,))
            return int(n)

    def lex(self, c):
        return self.fmt(c) if "." in self.fmt(c) else self.fmt(c) + ".0"

    def dflt(self, c):
        return float(self.scale(c))

    def ietf(self, c, mod=None):
        return self.lex(c)

    def exact_float(self, c):
        return self.canon(float(self.scale(c))) == c if self.accepts(float(self.scale(c))) else False


# ---------------------------------------------------------------- patterns
class Re:
    """Regular expressions over characters, with membership by sets of positions."""

    def ends(self, s, i):
        raise NotImplementedError

    def match(self, s):
        return len(s) in self.ends(s, 0)


class Chars(Re):
    def __init__(self, chars, text):
        self.chars, self.text = chars, text

    def ends(self, s, i):
        return {i + 1} if i < len(s) and s[i] in self.chars else set()

    def sample(self, rng):
        return rng.choice(sorted(self.chars))

    def xsd(self):
        return self.text


class NotChars(Re):
    def __init__(self, chars, text, sampling):
        self.chars, self.text, self.sampling = chars, text, sampling

    def ends(self, s, i):
        return {i + 1} if i < len(s) and s[i] not in self.chars else set()

    def sample(self, rng):
        return rng.choice([c for c in self.sampling if c not in self.chars])

    def xsd(self):
        return self.text


class Seq(Re):
    def __init__(self, parts):
        self.parts = parts

    def ends(self, s, i):
        cur = {i}
        for p in self.parts:
            cur = set().union(*(p.ends(s, j) for j in cur)) if cur else set()
        return cur

    def sample(self, rng):
        return "".join(p.sample(rng) for p in self.parts)

    def xsd(self):
        return "".join("(%s)" % p.xsd() if isinstance(p, Alt) else p.xsd() for p in self.parts)


class Alt(Re):
    def __init__(self, alts):
        self.alts = alts

    def ends(self, s, i):
        return set().union(*(a.ends(s, i) for a in self.alts))

    def sample(self, rng):
        return rng.choice(self.alts).sample(rng)

    def xsd(self):
        return "|".join(a.xsd() for a in self.alts)


class Rep(Re):
    def __init__(self, r, lo, hi, text):
        self.r, self.lo, self.hi, self.text = r, lo, hi, text

    def ends(self, s, i):
        res = set()
        cur = {i}
        n = 0
        seen = set()
        while cur:
            if n >= self.lo:
                res |= cur
            if self.hi is not None and n >= self.hi:
                break
            key = (frozenset(cur), min(n, self.lo))
            if key in seen:
                break
            seen.add(key)
            cur = set().union(*(self.r.ends(s, j) for j in cur))
            n += 1
        return res

    def sample(self, rng):
        hi = self.lo + 3 if self.hi is None else self.hi
        return "".join(self.r.sample(rng) for _ in range(rng.randint(self.lo, max(self.lo, min(hi, self.lo + 3)))))

    def xsd(self):
        x = self.r.xsd()
        if not isinstance(self.r, (Chars, NotChars)):
            x = "(%s)" % x
        return x + self.text


ALPHA = "abcXYZ012-_.:/ "


def gen_re(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < 0.3:
        k = rng.random()
        if k < 0.45:
            c = rng.choice("abcXYZ012_-:/")
            return Chars({c}, c)
        if k < 0.55:
            return Chars({"."}, "\\.")
        if k < 0.62:
            return Chars(set("0123456789"), rng.choice(["\\d", "[0-9]"]))
        if k < 0.67:
            return NotChars({"\n", "\r"}, ".", ALPHA)
        if k < 0.72:
            return Chars({"$"}, "$") if rng.random() < 0.3 else Chars({"+"}, "\\+")
        if k < 0.9:
            opts = [("abc", "[a-c]"), ("012", "[0-2]"), ("XYZ012", "[X-Z0-2]"), ("abc-", "[a-c\\-]"), ("a.b", "[a.b]")]
            s, t = rng.choice(opts)
            return Chars(set(s), t)
        return NotChars(set("abc"), "[^a-c]", ALPHA)
    if r < 0.65:
        return Seq([gen_re(rng, depth - 1) for _ in range(rng.choice([2, 2, 3]))])
    if r < 0.8:
        return Alt([gen_re(rng, depth - 1) for _ in range(rng.choice([2, 2, 3]))])
    # what is repeated is kept simple, so that no engine needs exponential time
    body = gen_re(rng, 0)
    if rng.random() < 0.4:
        body = Seq([body, gen_re(rng, 0)])
    elif rng.random() < 0.3:
        body = Alt([body, gen_re(rng, 0)])
        lo, hi, t = rng.choice([(0, 1, "?"), (2, 2, "{2}"), (1, 3, "{1,3}"), (0, 4, "{0,4}")])
        return Rep(body, lo, hi, t)
    lo, hi, t = rng.choice([(0, None, "*"), (1, None, "+"), (0, 1, "?"), (2, 2, "{2}"), (1, 3, "{1,3}"), (2, None, "{2,}"), (0, 4, "{0,4}")])
    return Rep(body, lo, hi, t)



TEXTS = ["", " ", "a", "abc", "hello world", "007", "true", "None", "a,b", "x\ny", "tab\there", "caf\u00e9", "\u65e5\u672c",
         "quote\"s", "it's", "back\\slash", "<tag>&amp;", "-1", "1.50", "a:b", "[x]", "a/b", "{}", "%s", " lead", "trail ",
         "null", "[]", "\U0001f600", "a" * 40, "0", "False", "1e5", "__yang_order", "@attr"]


class StrT(Type):
    kind = "string"

    def __init__(self, parent=None, lens=None, ltext=None, pats=()):
        self.parent, self.lens, self.ltext, self.pats = parent, lens, ltext, list(pats)
        self.pool = None

    def layers(self):
        return (self.parent.type.layers() if self.parent else []) + [(self.lens, self.pats)]

    def lenspace(self):
        if self.lens is not None:
            return self.lens
        if self.parent is not None:
            return self.parent.type.lenspace()
        return [(0, 2**63)]

    def restricted(self):
        return any(l is not None or p for l, p in self.layers())

    @staticmethod
    def gen(rng, parent=None, restrict=None, patterns=True):
        for _ in range(60):
            t = StrT(parent)
            if restrict if restrict is not None else rng.random() < 0.6:
                what = rng.choice(["len", "pat", "both", "pats"]) if patterns else "len"
                if what in ("len", "both"):
                    whole = t.lenspace()

                    def pick(lo, hi):
                        return rng.randint(lo, min(hi, max(lo, 9)))

                    t.lens = _subset(rng, whole, pick)
                    t.ltext = _range_text(rng, t.lens, whole, alone_ok=False)
                if what in ("pat", "both"):
                    t.pats = [gen_re(rng)]
                if what == "pats":
                    t.pats = [gen_re(rng) for _ in range(2)]
                if any(bad_pattern(p.xsd()) for p in t.pats):
                    continue
            t.build_pool(rng)
            if t.pool[0]:
                return t
        return StrT(parent).built(rng)

    def built(self, rng):
        self.build_pool(rng)
        return self

    def build_pool(self, rng):
        cands = set()
        pats = [p for _, ps in self.layers() for p in ps]
        for p in pats:
            for _ in range(25):
                s = p.sample(rng)
                if len(s) > 60:
                    continue
                cands.add(s)
                cands.add(mutate(rng, s))
                cands.add(s + rng.choice(ALPHA))
                cands.add(rng.choice(ALPHA) + s)
                cands.add(s + "\n")
                cands.add(s.upper())
                cands.add(s + s)
        for _ in range(10):
            cands.add("".join(rng.choice(ALPHA + "def") for _ in range(rng.randint(0, 10))))
        for lo, hi in self.lenspace():
            for n in (lo - 1, lo, lo + 1, hi - 1, hi, hi + 1):
                if 0 <= n <= 30:
                    cands.add("".join(rng.choice("abcXYZ\u00e9") for _ in range(n)))
        cands.update(TEXTS)
        cands = sorted(c for c in cands if len(c) <= 80)
        good, bad = [], []
        for c in cands:
            (good if self.accepts(c) else bad).append(c)
        self.pool = (good, bad)

    def body(self, mod):
        b = []
        if self.ltext:
            b.append('length "%s";' % self.ltext)
        for p in self.pats:
            b.append("pattern %s;" % q(p.xsd()))
        return " ".join(b)

    def canon(self, v):
        if not isinstance(v, str):
            raise NotImplementedError
        for lens, pats in self.layers():
            if lens is not None and not any(lo <= len(v) <= hi for lo, hi in lens):
                raise Reject
            for p in pats:
                if not p.match(v):
                    raise Reject
        return str(v)

    def value(self, rng):
        if not self.restricted():
            return rng.choice(TEXTS) if rng.random() < 0.5 else rng.choice(self.pool[0])
        return rng.choice(self.pool[0])

    def bad(self, rng):
        return rng.choice(self.pool[1]) if self.pool[1] else None

    def read(self, o):
        if not isinstance(o, str):
            raise TypeError("not a string: %r" % (o,))
        return str.__str__(o)


class RefT(StrT):
    """a leafref to an unrestricted string leaf, that need not be there: without a path helper it is plain text"""
    union_ok = key_ok = False

    def __init__(self, path):
        super().__init__()
        self.path = path
        self.pool = ([], [])

    def name(self, mod):
        return "leafref"

    def body(self, mod):
        return "path %s; require-instance false;" % q(self.path)

    def value(self, rng):
        return rng.choice(["a", "b", "x y", "10", "\u00e9", "q'r"])

    def read(self, o):
        return str(o)


def bad_pattern(x):
    # shapes this harness leaves out: see DESIGN.md (leading ^ / trailing $ are vendor anchors to pyangbind)
    return x == "" or x[0] == "^" or x[-1] in "$\\" or "\\$" in x


def mutate(rng, s):
    if not s:
        return rng.choice(ALPHA)
    i = rng.randrange(len(s))
    k = rng.random()
    if k < 0.4:
        return s[:i] + s[i + 1:]
    if k < 0.8:
        return s[:i] + rng.choice(ALPHA) + s[i + 1:]
    return s[:i] + rng.choice(ALPHA) + s[i:]


ENUMS = ["one", "two", "three", "ONE", "a b", "x.y", "10", "-5", "up", "down", "off", "none", "True", "a:b", "default", "1.0", "z/y", "caf\u00e9", "@at"]


def any_sub(td):
    return td.type.sub or any(d.type.sub for d in td.type.typedefs())


class EnumT(Type):
    kind = "enumeration"
    sub = False

    def __init__(self, members, parent=None):
        self.members, self.parent = members, parent

    @staticmethod
    def gen(rng, parent=None, **k):
        if parent:
            mem = parent.type.members
            sub = len(mem) > 1 and rng.random() < 0.35
            if sub:
                # restricted to some of them, whose values stay what they are
                # the numbers are restated for all or for none (pyang counts anew where they are not)
                again = rng.random() < 0.4 and not any_sub(parent) and all(val >= 0 for _, _, val in mem)
                mem = [(n, val if again else None, val) for n, v, val in mem if rng.random() < 0.6] or [(mem[-1][0], None, mem[-1][2])]
            t = EnumT(mem, parent)
            t.sub = sub
            return t
        names = rng.sample(ENUMS, rng.randint(2, 6))
        mem, cur, used, pn, pyused = [], None, set(), 0, set()
        for n in names:
            v = None
            if rng.random() < 0.4:
                for _ in range(10):
                    v = rng.choice([rng.randint(-5, 30), rng.randint(-(2**31), 2**31 - 2)])
                    if v not in used:
                        break
                else:
                    v = None
                if v in used:
                    v = None
            if v in pyused:
                v = None
            val = v if v is not None else (0 if cur is None else cur + 1)
            # pyang itself numbers from 0 after a negative value, and refuses what then collides
            pv = v if v is not None else pn
            pn = max(pn, pv + 1)
            if v is None and pv in used:
                break
            pyused.add(pv)
            used.add(val)
            cur = val if cur is None else max(cur, val)
            if cur >= 2**31 - 2:
                # the next automatic value would not exist
                mem.append((n, v, val))
                break
            mem.append((n, v, val))
        return EnumT(mem)

    def body(self, mod):
        if self.parent and not self.sub:
            return ""
        return " ".join("enum %s%s" % (q(n), " { value %d; }" % v if v is not None else ";") for n, v, _ in self.members)

    def names(self):
        return [n for n, _, _ in self.members]

    def canon(self, v):
        if not isinstance(v, str):
            raise Reject
        if v in self.names():
            return str(v)
        raise Reject

    def intval(self, c):
        return [val for n, _, val in self.members if n == c][0]

    def value(self, rng):
        return rng.choice(self.names())

    def bad(self, rng):
        for _ in range(20):
            n = rng.choice(self.names())
            v = rng.choice([rng.choice(self.parent.type.names()) if self.parent else n, n + " ", " " + n, n.upper(), n[:-1], n + n, "", "nosuch", n.swapcase(), n + "\n", rng.choice(ENUMS),
                            None, 99, str(rng.choice(self.members)[2])])
            if not self.accepts(v):
                return v

    read = StrT.read


class IdentityT(Type):
    kind = "identityref"
    union_ok = False       # see DESIGN.md

    def __init__(self, base, refname, parent=None):
        # base: Identity; refname: how this module refers to it
        self.base, self.refname, self.parent = base, refname, parent

    def body(self, mod):
        return "" if self.parent else "base %s;" % self.refname

    def derived(self):
        return self.base.derived()

    def names(self, mod=None):
        """text that is one identity of them -> Identity; text that could be several is in .unclear, and left out"""
        if self._names is None or self._names[0] != len(self.derived()):
            out = {}
            for i in self.derived():
                for t in [i.name] + ["%s:%s" % (p, i.name) for p in i.prefixes()]:
                    if i not in out.setdefault(t, []):
                        out[t].append(i)
            self._names = len(self.derived()), {t: l[0] for t, l in out.items() if len(l) == 1}
            self.unclear = {t for t, l in out.items() if len(l) > 1}
        return self._names[1]

    _names = None
    unclear = ()

    def text(self, i):
        """how an identity is named here: by its name alone where no other has it"""
        return i.name if self.names().get(i.name) is i else "%s:%s" % (i.module.name, i.name)

    def canon(self, v):
        if not isinstance(v, str):
            raise Reject
        i = self.names().get(v)
        if i is None:
            raise Reject
        return self.text(i)

    def ident(self, c):
        return self.names()[c]

    def value(self, rng):
        return self.text(rng.choice(sorted(self.derived(), key=lambda i: (i.name, i.module.name))))

    def forms(self, c, rng):
        i = self.names()[c]
        return [c, c] + sorted(k for k, v in self.names().items() if v is i)

    def bad(self, rng):
        for _ in range(20):
            n = rng.choice(sorted(self.names()))
            v = rng.choice([self.base.name, n + "x", n.upper(), "nosuch", "bogus:" + n.split(":")[-1], "", n + " "] + self.base.others)
            if not self.accepts(v) and v not in self.unclear:
                return v

    def read(self, o):
        if not isinstance(o, str):
            raise TypeError("not a string: %r" % (o,))
        v = str.__str__(o)
        i = self.names().get(v)
        if i is None and v in self.unclear:
            raise TypeError("%r could be several identities" % v)
        return self.text(i) if i is not None else v.split(":")[-1]

    def dflt(self, c):
        from .encode import Ident
        return Ident(c, self)

    def ietf(self, c, mod=None):
        i = self.ident(c)
        return i.name if mod is not None and i.module is mod else "%s:%s" % (i.module.name, i.name)


class BitsT(Type):
    kind = "bits"
    key_ok = False
    sub = False

    def __init__(self, bits, parent=None):
        self.bits, self.parent = bits, parent  # [(name, explicit pos or None, pos)]

    @staticmethod
    def gen(rng, parent=None, **k):
        if parent:
            bits = parent.type.bits
            sub = len(bits) > 1 and rng.random() < 0.35
            if sub:
                again = rng.random() < 0.4 and not any_sub(parent)
                bits = [(n, pos if again else None, pos) for n, p, pos in bits if rng.random() < 0.6] or [(bits[-1][0], None, bits[-1][2])]
            t = BitsT(bits, parent)
            t.sub = sub
            return t
        names = rng.sample(["alpha", "beta", "gamma", "delta", "eps", "b-x", "b.y", "Z"], rng.randint(2, 6))
        out, used = [], set()
        for n in names:
            p = None
            if rng.random() < 0.5:
                p = rng.randint(0, 70)
                if p in used:
                    p = None
            pos = p if p is not None else max(used, default=-1) + 1
            used.add(pos)
            out.append((n, p, pos))
        return BitsT(out)

    def body(self, mod):
        if self.parent and not self.sub:
            return ""
        return " ".join("bit %s%s" % (n, " { position %d; }" % p if p is not None else ";") for n, p, _ in self.bits)

    def names(self):
        return [n for n, _, _ in self.bits]

    def order(self, c):
        return [n for n, _, pos in sorted(self.bits, key=lambda b: b[2]) if n in c]

    def canon(self, v):
        if isinstance(v, str):
            v = v.split()
        elif not isinstance(v, (set, frozenset, list, tuple)):
            raise Reject
        for b in v:
            if b not in self.names():
                raise Reject
        return frozenset(v)

    def value(self, rng):
        return frozenset(rng.sample(self.names(), rng.randint(0, len(self.names()))))

    def forms(self, c, rng):
        l = sorted(c)
        rng.shuffle(l)
        return [" ".join(l), set(l), l, tuple(l), self.lex(c)]

    def bad(self, rng):
        n = rng.choice(self.names())
        if self.parent and rng.random() < 0.3:
            gone = [x for x in self.parent.type.names() if x not in self.names()]
            if gone:
                return rng.choice([gone[0], [n, gone[-1]], {gone[0]}])
        return rng.choice(["nosuch", n + " nosuch", {n, "nosuch"}, [n, n.swapcase() + "x"], n + "," + n, 7, None, [1]])

    def read(self, o):
        if not isinstance(o, (set, frozenset)):
            raise TypeError("not a set: %r" % (o,))
        return frozenset(str(i) for i in o)

    def lex(self, c):
        return " ".join(self.order(c))

    def dflt(self, c):
        return self.lex(c)


class BoolT(Type):
    kind = "boolean"

    def __init__(self, parent=None):
        self.parent = parent

    @staticmethod
    def gen(rng, parent=None, **k):
        return BoolT(parent)

    def canon(self, v):
        if isinstance(v, str):
            if v in ("true", "True", "1"):
                return True
            if v in ("false", "False", "0"):
                return False
            raise Reject
        if isinstance(v, (bool, int)) and v in (0, 1):
            return bool(v)
        raise Reject

    def value(self, rng):
        return rng.random() < 0.5

    def forms(self, c, rng):
        return [c, c, "true" if c else "false"]

    def bad(self, rng):
        return rng.choice(["yes", "no", "", "TRUE", "tru", 2, -1, None, "2", [], "on", "t", "false "])

    def read(self, o):
        if not isinstance(o, int) or int(o) not in (0, 1):
            raise TypeError("not a boolean: %r" % (o,))
        return bool(int(o))

    def lex(self, c):
        return "true" if c else "false"


class EmptyT(Type):
    kind = "empty"
    key_ok = union_ok = False

    def __init__(self, parent=None):
        self.parent = parent

    @staticmethod
    def gen(rng, parent=None, **k):
        return EmptyT(parent)

    def canon(self, v):
        if v is True or v == "true":
            return True
        raise Reject

    def value(self, rng):
        return True

    def bad(self, rng):
        return rng.choice(["yes", "", 2, None, "null", []])

    read = BoolT.read

    def ietf(self, c, mod=None):
        return [None]

    def xml(self, c):
        return None


class BinT(Type):
    kind = "binary"
    key_ok = union_ok = False

    def __init__(self, parent=None, lens=None, ltext=None):
        self.parent, self.lens, self.ltext = parent, lens, ltext

    def lenspace(self):
        if self.lens is not None:
            return self.lens
        if self.parent is not None:
            return self.parent.type.lenspace()
        return [(0, 2**63)]

    def layers(self):
        return (self.parent.type.layers() if self.parent else []) + [self.lens]

    @staticmethod
    def gen(rng, parent=None, restrict=None, **k):
        t = BinT(parent)
        if restrict if restrict is not None else rng.random() < 0.5:
            whole = t.lenspace()
            t.lens = _subset(rng, whole, lambda lo, hi: rng.randint(lo, min(hi, max(lo, 12))))
            t.ltext = _range_text(rng, t.lens, whole, alone_ok=False)
        return t

    def body(self, mod):
        return 'length "%s";' % self.ltext if self.ltext else ""

    def canon(self, v):
        if isinstance(v, str):
            try:
                v = base64.b64decode(v)
            except Exception:
                raise Reject
        elif not isinstance(v, bytes):
            raise Reject
        if all(l is None or any(lo <= len(v) <= hi for lo, hi in l) for l in self.layers()):
            return bytes(v)
        raise Reject

    def value(self, rng):
        lo, hi = rng.choice(self.lenspace())
        n = rng.choice([lo, min(hi, lo + 40), rng.randint(lo, min(hi, lo + 20))])
        return bytes(rng.randrange(256) for _ in range(n))

    def forms(self, c, rng):
        return [c, base64.b64encode(c).decode()]

    def bad(self, rng):
        for _ in range(30):
            lo, hi = rng.choice(self.lenspace())
            n = rng.choice([lo - 1, hi + 1])
            if 0 <= n < 2000:
                v = bytes(rng.randrange(256) for _ in range(n))
                v = rng.choice([v, base64.b64encode(v).decode()])
            else:
                v = rng.choice([5, None, [1], "a", 1.5, "abcde"])
            if not self.accepts(v):
                return v

    def read(self, o):
        if not isinstance(o, bytes):
            raise TypeError("not bytes: %r" % (o,))
        return bytes(o)

    def lex(self, c):
        return base64.b64encode(c).decode()

    def dflt(self, c):
        return self.lex(c)


class UnionT(Type):
    kind = "union"
    key_ok = False
    union_ok = False

    def __init__(self, members, parent=None):
        self.members, self.parent = members, parent

    @staticmethod
    def gen(rng, parent=None, pool=None, **k):
        if parent:
            return UnionT(parent.type.members, parent)
        ms = []
        for _ in range(rng.randint(2, 4)):
            c = rng.choice([IntT, IntT, StrT, StrT, EnumT, DecT, BoolT, BitsT])
            t = c.gen(rng, restrict=True) if c is StrT and rng.random() < 0.8 else c.gen(rng)
            if rng.random() < 0.3:
                t = c.gen(rng, parent=Typedef("ut%d" % rng.randrange(10**6), t))
            ms.append(t)
        # an integer type takes Python booleans, so a boolean after one cannot be reached from JSON
        seen_int = False
        out = []
        for m in ms:
            if m.kind == "boolean" and seen_int:
                continue
            seen_int = seen_int or m.kind in INTS or m.kind == "decimal64"
            out.append(m)
        if len(out) < 2:
            out.append(EnumT.gen(rng))
        return UnionT(out)

    def body(self, mod):
        return "" if self.parent else " ".join(m.decl(mod) for m in self.members)

    def typedefs(self):
        out = []
        for m in self.members:
            out += m.typedefs()
        return out + (self.parent.type.typedefs() + [self.parent] if self.parent else [])

    @staticmethod
    def tag(m):
        return "int" if m.kind in INTS else {"decimal64": "dec", "boolean": "bool", "bits": "bits"}.get(m.kind, "str")

    def canon(self, v):
        """input: text only (every member reads text)"""
        if not isinstance(v, str):
            raise NotImplementedError
        for m in self.members:
            try:
                c = m.canon(v)
            except Reject:
                continue
            t = self.tag(m)
            return (t, m.scale(c).normalize() if t == "dec" else c)
        raise Reject

    def member(self, c):
        """the member a canonical value belongs to"""
        tag, v = c
        for m in self.members:
            if self.tag(m) == tag:
                try:
                    m.canon(self.mlex(m, c))
                    return m
                except Reject:
                    pass
        raise Reject

    def mlex(self, m, c):
        tag, v = c
        if tag == "dec":
            return format(v, "f")
        return m.lex(v)

    def lex(self, c):
        m = self.member(c)
        return m.lex(m.canon(self.mlex(m, c)))

    def mval(self, c):
        m = self.member(c)
        return m, m.canon(self.mlex(m, c))

    def dflt(self, c):
        m, v = self.mval(c)
        return m.dflt(v)

    def ietf(self, c, mod=None):
        m, v = self.mval(c)
        return m.ietf(v, mod)

    def stable(self, v):
        """whether the value stays what it is when written in its canonical form, as JSON or as text"""
        c = self.canon(v)
        try:
            m, x = self.mval(c)
        except Reject:
            return False
        texts = [self.lex(c), str(m.dflt(x)), str(m.ietf(x))]
        if c[0] == "dec":
            if not m.exact_float(x):
                return False
            # as a JSON number, an integer type before it would take it
            for o in self.members[:self.members.index(m)]:
                if o.kind in INTS and o.accepts(m.dflt(x)) or o.kind == "boolean" and m.dflt(x) in (0, 1):
                    return False
        for t in texts:
            try:
                if self.canon(t) != c or self.member(self.canon(t)) is not m:
                    return False
            except Reject:
                return False
        return True

    def first(self, v):
        for i, m in enumerate(self.members):
            if m.accepts(v):
                return i

    def value(self, rng):
        for _ in range(100):
            m = rng.choice(self.members)
            v = m.form(m.value(rng), rng)
            if isinstance(v, str) and self.accepts(v):
                return v
        raise ValueError("empty union")

    def good(self, rng):
        return self.value(rng)

    def bad(self, rng):
        for _ in range(30):
            v = rng.choice(self.members).bad(rng)
            if isinstance(v, str) and not self.accepts(v):
                return v
        return None

    def read(self, o):
        if isinstance(o, Decimal):
            return ("dec", Decimal(o).normalize())
        if isinstance(o, (set, frozenset)):
            return ("bits", frozenset(str(i) for i in o))
        if isinstance(o, int):
            if any(k.__name__ == "YANGBool" for k in type(o).__mro__):
                return ("bool", bool(int(o)))
            return ("int", int(o))
        if isinstance(o, str):
            return ("str", str.__str__(o))
        raise TypeError("unexpected member of a union: %r" % (o,))


class KeyUnionT(UnionT):
    """a union that list keys are made of, as addresses and names are"""
    key_ok = True

    @staticmethod
    def gen(rng, parent=None, **k):
        if parent:
            return KeyUnionT(parent.type.members, parent)
        ms = [rng.choice([IntT, EnumT, StrT]).gen(rng) for _ in range(rng.randint(1, 2))]
        ms.append(rng.choice([StrT, EnumT]).gen(rng))
        return KeyUnionT(ms)

    def forms(self, c, rng):
        return [self.lex(c)]


CLASSES = {"string": StrT, "decimal64": DecT, "enumeration": EnumT, "bits": BitsT, "boolean": BoolT, "empty": EmptyT,
           "binary": BinT, "union": UnionT, "keyunion": KeyUnionT}


class AnyText:
    """strings without restrictions"""

    @staticmethod
    def gen(rng, parent=None):
        return StrT.gen(rng, parent, restrict=False)


CLASSES["text"] = AnyText
for _i in INTS:
    CLASSES[_i] = IntT


def gen_type(rng, kinds, depth=None, tdname=None, module=None):
    """A type of one of the kinds, behind a random chain of typedefs."""
    k = rng.choice(kinds)
    c = CLASSES[k]
    kw = {"kind": k} if c is IntT else {}
    t = c.gen(rng, **kw)
    depth = depth if depth is not None else rng.choice([0, 0, 0, 1, 1, 2, 3])
    if t.typedef_ok and tdname is not None:
        for _ in range(depth):
            t = c.gen(rng, parent=Typedef(tdname(), t, module=module))
    return t
