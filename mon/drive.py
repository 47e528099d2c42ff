"""Histories: applies random operations to live bindings and to the reference tree side by side,
with a monitor comparing the two after each operation.

Mechanisms reported:
  refused            a legal operation was refused
  accepted           an operation that must be refused was carried out
  wrong-error        it was refused, but not with the documented exception
  failed-op-effect   a refused operation changed something
  state              the tree does not hold what the history says it should
  changed            change or presence flags disagree with the history
  lookup             a list or leaf-list answers wrongly about what it holds
"""
from . import model as M
from .core import Skip, Violation
from .model import attrs, child, setter, unsetter
from .schema import Leaf, LeafList, List


def pystr(t, c):
    """what str() of a live leaf of type t holding c gives: the text a key may be referred to by"""
    if t.kind == "boolean":
        return "True" if c else "False"
    if t.kind == "decimal64":
        return str(t.scale(c))
    return t.lex(c)


class Session:
    def __init__(self, rng, rec, schema, live, own=None, ops=None, flags=True, every=1, key_filter=None, bad=True, value_filter=None):
        self.rng, self.rec, self.schema, self.root = rng, rec, schema, live
        self.m = M.MTree(schema)
        self.own = own
        self.flags, self.every = flags, every
        self.hist = []
        self.n = 0
        self.key_filter = key_filter
        self.value_filter = value_filter
        self.allow_bad = bad
        self.weights = dict(set=6, bad=2, unset=1, ll=3, add=4, addbad=1, delete=1, unset_tree=0.6, keyset=0.5, present=1, lookup=1,
                            unknown=0.3, copy=0, grow=0)
        self.most = 6
        self.peer = None
        if ops:
            self.weights.update(ops)
        if not bad:
            for k in ("bad", "addbad", "keyset", "unknown"):
                self.weights[k] = 0

    # -- reporting
    def fail(self, mech, detail):
        d = "%s\n  after %d operations, the last ones:\n    %s" % (detail, len(self.hist), "\n    ".join(self.hist[-12:]))
        if self.own is not None and mech not in self.own:
            raise Skip("another property: %s" % mech)
        self.rec.bad(mech, d + "\n  schema:\n" + "".join(getattr(self, "texts", None) or [self.schema.text()]))

    # -- navigation
    def live(self, m):
        if m.parent is None:
            return self.root
        p = self.live(m.parent)
        if isinstance(m.parent, M.MList):
            return self.entry(m.parent, p, m)
        return child(p, m.node.name)

    def entry(self, ml, l, e):
        i = [k for k, v in ml.entries.items() if v is e][0]
        if not ml.node.keys:
            pos = list(ml.entries).index(i)
            return l[list(l)[pos]]
        return l[self.keytext(ml, i)]

    def keytext(self, ml, key):
        ts = [n.type for n in ml.node.keynodes()]
        parts = [pystr(t, c) for t, c in zip(ts, key)]
        return " ".join(parts)

    def name(self, m):
        if m.parent is None:
            return ""
        if isinstance(m.parent, M.MList):
            k = [k for k, v in m.parent.entries.items() if v is m][0]
            return "%s[%s]" % (self.name(m.parent), k)
        return "%s/%s" % (self.name(m.parent), m.node.name)

    def nodes(self, cls=None, pred=None):
        out = []

        def walk(m):
            if isinstance(m, M.MList):
                for e in m.entries.values():
                    out.append(e)
                    walk(e)
            elif isinstance(m, M.MTree):
                for k in m.kids.values():
                    out.append(k)
                    walk(k)

        walk(self.m)
        if cls:
            out = [m for m in out if isinstance(m, cls)]
        if pred:
            out = [m for m in out if pred(m)]
        return out

    def pick(self, cls, pred=None):
        l = self.nodes(cls, pred)
        return self.rng.choice(l) if l else None

    def is_key(self, m):
        return isinstance(m.parent.node, List) and m.node.name in m.parent.node.keys

    # -- the monitor
    def check(self, failed=None, before=None):
        self.n += 1
        if failed is None and self.n % self.every:
            return
        try:
            got = M.observe_tree(self.schema, self.root)
        except M.Mismatch as e:
            return self.fail("state", str(e))
        except (KeyError, TypeError, ValueError, AttributeError) as e:
            return self.fail("failed-op-effect" if failed else "state", "the tree cannot be read back: %s: %s" % (type(e).__name__, e))
        want = M.snap(self.m)
        self.rec.obs("snapshots compared")
        d = M.diff(want, got, flags=False)
        if d:
            self.fail("failed-op-effect" if failed else "state", d)
        if self.flags:
            d = M.diff(want, got, flags=True)
            if d:
                self.fail("failed-op-effect" if failed else "changed", d)

    def do(self, text, fn, refuse=None, kind="operations"):
        """refuse: the exceptions with which the operation must be refused, or None if it must be carried out"""
        self.hist.append(text)
        try:
            r = fn()
        except Exception as e:
            if refuse is None:
                import traceback
                self.fail("refused", "%s was refused: %s: %s\n%s" % (text, type(e).__name__, str(e)[:300], traceback.format_exc()[-900:]))
            if not isinstance(e, refuse):
                self.fail("wrong-error", "%s was refused with %s: %s, expected %s" % (text, type(e).__name__, str(e)[:300], refuse))
            self.rec.obs("refused operations")
            self.check(failed=True)
            return None
        if refuse is not None:
            self.fail("accepted", "%s was carried out, it must be refused" % text)
        self.rec.obs(kind)
        return r

    # -- operations
    def step(self):
        w = self.weights
        for _ in range(30):
            op = self.rng.choices(list(w), list(w.values()))[0]
            if getattr(self, "op_" + op)() is not False:
                return op
        return None

    def run(self, n):
        self.check()
        for _ in range(n):
            self.step()
        self.n = self.every - 1
        self.check()
        self.rec.seen("final", [str(type(x)) for x in self.nodes()], [h.split(" ")[0] for h in self.hist[-6:]])

    def tidy(self):
        """unsets leaf-lists that were set and hold nothing: documents may or may not show them"""
        for m in self.nodes(M.MLeafList, lambda m: m.set and not m.vals):
            unsetter(self.live(m.parent), m.node.name)()
            m.reset()

    def assign(self, m, v):
        o = self.live(m.parent)
        if getattr(m.node, "rw", True) and self.rng.random() < 0.8:
            return lambda: setattr(o, attrs(o)[m.node.name], v)
        return lambda: setter(o, m.node.name)(v)

    def value(self, t):
        for _ in range(20):
            v = t.good(self.rng)
            if self.value_filter is None or self.value_filter(t, v):
                return v
        raise Skip("no value")

    def llvalue(self, t):
        # an identity is told apart by how it is written where values are compared: see DESIGN.md
        v = self.value(t)
        return t.canon(v) if t.kind == "identityref" else v

    def op_set(self):
        m = self.pick(M.MLeaf, lambda m: not self.is_key(m))
        if m is None:
            return False
        v = self.value(m.node.type)
        c = m.node.type.canon(v)
        self.do("set %s = %r" % (self.name(m), v), self.assign(m, v))
        M.set_leaf(m, c)
        self.rec.seen("set", m.node.type.kind, v if len(repr(v)) < 40 else len(repr(v)))
        self.check()

    def op_bad(self):
        m = self.pick((M.MLeaf, M.MLeafList), lambda m: not (isinstance(m, M.MLeaf) and self.is_key(m)))
        if m is None:
            return False
        v = m.node.type.bad(self.rng)
        if m.node.type.kind == "string" and not isinstance(v, str):
            return False
        if v is None and m.node.type.kind in ("string", "union"):
            return False
        if isinstance(m, M.MLeafList):
            if isinstance(v, (list, tuple, set, dict)) or m.node.type.kind in ("boolean",) and v == []:
                return False
            l = self.live(m)
            k = self.rng.random()
            if k < 0.3:
                self.do("append %r to %s" % (v, self.name(m)), lambda: l.append(v), ValueError)
            elif k < 0.5:
                vs = [self.llvalue(m.node.type) for _ in range(self.rng.randint(0, 2))] + [v]
                self.do("extend %s with %r" % (self.name(m), vs), lambda: l.extend(vs), ValueError)
            elif k < 0.7:
                self.do("insert %r into %s" % (v, self.name(m)), lambda: l.insert(0, v), ValueError)
            else:
                vs = [(m.node.type.form(c, self.rng) if m.node.type.kind != "identityref" else c) for c in m.vals[:2]] + [v]
                self.do("set %s = %r" % (self.name(m), vs), self.assign(m, vs), ValueError)
        else:
            self.do("set %s = %r" % (self.name(m), v), self.assign(m, v), ValueError)
        self.rec.seen("bad", m.node.type.kind, repr(v)[:30])

    def op_unset(self):
        m = self.pick((M.MLeaf, M.MLeafList), lambda m: not (isinstance(m, M.MLeaf) and self.is_key(m)))
        if m is None:
            return False
        o = self.live(m.parent)
        self.do("unset %s" % self.name(m), lambda: unsetter(o, m.node.name)())
        m.reset()
        self.check()

    def op_unset_tree(self):
        m = self.pick((M.MTree, M.MList), lambda m: not M.is_entry(m))
        if m is None:
            return False
        o = self.live(m.parent)
        self.do("unset %s" % self.name(m), lambda: unsetter(o, m.node.name)())
        m.reset()
        self.check()

    def op_ll(self):
        m = self.pick(M.MLeafList)
        if m is None:
            return False
        t, rng = m.node.type, self.rng
        l = self.live(m)
        k = rng.choice(["append", "append", "append", "insert", "remove", "set", "extend", "pop", "dup", "clear", "contains", "delitem",
                        "setitem"])
        v = self.llvalue(t)
        if t.kind == "string" and not isinstance(v, str):
            return False
        c = t.canon(v)
        nm = self.name(m)
        if k == "append" or k == "dup" and m.vals:
            if k == "dup":
                c = rng.choice(m.vals)
                v = c if t.kind == "identityref" else t.form(c, rng) if t.kind != "union" else None
                if v is None:
                    return False
            self.do("append %r to %s" % (v, nm), lambda: l.append(v))
            if c not in m.vals:
                m.vals.append(c)
            m.set = True
            M.touch(m)
        elif k in ("insert", "setitem"):
            # assigning to an index inserts there, as the test suite has it
            i = rng.randint(0, len(m.vals)) if rng.random() < 0.7 else rng.randint(-len(m.vals) - 1, len(m.vals) + 1)
            if k == "setitem":

                def f():
                    l[i] = v

            else:
                f = lambda: l.insert(i, v)
            if c in m.vals:
                self.do("%s %r into %s" % (k, v, nm), f, ValueError)
                return
            self.do("%s %r into %s at %d" % (k, v, nm, i), f)
            m.vals.insert(i, c)
            m.set = True
            M.touch(m)
        elif k == "remove" and m.vals:
            c = rng.choice(m.vals)
            x = [i for i in l if t.read(i) == c][0]
            self.do("remove %r from %s" % (c, nm), lambda: l.remove(x))
            m.vals.remove(c)
            m.set = True
            M.touch(m)
        elif k == "pop" and m.vals:
            i = rng.randrange(len(m.vals))
            r = self.do("pop %d of %s" % (i, nm), lambda: l.pop(i))
            if t.read(r) != m.vals[i]:
                self.fail("lookup", "pop(%d) of %s gave %r, expected %r" % (i, nm, r, m.vals[i]))
            m.vals.pop(i)
            m.set = True
            M.touch(m)
        elif k in ("set", "extend"):
            vs = [v] + [self.llvalue(t) for _ in range(rng.randint(0, 3))]
            cs = [t.canon(x) for x in vs]
            if k == "set":
                self.do("set %s = %r" % (nm, vs), self.assign(m, vs))
                M.set_leaflist(m, cs)
            else:
                self.do("extend %s with %r" % (nm, vs), lambda: l.extend(vs))
                M.set_leaflist(m, m.vals + cs)
        elif k == "clear" and m.vals and rng.random() < 0.3:
            self.do("clear %s" % nm, lambda: l.clear())
            m.vals = []
            m.set = True
            M.touch(m)
        elif k == "delitem" and m.vals:
            i = rng.randrange(len(m.vals))
            x = m.vals[i]

            def f():
                del l[i]

            self.do("del %s[%d]" % (nm, i), f)
            m.vals.pop(i)
        elif k == "contains":
            self.hist.append("look into %s" % nm)
            self.rec.obs("lookups")
            if len(l) != len(m.vals):
                self.fail("lookup", "len of %s is %d, expected %d" % (nm, len(l), len(m.vals)))
            for i, x in enumerate(l):
                if l[i] != x or x not in l or l.index(x) != i or l.count(x) != 1:
                    self.fail("lookup", "%s answers inconsistently about %r" % (nm, x))
            return
        else:
            return False
        self.rec.seen("ll", k, t.kind, len(m.vals))
        self.check()

    # copies of other objects
    def other(self):
        """a tree of the same bindings with a history of its own"""
        if self.peer is None:
            p = Session(self.rng, self.rec, self.schema, self.fresh(), own=self.own, flags=self.flags, every=self.every,
                        key_filter=self.key_filter, bad=False, value_filter=self.value_filter)
            p.texts = getattr(self, "texts", None) or [self.schema.text()]
            self.peer = p
            for _ in range(15):
                p.step()
        for _ in range(3):
            self.peer.step()
        return self.peer

    def fresh(self):
        return self.b.m()

    def op_copy(self):
        rng = self.rng
        src = self if rng.random() < 0.15 else self.other()
        m = self.pick((M.MTree, M.MList), lambda m: not M.is_entry(m))
        if m is None:
            return False
        # the same node in the other tree (entries are found by schema alone)
        ts = src.nodes((M.MTree, M.MList), lambda x: x.node is m.node and x.changed and not M.is_entry(x))
        if not ts:
            return False
        o = rng.choice(ts)
        nm = self.name(m)
        live = src.live(o)
        if isinstance(m, M.MList) and rng.random() < 0.5:
            return self.copy_entry(src, m, o)
        self.do("set %s to %s of %s tree" % (nm, src.name(o), "the same" if src is self else "another"), self.assign(m, live), kind="copies")
        copy_model(o, m)
        self.rec.seen("copy", M.snap(m))
        self.check()
        if src is not self:
            src.check()

    def copy_entry(self, src, m, o):
        if not o.entries:
            return False
        key = self.rng.choice(list(o.entries))
        e = o.entries[key]
        live = src.live(e)
        l = self.live(m)
        nm = self.name(m)
        same = "the same" if src is self else "another"
        if not m.node.keys:
            self.do("append %s of %s tree to %s" % (src.name(e), same, nm), lambda: l.append(live), kind="copies")
            n = M.new_keyless(m)
        else:
            if self.rng.random() < 0.6:
                self.do("append %s of %s tree to %s" % (src.name(e), same, nm), lambda: l.append(live), kind="copies")
            else:
                t = self.keytext(m, key)

                def f():
                    l[t] = live

                self.do("set %s[%r] to %s of %s tree" % (nm, t, src.name(e), same), f, kind="copies")
            n = m.entries.get(key)
            if n is None:
                n = M.add_entry(m, key)
        copy_model(e, n)
        self.check()
        if src is not self:
            src.check()

    def op_grow(self):
        """a list of more entries than fit in one digit"""
        m = self.pick(M.MList, lambda m: m.node.keys and len(m.entries) > 2)
        if m is None:
            return False
        for _ in range(9):
            self.add_to(m, 14)

    # lists
    def keyvals(self, node):
        """[(python input, canonical)] for the keys of a new entry"""
        out = []
        multi = len(node.keys) > 1
        for n in node.keynodes():
            for _ in range(40):
                v = self.value(n.type)
                c = n.type.canon(v)
                if keyok(n.type, v, c, multi) and (self.key_filter is None or self.key_filter(n.type, v, c)):
                    out.append((v, c))
                    break
            else:
                return None
        return out

    def op_add(self):
        m = self.pick(M.MList)
        if m is None:
            return False
        return self.add_to(m, self.most)

    def add_to(self, m, most):
        l = self.live(m)
        nm = self.name(m)
        if not m.node.keys:
            if len(m.entries) > 3:
                return False
            k = self.do("add to %s" % nm, lambda: l.add())
            if k not in l:
                self.fail("lookup", "add() of %s returned %r, which is not in it" % (nm, k))
            M.new_keyless(m)
            self.check()
            return
        if len(m.entries) >= most:
            return False
        kv = self.keyvals(m.node)
        if kv is None:
            return False
        if m.entries and self.rng.random() < 0.15:
            key = self.rng.choice(list(m.entries))
            kv = [(n.type.form(c, self.rng) if n.type.kind != "identityref" else c, c) for n, c in zip(m.node.keynodes(), key)]
        if any(isinstance(v, (list, set)) for v, _ in kv):
            return False
        key = tuple(c for _, c in kv)
        fn, text = self.adder(m, l, kv)
        if key in m.entries:
            self.do(text, fn, KeyError)
            return
        e = self.do(text, fn)
        M.add_entry(m, key)
        for n, (v, c) in zip(m.node.keynodes(), kv):
            try:
                got = n.type.read(child(e, n.name))
            except Exception as x:
                got = x
            if got != c:
                self.fail("state", "%s returned an entry whose key %s is %r, expected %r" % (text, n.name, got, c))
        self.rec.seen("add", len(kv), [n.type.kind for n in m.node.keynodes()], len(m.entries))
        self.check()

    def adder(self, m, l, kv):
        vals = [v for v, _ in kv]
        names = [attrs(l._new_item())[k] for k in m.node.keys]
        if len(vals) == 1 and self.rng.random() < 0.7:
            return (lambda: l.add(vals[0])), "add %r to %s" % (vals[0], self.name(m))
        if len(vals) > 1 and self.rng.random() < 0.5:
            s = " ".join(pystr(n.type, c) if not isinstance(v, str) else v for n, (v, c) in zip(m.node.keynodes(), kv))
            return (lambda: l.add(s)), "add %r to %s" % (s, self.name(m))
        kw = list(zip(names, vals))
        self.rng.shuffle(kw)
        kw = dict(kw)
        return (lambda: l.add(**kw)), "add %r to %s" % (kw, self.name(m))

    def op_addbad(self):
        m = self.pick(M.MList, lambda m: m.node.keys)
        if m is None:
            return False
        l = self.live(m)
        kv = self.keyvals(m.node)
        if kv is None:
            return False
        i = self.rng.randrange(len(kv))
        n = m.node.keynodes()[i]
        v = n.type.bad(self.rng)
        if not isinstance(v, (str, int)) or isinstance(v, str) and (v == "" or " " in v):
            return False
        vals = [x for x, _ in kv]
        if len(vals) > 1 and self.rng.random() < 0.4:
            # too many values of keys, or too few
            held = m.entries and self.rng.random() < 0.6
            parts = [pystr(k.type, c) for k, c in zip(m.node.keynodes(), self.rng.choice(list(m.entries)) if held else [c for _, c in kv])]
            if any(x == "" or x.split(" ") != [x] for x in parts):
                return False
            if self.rng.random() < 0.5:
                parts.insert(self.rng.choice([len(parts), self.rng.randint(0, len(parts))]), self.rng.choice(parts))
            else:
                parts.pop(self.rng.randrange(len(parts)))
            t = " ".join(parts)
            if self.rng.random() < 0.4:
                if t in l:
                    self.fail("lookup", "%s says that %r is in it" % (self.name(m), t))
                if not held:
                    return False    # look-ups of what is not there are specified elsewhere
                self.do("look up %r in %s" % (t, self.name(m)), lambda: l[t], KeyError)
            else:
                self.do("add %r to %s" % (t, self.name(m)), lambda: l.add(t), KeyError)
            self.rec.obs("keys with parts too many or too few")
            return
        vals[i] = v
        if n.type.kind == "string" and not isinstance(v, str):
            return False
        names = [attrs(l._new_item())[k] for k in m.node.keys]
        if len(vals) == 1 and self.rng.random() < 0.6:
            fn = lambda: l.add(vals[0])
        else:
            fn = lambda: l.add(**dict(zip(names, vals)))
        self.do("add %r to %s" % (vals, self.name(m)), fn, (KeyError, ValueError))
        self.rec.seen("addbad", n.type.kind, len(kv))

    def op_delete(self):
        m = self.pick(M.MList, lambda m: m.entries or m.node.keys)
        if m is None:
            return False
        l = self.live(m)
        if not m.node.keys:
            i = self.rng.randrange(len(m.entries))
            k = list(l)[i]
            self.do("delete entry %d of %s" % (i, self.name(m)), lambda: l.delete(k))
            del m.entries[list(m.entries)[i]]
            self.check()
            return
        if self.rng.random() < 0.25 or not m.entries:
            kv = self.keyvals(m.node)
            if kv is None or tuple(c for _, c in kv) in m.entries:
                return False
            t = self.keytext(m, tuple(c for _, c in kv))
            if self.rng.random() < 0.5:
                self.do("delete the missing %r from %s" % (t, self.name(m)), lambda: l.delete(t), KeyError)
            else:

                def f():
                    del l[t]

                self.do("del the missing %s[%r]" % (self.name(m), t), f, KeyError)
            return
        key = self.rng.choice(list(m.entries))
        t = self.keytext(m, key)
        r = self.rng.random()
        if r < 0.4:
            self.do("delete %r from %s" % (t, self.name(m)), lambda: l.delete(t))
        elif r < 0.7:

            def f():
                del l[t]

            self.do("del %s[%r]" % (self.name(m), t), f)
        else:
            names = [attrs(l._new_item())[k] for k in m.node.keys]
            kw = dict(zip(names, [pystr(n.type, c) for n, c in zip(m.node.keynodes(), key)]))
            self.do("delete %r from %s" % (kw, self.name(m)), lambda: l.delete(**kw))
        del m.entries[key]
        self.rec.seen("delete", len(key), len(m.entries))
        self.check()

    def op_keyset(self):
        e = self.pick(M.MTree, lambda m: M.is_entry(m) and m.node.keys)
        if e is None:
            return False
        kn = self.rng.choice(e.node.keynodes())
        if not getattr(kn, "rw", True) and self.rng.random() < 0.5:
            return False
        v = kn.type.good(self.rng)
        o = self.live(e)
        fn = (lambda: setattr(o, attrs(o)[kn.name], v)) if self.rng.random() < 0.7 else (lambda: setter(o, kn.name)(v))
        self.do("set the key %s/%s = %r" % (self.name(e), kn.name, v), fn, AttributeError)

    def op_lookup(self):
        m = self.pick(M.MList, lambda m: m.node.keys)
        if m is None:
            return False
        l = self.live(m)
        self.hist.append("look into %s" % self.name(m))
        self.rec.obs("lookups")
        if len(l) != len(m.entries) or len(list(l.keys())) != len(m.entries) or len(list(l.values())) != len(m.entries) or len(list(l.items())) != len(m.entries):
            self.fail("lookup", "%s does not have as many entries as were added: %d, expected %d" % (self.name(m), len(l), len(m.entries)))
        order = []
        for key in m.entries:
            t = self.keytext(m, key)
            forms = [t]
            if len(key) == 1:
                e = l[t]
                forms.append(child(e, m.node.keys[0]))
                if m.node.keynodes()[0].type.kind.lstrip("u").startswith("int"):
                    forms.append(key[0])
                kt = m.node.keynodes()[0].type
                if kt.kind not in ("string", "union", "identityref", "enumeration"):
                    f = kt.form(key[0], self.rng)
                    if isinstance(f, (str, int, bytes)):
                        forms.append(f)
            for f in forms:
                if f not in l or l[f] is not l[t]:
                    self.fail("lookup", "%s cannot be asked for its entry %r" % (self.name(m), f))
            order.append(id(l[t]))
        if order != [id(x) for x in l.values()] or order != [id(l[k]) for k in l.keys()] or order != [id(v) for _, v in l.items()] or order != [id(l[k]) for k in l]:
            self.fail("lookup", "%s does not yield its entries in the order they were added in" % self.name(m))
        if len(m.entries) > 1 and len(set(order)) != len(order):
            self.fail("lookup", "%s has one entry under two keys" % self.name(m))
        kv = self.keyvals(m.node)
        if kv is not None and tuple(c for _, c in kv) not in m.entries:
            t = self.keytext(m, tuple(c for _, c in kv))
            if t in l:
                self.fail("lookup", "%s claims to hold %r" % (self.name(m), t))
            try:
                l[t]
            except KeyError:
                pass
            else:
                self.fail("lookup", "%s yields an entry for the missing key %r" % (self.name(m), t))

    def op_present(self):
        m = self.pick(M.MTree, lambda m: getattr(m.node, "presence", None))
        if m is None:
            return False
        o = self.live(m)
        if m.present and not any_set(m) and self.rng.random() < 0.5:
            self.do("set %s absent" % self.name(m), lambda: o._set_present(False))
            m.present = False
            m.changed = False
            self.check()
            return
        self.do("set %s present" % self.name(m), lambda: o._set_present())
        m.present = True
        M.touch(m)
        self.check()

    def op_unknown(self):
        m = self.pick(M.MTree) or self.m
        o = self.live(m)
        n = self.rng.choice(["nosuch", "nosuchleaf", "xx1"])
        self.do("set %s/%s" % (self.name(m), n), lambda: setattr(o, n, 1), AttributeError)


def copy_model(a, b):
    """b becomes a copy of a: what is set in it, without anything that was in b"""
    def fill(a, b):
        if isinstance(a, M.MLeaf):
            b.set, b.val, b.form = a.set, a.val, a.form
        elif isinstance(a, M.MLeafList):
            b.set, b.vals = a.set, list(a.vals)
        elif isinstance(a, M.MList):
            b.changed = a.changed
            for k, e in a.entries.items():
                if a.node.keys:
                    n = M.MTree(b.node, b)
                    b.entries[k] = n
                    b.forms[k] = a.forms.get(k)
                else:
                    b.serial += 1
                    n = b.entries[b.serial] = M.MTree(b.node, b)
                fill(e, n)
                n.changed = True
        else:
            b.changed, b.present = a.changed, a.present
            for k in a.kids:
                if not isinstance(a.kids[k], (M.MTree, M.MList)) or a.kids[k].changed:
                    fill(a.kids[k], b.kids[k])

    # what is copied may hold the copy, or be it
    tmp = M.make(a.node, None) if not M.is_entry(a) else M.MTree(a.node)
    fill(a, tmp)
    b.reset()
    fill(tmp, b)
    M.touch(b)


def any_set(m):
    if isinstance(m, (M.MLeaf, M.MLeafList)):
        return m.set
    if isinstance(m, M.MList):
        return bool(m.entries) or m.changed
    return any(any_set(k) or isinstance(k, M.MTree) and k.changed for k in m.kids.values())


def keyok(t, v, c, multi):
    """whether a value may be used as a key in generated histories"""
    if isinstance(v, (list, set, tuple, bytes)):
        return False
    s = pystr(t, c)
    if s == "" or t.kind == "union" and (v != s or not t.stable(v)):
        return False
    if t.kind == "boolean" and isinstance(v, str):
        return False
    if t.kind == "decimal64" and str(v) != s:
        return False
    if t.kind == "identityref" and v != c:
        return False
    if multi and (" " in s or s != s.strip()):
        return False
    return True
