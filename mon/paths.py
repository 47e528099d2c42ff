"""The path that each object in a tree should have."""
import re

from . import model as M
from .drive import pystr

PRED = re.compile(r"([^\s=\[\]'\"]+)\s*=\s*('[^']*'|\"[^\"]*\")\s*(?:\]\s*\[|and\s+)?\s*")


def steps(m):
    """[(name, {key: text})] that lead to a node of the reference tree"""
    out = []
    while m.parent is not None:
        if isinstance(m.parent, M.MList):
            l = m.parent
            key = [k for k, v in l.entries.items() if v is m][0]
            out.append((l.node.name, {n.name: (n.type, c) for n, c in zip(l.node.keynodes(), key)}))
            m = l.parent
        else:
            out.append((m.node.name, {}))
            m = m.parent
    return out[::-1]


def parse(step):
    """(name, {key: text}) of one part of a path, None if it is none"""
    i = step.find("[")
    if i < 0:
        return step, {}
    if not step.endswith("]"):
        return None
    body, keys, at = step[i + 1:-1], {}, 0
    while at < len(body):
        g = PRED.match(body, at)
        if g is None:
            return None
        keys[g[1].split(":")[-1]] = g[2][1:-1]
        at = g.end()
    return step[:i], keys


def differs(m, path):
    """what is wrong with the path of the object that stands for m; keys are as they were spelled when the entry was made"""
    want = steps(m)
    bad = not isinstance(path, list) or len(path) != len(want)
    for p, (name, keys) in zip(path, want) if not bad else ():
        got = parse(p) if isinstance(p, str) else None
        bad = bad or got is None or got[0] != name or set(got[1]) != set(keys)
        bad = bad or any(not same(*keys[k], got[1][k]) for k in keys)
    if bad:
        return "the path is %r, it should lead along %r" % (path, [(n, {k: v[1] for k, v in ks.items()}) for n, ks in want])


def same(t, c, text):
    if pystr(t, c) == text:
        return True
    try:
        return t.canon(text) == c
    except Exception:
        return False


def schema_path(m):
    return "/" + "/".join(n for n, _ in steps(m))


def everything(s):
    """(node of the reference tree, object in the tree) of all there is"""
    out = []

    def walk(m, o):
        for name, k in m.kids.items():
            c = M.child(o, name)
            out.append((k, c))
            if isinstance(k, M.MList):
                for i, (key, e) in enumerate(k.entries.items()):
                    x = c[s.keytext(k, key) if k.node.keys else list(c)[i]]
                    out.append((e, x))
                    walk(e, x)
            elif isinstance(k, M.MTree):
                walk(k, c)

    walk(s.m, s.root)
    return out
