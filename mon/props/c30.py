"""The same modules give the same bindings, however and wherever they are generated."""
import os
import shutil
import tempfile

from mon import build, hist
from mon.props import c27, c28

TITLE = "Generating bindings again gives the same bindings"
RULE = ("A case is a random set of modules (as for C28, with identities and augmentations, or with references); the bindings are generated in processes with different hash seeds, working directories, places of the modules, "
        "environments and outputs, in one file and split into a directory, and compared byte by byte; distinct = distinct (kind of world, flags, way of generating).")
COUNT = (70, 1200)
NEED = ["generated again", "generated again split", "bytes compared"]

FLAGS = ["--use-xpathhelper", "--use-extmethods", "--presence", "--build-rpcs", "--build-notifications"]


def case(rng, rec, tier):
    kind = rng.choice(["structure", "identities", "references"])
    flags, targets = [], None
    if kind == "structure":
        _, texts, flags, targets = c28.make(rng, rec)
    elif kind == "identities":
        texts = hist.world2(rng, rec).texts
    else:
        w = c27.World(rng, rec)
        texts = [w.yang(), w.ids.text()]
    flags += [f for f in FLAGS if rng.random() < 0.4 and f not in flags]
    flags += ["--interesting-extension", "m"] if rng.random() < 0.3 else []
    ref, _ = build.run_pyang(texts, flags, targets)
    here = tempfile.mkdtemp(dir=build.scratch())
    deep = os.path.join(here, "some", "where", "else")
    os.makedirs(deep)
    ways = [("hash seed", dict(hashseed=rng.randrange(1, 2**32))), ("hash seed 0", dict(hashseed=0)), ("other directory", dict(hashseed=rng.randrange(1, 2**32), cwd=deep)),
            ("plain environment", dict(hashseed="random", env=dict(LC_ALL="C", TZ="Asia/Tokyo", HOME=deep, LANG="C", COLUMNS="20"))), ("standard output", dict(hashseed=rng.randrange(1, 2**32), tostdout=True)),
            ("same process state", dict())]
    for name, kw in rng.sample(ways, 3 if tier == "quick" else 5):
        got, _ = build.run_pyang(texts, flags, targets, **kw)
        rec.obs("generated again")
        rec.obs("bytes compared", len(got))
        rec.seen(kind, tuple(flags), name)
        if got != ref:
            rec.bad("differs", "%s, flags %r: %s\n%s" % (name, flags, first(ref, got), "\n".join(texts)))
    trees = []
    for i in range(2):
        d = os.path.join(here, "split%d" % i)
        build.run_pyang(texts, flags + ["--split-class-dir", d], targets, **(dict(hashseed=rng.randrange(1, 2**32)) if i else {}))
        trees.append(tree(d))
    if sorted(trees[0]) != sorted(trees[1]):
        rec.bad("differs", "split: %r and %r\n%s" % (sorted(trees[0]), sorted(trees[1]), "\n".join(texts)))
    for f in trees[0]:
        rec.obs("bytes compared", len(trees[0][f]))
        if trees[0][f] != trees[1][f]:
            rec.bad("differs", "split, %s: %s\n%s" % (f, first(trees[0][f], trees[1][f]), "\n".join(texts)))
    rec.obs("generated again split")
    shutil.rmtree(here, ignore_errors=True)


def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(p, f), d)] = open(os.path.join(p, f), encoding="utf-8").read()
    return out


def first(a, b):
    a, b = a.split("\n"), b.split("\n")
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            k = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), 0)
            k = max(0, k - 60)
            return "line %d: %r and %r" % (i + 1, x[k:k + 160], y[k:k + 160])
    return "%d and %d lines" % (len(a), len(b))
