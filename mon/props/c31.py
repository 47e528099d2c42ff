"""Trees of one process, in one thread or several, know nothing of each other."""
import json
import random
import sys
import threading
from collections import OrderedDict

import pyangbind.lib.pybindJSON as J
from lxml import etree
from pyangbind.lib.serialise import pybindIETFXMLDecoder, pybindIETFXMLEncoder
from pyangbind.lib.xpathhelper import YANGPathHelper

from mon import encode as E, hist, model as M, paths, xph
from mon.core import Rec, Skip, Violation
from mon.drive import Session

TITLE = "Trees do not affect each other, whatever threads use them"
RULE = ("A case is two random schemas and three to five trees of them, some with a path helper of their own; histories of 50 operations, documents written, documents loaded and metadata added are interleaved at random in one thread, or run "
        "each in a thread of its own with a switch interval of 10 microseconds; each tree, each path helper and each document is compared with the tree's own reference; distinct = distinct (operation, values, way of running).")
COUNT = (110, 1600)
NEED = ["steps", "threads", "switches between trees", "switches between threads", "documents compared", "documents loaded", "path helpers compared", "nodes annotated"]


def value_ok(t, v):
    return E.rt_value(t, v) and (not isinstance(v, str) or E.xml_text(v))


class Tree:
    """a session with its own monitor"""

    def __init__(self, rng, w, mine):
        self.rng, self.rec = random.Random(rng.randrange(2**60)), Rec()
        self.ph = YANGPathHelper() if mine else None
        root = w.b.m(path_helper=self.ph) if mine else w.b.m()
        self.s = Session(self.rng, self.rec, w.schema, root, every=5, value_filter=value_ok, key_filter=xph.key_ok if mine else None, ops=dict(grow=0.25))
        self.s.b, self.s.texts, self.s.ph = w.b, w.texts, self.ph

    def step(self):
        s, rec = self.s, self.rec
        k = self.rng.random()
        if k < 0.85:
            s.step()
        elif k < 0.93:
            self.document()
        elif k < 0.97:
            self.reload()
        else:
            self.annotate()
        rec.obs("steps")

    def annotate(self):
        """metadata of this tree is on its own objects, one of which gets some more"""
        objects = paths.everything(self.s)
        for m, o in objects:
            if set(o._metadata) - {id(self)}:
                self.s.fail("metadata", "%s has the metadata of another tree: %r" % (self.s.name(m), o._metadata))
        if objects:
            self.rng.choice(objects)[1]._add_metadata(id(self), True)
            self.rec.obs("nodes annotated")

    def document(self):
        s = self.s
        s.tidy()
        snap = M.snap(s.m)
        kind = self.rng.choice(["json", "ietf", "xml"])
        if kind == "json":
            d = E.cmp_default(E.default_doc(s.schema, snap), json.loads(J.dumps(s.root, filter=True), object_pairs_hook=OrderedDict))
        elif kind == "ietf":
            d = E.cmp_json(E.ietf_doc(s.schema, snap), json.loads(J.dumps(s.root, mode="ietf"), object_pairs_hook=OrderedDict))
        else:
            d = E.cmp_xml(E.xml_doc(s.schema, snap), etree.fromstring(pybindIETFXMLEncoder.serialise(s.root)))
        if d:
            s.fail("doc", "%s: %s" % (kind, d))
        self.rec.obs("documents compared")

    def reload(self):
        """another tree is made of this one's document"""
        s = self.s
        s.tidy()
        kind = self.rng.choice(["json", "ietf"])
        o = J.loads(J.dumps(s.root, filter=True), s.b, "m") if kind == "json" else J.loads_ietf(J.dumps(s.root, mode="ietf"), s.b, "m")
        want, got = M.only_set(M.snap(s.m)), M.only_set(M.observe_tree(s.schema, o))
        d = M.diff(want, got) if want is not None and got is not None else None if want is got else "%r, %r" % (want, got)
        if d:
            s.fail("load", "%s: %s" % (kind, d))
        self.rec.obs("documents loaded")

    def check(self):
        self.s.check()
        self.annotate()
        if self.ph is not None:
            xph.check(self.s)
            self.rec.obs("path helpers compared")


def case(rng, rec, tier):
    worlds = [hist.world2(rng, rec, gen=dict(depth=2, width=(2, 4), maxnodes=35, keyless=0), flags=["--presence", "--use-xpathhelper"]) for _ in range(rng.choice([1, 2]))]
    trees = [Tree(rng, rng.choice(worlds), rng.random() < 0.5) for _ in range(rng.randint(3, 5))]
    threaded = rng.random() < 0.5
    errors = []
    try:
        if threaded:
            run_threads(rng, rec, trees, errors)
        else:
            last = None
            for _ in range(50 * len(trees)):
                t = rng.choice(trees)
                if t is not last:
                    rec.obs("switches between trees")
                last = t
                t.step()
                if rng.random() < 0.1:
                    rng.choice(trees).check()
        if not errors:
            for t in trees:
                t.check()
    finally:
        for t in trees:
            rec.counts.update(t.rec.counts)
            rec.sigs |= t.rec.sigs
            rec.bads += [(m, "%s\n(%s)" % (d, "threads" if threaded else "one thread")) for m, d in t.rec.bads]
    for e in errors:
        if not isinstance(e, Violation):
            raise e


def run_threads(rng, rec, trees, errors):
    order = []
    start = threading.Barrier(len(trees))

    def work(t):
        try:
            start.wait(30)
            for i in range(50):
                t.step()
                order.append(id(t))
            t.rec.obs("threads")
        except Exception as e:
            errors.append(e)

    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in trees]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(before)
    rec.obs("switches between threads", sum(1 for a, b in zip(order, order[1:]) if a != b))
