#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below; tools/register.py, run in /verif."""
import importlib
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]

Y, S, B, X, P, J = ("pyangbind/lib/yangtypes.py", "pyangbind/lib/serialise.py", "pyangbind/lib/base.py", "pyangbind/lib/xpathhelper.py",
                    "pyangbind/plugin/pybind.py", "pyangbind/lib/pybindJSON.py")
I, H, PR, CF = "inputs", "histories", "programs", "configurations"

TYPES_WHY = ("For every type that YANG can express and every value: the tests hold a few fixed types and a few values of each, by one route of "
             "setting them.")

T = {}


def prop(pid, statement, over, text, why, files, mech, technique, note):
    T[pid] = dict(statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note)


TYPE_T = "reference-model monitor of acceptance, refusal and read-back over generated types, values and routes"
TYPE_N = ("Held on the types and values generated (counts in the evidence). The oracle is an independent model of the RFC 7950 type, written from "
          "the RFC; pyang is trusted to parse the YANG.")
HIST_T = "reference-model monitor comparing the whole tree with an executable model after every operation of generated histories"
HIST_N = ("Held on the schemas and histories generated (counts in the evidence). The oracle is an independent reference tree; the tree is read back "
          "through its public interface only.")
DOC_T = "reference encoder and decoder as oracle over documents of generated trees"
DOC_N = ("Held on the trees generated (counts in the evidence), which avoid the inputs that DESIGN.md names as outside of the property. The expected "
         "document is built from the reference tree alone.")

prop("C01", "An integer node of any of the eight integer types accepts a value if and only if it is an integer within the bounds of its type and within the "
     "ranges of every typedef and restriction on the way to it, whichever way it is set (assignment, setter, leaf-list, list key, document); "
     "the value read back is the one given. Every other value is refused with an error.",
     [I, PR], "all chains of integer types with range statements, including min, max, several parts and 64-bit bounds; all values, as int or text; all routes", TYPES_WHY,
     [Y, P], [("RestrictedClassType: the ranges of each level", Y + ":RestrictedClassType"), ("range statements to restrictions", P + ":build_elemtype")], TYPE_T, TYPE_N)
prop("C02", "A string node accepts a text if and only if its length satisfies the length statements and it matches, as a whole, every pattern statement of "
     "its type and of every typedef it derives from, whichever way it is set; the text read back is the one given.",
     [I, PR], "all chains of string types with lengths and patterns; all texts; all routes", TYPES_WHY,
     [Y, P], [("RestrictedClassType: lengths and patterns", Y + ":RestrictedClassType"), ("pattern statements to restrictions", P + ":build_elemtype")], TYPE_T,
     TYPE_N + " Patterns come from a generated subset of XSD regular expressions without leading ^ or trailing $.")
prop("C03", "A decimal64 node accepts a value if and only if it is a number that its fraction digits can express, within the bounds of decimal64 and within every range "
     "on the way to it; it is held without loss.",
     [I, PR], "all fraction-digits from 1 to 18, chains of ranges; values as Decimal and text on, between and beyond the bounds; all routes", TYPES_WHY,
     [Y, P], [("RestrictedPrecisionDecimalType", Y + ":RestrictedPrecisionDecimalType"), ("fraction-digits and ranges of a type", P + ":build_elemtype")], TYPE_T, TYPE_N)
prop("C04", "An enumeration accepts exactly its enum names and a bits node exactly the combinations of its bit names, restricted as every typedef on the way says. "
     "Enums are numbered as YANG numbers them, and bits read back in the order of their positions, each at most once.",
     [I, PR], "all enumerations and bits types, numbered and not, restricted subsets, names with any character; all values; all routes", TYPES_WHY,
     [Y, P], [("YANGBitsType", Y + ":YANGBitsType"), ("enum values and bit positions", P + ":build_elemtype")], TYPE_T, TYPE_N)
prop("C05", "An identityref accepts exactly the identities derived, directly or not and in any module, from its base, bare or with a prefix or module name that denotes "
     "the module they are defined in; the base itself and all other identities are refused.",
     [I, PR], "all forests of identities over several modules, with several bases and any import prefixes; all references", TYPES_WHY,
     [P], [("identities collected over modules", P + ":build_identities"), ("identityref restriction", P + ":build_elemtype")], TYPE_T, TYPE_N)
prop("C06", "A boolean accepts exactly true and false and reads back as such, an empty leaf is present or absent, and a binary accepts exactly the octet strings whose "
     "length satisfies every length statement on the way to it; all is read back as given.",
     [I, PR], "all boolean, empty and binary types with lengths on any typedef level; all values; all routes", TYPES_WHY,
     [Y, P], [("YANGBool", Y + ":YANGBool"), ("YANGBinary", Y + ":YANGBinary"), ("lengths", Y + ":RestrictedClassType")], TYPE_T, TYPE_N)
prop("C07", "A union accepts exactly what one of its member types accepts, members in nested unions and behind typedefs included, and the value held is that of the first member that accepts it.",
     [I, PR], "all unions of two to four members, nested and behind typedefs; all values; all routes", TYPES_WHY,
     [Y, P], [("the member is chosen", Y + ":YANGDynClass"), ("unions in leaf-lists", Y + ":TypedListType"), ("members of a union", P + ":build_elemtype")], TYPE_T, TYPE_N)
prop("C08", "A reference to a typedef, identity or grouping denotes the definition that YANG's scoping gives it at the place where the reference is written, however many modules, "
     "submodules or prefixes reuse the same names, and wherever a grouping that holds the reference is used.",
     [PR], "all arrangements of modules, submodules, groupings and prefixes in which names collide", "For every arrangement of modules and names: the tests' modules use each name once.",
     [P], [("typedefs are collected", P + ":build_typedefs"), ("module prefixes are resolved", P + ":module_import_prefixes"), ("a leaf's type is resolved", P + ":build_elemtype")],
     "monitor that tells which definition each generated node was built from by the one value only that definition accepts",
     "Held on the arrangements generated. Each definition has a value of its own, so that the observation identifies it.")
prop("C09", "An operation that is refused leaves the whole data tree, the order of its entries and everything it reports about itself exactly as they were, and is refused with the documented kind of error.",
     [H, I], "all trees and all operations that must be refused, at any point in a history: bad values and keys, duplicates, missing entries, assignments to keys and unknown nodes",
     "For every reachable tree and refused operation: the tests check that errors are raised, hardly ever what the tree holds afterwards.",
     [Y, P], [("values are validated before anything is changed", P + ":get_children (setter)"), ("list entries", Y + ":YANGListType"), ("leaf-lists", Y + ":TypedListType")],
     HIST_T, HIST_N)
prop("C10", "After any history of operations a data tree holds exactly what the history says: every leaf, leaf-list and list entry has the value last given to it, nothing else has changed, and what was unset or "
     "deleted is gone with all beneath it.",
     [H, PR], "all schemas of containers, lists, leaf-lists, choices and leaves of all types; all histories of setting, unsetting, adding and deleting",
     "For all histories over all schemas: the tests run short fixed sequences on one schema each.",
     [Y, P, B], [("setters and unsetters", P + ":get_children"), ("containers and lists", Y + ":YANGDynClass"), ("attribute access", B + ":PybindBase")], HIST_T, HIST_N)
prop("C11", "A node reports that it has changed if and only if it or something beneath it has been set, and reading a tree with unset values filtered out gives exactly what has been set, while reading it unfiltered gives every node of the schema.",
     [H, PR], "all schemas and all histories of operations, refused ones included", "For all histories: the tests look at a handful of leaves after one assignment.",
     [Y, B], [("changed flags", Y + ":YANGDynClass"), ("filtered reading", B + ":PybindBase.get")], HIST_T, HIST_N)
prop("C12", "The default of a leaf is the one YANG gives it: its own, or else that of the nearest typedef it derives from. It is reported as default and shown while the leaf is unset, "
     "never counts as set data or appears in documents of set data, and shows again after the leaf has been unset.",
     [PR, H, I], "all leaf types, defaults of leaves and of typedefs in chains, falsy and quoted values included; all histories of setting and unsetting", "For all types, values and typedef chains: the tests have a few defaults of simple types.",
     [P, Y, B], [("the default in force", P + ":get_element"), ("default values of the types", Y + ":YANGDynClass"), ("reading of defaults", B + ":PybindBase.get")],
     "reference-model monitor of defaults, flags and documents over generated leaves, typedef chains and histories", TYPE_N)
prop("C13", "A list has exactly one entry for each key value added and not deleted, in the order they were added; an entry is found under its key in every form the key can be given in (value, text, "
     "keywords), nothing is found under any other, and an entry's key leaves hold its key.",
     [H, I, PR], "all lists of one to three keys of all key types, nested and keyless; all histories of adding, appending, deleting and looking up", "For all key types, values and histories: the tests use simple string and integer keys.",
     [Y, P], [("YANGListType", Y + ":YANGListType"), ("keys of a list", P + ":get_element")], HIST_T, HIST_N)
prop("C14", "Once an entry is in a list its key leaves cannot be changed by any assignment, setter or unsetter, whether the entry was added, appended, copied or loaded from a document; "
     "an entry not yet in a list can be given its keys.",
     [H, I], "all lists and entries however they came to be; all attempts to set a key, to the same or another value", "For every way in which an entry can come about: the tests try one assignment on added entries.",
     [P, Y], [("key setters", P + ":get_children"), ("entries of a list", Y + ":YANGListType")], HIST_T, HIST_N)
prop("C15", "A leaf-list holds each value of its type once, in the order in which values were put there; values outside of its type are refused, and membership, index and "
     "count agree with equality of values, whatever form they were given in.",
     [H, I, PR], "all leaf-list types; all histories of appending, inserting, extending, assigning, popping, removing and clearing", "For all element types and histories: the tests append and delete a few values.",
     [Y], [("TypedListType", Y + ":TypedListType")], HIST_T, HIST_N)
prop("C16", "At any time at most one case of each choice holds data, however deeply choices are nested: setting anything in or beneath one case removes the data of every other case of the choices it is in, and of nothing else.",
     [H, PR], "all schemas of nested choices with cases of any nodes, in containers and list entries; all histories", "For all nestings and histories: the tests have one choice per container and set leaves in turn.",
     [Y, P], [("choices of a container", P + ":get_children"), ("a change unsets the other cases", Y + ":YANGDynClass")], HIST_T, HIST_N)
prop("C17", "With presence enabled, a presence container exists exactly when it was made present or anything beneath it was set, and not when it or what holds it was unset; documents in every format show exactly the ones that exist, and "
     "loading them makes the same ones present.",
     [H, PR, I], "all schemas of presence and ordinary containers, nested, empty, in entries and in cases; all histories", "For all nestings and histories, and all formats: the tests set presence on fixed containers.",
     [Y, S], [("presence", Y + ":YANGDynClass (_set_present, _present)"), ("empty containers in documents", S)], HIST_T, HIST_N)
prop("C18", "A node that is config false, by its own statement or that of any node above it, choices included, cannot be assigned as an attribute, and the attempt changes nothing, yet its setter method can populate it; every node that is config true can be assigned.",
     [PR, I], "all arrangements of config statements on containers, lists, leaf-lists, leaves and choices", "For all arrangements of config statements: the tests have a few on fixed levels.",
     [P], [("config is inherited", P + ":get_children, get_children_elements")], HIST_T, HIST_N)

EXTRA = os.path.join(ROOT, "tools", "table2.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))


def main():
    props, checks = [], []
    for pid in sorted(T):
        d = T[pid]
        if not os.path.exists(os.path.join(ROOT, "mon", "props", pid.lower() + ".py")):
            continue
        m = importlib.import_module("mon.props.%s" % pid.lower())
        assert len(m.TITLE) <= 80, (pid, len(m.TITLE))
        props.append({"id": pid, "title": m.TITLE, "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["text"]},
                      "why_tests_cant": d["why"],
                      "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in [x if isinstance(x, tuple) and len(x) == 2 else (x, d["files"][0]) for x in d["mech"]]],
                                  "hook_needed": None}})
        checks.append({"property": pid, "quick_cmd": "./check %s quick" % pid, "thorough_cmd": "./check %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": "runtime monitoring: " + d["technique"], "level": "exploration", "level_note": d["note"]})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks are needed in /repo: every monitor observes through the public interface of the library and of the generated bindings. See DESIGN.md."}
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(props), "properties")


main()
