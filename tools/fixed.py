#!/opt/venv/bin/python
"""Writes the "fixed" part of known_findings.json; the findings are kept by hand in tools/findings.json."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit -> (property, what failed)
F = [
 ("enforce every restriction of a restricted type on every value", "C01", "values were checked against one of several restrictions only, and not when set in place"),
 ("anchor a pattern as a whole", "C02", "pattern \"a|b\" accepted \"ax\": only the outer alternatives were anchored"),
 ("enforce all the pattern statements of a type, not only the first", "C02", "with two pattern statements the second was ignored"),
 ("compare single-value ranges exactly", "C03", "a range of one value was compared as a float"),
 ("keep fraction-digits on a decimal64 that also has a range", "C03", "a decimal64 with a range accepted any number of fraction digits"),
 ("number enum members without a value as RFC 7950 does", "C04", "enums without a value were numbered by position"),
 ("refuse values outside decimal64 with ValueError", "C03", "NaN, infinities and overlong values raised other errors or were accepted"),
 ("treat bit positions as numbers and assign the missing ones", "C04", "positions were compared as text: position 10 came before 9"),
 ("check leaf-list uniqueness on values, not on the form they are given in", "C15", "[1, \"1\"] was held twice"),
 ("allow values to be added to a leaf-list of bits", "C15", "appending to a leaf-list of bits raised"),
 ("serialise decimal64 in its canonical form", "C21", "1E+3 was written for 1000.0"),
 ("enforce a choice on the node that owns it", "C16", "setting a case in one list entry or container did not unset the other case"),
 ("enforce a choice that is a case of another choice", "C16", "the cases of an outer choice were not unset by a node of a nested choice"),
 ("validate a value before it has any effect on the tree", "C09", "a refused value had unset the other cases of its choice, or the leaf-list it was for"),
 ("keep the tree informed of changes made to a bits value in place", "C11", "bits changed in place were not reported as changed"),
 ("allow a leaf-list to be set from another leaf-list", "C10", "assigning one leaf-list to another raised"),
 ("leave nothing behind when a list entry cannot be added", "C09", "an entry with a bad key remained in the list or path helper"),
 ("copy the lists within a container or list entry that is copied", "C10", "lists in an assigned container were lost"),
 ("identify list entries by the value of their key", "C13", "l.add(1) and l.add(\"1\") made two entries"),
 ("keep the path helper in step with the objects in the tree", "C25", "objects that were replaced or deleted stayed registered"),
 ("allow spaces and quotes in list keys with a path helper", "C25", "entries with such keys could not be registered"),
 ("serialise the members of boolean and binary leaf-lists", "C19", "dumps() raised or wrote text for members"),
 ("encode and decode identityrefs and text in leaf-lists and list keys", "C20", "identityrefs in leaf-lists lost their prefix and could not be loaded"),
 ("write a 64-bit integer with a restricted range as a string in IETF JSON", "C21", "uint64 with a range was written as a number"),
 ("leave unset leaves out of IETF encodings", "C21", "unset leaves of entries appeared in IETF JSON"),
 ("load the entries of a keyless list from JSON", "C19", "the entries of a keyless list were not loaded"),
 ("keep the values of leaf-lists loaded from JSON", "C24", "loading a leaf-list replaced or lost values"),
 ("do not modify the document that JSON is loaded from", "C23", "loading removed members from the caller's document"),
 ("overwrite and skip_unknown when loading lists from JSON", "C24", "overwrite and skip_unknown had no effect in lists"),
 ("name each key of a list as its leaf is named, and keep more names usable", "C28", "keys whose names needed changing could not be used"),
 ("refuse unknown attributes on a container that has no children", "C09", "a typing error on an empty container was accepted"),
 ("accept an enum whose name starts with an at sign", "C04", "such an enum was dropped"),
 ("refuse unknown attributes on the entries of a keyless list", "C09", "a typing error on such an entry was accepted"),
 ("resolve typedefs and identity bases where they are defined", "C08", "a grouping used in another module resolved its types there"),
 ("give a leaf the default that it has in YANG", "C12", "a leaf's own default was overridden by that of its typedef; falsy defaults were not reported"),
 ("enforce the enums or bits that a derived type is restricted to", "C04", "a typedef restricted to a subset accepted all"),
 ("generate valid code whatever descriptions, patterns and namespaces contain", "C28", "quotes and backslashes gave a syntax error"),
 ("accept ranges and lengths over several lines and of min or max alone", "C01", "line breaks in a range statement stopped the build"),
 ("resolve min and max alone through every base type", "C01", "range \"min\" on a restricted base took the bounds of the built-in type"),
 ("build modules that pyang has only warnings about", "C28", "a warning of pyang stopped the build"),
 ("extend a leaf-list with all of the values or none", "C09", "extend() with a bad value kept those before it"),
 ("serialise lists whose keys are decimals", "C19", "dumps() raised for such a list"),
 ("take any default of a union that YANG allows", "C12", "a default of a typedef'd union stopped the build or looped; falsy defaults were not shown"),
 ("inherit the config of a choice", "C18", "nodes in a choice that is config false could be assigned"),
]
EXTRA = os.path.join(ROOT, "tools", "fixed2.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
log = dict(l.split(" fix: ", 1)[::-1] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h fix: %s", "cef15d5.."], capture_output=True, text=True).stdout.replace("fix: fix: ", "fix: ").splitlines())
out = []
for s, p, w in F:
    out.append("fixed: property=%s %s %s" % (p, log.pop(s), w))
if log:
    print("not recorded:", log)
fp = os.path.join(ROOT, "tools", "findings.json")
find = json.load(open(fp)) if os.path.exists(fp) else []
json.dump({"findings": find, "fixed": out}, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
print(len(out), "fixed", len(find), "findings")
