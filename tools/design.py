import importlib,json,os
ORACLE={
'C01':"set of intervals computed from the ranges (mon/ytypes.IntT), Python integers",
'C02':"lengths counted in characters; a matcher of XSD patterns over its own syntax tree (sets of positions), which shares nothing with Python's re",
'C03':"scaled integers and exact decimals",
'C04':"numbering of RFC 7950 9.6.4.2 and 9.7.4.2 computed from the statements",
'C05':"reachability in the graph of identities",
'C06':"RFC 7950 9.5, 9.8, 9.11; base64 of the standard library",
'C07':"the member models in order; the first that accepts decides value and Python type",
'C08':"each definition has a witness value of its own; the scopes of RFC 7950 5.5 and 7.1 computed by the generator",
'C09':"snapshot of the reference tree before the operation",'C10':"reference tree (mon/model.py)",
'C11':"flags of the reference tree; get() against the reference documents",'C12':"RFC 7950 7.6.1 and 7.3.4 (nearest default)",
'C13':"ordered map from key values to entries",'C14':"ordered map from key values to entries",'C15':"list of distinct values",
'C16':"RFC 7950 7.9: a table of excluded siblings per node",'C17':"presence flags of the reference tree; reference documents",
'C18':"inheritance of config computed from the schema; kind of bindings (backend or not)",
'C19':"reference encoder of the default format; reference tree",'C20':"reference encoder of RFC 7951; reference tree",
'C21':"reference encoder of RFC 7951",'C22':"reference encoder of RFC 7950's XML; reference tree; lxml to parse",
'C23':"reference documents less what the options name; snapshots and identities of all objects before and after",
'C24':"merging function over reference trees, one per format and option",'C25':"the nodes of the reference tree and their paths (mon/xph.py)",
'C26':"evaluation of each query on the reference tree",'C27':"values of the targets in the model at the moment of assignment",
'C28':"the schema tree the YANG text was written from, before mon/restructure.py spread it over groupings, submodules and augmentations",
'C29':"the same schema tree; the same checks on bindings in one file",'C30':"byte equality of what was generated",
'C31':"one reference tree, document set and registry per tree",'C32':"copy of the reference tree",'C33':"table of paths to methods",
'C34':"the statements and metadata that the generator wrote",'C35':"one reference tree per input, output and notification",
'C36':"paths, parents, names and kinds of the reference tree (mon/paths.py)",
'C37':"the fault that was put in: the load must raise, and each node may hold what it held or what the document without fault gives, and nothing else",
}
REACH={
'C01':"values on and beside each boundary of random ranges, every route; a test has a few",
'C30':"hash seeds and directories differ between processes; a test is one process",
'C31':"interleavings of threads at a switch interval of 10 microseconds (not exhaustive)",
}
out=["Every check observes executions of the real code; the level is therefore exploration of random cases: a pass says that no monitor saw a",
"violation in the cases run. Bounds common to all: schemas of up to 60 nodes and depth 3 to 4, up to 6 entries per list, histories of 40 to 90 operations, texts of up to 80 characters.",
"`quick` takes 30 to 100 seconds per check on eight cores, `thorough` about ten times the cases (5 to 20 minutes).","",
"| | what is run and monitored | oracle | cases, quick / thorough |","|---|---|---|---|"]
for i in range(1,60):
    c='C%02d'%i
    try: m=importlib.import_module('mon.props.c%02d'%i)
    except ImportError: break
    rule=m.RULE.split("; distinct =")[0].replace("|","/")
    if m.TITLE: pass
    out.append("| %s | **%s.** %s | %s | %d / %d |"%(c,m.TITLE,rule[len("A case is "):][0].upper()+rule[len("A case is ")+1:] if rule.startswith("A case is ") else rule,ORACLE.get(c,"reference tree"),m.COUNT[0],m.COUNT[1]))
out+=["",
"Why the tests cannot settle these: each is a statement about every schema, value and history, while the project's tests have about a hundred",
"fixed schemas with a few values each, and judge single results. The monitors judge the whole tree after each operation, so that",
"effects in other places (another case of a choice, the order of a list, a flag of an ancestor, the path helper's registry) are seen.","",
"Nothing is listed as not applicable: all properties are about what executions show."]
t="\n".join(out)
p='/verif/DESIGN.md'; s=open(p).read()
import re
s=re.sub(r"## Properties\n.*?\n## What is outside", lambda _: "## Properties\n\n"+t+"\n\n## What is outside", s, flags=re.S)
s=s.replace("| mon/typecheck.py |","""| mon/hist.py | random worlds: a schema, its bindings (of one module, or of four that augment one another, with and without submodules), a Session |
| mon/restructure.py | writes a schema tree as YANG in another way: groupings, refinements, submodules, augmentations, deviations, features |
| mon/xph.py, mon/paths.py | where objects should be in the path helper, and what they should say of themselves |
| mon/typecheck.py |""") if "mon/restructure.py" not in s.split("## Properties")[0] else s
open(p,'w').write(s)
