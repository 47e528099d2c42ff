F += [
 ("build the restrictions of a type once", "C01", "a chain of typedefs with restrictions took exponential time and memory"),
 ("qualify an identity with the name of its module, however it was set", "C21", "an identity set with a prefix was written with that prefix, or without its module"),
 ("declare the prefixes of identities where XML uses them", "C22", "identities in XML had prefixes that were not declared"),
 ("tell apart choices that have the same name", "C16", "setting a node of one choice removed data of another choice of the same name, of another module or nested in it"),
 ("skip subtrees in IETF JSON and within lists", "C23", "skip_subtrees had no effect in IETF JSON, where top-level names are qualified, nor within lists, where it could fail with TypeError"),
 ("select by the nodes that another module adds", "C23", "select by a leaf in a container that another module adds failed with KeyError in IETF JSON"),
 ("keep the file when the tree cannot be written to it", "C23", "dump emptied the file before it knew that the tree can be written"),
 ("encode the entries of a list that is serialised by itself", "C21", "IETF JSON of a list by itself had 64-bit integers as numbers and identities unqualified"),
 ("names with a dot in the predicates of a path", "C25", "entries of a list with a key called e.g. if.name could not be added to a tree with a path helper"),
 ("refer to list entries by the values of their keys, in any form", "C10", "lists keyed by bits lost their entries when copied, binary keys that are not text were taken for each other, keys in another form (1.0 for 1.00) were not found and then refused as duplicates"),
 ("strings in paths end with the quote they start with", "C26", "a path with a double quote, slash or bracket in a single-quoted key was taken apart wrongly"),
]
F += [
 ("references in unions", "C27", "bindings with a union that contains a leafref could not be instantiated when built with --use-xpathhelper"),
 ("references take the value of a node that is set, in any form", "C27", "a leafref accepted the value that an unset target would have (0, an empty string), and refused values in another form than that of the target"),
 ("a reference to a leaf of list entries is none to the only entry there is", "C27", "setting a leafref to a leaf of entries changed that leaf when the list had one entry, and the leafref could not be read once it had two"),
 ("compare references by their values", "C27", "values could not be found in or removed from leaf-lists of leafrefs, and a leafref could not be given another"),
 ("the values of leaf-lists of references are unique", "C27", "a leaf-list of leafrefs held the same value twice"),
 ("a leaf that is not set equals nothing in the predicates of paths", "C27", "a predicate with current() took the value that an unset leaf would have"),
 ("references that are not checked hold different values as such", "C27", "True and 'false' were the same in leaf-lists of leafrefs without a path helper"),
 ("classes of different containers and lists have different names", "C28", "the classes of /a/b/x and /a-b/x had the same name, and one of the two had the nodes of the other"),
]
F += [
 ("split classes whose names collide with others or with the code's own", "C29", "top-level nodes of one name in two modules overwrote each other's packages, and containers called e.g. args or int broke those around them"),
 ("messages are not written among the bindings", "C30", "messages about the modules were written to standard output, among the bindings when these were"),
 ("extension methods with the names of what containers have already", "C33", "an extension method called path or set made every tree fail with ValueError"),
 ("an extension method named method does not hide the others", "C33", "with an extension method called method the node had no others"),
 ("entries of the lists of RPCs and notifications are not registered", "C35", "entries could not be added to lists of RPCs and notifications with a path helper: XPathError"),
 ("RPCs, inputs, outputs and notifications are containers", "C35", "inputs and outputs were leaves: setting unknown names on them was taken silently"),
 ("a JSON list entry with another key leaf than the key it is under is refused", "C37", "load_json of {\"l\": {\"1\": {\"k\": 2}}} gave a list with an entry 1 whose key leaf is 2"),
 ("containers without children are containers to the serialisers", "C37", "load_json of anything into a presence container without children was taken silently"),
    ("values of empty and identityref are serialised as such behind typedefs", "C21", "a leaf whose type is a typedef of empty is true in IETF JSON and [null] is refused on load; identities of other modules behind typedefs are not qualified in IETF JSON and have no namespace in XML, and qualified ones are refused as keys or kept as written"),
    ("a reference to an identity takes it with any of its prefixes", "C27", "a leafref to an identityref refuses the qualified name of an identity that its target has, also when a document that pyangbind wrote is loaded"),
    ("references to identities are written as identities of their own module", "C27", "leafrefs and leaf-lists of leafrefs to identities of another module are written without the module's name, or by the module of the target, and with undeclared prefixes in XML"),
    ("identities of one name in several modules are told apart when documents are loaded", "C20", "of two identities of one name, from different modules, loading IETF JSON or XML kept the bare name, which stands for another"),
    ("the canonical form of decimal64 zero has no sign", "C21", "-0.0 was written as such in IETF JSON"),
]
