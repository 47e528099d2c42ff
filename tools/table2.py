DOC_WHY = "For every reachable tree: the tests compare a few fixed trees with stored documents."
prop("C19", "A tree dumped to pyangbind's own JSON gives a document that has exactly what is set, each value as its type is written and list entries in order; loading that document, as text or as an "
     "object, into a new tree of the same bindings gives the same data with the same order and keys that find the same entries.",
     [H, I, PR], "all schemas of one or several modules, all types, and all reachable trees", DOC_WHY,
     [S, J, B], [("the default encoding", S + ":pybindJSONEncoder"), ("loading it", S + ":pybindJSONDecoder.load_json")], DOC_T, DOC_N)
prop("C20", "A tree dumped to RFC 7951 JSON and loaded into a new tree gives the same data, and so does every other valid RFC 7951 document of that data, as text or as an object, whether loaded from the root "
     "or at a node in the tree.",
     [H, I, PR], "all schemas of one or several modules, all types, all reachable trees, and all valid spellings of their documents", DOC_WHY,
     [S, J], [("loading IETF JSON", S + ":pybindJSONDecoder.load_ietf_json"), ("the IETF encoding", S + ":pybindIETFJSONEncoder")], DOC_T, DOC_N)
prop("C21", "RFC 7951 JSON written for a tree has exactly the members and values that RFC 7951 prescribes for what is set: a member is qualified with its module's name exactly where its module differs from its parent's and at the "
     "top; 64-bit integers, decimals, binaries, bits and enums are strings, an empty leaf is [null], identities of other modules are qualified, and entries are in order.",
     [H, I, PR], "all schemas over several modules with augmentations and identities, all types, and all reachable trees", DOC_WHY,
     [S, J], [("names and qualification", S + ":pybindIETFJSONEncoder.generate_element"), ("representation of types", S + ":pybindIETFJSONEncoder.default")], DOC_T, DOC_N)
prop("C22", "XML written for a tree is well formed and has exactly the elements that are set, each in the namespace of the module that defines it, entries and members in order, and identities with prefixes that are declared "
     "where they are used; loading that XML into a new tree, from text or elements, gives the same data.",
     [H, I, PR], "all schemas over several modules with augmentations and identities, all types, all reachable trees", DOC_WHY,
     [S], [("the XML encoding", S + ":pybindIETFXMLEncoder"), ("loading XML", S + ":pybindIETFXMLDecoder")], DOC_T, DOC_N)
prop("C23", "Writing a tree, or a node in it, in any mode and with any options, and reading it in every other way, changes no data, flag or object in it, and gives the same result each time. filter, with_defaults, skip_subtrees and select "
     "leave out exactly what they name; dump, load and load_ietf do with a file what dumps, loads and loads_ietf do with text, and loading leaves the document as it was.",
     [H, I, CF], "all reachable trees and all combinations of options", "The tests write each tree once with one or two sets of options and do not look at the tree again.",
     [J, S, B], [("options of dumps", J + ":dumps"), ("get", B + ":PybindBase.get"), ("files", J + ":dump")], DOC_T + "; invariance monitor on the whole tree around each read", DOC_N)
prop("C24", "Loading a document into a tree that holds data keeps what it does not mention, replaces leaves and (but in XML) leaf-lists, adds entries whose key is new and loads into those whose key is there. "
     "With overwrite, the lists that it mentions, and in pyangbind's JSON the containers, hold nothing else; with skip_unknown, unknown members at any depth are passed over and all else is loaded.",
     [H, I, CF], "all pairs of reachable trees of a schema, in each format and with each option, at the root and at nodes", "The tests load into empty trees, and check overwriting and unknown members at one place.",
     [S], [("merging JSON", S + ":pybindJSONDecoder.load_json"), ("merging IETF JSON", S + ":pybindJSONDecoder.load_ietf_json"), ("merging XML", S + ":pybindIETFXMLDecoder.load_xml")],
     "reference-model monitor: the whole tree against the reference tree with the data merged in", DOC_N)
prop("C32", "A container, list or list entry that is assigned, appended or put under a key becomes a copy that holds all data of the original, with its presence and order, in place of what was there, and neither of the two is affected by later operations on the other.",
     [H, PR], "all schemas, pairs of reachable trees, nodes in them and later histories", "The tests append a few entries and do not look at what happens to the original.",
     [Y, P], [("copying lists and entries", Y + ":YANGListType"), ("copying containers", P + ":get_children")], HIST_T, HIST_N)
PH_T = "reference-model monitor: the registry and every lookup against the reference tree, by identity of objects"
PH_N = "Trees without keyless lists; keys without both kinds of quotes."
prop("C25", "At each moment of a tree's life, refused operations included, the path helper it was given has exactly the leaves, leaf-lists, containers and entries of the tree, with the keys that they have: the path of each of "
     "them yields that very object, and nothing is left of what was removed or replaced, by operations, copies or documents.",
     [H, I, PR], "all schemas, keys and histories with a path helper", "The tests look up a few paths after a few operations.",
     [X, Y], [("registering", X + ":YANGPathHelper.register"), ("unregistering", X + ":YANGPathHelper.unregister"), ("paths of objects", Y + ":YANGDynClass")], PH_T, PH_N)
prop("C26", "A query of the path helper, absolute or relative to a caller, as text or in parts, with or without prefixes and with any of a list's keys as predicates in any form, gives exactly the objects in the tree that it describes. "
     "get_unique gives the one there is and otherwise raises the exception asked for; get_list gives the list.",
     [H, I], "all schemas, trees, keys and paths of the documented form", "The tests make some queries with simple names and keys.",
     [X], [("taking paths apart", X + ":YANGPathHelper._path_parts"), ("building queries", X + ":YANGPathHelper._encode_path"), ("looking up", X + ":YANGPathHelper.get")], PH_T, PH_N)
prop("C27", "With a path helper, a leafref takes exactly the values that the nodes its path leads to have at that moment, in any form, and reads as the value it was given; others are refused with ValueError and change nothing. "
     "One to a single leaf stands for that leaf. Without a path helper or with require-instance false any value is taken; trees with references round-trip in each format.",
     [H, I, PR], "all paths of the documented form, types, unions and typedefs of references, and histories of targets and references", "The tests set a few references to strings right after their targets.",
     [Y, X], [("references", Y + ":ReferenceType"), ("predicates with current()", X + ":YANGPathHelper._encode_path"), ("generation of references", P + ":build_elemtype")],
     "reference-model monitor: each assignment is judged by the values that the targets have in the model, and all references are read after each operation",
     "References without predicates but current(); targets are loaded before references; a single target is not removed while referred to.")

prop("C28", "The bindings have exactly the data nodes that the YANG modules describe, however these are put together - with groupings, refinements, augmentations, submodules, features and deviations - each with its YANG name, namespace, "
     "defining module, config, presence, default, keys and order, under its own attribute, and behaving as such. Names and texts in the modules, whatever they are, yield working code.",
     [H, PR], "all schemas, names and texts, and all ways in which YANG can express a schema", "The tests have one or two modules for each feature of YANG, with simple names, and look at a few of the nodes.",
     [P, B], [("choosing names of classes", P + ":class_name"), ("attributes of nodes", P + ":get_children"), ("elements of nodes", P + ":get_element"), ("safe names", Y + ":safe_name")],
     "reference-model monitor: a random schema tree is printed as YANG in many ways, the bindings are compared with the tree node by node, during histories of operations and by the documents of the result",
     "Siblings whose names differ only in '-', '.' and '_' share an attribute and are left out, as are anydata, anyxml and actions, which are not supported.")

prop("C29", "With --split-class-dir the directory is a package whose modules can each be imported and have the class that the path to the module names; the classes have the same nodes with the same properties as those of one file, "
     "and behave as the schema says, whatever names the nodes and modules have and however many there are of one name.",
     [H, PR], "all schemas, names of nodes and modules, and ways in which YANG can express a schema", "The tests build two small modules with distinct names and look at a few nodes.",
     [P], [("names of packages", P + ":package_path"), ("writing packages", P + ":get_children"), ("imports and types of nodes", P + ":get_element")],
     "reference-model monitor: as for C28, and a comparison of all nodes and places of classes with those of the same schema built as one file",
     "As for C28.")
prop("C30", "What the plugin writes is a function of the modules and the options alone: not of the process's hash seed, locale, working directory, the order of files in directories or what was built before; messages are not part of it.",
     [H], "all schemas and environments", "The tests build each module once, in one environment.",
     [P, Y], [("the order of what is generated", P + ":build_pybind"), ("identities and typedefs", P + ":build_identities")],
     "differential monitor: the text or files of several builds in different processes and environments, byte by byte", "Environments that differ in hash seed, locale, working directory, order of search paths and way of output.")
prop("C31", "Trees in one process do not affect each other: the state, documents and path helper of each tree are those of its own history, however operations on several trees of the same or of other bindings are interleaved, or run in threads of "
     "which each has its own trees.",
     [H, CF], "all schemas, histories and interleavings of operations on different trees", "The tests use one tree at a time, in one thread.",
     [Y, B, S, X], [("class-level state of types", Y + ":RestrictedClassType"), ("lists", Y + ":YANGListType"), ("path helpers", X + ":YANGPathHelper")],
     "reference-model monitor on each tree, under random interleavings and threads with a switch interval of 10 microseconds", "Threads share bindings but no trees; what threads interleave is left to the scheduler.")
prop("C33", "Each node, and each entry of a list, at a path for which extension methods are given has all public methods of the object given for it as its own with an underscore, and no other node has them; a call gets the arguments given, "
     "the path of the node as caller and its path helper, and returns what the method does. Names that nodes have already keep their meaning.",
     [H, PR], "all schemas, paths, objects with methods, and histories", "The tests call two methods of one node.",
     [Y, P], [("adding methods", Y + ":YANGDynClass"), ("handing down extension methods", P + ":get_children")],
     "reference-model monitor: all objects in the tree are asked for all names at moments of a history, and each call is compared with what the method was given", "Methods are given when a tree is made.")
prop("C34", "With --interesting-extension each node has the statements of these modules that stand on it in the schema, with their arguments, and no others; metadata in an IETF JSON document is found on the nodes and entries that it was "
     "written for, and changes nothing else.",
     [H, PR], "all schemas with extension statements, and all documents with metadata on containers, lists, entries and leaves", "The tests look at one extension on two nodes and at metadata of one document.",
     [P, S], [("finding extensions", P + ":get_element"), ("loading metadata", S + ":pybindJSONDecoder.load_ietf_json")],
     "reference-model monitor: all objects in the tree are asked for their extensions and metadata", "Metadata for single values of leaf-lists and for the document itself is not supported, and left out.")
prop("C35", "With --build-rpcs and --build-notifications, each RPC, its input and its output, and each notification of a module has a class under the module's name that acts as a container of its nodes, augmentations included: histories, "
     "documents and errors are those of data trees. None of it is part of the data tree or of the path helper, in which their references look.",
     [H, I, PR], "all schemas with RPCs and notifications, and all histories of these together with the data tree", "The tests set a few leaves of each kind, without lists.",
     [P, Y], [("generation of RPCs", P + ":build_pybind"), ("registering entries", Y + ":YANGListType"), ("classes of inputs and outputs", P + ":get_element")],
     "reference-model monitor: as for C10, C19, C20, C22 and C28 on each class; the registry of the path helper is compared with the data tree after each group of operations",
     "References in RPCs lead to lists in the data tree.")
prop("C36", "At each moment, every node and entry of a tree, copies and what documents made included, gives its own YANG name, kind, namespace, module and config, has the object above it as its parent, and a path of the names and keys that lead to "
     "it: following that path from the root gives the same object, and no object stands in two places.",
     [H, PR], "all schemas of several modules, keys and histories", "The tests look at the paths of a few nodes right after they are made.",
     [Y, P], [("paths", Y + ":YANGDynClass"), ("paths of entries", Y + ":YANGListType"), ("paths of classes", P + ":get_children")],
     "reference-model monitor: all objects in the tree are asked at moments of a history", "Trees without keyless lists; keys without both kinds of quotes.")
prop("C37", "A document - default JSON, IETF JSON or XML - with a member that is not in the schema, a value that its type does not admit, a key that is missing or not the one of its entry, or a leaf in another shape is refused with an "
     "exception, and what the tree then holds is only what the rest of the document said.",
     [I, PR, CF], "all schemas and documents with a fault", "The tests load a few documents with unknown members.",
     [S, Y], [("loading JSON", S + ":pybindJSONDecoder.load_json"), ("loading IETF JSON", S + ":pybindJSONDecoder.load_ietf_json"), ("loading XML", S + ":pybindIETFXMLDecoder.load_xml")],
     "fault injection into documents, with a monitor on the tree after the refusal against the reference model of the document", "Null, empty objects and empty arrays in the place of others, and wrong prefixes of identities and members, are taken; strings take any scalar.")
