"""What each check runs."""
BASE = ["pbt.c", "mem.c", "model.c", "common.c"]
PROGRAMS = {
    "graph": {"sources": BASE + ["props_graph.c", "props_graph2.c", "props_scalars.c", "props_known.c", "props_oom.c", "props_big.c"], "schemas": (2, 5)},
    "text": {"sources": BASE + ["props_text.c", "props_expr.c", "props_robust.c", "props_layout.c", "props_wellformed.c", "props_cinit.c"], "schemas": (1, 3), "declarations": True},
    "misc": {"sources": BASE + ["props_misc.c", "props_more.c", "props_context.c"], "schemas": (0, 0)},
    "reflect": {"sources": ["pbt.c", "props_reflect.c"], "reflect": (40, 150)},
    "coll": {"sources": BASE + ["props_coll.c"], "schemas": (0, 0)},
}
TRUST = "trusted: gcc, AddressSanitizer, glibc, libtirpc, libxml2, libyaml and the harness's own model of types"
GRAPH_RULE = ("a case is a type (fixed schema with every feature of the declaration language, or a random schema derived from the seed) and an "
              "object graph of it (values, NULLs, shared objects, interior pointers, cycles, dynamic arrays, unions); it is non-trivial when the graph has "
              "at least three distinct leaf cells that are not zero; distinct by a hash of type and content that ignores addresses")
CHECKS = {
    "P03": {"level": "exploration", "rule": GRAPH_RULE, "note": "random and fixed types x generated graphs; absence of failures is evidence, not proof", "parts": [
        {"prog": "graph", "prop": "P03", "quick": 200000, "thorough": 4000000, "what": "save to XDR (array and stream), load, compare with the model's isomorphism, re-save, exact consumption, truncation"}],
        "assumptions": [TRUST]},
    "P04": {"level": "exploration", "rule": GRAPH_RULE, "note": "random and fixed types x generated graphs; absence of failures is evidence, not proof", "parts": [
        {"prog": "graph", "prop": "P04", "quick": 240000, "thorough": 5000000, "what": "save to CINIT, JSON, YAML, XML1, XML2 or SCM, load, compare with the model's isomorphism"}],
        "assumptions": [TRUST, "float and long double are compared within the precision the text carries", "nodes of NaN complex numbers are equal when both are NaN"]},
}
NOTE = "random and fixed types x generated graphs; absence of failures is evidence, not proof"
GRAPH = {
    "P01": (120000, "objects of scalars (all types, every bit field width) and bare scalars, through each text format in turn"),
    "P02": (300000, "strings, character arrays and characters with any bytes, through each text format"),
    "P05": (150000, "round trips, copies, comparison, hash and free of objects with unions; only the selected branch counts"),
    "P06": (400000, "copy, independence, disjoint storage, copies of copies and of loaded objects, exact release"),
    "P07": (80000, "reflexivity, symmetry, transitivity of comparison, equality and hash against the model on families of near objects"),
    "P13": (80000, "texts of both XML writers are equal, each loader takes both texts to equal objects"),
    "P14": (60000, "equal objects have equal forms in every format; forms of restored objects do not change; formats agree"),
    "P17": (200000, "sequences of saves, prints, hashes, copies in random order: sources are not altered, results repeat, settings do not change"),
    "P23": (120000, "arrays of every shape: fixed, multi-dimensional, pointers to them, dynamic with own, shared, VOID and limiting sizes"),
}
for _id, (_n, _what) in GRAPH.items():
    CHECKS[_id] = {"level": "exploration", "rule": GRAPH_RULE, "note": NOTE, "parts": [{"prog": "graph", "prop": _id, "quick": _n, "thorough": 20 * _n, "what": _what}], "assumptions": [TRUST]}
BIG_RULE = "; a big object (chain, text, arrays of up to thousands of elements) is non-trivial when it has at least 100 elements and characters in total, distinct by its sizes and seed"
for _id, _n, _what in (("P03", 3000, "big objects through XDR"), ("P04", 2400, "big objects through text formats"), ("P06", 1200, "copies of big objects; a change of one element is seen by comparison")):
    CHECKS[_id]["parts"].append({"prog": "graph", "prop": _id + "-big", "quick": _n, "thorough": 30 * _n, "what": _what})
    CHECKS[_id]["rule"] += BIG_RULE
TEXT_NOTE = "generated and mutated texts; absence of failures is evidence, not proof"
CHECKS["P15"] = {"level": "exploration", "note": TEXT_NOTE, "assumptions": [TRUST, "expressions whose value is not defined by C (overflow, divisor within the rounding error of zero) are left out",
                                                                             "numbers with a fraction are compared within accumulated rounding error"],
    "rule": ("a case is a text of an expression (operators, parentheses, literals of all kinds, enumerators, comments, white space, or a broken sequence of tokens) "
             "or of a literal; non-trivial: an expression with at least two operations, a string of more than three characters, any character or number; distinct by text and target"),
    "parts": [
        {"prog": "text", "prop": "P15-expressions", "quick": 2500000, "thorough": 60000000, "what": "CINIT expressions against an independent parser with C's grammar and an evaluator; broken ones have to be refused"},
        {"prog": "text", "prop": "P15-literals", "quick": 1000000, "thorough": 20000000, "what": "strings, characters and numbers in random equivalent spellings of each format"}]}
CHECKS["P24"] = {"level": "exploration", "note": TEXT_NOTE, "assumptions": [TRUST, "objects without sharing, cycles and void pointers (their texts are the matter of P04)"],
    "rule": ("a case is a text of an object written by the harness: members permuted, omitted or given by position, sizes of arrays omitted, arbitrary white space, comments and equivalent spellings of values; "
             "one in four carries one mistake (unknown member, an element or a positional member too many, a word that is no number) and has to be refused; "
             "non-trivial: members moved, omitted or given by position, or a refused text; distinct by text and format"),
    "parts": [{"prog": "text", "prop": "P24", "quick": 400000, "thorough": 10000000, "what": "texts in free layout in all six formats against the model of the object"}]}
ROBUST_NOTE = "generated, mutated and spliced inputs under AddressSanitizer and a tracking allocator; absence of failures is evidence, not proof"
CHECKS["P10"] = {"level": "exploration", "note": ROBUST_NOTE, "assumptions": [TRUST, "the state of an object after success is examined (saved, copied, freed) only when the text has no references and its sizes and discriminators agree"],
    "rule": ("a case is a text (valid for a generated object, mutated by bytes, tokens, subtrees, splices with other texts and dictionary words, or random) and a type and a loader; "
             "non-trivial: more than 10 bytes; distinct by text, loader and type; labels count accepted, refused and examined ones"),
    "parts": [{"prog": "text", "prop": "P10", "quick": 250000, "thorough": 8000000, "what": "six loaders: status, sanitizer, memory left after failure, state after success"}]}
CHECKS["P11"] = {"level": "exploration", "note": ROBUST_NOTE, "assumptions": [TRUST, "the state of an object after success is examined only when the stream has no references and its sizes and discriminators agree"],
    "rule": ("a case is a byte stream (valid for a generated object, mutated by words, truncations, splices, or random), a type and a kind of stream; "
             "non-trivial: more than 8 bytes; distinct by bytes and type; labels count accepted, refused and examined ones"),
    "parts": [{"prog": "text", "prop": "P11", "quick": 600000, "thorough": 20000000, "what": "XDR loader from memory and resizable arrays: status, sanitizer, memory left after failure, state after success"}]}
COLL_NOTE = "generated histories against a reference set and an independent walk of the node pools; absence of counterexamples is evidence, not proof"
CHECKS["P08"] = {"level": "exploration", "note": COLL_NOTE, "assumptions": [TRUST, "the unsorted array stores what it is given: it gets no equal keys"],
    "rule": ("a case is a kind of collection, a comparison with a hash of some quality, and a history of up to some hundreds of operations (add, find, delete, enumerate, re-index, free) over small or wide sets of keys; "
             "non-trivial: at least 3 operations other than look-ups in a set that had at least 2 members; distinct by history"),
    "parts": [{"prog": "coll", "prop": "P08", "quick": 120000, "thorough": 2000000, "what": "all kinds of indexed collections against a set"},
              {"prog": "coll", "prop": "P08-big", "quick": 2000, "thorough": 60000, "what": "long histories of collections of up to 65536 keys against a set"}]}
CHECKS["P09"] = {"level": "exploration", "note": COLL_NOTE, "assumptions": [TRUST, "NaN has no place in an order: arrays have none"],
    "rule": ("a case is an array (random, sorted, reversed, organ pipe, few distinct values) of a basic type, of structures or of raw elements of any size, and an order; "
             "non-trivial: at least 3 elements; distinct by content"),
    "parts": [{"prog": "coll", "prop": "P09", "quick": 90000, "thorough": 2000000, "what": "heap sort, sorting of basic and structured types: ordered permutation"}]}
CHECKS["P22"] = {"level": "exploration", "note": COLL_NOTE, "assumptions": [TRUST],
    "rule": ("a case is a kind of search tree and a history of insertions and deletions in some pattern (random, ascending, descending, alternating, delete-all); "
             "non-trivial: at least 5 operations and at least 3 members at once; distinct by history"),
    "parts": [{"prog": "coll", "prop": "P22", "quick": 300000, "thorough": 10000000, "what": "order, height, colours and balance after every operation by an independent walk"},
              {"prog": "coll", "prop": "P22-big", "quick": 8000, "thorough": 300000, "what": "long histories of trees of up to 65536 keys, walked after every phase"}]}
CHECKS["P12"] = {"level": "fault_enumeration", "note": "faults are injected at every allocation of small operations and at evenly spread ones of big operations; graphs are sampled", "assumptions": [TRUST,
        "allocations are those of the memory functions of the library (mr_conf.mr_mem); libxml2 and libyaml use their own", "type tables are built before the first fault: initialization has no way to report a failure",
        "comparison and hashing have no way to report a failure: they must not crash, leak or alter objects"],
    "rule": ("a case is an object graph (or a history of a collection), an operation, and single or persistent failures: the operation is repeated with each allocation index failing; "
             "non-trivial: at least 5 faults were injected, or the object has at least three distinct leaf cells that are not zero (a history: at least 3 mutations in a set that had at least 2 members); distinct by object, operation and mode"),
    "parts": [{"prog": "graph", "prop": "P12", "quick": 40000, "thorough": 1500000, "what": "save, load, copy, free, compare, hash, print: complete result or clean failure at every allocation"},
              {"prog": "coll", "prop": "P12-coll", "quick": 40000, "thorough": 1000000, "what": "histories of collections with failing allocations against a set"}]}
MISC_NOTE = "generated histories and inputs against a byte-exact reference; absence of counterexamples is evidence, not proof"
CHECKS["P18"] = {"level": "exploration", "note": MISC_NOTE, "assumptions": [TRUST, "texts of serialized values within prints are those of the writers (P01..P04 decide these)"],
    "rule": ("a case is a history of appends to one buffer (raw, characters, strings, quoted strings, 13 print forms; also without memory), a sequence of prints to one stream, or one message; "
             "non-trivial: at least 3 successful appends and a reallocation, at least 2 prints, or a message with arguments of 6 characters in total; distinct by content"),
    "parts": [{"prog": "misc", "prop": "P18-buffers", "quick": 200000, "thorough": 6000000, "what": "content, size, allocated size and geometric growth of resizable arrays after each step"},
              {"prog": "misc", "prop": "P18-dup", "quick": 100000, "thorough": 2000000, "what": "duplicates of strings and of limited parts of them"},
              {"prog": "misc", "prop": "P18-print", "quick": 300000, "thorough": 8000000, "what": "MR_FPRINT of values of every basic type, pointers, arrays, serialized objects: stream content and returned counts"},
              {"prog": "misc", "prop": "P18-messages", "quick": 200000, "thorough": 4000000, "what": "messages: text by identifier, handler, level filter"}]}
CHECKS["P21"] = {"level": "exploration", "note": MISC_NOTE, "assumptions": [TRUST, "documents have a declaration and elements, no comments, sections of CDATA and unescaped > in character data (the writers of the library make none)"],
    "rule": ("a case is a stream of 1 to 6 XML documents (generated or written by the library), whole, truncated, followed by other data, with a zero byte or damaged; "
             "non-trivial: at least 3 elements in total; distinct by content"),
    "parts": [{"prog": "misc", "prop": "P21", "quick": 150000, "thorough": 4000000, "what": "each document in turn, exact extent, nothing behind it is consumed; clean end"}]}
CHECKS["P20"] = {"level": "exploration", "rule": GRAPH_RULE, "note": NOTE, "assumptions": [TRUST, "what a standard parser is: RFC 8259 for JSON (duplicate names refused, codes up to ff), events of libyaml, documents of libxml2",
        "float and long double are compared within the precision the text carries", "the content is compared for objects without references; with them, texts have to be well formed and references have to address one node each",
        "control characters in XML and resolution of YAML aliases are known findings"],
    "parts": [{"prog": "text", "prop": "P20", "quick": 400000, "thorough": 10000000, "what": "JSON, YAML, XML1, XML2 texts through independent parsers against the model's tree of the object"}]}
CHECKS["P19"] = {"level": "exploration", "rule": GRAPH_RULE.replace("a case is a type", "a case is 1 to 24 pairs of a type").replace("; it is non", "; all texts of a case are compiled by gcc as initializers and the variables are compared with the objects; it is non").replace("the graph has", "one of the graphs has"),
    "note": NOTE, "assumptions": [TRUST, "C has no literals for NaN, infinity and integers over 64 bits: objects have none", "pointers have no sharing, function pointers and pointers to void are NULL (their texts are not C)",
        "long double is compared within the precision of double and unnamed anonymous unions directly follow a member with a text: known findings"],
    "parts": [{"prog": "text", "prop": "P19", "quick": 8000, "thorough": 200000, "what": "CINIT texts compiled by gcc -std=gnu11, initialized variables against the objects"}]}
NOT_APPLICABLE = {
    "P25": "the generator of descriptors from DWARF (mr_dwarf.c) needs libdwarf, which is not installed: the code can not be built or run in this sandbox",
}
CHECKS["P16"] = {"level": "exploration", "note": "generated declarations and look-ups; absence of counterexamples is evidence, not proof", "assumptions": [TRUST,
        "facts about layout are those of gcc (sizeof, offsetof, stores to bit-fields)", "a VOID bit-field has no place in C that could be compared"],
    "rule": ("a case is one type of a few hundred declared in every form of the macro language (structures, unions, anonymous unions, bit-fields, arrays, functions, enumerations, external types, "
             "attributes, meta texts, resources; a third of files is compiled twice as a shared header is), a sequence of look-ups of existing, mutated and absent names and values, or a basic type; "
             "non-trivial: a type with at least 3 members, a sequence with both found and not found names; distinct by type or sequence"),
    "parts": [{"prog": "reflect", "prop": "P16", "quick": 2500000, "thorough": 50000000, "what": "descriptors against sizeof, offsetof, enumerators and stores computed by the compiler; look-ups"}]}
CHECKS["P03"]["parts"] += [{"prog": "misc", "prop": "P03-stream", "quick": 400000, "thorough": 10000000, "what": "XDR streams over resizable arrays against xdrmem of libtirpc: positions, inline access, sizes, truncation"},
                           {"prog": "misc", "prop": "P03-opaque", "quick": 150000, "thorough": 4000000, "what": "opaque data (mr_opaque_data) in structures through XDR"}]
CHECKS["P03"]["rule"] += "; a sequence of operations on a stream is non-trivial with what it stored, distinct by its bytes"
CHECKS["P17"]["parts"].append({"prog": "misc", "prop": "P17-functions", "quick": 10000, "thorough": 300000, "what": "texts of function pointers do not depend on the cache of resolved names"})
CHECKS["P24"]["parts"].append({"prog": "misc", "prop": "P24-void", "quick": 100000, "thorough": 3000000, "what": "fields made non-serializable at run time (mr_type_void_fields) are left out of texts and of the copies"})
CHECKS["P05"]["parts"].append({"prog": "misc", "prop": "P05-context", "quick": 40000, "thorough": 1000000, "what": "objects with unions reached from several contexts whose outer discriminators agree or differ"})
CHECKS["P01"]["parts"].append({"prog": "graph", "prop": "P01-formats", "quick": 150000, "thorough": 4000000, "what": "user-defined output formats (mr_conf.output_format) print every value of their type, and texts round trip"})
