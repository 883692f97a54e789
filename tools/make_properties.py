import json
P=[]
def p(id,title,stmt,over,otext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=otext),why_tests_cant=why,
      anchors=dict(files=["src/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("P01","Scalar values survive every text format",
 "For every declared scalar field (booleans, characters, all integer widths up to 128 bits, enumerations and bit masks, bit fields of any width, real and complex floating point, function pointers) and every value it can hold, saving to CINIT, JSON, YAML, XML or SCM and loading the text back gives the same value. Integers, enumerations, bit fields and doubles come back exactly; float and long double come back within the decimal precision the text carries. A printer that the user sets for a type is used for every value of it.",
 ["inputs","programs"],"every scalar type and bit-field width x every bit pattern x every text format",
 "Tests check a fixed set of boundary constants per type; the value space (2^128, every NaN/inf/denormal, every mask) and every bit-field width/offset cannot be listed.",
 ["mr_stringify.c","mr_value.c","mr_load.c","mr_save.c","cinit_save.c","json_save.c","scm_save.c","xml_save.c","yaml_save.c"],
 [("number/enum/bit-field printing","src/mr_stringify.c"),("value parsing and conversion","src/mr_value.c mr_value_cast, src/mr_load.c mr_load_* handlers"),("bit field extraction","src/metaresc.c mr_load_bitfield_value/mr_save_bitfield_value")],
 ["MR_SAVE_<FORMAT> text, MR_LOAD_<FORMAT> result"])
p("P02","Strings and characters of any content survive every text format",
 "For every byte sequence without NUL held in a string, a fixed-size character array or single characters, saving in any text format and loading it back gives exactly the same bytes, whatever quoting or escaping the format needs. A NULL string stays NULL and an empty string stays empty.",
 ["inputs"],"every NUL-free byte string (length 0..n, bytes 1..255) in every string-like field kind x every text format",
 "Tests try a few special strings one at a time; escapes interact with the following characters, so correctness is over all byte sequences.",
 ["cinit_save.c","json_save.c","scm_save.c","xml_save.c","yaml_save.c","yaml_load.c","cinit_load.l","json_load.l","scm_load.l","xml1_load.l","lexer.h","mr_load.c"],
 [("quoting on save","src/*_save.c *_printf_string/char"),("unquoting on load","src/lexer.h, src/*_load.l, src/mr_load.c xml_unquote_string")],
 ["loaded bytes vs saved bytes"])
p("P03","Binary XDR form round-trips any object graph",
 "Saving any object graph built from declared types to XDR and loading it back gives an isomorphic graph: equal values in every serializable field, the same sharing, cycles and NULLs. The produced bytes are consumed completely and exactly by the load. A stream over a growable array obeys the contract of XDR streams: positions, in-place access, truncation.",
 ["inputs","programs"],"every type built from the declaration language x every object graph of it",
 "Tests save a handful of fixed structures; pointer topologies, element counts, 64/128-bit values and stream positions are unbounded.",
 ["xdr.c","mr_save.c","mr_load.c"],
 [("binary encoder/decoder","src/xdr.c"),("cross reference restore","src/mr_load.c mr_set_crossrefs")],["MR_SAVE_XDR_RA bytes, MR_LOAD_XDR_RA result"])
p("P04","Text formats round-trip any object graph, including sharing and cycles",
 "Saving any object graph of declared types to a text format and loading it back gives an isomorphic graph: every object is stored once, pointers to the same object (or inside the same dynamic array, or the same string) are again pointers to one object, distinct objects stay distinct, and cycles, self references and NULLs are restored. Dynamic arrays come back with the element count given by their size field.",
 ["inputs","programs"],"every graph (aliases, cycles, interior and overlapping array pointers, resizable arrays with any kind of size field) of every generated set of types x CINIT/JSON/YAML/XML1/XML2/SCM",
 "Tests use a few hand-made topologies; the reference resolution is a stateful algorithm over visiting order whose result must be right for every topology.",
 ["mr_save.c","mr_load.c","cinit_save.c","json_save.c","scm_save.c","xml_save.c","yaml_save.c","xml2_load.c","yaml_load.c"],
 [("alias detection while saving","src/mr_save.c mr_save_inner/resolve_matched/resolve_pointer"),("reference restore while loading","src/mr_load.c mr_load_pointer/mr_set_crossrefs")],["loaded graph compared by an independent isomorphism walk"])
p("P05","The active union branch is the one its discriminator selects",
 "For every union the saved and restored branch is the one its discriminator designates - by index, by branch name, through enum metadata, through bit fields, structures, arrays or pointers, as adjusted by overrides - and the first branch when there is none; nothing of other branches is read. The same rule governs save, load, copy, compare and hash, wherever in the enclosing hierarchy the discriminator is found and however many unions, reached from however many places, one object has.",
 ["inputs","programs"],"discriminator kinds x positions in the hierarchy x values (valid and not) x overrides x named/anonymous unions",
 "Tests cover fixed discriminator values; caching of the resolution across nodes and shared objects makes the outcome depend on history.",
 ["mr_save.c","mr_load.c","metaresc.c","mr_udo_init.c"],
 [("discriminator resolution and cache","src/mr_save.c mr_union_discriminator, mr_ud_*"),("override tables","src/mr_udo_init.c")],["serialized text, loaded branch content"])
p("P06","Deep copy is equal and disjoint; recursive free releases everything once",
 "A deep copy of any object graph is isomorphic to the original, shares no storage with it, leaves the original unchanged and keeps untouched by later changes to it. Recursively freeing a loaded or copied graph releases every block the library allocated for it exactly once and nothing else.",
 ["inputs","programs"],"every object graph of every generated type set",
 "Tests copy a few structures and rely on valgrind runs; aliasing decides what is allocated and freed, and topologies are unbounded.",
 ["mr_extra.c","mr_save.c","mr_load.c"],
 [("copy","src/mr_extra.c mr_copy_recursively"),("free","src/mr_extra.c mr_free_recursively")],["allocation log through the configurable allocator, isomorphism walk"])
p("P07","Comparison and hash are consistent and see every serializable field",
 "Comparing two object graphs yields zero exactly when they are isomorphic in their serializable content, the order is antisymmetric and transitive, and objects that compare equal have equal hashes. A change of any serializable field is noticed by the comparison, while storage addresses, padding, inactive union bytes and non-serializable fields never influence comparison or hash.",
 ["inputs","programs"],"all pairs/triples of graphs of one type, all single field changes",
 "Laws over pairs and triples of values; tests compare a few fixed pairs.",
 ["mr_extra.c","metaresc.c"],
 [("comparison","src/mr_extra.c mr_cmp_structs"),("hash","src/mr_extra.c mr_hash_struct")],["MR_CMP_STRUCTS, MR_HASH_STRUCT results"])
p("P08","Every indexed collection behaves as the set it stands for",
 "For every kind of indexed collection and every sequence of add, find, delete, enumerate, index and free operations, results agree with an ordinary set: an equal element is found and kept once, deleted elements are gone, enumeration yields each member exactly once, and the count is right.",
 ["histories"],"all operation sequences over all collection kinds, key distributions, sizes and hash qualities",
 "State depends on the whole history (rehash, probe chains, rotations, growth from the small static form); tests run a few fixed sequences.",
 ["mr_ic.c","mr_btree.c"],
 [("collections","src/mr_ic.c"),("trees","src/mr_btree.c")],["mr_ic_* results"])
p("P09","Sorting yields an ordered permutation",
 "Sorting an array of any element type by the library's default order, or by any given consistent order, yields exactly the same elements, ordered.",
 ["inputs"],"all arrays (lengths, duplicates, presortedness, element sizes) x basic and structured types",
 "Input space is unbounded; tests sort a few arrays.",
 ["mr_hsort.c","mr_extra.c","metaresc.c"],
 [("heap sort","src/mr_hsort.c"),("default orders","src/metaresc.c mr_basic_types_sort, mr_generic_sort")],["array before/after"])
p("P10","Any text input is loaded or rejected cleanly",
 "For any text given to any of the text loaders, for any type, the call returns success or failure without crash, hang or access outside its buffers; after failure nothing the loader allocated remains, and after success on a text whose size fields, union discriminators and (absence of) references agree with each other, the result is a well formed object that can be saved again, copied and freed.",
 ["inputs"],"arbitrary and mutated texts x all text formats x target types",
 "The input space is all strings; tests list a few malformed ones.",
 ["mr_load.c","mr_value.c","lexer.h","cinit_load.l","cinit_load.y","json_load.l","json_load.y","scm_load.l","scm_load.y","xml1_load.l","xml1_load.y","xml2_load.c","yaml_load.c"],
 [("parsers","src/*_load.[ly], src/xml2_load.c, src/yaml_load.c"),("tree to object","src/mr_load.c")],["return status, sanitizer, allocation log"])
p("P11","Any XDR input is loaded or rejected cleanly",
 "For any byte sequence given to the XDR loader, for any type, the call returns success or failure without crash, hang or access outside its buffers; after failure nothing it allocated remains, and after success on a stream without references whose sizes and discriminators agree with each other the result is a well formed object that can be saved again, copied and freed.",
 ["inputs"],"arbitrary, truncated and mutated byte streams x target types",
 "All byte strings; tests only truncate a few valid streams.",
 ["xdr.c","mr_load.c"],[("decoder","src/xdr.c")],["return status, sanitizer, allocation log"])
p("P12","Running out of memory at any point fails cleanly",
 "If any single allocation, or every allocation from some point on, fails during save, load, copy, release, compare, hash or a collection operation (once the type tables are built), the operation reports failure (or gives the complete correct result), corrupts nothing, and everything it had allocated is released or still owned by a valid object.",
 ["fault_sequences","inputs"],"every allocation index x operation x format x object graph",
 "The existing memory failure test does this for the fixed objects of the test programs; failure points depend on the graph.",
 ["metaresc.c","mr_save.c","mr_load.c","xdr.c","mr_ic.c","mr_extra.c","yaml_save.c","xml_save.c"],
 [("error unwinding","src/mr_save.c mr_save, src/mr_load.c mr_load, src/xdr.c")],["allocation log, return values"])
p("P13","Built-in XML text equals the libxml2 text",
 "For every object the built-in XML serializer produces byte for byte the document libxml2 produces for it, and each of the two XML loaders restores the same object from either text.",
 ["inputs","programs"],"every object graph of every generated type set",
 "The README promises a full match; tests compare a few documents.",
 ["xml_save.c","xml1_load.y","xml1_load.l","xml2_load.c"],
 [("built-in writer","src/xml_save.c mr_xml1_save"),("libxml2 tree","src/xml_save.c mr_xml2_save")],["two texts, loaded objects"])
p("P14","All formats describe the same object and re-saving is stable",
 "Loading the forms of one object in all formats gives equal objects, and saving a restored object again in any format reproduces exactly the text or bytes it came from.",
 ["inputs","programs"],"every object graph of every generated type set x every pair of formats",
 "Needs agreement over all objects, not over samples.",
 ["mr_save.c","mr_load.c","mr_stringify.c"],
 [("common graph representation","src/mr_save.c, src/mr_load.c")],["texts of original and restored object"])
p("P15","C-style literals and constant expressions evaluate as in C",
 "Numbers, characters, strings, enumeration names and arithmetic/bitwise expressions accepted by the initializer and Lisp-like loaders evaluate to the mathematical value of the literal or expression, and division by zero or malformed expressions are rejected with failure.",
 ["inputs"],"all literals (decimal, octal, hex, binary, suffixes, floats, char escapes) and expression trees",
 "Grammar of expressions is infinite; tests evaluate a dozen.",
 ["cinit_load.l","cinit_load.y","scm_load.l","scm_load.y","json_load.y","mr_value.c","metaresc.c"],
 [("expression evaluation","src/cinit_load.y, src/scm_load.y, src/mr_value.c"),("integer scanning","src/metaresc.c mr_strtouintmax")],["loaded value vs reference evaluator"])
p("P16","Reflection metadata describes the compiled types exactly",
 "For every declared type the run-time descriptors give the compiler's own sizes, offsets, dimensions, bit positions, kinds, enumeration values and texts, in declaration/offset order, and every type, field and enumeration value is found by its name or value and nothing else is.",
 ["programs"],"all type declarations accepted by the macro language",
 "Quantifies over user type declarations; tests have fixed ones.",
 ["metaresc.c","metaresc.h","mr_protos.h"],
 [("descriptor construction","src/metaresc.c mr_conf_init, mr_normalize_*"),("lookup","src/metaresc.c mr_get_td_by_name/mr_get_fd_by_name/mr_get_enum_by_*")],["type descriptors vs sizeof/offsetof"])
p("P17","Serialization never alters its source and is repeatable",
 "Saving, hashing, comparing, printing or copying an object leaves every byte reachable from it unchanged, releases all internal memory, and repeating the call - also after other types and objects were processed, with or without the cache of function names - gives the identical result.",
 ["inputs","histories"],"every object graph x every read-only operation x call histories",
 "Caches (function names, discriminators, type lookup) make results depend on history; tests call each once.",
 ["mr_save.c","mr_extra.c","mr_stringify.c","metaresc.c"],
 [("graph construction","src/mr_save.c mr_save")],["memory snapshot before/after, texts, allocation log"])
p("P18","Growable buffers and printing keep exact contents and counts",
 "Every sequence of appends and formatted prints to a growable buffer leaves exactly the concatenation of what was written and reports the right sizes, duplicates of strings and of their parts are exact, and printing values or objects to a stream writes the expected text and returns the number of bytes written.",
 ["histories","inputs"],"all sequences of sizes/formats, all printable value kinds",
 "Growth boundaries depend on cumulative sizes; tests use few sizes.",
 ["metaresc.c","mr_print.c","mr_stringify.c","metaresc.h"],
 [("growth","src/metaresc.c mr_rarray_append, mr_rarray_allocate_element, mr_ra_printf"),("printing","src/mr_print.c mr_print_value")],["buffer bytes, stream bytes, return values"])
p("P19","CINIT text is a valid C initializer for the same value",
 "The CINIT text of any object without shared parts, function pointers and pointers to void (whose values C has constants for) compiles as the initializer of a variable of its type with the C compiler and initializes it to the same value.",
 ["inputs","programs"],"every reference-free object of every generated type set",
 "Needs a compiler as an oracle over generated values; tests only reload the text with the library's own parser.",
 ["cinit_save.c","mr_stringify.c"],[("C text","src/cinit_save.c")],["gcc result vs original object"])
p("P20","JSON, YAML and XML texts are well formed for standard parsers",
 "The text produced for any object is accepted by an independent standard parser of that format (YAML: the grammar, aliases unresolved), and what that parser sees - member names, order, nesting, strings and numbers - is the content of the object.",
 ["inputs","programs"],"every object graph of every generated type set",
 "Tests read the text back with the library's own parsers, which may share the writer's mistakes.",
 ["json_save.c","yaml_save.c","xml_save.c"],[("writers","src/json_save.c, src/yaml_save.c, src/xml_save.c")],["independent parse tree vs object"])
p("P21","Reading XML documents from a stream splits them exactly",
 "Reading from a stream that holds any sequence of XML documents yields each document's text in turn, nothing lost, merged or duplicated, and reports the end or a malformed document without reading outside its buffers.",
 ["inputs","histories"],"sequences of documents x content x buffer positions x truncation",
 "Depends on positions across internal buffer boundaries.",
 ["metaresc.c"],[("document scanner","src/metaresc.c mr_read_xml_doc")],["returned texts"])
p("P22","Search trees stay ordered and balanced after any history",
 "After every sequence of insertions and deletions the red-black and AVL trees are correctly ordered search trees whose height and colouring/balance obey their definitions, and in-order traversal visits exactly the members in order.",
 ["histories"],"all insertion/deletion sequences",
 "Rebalancing cases depend on history; tests check shapes for few insert-only sequences.",
 ["mr_btree.c"],[("rebalancing","src/mr_btree.c mr_rbtree_*, mr_avltree_*")],["independent walk of the node pool"])
p("P23","Arrays of every shape are stored element for element",
 "Fixed arrays of one to four dimensions of any shape (also with zero or unequal extents) of any element type, arrays limited by a size field and dynamic arrays are saved, restored, copied, compared and hashed element for element, in order, within their bounds.",
 ["inputs","programs"],"dimensions x extents x element types x used sizes",
 "Tests use small square arrays; index arithmetic must be right for all shapes.",
 ["mr_save.c","mr_load.c","xdr.c","metaresc.c"],[("array walk","src/mr_save.c mr_save_array, src/mr_load.c mr_load_array, src/xdr.c")],["loaded arrays"])
p("P24","Loading follows member names and positions, not layout accidents",
 "Named members may appear in any order and may be omitted (omitted ones are zero), positional members fill fields in declaration order, white space, comments and equivalent spellings do not matter; sizes of dynamic arrays follow from their elements; unknown members, excess elements of arrays, excess positional members and words where numbers are expected are refused with failure. Fields declared non-serializable, also at run time, are not in the texts and loading leaves them zero.",
 ["inputs"],"all permutations, omissions and equivalent spellings of the texts of all objects",
 "Space of equivalent texts is unbounded; tests load the canonical ones.",
 ["mr_load.c","cinit_load.y","json_load.y","scm_load.y","xml1_load.y","xml2_load.c","yaml_load.c"],
 [("member lookup","src/mr_load.c mr_load_struct_inner, mr_load_array")],["loaded object, status"])
p("P25","Debug-information types match declared types",
 "Type descriptors generated from a program's debug information describe the same types, with the same behaviour, as descriptors written with the declaration language.",
 ["programs"],"all C type definitions compiled with debug information",
 "Quantifies over programs and compilers.",
 ["mr_dwarf.c","metaresc.c"],[("debug information reader","src/mr_dwarf.c")],["descriptor comparison"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
