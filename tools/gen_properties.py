#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
HH='include/GenericContainer/GenericContainer.hh'
CC='src/GenericContainer.cc'
PR='src/GenericContainerPromote.cc'
SE='src/GenericContainerSerialize.cc'
SU='src/GenericContainerSupport.cc'
TA='src/GenericContainerTables.cc'
CO='src/GenericContainerCollapse.cc'
CI='src/GenericContainerInterface_C.cc'
TESTS="The 21 examples are judged by exit status only and build a handful of fixed containers; "
P=[]
def add(id,title,statement,over,text,why,files,mech,**kw):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    a.update(kw)
    P.append({'id':id,'title':title,'statement':statement,
      'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

add('C01','A stored value is read back exactly, under its own type only',
 "A value of any supported type (pointer, boolean, integer, long, real, complex, string, the vectors of these, integer/long/real/complex matrices, generic vector, map) stored through any setter, constructor or assignment is returned bit for bit by the matching readers, with the matching type tag, type name, and element, row and column counts, until it is modified. "
 "Reading it as a type it is not (and that is not a documented numeric widening) throws and leaves the stored value unchanged.",
 ['inputs','histories'],"all values of all 20 types including extreme numbers, empty and huge-ish vectors, strings with any bytes, stored by every setter/constructor/assignment over any previous content, then read by every reader",
 TESTS+"they never check a reader against every previous content, nor extreme values, nor that a refused read leaves the value alone.",
 [HH,CC],[('setters, constructors and assignment operators',HH),('ck/ck_or_set type checks, typed getters',CC),('get_num_elements/num_rows/num_cols/get_type_name',CC)])
add('C02','Copies are complete and independent; assignment replaces everything',
 "Copying a container (copy construction, assignment from a container, load, conversion to/from another container) yields a container with the same full contents, and no later change to either one is visible through the other. "
 "Whatever the target held before is gone afterwards, including when the source is a part of the target, the target is a part of the source, or both are the same object.",
 ['inputs','histories'],"all source trees, all previous target contents, all aliasing relations between the two, and any later mutations of either",
 TESTS+"assignments over non-empty targets and aliasing assignments are not exercised.",
 [HH,CC],[('operator=, copy constructor, load, from_gc, to_gc',CC),('set_vec_* copying',CC)])
add('C03','No use of the C++ API corrupts or leaks memory',
 "No sequence of calls of the C++ container interface on live containers, whether the calls succeed or throw, reads or writes memory outside live objects, reads uninitialised values, executes undefined behaviour or hangs. "
 "When the last container goes away all memory owned by containers has been released exactly once.",
 ['histories','inputs'],"all interleavings of setters, getters, element access, push, promotion, conversion, copy, merge, collapse, erase, compare, print and clear over all container states",
 TESTS+"no sanitizer is used and each example runs one fixed history.",
 [HH,CC,PR,CO,SU],[('tagged union ownership: allocate_*/clear',CC),('promotion re-allocations',PR),('collapse re-allocations',CO)])
add('C04','Promotion and push keep every value and its order',
 "Widening a container (explicit promotion to a wider scalar, vector, matrix or generic vector, or an implicit promotion by push or by a non-const reader) keeps every element, in order, with the same numeric value in the new representation; push appends exactly the pushed value at the end. "
 "A promotion that is not a widening throws and leaves the container as it was.",
 ['inputs','histories'],"all source types and contents against all promotion targets and push operations, singly and in chains",
 TESTS+"only a few promotions from one or two source types are run and the results are printed, not compared.",
 [PR,CC],[('promote_to_*',PR),('push_*',CC),('get_vec_*/get_mat_* non-const promotion',CC)])
add('C05','Numeric reads convert exactly or fail; they never wrap or truncate',
 "Reading a stored number (or numeric vector, matrix or generic vector of numbers) through a converting reader as a signed or unsigned integer type yields exactly the same number or reports failure; as a floating or complex type it yields the nearest representable value of the stored number (a subnormal may count as zero). "
 "A failed optional read reports it and leaves the caller's output variable untouched, and a failed read never changes the container.",
 ['inputs'],"all stored numeric values (all type limits, fractions, infinities, complex with and without imaginary part, numeric strings absent) against all converting readers",
 TESTS+"conversions are called on in-range small values only.",
 [HH,CC],[('get_value/get_as_int/uint/long/ulong/get_number*',CC),('get_if_exists',CC),('copyto_vec_*/copyto_mat_*',CC)])
add('C06','Maps behave as key-to-value dictionaries for every key',
 "A container used as a map behaves as a dictionary ordered by key, for keys of any bytes: insertion, replacement, erase, existence tests, single-key, multi-key (first present wins) and path look-ups, listing of keys, and typed look-ups agree with the history of modifications. "
 "A look-up that must not create (const access, call-style access, existence test, typed get, required-keys check) never adds a key; on a missing key or wrong kind of container it throws or reports absence.",
 ['histories','inputs'],"(typed real/complex-vector look-ups by key on a narrower vector may widen it in place: known finding) all histories of map operations and all keys (empty, numeric, with NUL bytes, as non-terminated views, prefixes of each other)",
 TESTS+"keys are short literals and absence is rarely probed.",
 [HH,CC],[('operator[] / operator() with keys',CC),('exists, must_exists, get_if_exists, get_map_*, erase, get_keys',CC)])
add('C07','Indexed access addresses exactly the requested element or throws',
 "Element i of a vector, generic vector or (column-major) matrix, and element (i,j) of a matrix, read or written by any indexed accessor, row/column extractor or generic numeric accessor is exactly the stored element at that position and no other element changes. "
 "A const or checked access outside the bounds (index, row or column) throws; a growing access extends the vector with default elements and keeps the existing ones.",
 ['inputs','histories'],"all vector/matrix types, shapes (including zero rows/columns and non-square) and indices inside, at and beyond the bounds",
 TESTS+"matrices used are tiny and never indexed out of range.",
 [HH,CC,SU],[('get_*_at(i), get_*_at(i,j), operator[](i), operator()(i), operator()(i,j)',CC),('mat_type operator(), get_row, get_column, get_diagonal',SU)])
add('C08','Comparison decides exact equality of contents and always terminates',
 "Comparing two containers returns no difference exactly when they have the same types, shapes, keys and values at every level (NaN aside; zeros of either sign are the same value), whatever the order of the two arguments; otherwise it returns a non-empty description. "
 "It terminates and changes neither container.",
 ['inputs'],"all pairs of containers: equal copies and pairs that differ in any single leaf, type, size, key or shape at any depth",
 TESTS+"compare is called on one pair.",
 [CC],[('compare_content',CC),('compare_vector/compare_matrix helpers',CC)])
add('C09','Merging maps gives the union with source values, recursively and atomically',
 "Merging a source map into a target leaves in the target all of its own keys plus all source keys, maps under the same key being merged likewise, and every other common key taking the source's value; an untyped source changes nothing and an untyped target counts as an empty map; the source is unchanged and shares no storage with the target. "
 "Merging a non-map, or into a non-map, throws and changes neither.",
 ['inputs','histories'],"all pairs of trees with disjoint, overlapping and conflicting keys at all depths",
 TESTS+"merge is exercised on at most one pair.",
 [CC],[('merge',CC)])
add('C10','Collapsing keeps all data, only compacting its representation',
 "Collapsing a container turns generic vectors of uniform scalars (or equal-length vectors) into typed vectors (or matrices), at every depth, and changes nothing else: every element keeps its position and its value (as the number it denotes: booleans mixed with numbers become 0/1, and integers beyond 2^53 mixed with reals become the nearest real), map keys are kept and no input makes it fail or drop data. "
 "Collapsing an already collapsed container changes nothing.",
 ['inputs'],"all nested generic vectors and maps with homogeneous, mixed-type, ragged, empty and null elements",
 TESTS+"only well-formed examples are collapsed.",
 [CO],[('collapse',CO)])
add('C11','Binary serialisation round-trips and reports exact sizes',
 "Serialising a container and deserialising the bytes into any container gives back the same contents (raw pointers as addresses of the same process), replacing what was there; the reported size equals the bytes written and the bytes consumed. "
 "A fixed destination buffer that is too small makes serialisation throw without writing past it; a vector destination is enlarged as needed.",
 ['inputs','configurations'],"all trees of all types including empty ones and strings/keys with NUL bytes, all buffer sizes from 0 to beyond the needed size, all previous target contents",
 TESTS+"one tree is serialised into a large enough buffer.",
 [SE],[('mem_size',SE),('serialize/de_serialize',SE)])
add('C12','Deserialising arbitrary bytes is safe and detects malformed data',
 "Given any bytes and length, deserialisation reads nothing outside the given buffer, does not crash, hang or exhaust memory, and either yields a valid container or throws; a truncated serialisation always throws. "
 "After a failure the container can still be used, cleared and destroyed; nesting so deep that it exhausts the call stack is outside the guarantee.",
 ['inputs','fault_sequences'],"all byte buffers: truncations, bit flips, spliced and random bytes of valid serialisations",
 TESTS+"corrupt input is never given.",
 [SE],[('de_serialize',SE),('buffer_to_* helpers',SE)])
add('C13','JSON written for any data is valid and reads back the same data',
 "For a container of booleans, finite numbers, strings, nulls, their vectors, matrices, generic vectors and maps, the JSON text written is valid JSON, and reading it back gives the same tree of values: same keys, order, strings byte for byte, booleans, and numbers equal (given an output precision of at least 17 digits), up to the compaction of generic vectors into typed ones. "
 "Matrices are written as nested arrays that keep every entry, and complex values as texts of their real and imaginary parts; raw pointers are outside the guarantee.",
 ['inputs'],"all trees, with hostile strings/keys (quotes, backslashes, control characters, UTF-8), empty containers and extreme numbers",
 TESTS+"the examples print JSON without parsing it by an independent parser.",
 ['src_json_interface/to_json.cc','src_json_interface/from_json.cc',SU],[('to_json','src_json_interface/to_json.cc'),('string_escape',SU),('from_json','src_json_interface/from_json.cc')])
add('C14','JSON reading is faithful on valid text and safe on any text',
 "Every valid UTF-8 JSON document (numbers within range, nesting not so deep that it exhausts the call stack) is decoded into a container holding exactly its data (up to compaction of arrays), by both JSON readers, replacing the previous contents; integers that fit 64 bits are exact. "
 "The strict reader reports failure on malformed text and the second one on structural errors (it is lax about number spellings, unknown escapes, raw control characters and blank input); on no bytes does either crash, hang or corrupt memory.",
 ['inputs'],"all JSON documents with all spellings (escapes, number forms, whitespace, nesting) and all malformed or truncated texts",
 TESTS+"two sample files are parsed.",
 ['src_json_interface/from_json.cc','src_json_interface/from_json2.cc','src_json_interface/jsonLexer.cc','src_json_interface/jsonParser.yy','src_json_interface/jsonParser.tab.hh'],
 [('from_json / json_decode','src_json_interface/from_json.cc'),('from_json2: lexer, grammar, wrapper','src_json_interface/jsonLexer.cc')])
add('C15','YAML written for any data is valid and reads back the same data',
 "For a container of booleans, finite real numbers and integers, UTF-8 strings, nulls, their vectors, matrices, generic vectors and maps, the YAML text written is valid YAML denoting that tree and is read back as the same tree of values, up to the compaction of generic vectors into typed ones. "
 "Reading replaces the previous contents and reports success.",
 ['inputs'],"all trees with hostile strings and keys, empty containers, extreme numbers, deep nesting",
 TESTS+"one hand-written YAML file is converted.",
 ['src_yaml_interface/to_yaml.cc','src_yaml_interface/from_yaml.cc'],[('to_yaml','src_yaml_interface/to_yaml.cc'),('from_yaml','src_yaml_interface/from_yaml.cc')])
add('C16','TOML written for any map reads back the same data',
 "For a map container of booleans, integers, finite reals, UTF-8 strings, their vectors, generic vectors and nested maps, the TOML text written is read back as the same tree of values, up to the compaction of generic vectors into typed ones; 64-bit integers stay exact, and matrices (as tables with their dimensions and data) and complex numbers (as pairs) keep every entry. "
 "Reading replaces the previous contents and reports success; a map holding a null cannot be written and is reported as failure.",
 ['inputs'],"all map trees with hostile strings and keys, empty containers, extreme numbers, deep nesting",
 TESTS+"one hand-written TOML file is converted.",
 ['src_toml_interface/to_toml.cc','src_toml_interface/from_toml.cc'],[('to_toml','src_toml_interface/to_toml.cc'),('from_toml','src_toml_interface/from_toml.cc')])
add('C17','YAML and TOML readers decode valid text faithfully and survive any text',
 "Valid YAML and TOML documents in all ordinary spellings are decoded to exactly their data, and malformed text is reported as failure, by the result or an exception (the YAML parser is lax about some constructs, such as a flow collection still open at the end). On no bytes (truncated, mutated, binary) do the readers crash, hang or corrupt memory. "
 "After a failure the container is still usable; nesting so deep that it exhausts the call stack is outside the guarantee.",
 ['inputs'],"all byte strings given as YAML or TOML, from a string, a stream or a file",
 TESTS+"only well-formed files are read.",
 ['src_yaml_interface/from_yaml.cc','src_toml_interface/from_toml.cc'],[('from_yaml','src_yaml_interface/from_yaml.cc'),('from_toml','src_toml_interface/from_toml.cc')])
add('C18','Tables written as text read back as the same headers and columns',
 "A table (headers plus equal-length real columns, or a matrix) written as delimited or formatted text contains exactly one line per row with every entry in its column; reading delimited numeric text gives the headers and, column by column and row by row, exactly the numbers in it, skipping lines that start with a comment character. "
 "Malformed tables (wrong number of entries in a row, columns of unequal length, fewer columns than headers, a matrix with more columns than headers) are reported by an exception and never read or written out of bounds.",
 ['inputs'],"all table shapes, numbers, delimiters, comment characters and malformed rows",
 TESTS+"one data file is read.",
 [TA,CC],[('write_table, write_table_formatted',TA),('read_formatted_data, read_formatted_data2',TA)])
add('C19','Printing shows all data and changes neither container nor stream format',
 "Dumping or printing a container (contents, types, one-line info) writes every key and every element, leaves the container unchanged and leaves the output stream's formatting as it was, so what is written later is formatted as if nothing had been printed. "
 "The text depends only on the contents.",
 ['inputs','histories'],"all trees (with pointers, headers-like keys, long vectors) and all stream formatting states",
 TESTS+"the output is never inspected.",
 [CC,SU],[('dump/print/print_content_types/get_info/to_yaml/to_json stream use',CC)])
add('C20','The C interface builds and reads the same trees and reports every error',
 "A tree built through the C interface by any sequence of calls is the tree those calls describe, and each C reader returns the stored value at the current position; navigation (push/pop, positions, keys, iteration over keys) and selection of named containers follow the call history (selecting an unknown name creates it, deleting one does nothing, moving to a missing map key inserts it). "
 "Every misuse (wrong type, bad position, missing key, no selected container, unbalanced pop) yields a nonzero error code or, for readers, the neutral value; no call lets a C++ exception escape, corrupts memory, or disturbs containers other than the selected one.",
 ['histories','inputs'],"all call sequences, valid and invalid, over several named containers",
 TESTS+"one C example builds one container in the intended order.",
 [CI,'include/GenericContainer/GenericContainerInterface_C.h'],[('GC_select/GC_new/GC_delete, GC_set_*, GC_push_*, GC_get_*',CI),('GenericContainerExplorer stack',HH)])
add('C21','Values cross to Lua and back unchanged, and any number of calls is safe',
 "Scalars, strings (any bytes), homogeneous lists and string-keyed tables passed to Lua as globals or call arguments arrive as the corresponding Lua values and come back as the same data; integers that fit a Lua integer are exact; kinds Lua has no counterpart for (complex, matrices, pointers) become nil. "
 "Script or call errors, tables mixing indices with string keys, and tables nested too deep are reported by an exception, after which the interpreter stays usable, for any number of calls.",
 ['inputs','histories'],"all transferable trees and all sequences of execute, get/set global and call, succeeding and failing",
 TESTS+"three short scripts are run once each.",
 ['src_lua_interface/GenericContainerInterface_lua.cc'],[('GC_to_lua / lua_to_GC','src_lua_interface/GenericContainerInterface_lua.cc'),('LuaInterpreter do_file/execute/call/global_to_GC/GC_to_global','src_lua_interface/GenericContainerInterface_lua.cc')])
add('C22','Distinct containers, and const reads of a shared one, are safe across threads',
 "Threads that each work on their own containers, and threads that only read (const access, copying from, comparing, printing, serialising, writing as JSON/YAML/TOML) a shared container, never race, and each gets the result it would get alone. "
 "The C interface's selected container and a shared Lua interpreter are process-wide and outside this guarantee.",
 ['schedules','histories'],"all interleavings of any number of threads over separate containers and over const operations on shared ones",
 TESTS+"all tests are single-threaded.",
 [CC,HH,SU],[('static helper objects (regex, type-name tables)',CC),('const accessors',CC)])
add('C23','Running out of memory leaves containers usable and leaks nothing',
 "If any memory allocation made on behalf of a container operation fails, the operation throws, every container involved can still be used, cleared and destroyed, containers that were only read are unchanged, and no memory is leaked or released twice. "
 "Output written to a stream reports the failure through the stream's state; the YAML and TOML readers and the second JSON reader are outside this guarantee.",
 ['fault_sequences','histories'],"a failing allocation at every allocation point of every operation, on all container states",
 TESTS+"allocation failure never occurs in a test run.",
 [HH,CC,PR,CO,SE],[('allocate_*',CC),('promote/push/copy/merge/collapse/de_serialize allocations',PR)])
add('C24','Ruby data loaded into a container comes back as the same data',
 "Ruby booleans, 32-bit integers, floats, strings and symbols without zero bytes, and arrays and hashes of them (nil allowed inside) loaded into a container are returned by get_data as the same data: booleans as 1 and 0, symbols as strings, hash keys as symbols, strings with the same bytes, integers beside floats possibly as floats. Loading replaces whatever the container held. "
 "Data put in from C++ is returned too: longs, real, complex and bool vectors, real and complex matrices (complex as [re,im], matrices as rows); kinds the interface does not manage read as nil. "
 "Data that cannot be stored raises an error, after which that container and every other one can still be loaded and read; containers are independent, and are released when the Ruby object is collected.",
 ['inputs','histories'],"all such Ruby data and all sequences of load, read, failed load and collection over several containers",
 TESTS+"the Ruby interface has no automated test.",
 ['src_ruby_interface/GenericContainer_ffi.rb',CI],[('GC_from_hash / GC_to_hash, toMixedHash, addToVector, fromVector','src_ruby_interface/GenericContainer_ffi.rb'),('GC_init_map_key / GC_get_next_key',CI)])
MX='src_matlab_interface/GenericContainerInterface_matlab.cc'
add('C25','Containers become the corresponding MATLAB arrays and MATLAB arrays the corresponding containers',
 "A container becomes a MATLAB array of the same data: booleans logical; integers and longs int64 (integer matrices int32); reals and complexes double; strings char; typed vectors a row with all entries in order; matrices with the same dimensions and entries; string vectors and generic vectors a cell row; maps a 1x1 struct with one field per key; nothing and pointers an empty array. The typed conversions give column vectors. "
 "Back, every numeric class becomes integers (8 to 32 bit signed, 8 and 16 bit unsigned), longs (uint32, 64 bit within the long range), reals or complexes of exactly the same values: one element a scalar, one row a vector, other two-dimensional arrays a matrix; logical arrays a boolean or a list of them; char arrays and strings text; cells a vector in column order; structs a map (arrays of structs: a map of vectors); sparse matrices a map with jc, ir, values; unset cells, unset fields and foreign classes nothing. "
 "What the container held before is replaced, the source is unchanged, and no access falls outside an array. Texts with zero bytes and arrays of more than two dimensions are outside this guarantee.",
 ['inputs'],"all container trees and all MATLAB arrays of every class, complexity and shape",
 TESTS+"the MATLAB interface has no automated test, and needs MATLAB to be run at all.",
 [MX,'include/GenericContainer/GenericContainerInterface_matlab.hh'],[('GenericContainer_to_mxArray, to_mxArray',MX),('mxArray_to_GenericContainer, mx_to_*, mxSparse_to_GenericContainer',MX)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
