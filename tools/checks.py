NOT_APPLICABLE = {}
CHECKS = {}
def check(id, **kw): CHECKS[id] = kw
MC = "stateless bounded-exhaustive exploration of the real code against a reference model"
check("C01", harness="c01.cpp", technique=MC,
  rule="one execution = one complete choice sequence (scenario, features, values, operation history); distinct_nontrivial counts distinct sequences of observed model states",
  bounds=dict(quick="histories of 3 operations over all pairs of 16 features; single-feature histories of 3 writes over 6 boundary values; storage boundaries at every offset within one structure of a page end; all accessor/feature/type misuse triples; all clone type pairs; the whole-CAS iterator after every history of 3 of 23 creations",
              thorough="as quick with histories of 4 operations"),
  must_cover=["history","single","alias","misuse","misuseRef","cloneAs","bulk","reset","whole"],
  level_note="Every enumerated history is executed on the real library and compared with a map-based model after every operation; values and sizes outside the alphabet are not covered.")
check("C03", harness="c03.cpp", technique=MC,
  rule="one execution = one complete history of index operations; distinct_nontrivial counts distinct sequences of observed index contents",
  bounds=dict(quick="all histories of 3 operations (add, remove of 6 structures of 5 types, reset) with every placement of early queries; all histories of 4 operations over equal and different keys verified at each step; all key changes while indexed; histories of 3 single-index operations; 5 indexes (bag, sorted, reverse sorted with type priority, set) queried for every type and type set",
              thorough="as quick with histories of 4, 6 and 4 operations"),
  must_cover=["history","keys","mutate","lowOps","refuse","docAnnot"],
  level_note="Every enumerated history runs on the real index repository and is compared with a multiset model; more structures or deeper histories are not covered.")
check("C04", harness="c04.cpp", technique=MC,
  rule="one execution = one insertion sequence or one navigation history; distinct_nontrivial counts distinct visiting orders",
  bounds=dict(quick="all insertion sequences of up to 4 structures for every key type, ascending and descending, single type and three types; all sequences of 2-3 structures over two- and three-key indexes; annotation index for every declared priority order of three types (as one list and as two overlapping lists) with 2-3 annotations; all histories of 3 navigation calls over 11 populations of 5 indexes (sorted up/down, set up/down, bag)",
              thorough="as quick with one more structure and histories of 5 navigation calls"),
  must_cover=["oneKey","multiKey","textKey","annots","nav"],
  level_note="Every enumerated sequence runs on the real iterators and is compared with a cursor over the ordered sequence; the order among equal keys and the position reached by moveTo with an absent key in unordered indexes are not claimed.")
check("C05", harness="c05.cpp", technique=MC,
  rule="one execution = one annotation set with one bounding annotation, filter or position; distinct_nontrivial counts distinct selections",
  bounds=dict(quick="all multisets of up to 3 annotations (4 for the unambiguous iterator) over positions 0..3 and two types with declared priority, added in both orders, every bounding annotation (member or not), every queried type; all filters over up to 3 annotations of sorted, bag and set indexes and all type sets, every position reached by every navigation call; covered text for all spans over 5 texts",
              thorough="as quick with positions 0..4 and one more annotation"),
  must_cover=["subs","unamb","filt","begins","covered"],
  level_note="The selection is computed independently from the index order and compared at every position in both directions; moving a subiterator to a structure outside its selection and moving the unambiguous iterator backwards (documented as not implemented) are not claimed.")
check("C02", harness="c02.cpp", technique=MC,
  rule="one execution = one history of array or list operations; distinct_nontrivial counts distinct final contents",
  bounds=dict(quick="all 9 array types, sizes 0,1,2,3,5 between two neighbour arrays, before and at the storage page end; all histories of 2 operations (the first from a smaller alphabet) over set/get at 11 indexes with 5 values, growth, clone, and every range and offset of both bulk copies; 4 list types, all histories of 2-3 of 16 operations on two lists (initially empty or filled) that may share nodes",
              thorough="as quick with array histories of 3 and list histories of 4 operations"),
  must_cover=["array-int","array-float","array-boolean","array-byte","array-short","array-long","array-double","array-string","array-FS","kinds","list-int","list-float","list-string","list-FS"],
  level_note="Every history runs on the real arrays and lists (under AddressSanitizer) and is compared with a vector and a linked-node model after each operation; operations that would make a list circular are excluded except on the list itself.")
check("C06", harness="c06.cpp", technique=MC,
  rule="one execution = one filter formula evaluated on nine structures; distinct_nontrivial counts distinct (formula, truth vector) pairs",
  bounds=dict(quick="all atoms: 8 type constraints, 162 integer, 60 float and 30 string constraints over paths of length 1-3 (incl. features of the wrong kind); every atom negated, under four match paths, and combined by and/or with every atom of a smaller set in both orders; all formulas of three atoms and two connectives with negation and nested match; every formula on 9 structures of 3 types with boundary values, NaN, infinities, embedded U+0000, unset and cyclic references; all operand values (true, false, exception) of user filters in five combination shapes",
              thorough="as quick, with one of the three atoms from the large set"),
  must_cover=["atoms","not","binary","match","nested","nestedMatch","spies"],
  level_note="Every formula is built with the real filter builder and compared with a direct evaluation of the formula; a path through an unset reference or an absent feature must be refused with an exception.")
check("C07", harness="c07.cpp", technique=MC,
  rule="one execution = one declared type system, all queries compared with the declaration; distinct_nontrivial counts distinct declarations",
  bounds=dict(quick="all hierarchies of 2-4 types below three predefined roots in all declaration orders with three feature placements; one feature with every range type and multiplicity flag on four owners; all pairs of 5 allowed value sets; predefined hierarchy; invalid type and feature objects; creator names",
              thorough="as quick with up to 5 types"),
  must_cover=["forest","ranges","enums","invalid","creators"],
  level_note="For every declared hierarchy each query of the type system (lookup, subsumption of all pairs, subtypes, parent, features, ranges, introduction, allowed values, listings) is compared with the transitive closure computed from the declaration, and every feature is stored and read through a structure.")
check("C08", harness="c08.cpp", technique=MC,
  rule="one execution = one set of declarations in one order handed in one way; distinct_nontrivial counts distinct declarations",
  bounds=dict(quick="3 types with every combination of 8 supertypes in every order; every predefined type as supertype and declared again; one feature with 4 ranges at any of three related types in every order; every pair of declarations of one type; 6 entry points; 3 files with every placement of 3 types and every import graph over 5 edges, absolute and relative; aggregates with every assignment of 8 declarations to the aggregate and two delegates (one nested)",
              thorough="as quick with 13 supertypes"),
  must_cover=["refused: feature of a subtype","refused: unknown range","refused: supertype is final","refused: unknown or circular supertype","refused: feature on a final type","refused: feature with two ranges","refused: declared with two supertypes","refused: inherited feature with another range","supers","parents","features","redeclared","twice","samefeature","entries","imports","imports-relative","delegates","accepted"],
  level_note="Every set of declarations is judged by an independent elaboration (order independent by construction); the library must accept exactly the consistent ones and produce the elaborated type system.")
check("C09", harness="c09.cpp", technique=MC,
  rule="one execution = one history of operations on the views of one CAS; distinct_nontrivial counts distinct sequences of view contents",
  bounds=dict(quick="all histories of 3 of 22-61 operations (create view or sofa by 4 names, 10 ways of setting subject data on any view, add and remove in any view, reset) and all histories of 4 of a smaller alphabet; every view, sofa, datum and index checked from every view after each operation; all reference patterns between annotations of three views",
              thorough="as quick with histories of 4 and 5 operations"),
  must_cover=["create","dup view","sofa","dup sofa","set twice","setDocumentText","setSofaDataString","setSofaDataArray","setSofaDataURI","add","remove","reset","both","cross"],
  level_note="Every history runs on the real CAS and is compared with a model holding one record per view; handles of views that were dropped by a reset are not used.")
check("S03", harness="s03.cpp", technique=MC,
  rule="one execution = one CAS content written in one form and read into one target; distinct_nontrivial counts distinct contents",
  bounds=dict(quick="all contents of 11 families (every primitive feature with every boundary value, every string in every place, all arrays and lists of every kind up to length 3 in every position, all reference graphs on 3 nodes with every indexed subset, all histories of 4 operations over views and subject data, heaps larger than a page, removed and unreachable structures, references across views) in three combinations of form (vectors, vectors without copy, blob, blob of the opposite byte order, the same bytes read twice) and target (fresh, used, used and reset); every combination for two families; each is written again from the copy and the copy is used",
              thorough="every form and target, base CAS or view as source and target, for every content; histories of 5 operations"),
  must_cover=["primitives","strings","arrays","lists","graphs","views","names","large","removed","empty","cross","vectors","vectors without copy","blob","swapped","the same bytes read twice"],
  level_note="Runs the real serializer and deserializer; the contents are compared in a canonical form that does not depend on addresses, and the byte-swapped blob is made by an independent re-encoding.")
check("S01", harness="s01.cpp", technique=MC,
  rule="one execution = one CAS content written as XMI and read into one target, then written again from the copy; distinct_nontrivial counts distinct contents",
  bounds=dict(quick="the contents of S03 (11 families; lists also in features whose range is an empty or non-empty list; only characters allowed in XML) with and without shared data, fresh and used targets, base CAS or view as source and target, in memory or from files with short, long and non-ASCII names, under three default code pages; each document is parsed by an independent parser, each copy is written again and used",
              thorough="every combination of target, shared data, document flag, source and target view for every content; view histories of 5 operations"),
  must_cover=["primitives","strings","arrays","lists","graphs","views","names","large","removed","empty","cross","code page","file","long name","unicode file name","shared data","used target"],
  level_note="Runs the real writer and deserializer; contents are compared in a canonical form that does not depend on addresses; arrays and lists in features without multiple references are compared by value.")
check("S02", harness="s02.cpp", technique=MC,
  rule="one execution = one CAS content written as XCAS and read into one target, then written again from the copy; distinct_nontrivial counts distinct contents",
  bounds=dict(quick="the contents of S03 (11 families; only characters allowed in XML) into fresh and used targets, base CAS or view as source and target, in memory or from files with short, long and non-ASCII names, under three default code pages; each document is parsed by an independent parser, each copy is written again and used",
              thorough="every combination of target, document flag, source and target view for every content; view histories of 5 operations"),
  must_cover=["primitives","strings","arrays","lists","graphs","views","names","large","removed","empty","cross","code page","file","long name","unicode file name","used target"],
  level_note="Runs the real writer and deserializer; contents are compared in a canonical form that does not depend on addresses.")
check("C10", harness="c10.cpp", plugins=["memstream.cpp"], technique=MC,
  rule="one execution = one history of operations on one stream; distinct_nontrivial counts distinct sequences of positions per kind of data",
  bounds=dict(quick="29 subjects (texts with characters of 1-4 bytes, arrays of the seven kinds with 0, 1 and 3 elements, remote data of 0-11 bytes through a registered handler), every history of up to 3 of 28 operations (reads of 0, 1, 2, all the rest and more, in elements or bytes; 18 seeks inside and outside the data from the three origins; growth of the CAS while the stream is open; reopening; data pointer), sizes checked after each, then the rest read to the end; a second stream on the same subject; the refusals",
              thorough="histories of 4 operations"),
  must_cover=["text","array","remote","empty","read","short read","end","seek","seek refused","grow","reopen","refusals"],
  level_note="Every history runs on the real streams and is compared with a byte vector and a cursor; reading an array in elements of another size may be refused, the sign convention of seeks from the end is not claimed.")
check("I01", harness="i01.cpp", technique=MC,
  rule="one execution = one interleaving of operations on two CAS instances; distinct_nontrivial counts distinct pairs of contents",
  bounds=dict(quick="all interleavings of 3 operations of 16 kinds on two populated instances (create, change, add, remove, grow, clone, views, reset, destroy and create again, iterate, write and read XMI, binary copy, queries, lists, streams) made from one type system, from two equal ones and from two in which the same names have other codes, features and values; after each operation both instances are compared with what they show when their operations run alone; then one of them is destroyed",
              thorough="interleavings of 4 operations"),
  must_cover=["same type system","equal type systems","different type systems","destroyed"] + ["op%d" % i for i in range(16)],
  level_note="Interleavings are explored at the granularity of API calls, in one thread; concurrent access to one instance is not part of the contract.")
check("S04", harness="s04.cpp", technique=MC,
  rule="one execution = one content written with the full type system, read with a reduced one and shared data, written again and read with the full one; distinct_nontrivial counts distinct contents and reductions",
  bounds=dict(quick="20 features of every kind on 6 host types with every value of a boundary set (all pairs of members for reference arrays and lists), read by type systems lacking the type, the feature, all features, a type and several features, or every own type; all reference graphs on 3 nodes of known and unknown types with every indexed subset; all memberships of 4 structures in up to 3 views with 4 kinds of subject; all pairs of 10 reduced type systems in a chain; all pairs of 9 changes made by the reduced CAS before writing; every document also read without lenience and leniently without shared data, and written twice",
              thorough="as quick with three changes"),
  must_cover=["features","graphs","views","chains","changed","unknown content","all known","refused"],
  level_note="Runs the real writer and deserializer; documents are compared element by element and identifier by identifier by an independent parser, contents in a canonical form against the same content built directly.")
check("S05", harness="s05.cpp", technique=MC,
  rule="one execution = one damaged document read in every mode, then the valid document; distinct_nontrivial counts distinct damaged documents",
  bounds=dict(quick="every truncation, byte removal, byte doubling and replacement of every byte by 6 others of a small XMI and XCAS document (3 others for descriptors); every single alteration of every element and attribute (removed, doubled, moved, renamed, wrapped, emptied, given text, children or attributes; attribute values from a set of 17) of a document using every kind of feature, array, list, view and subject, in both formats; pairs of alterations of a small document; the same single alterations of engine, aggregate, type system, index and type priority descriptors",
              thorough="8 byte replacements, all names and attributes, three readers (strict, lenient, shared data) and a valid descriptor read after each damaged one"),
  must_cover=["cut off","byte","attribute","element","two alterations","not well formed","well formed, refused","accepted","must be refused","descriptor not well formed","descriptor refused","descriptor accepted"],
  level_note="Runs the real readers under ASan; an independent parse decides whether the altered document is well formed and what a strict reader has to refuse; what is accepted is walked completely, and a valid document read into the same CAS afterwards must give its exact contents. Leaks on refusal are not claimed.")
check("E01", harness="e01.cpp", plugins=["rec.cpp"], technique=MC,
  rule="one execution = one engine, one history of life-cycle calls and one assignment of outcomes to the callbacks; distinct_nontrivial counts distinct sequences of calls, outcomes and states",
  bounds=dict(quick="3 engines (primitive, aggregate of two, aggregate of an aggregate and a primitive); creation with up to two failing callbacks of any kind at any position; all histories of 3 of 10 calls (process in three forms, iterator, batch and collection completion, reconfigure, type system initialization, initialize, destroy) with one failing callback at any position by error code, uima exception or (process) std::exception, then deletion",
              thorough="histories of 4 calls with two failing callbacks"),
  must_cover=["primitive","aggregate of two","aggregate of an aggregate and a primitive","creation fails","iterator after destroy"]+[x+y for x in ["process ","processAndOutputNewCASes ","batchProcessComplete ","collectionProcessComplete ","reconfigure ","reinitTypeSystem ","initialize ","destroy "] for y in ["ready","destroyed"]]+["fault in "+x for x in ["process","processAndOutputNewCASes","iterator","batchProcessComplete","collectionProcessComplete","reconfigure","reinitTypeSystem","destroy"]],
  level_note="Every history runs on the real engines with an annotator library whose callbacks are decided by the checker; the observed callback sequence must equal the one a model of the protocol predicts. Exceptions not derived from uima::Exception are claimed only for process.")
check("E02", harness="e02.cpp", plugins=["rec.cpp"], technique=MC,
  rule="one execution = one aggregate, one call and one failing delegate, or one assignment of view mappings; distinct_nontrivial counts distinct orders, failures and view contents",
  bounds=dict(quick="all fixed flows over the nonempty orders and subsets of 3 delegates, each a primitive or an aggregate nested once or twice (4 forms), declared in both orders, 5 calls, every delegate failing by code or exception, then processing again and deletion; two levels of view mappings (every choice for three view names at each level, view-aware and other delegates, first and second engine made from one description), with views read and created by the delegates; missing default views",
              thorough="as quick with more mapping targets"),
  must_cover=["flow","nested","nested twice","views","second engine","default view","named view","created view","existing view","missing view","process 0","process 1","process 2","batchProcessComplete 2","collectionProcessComplete 1","reconfigure 2","processAndOutputNewCASes 1"],
  level_note="Every aggregate runs on the real engine with annotators decided by the checker; each annotator checks the view it is given, the results it sees there and leaves its own mark. CAS multipliers inside aggregates are not supported by the code and not claimed.")
check("E03", harness="e03.cpp", plugins=["rec.cpp"], technique=MC,
  rule="one execution = one pair of capabilities, one aggregate (all document languages and requests inside), or one history of a result specification; distinct_nontrivial counts distinct call sequences and offers",
  bounds=dict(quick="pairs of capabilities with every nonempty set of two types and a feature and up to 3 of 4 languages each, with and without inputs, asked for 8 languages; aggregates of two or three delegates from 8 capability lists (or a nested aggregate), fixed and capability flow, the first delegate failing by code or exception, 8 document languages x 9 requested sets; primitives with both flows; histories of 4 operations of a result specification; capabilities with allAnnotatorFeatures",
              thorough="every set of 5 languages per capability; 9 capability lists for every delegate; 6 operations"),
  must_cover=["container","capability flow","fixed flow","nested","code","exception","primitive","no engine called","several engines called","result specification","all features"],
  level_note="Every aggregate runs on the real engine with annotators that record the result specification they get; the expected calls are computed from the declared capabilities alone. Capabilities mixing an empty with a nonempty declaration for one language are not claimed.")
check("E05", harness="e05.cpp", plugins=["rec.cpp"], technique=MC,
  rule="one execution = one history of get, use and release calls on pools of one size; distinct_nontrivial counts distinct numbers of held, released, seen and used CASes",
  bounds=dict(quick="pools of 0 to 3 CASes, 5 to 6 operations of: get, use (text, annotation, second view), release by the handle handed out or by another view, double release, release of a CAS of another pool; the pools of one annotator or of two delegates through their contexts, 4 operations, then a second document with or without reconfigure",
              thorough="7 operations on a pool, 6 through contexts"),
  must_cover=["pool","context","two contexts","exhausted","reused","used","released","released by view","foreign","double","wrong pool","none required","reconfigured"],
  level_note="After every operation the content of every CAS still held is compared with what its holder left, and at the end the whole pool is drained. Pools are used by one thread; the code makes no promise for several.")
check("D01", harness="d01.cpp", technique=MC,
  rule="one execution = one descriptor: read, compared through the getters, written, the writing compared, read again and written again; distinct_nontrivial counts distinct meanings",
  bounds=dict(quick="each section alone in all its variants (header texts, plain parameters, groups, settings of every type, assigned values, types, indexes and priorities, capabilities and operational properties, aggregates with delegates, flows and sofa mappings) with 9 boundary texts in every text position and 5 ways to write the XML (compact, indented, comments inside, CDATA, character references); all combinations of absent, empty and filled sections for the four kinds of component; stand-alone index, priority and mapping documents",
              thorough="the combinations with every variant of every section, in all 5 ways to write them"),
  must_cover=["texts","plain parameters","groups","settings","assigned","types","indexes","capabilities","aggregate","no flow","combined"],
  level_note="The document written is parsed independently of the library and its meaning (defaults dropped, groups separated, unordered parts sorted) compared with that of the document read. Resolved imports, schema validation and the order of declarations are not claimed.")
check("U02", harness="u02.cpp", technique=MC,
  rule="one execution = one prefix of codes or texts with every continuation inside, or one pair of languages with every third one; distinct_nontrivial counts distinct prefixes and match results",
  bounds=dict(quick="all two-letter languages with all two-letter territories, both separators, four letter cases; all texts of up to 5 characters over a 19-character boundary alphabet (letters, neighbours of letters, NUL, characters whose low byte is a letter) and long texts, from every string form; all pairs and triples of 16 languages",
              thorough="all 16 letter cases, texts of up to 6 characters"),
  must_cover=["codes","texts","one character","pairs"],
  level_note="The expected result is computed from the text alone. Matching of invalid languages and numbers that no language has are not claimed.")
check("U01", harness="u01.cpp", technique=MC,
  rule="one execution = one text against all others, one pair of texts with every pair of ranges, or one code page and length with all endings; distinct_nontrivial counts distinct texts and pairs",
  bounds=dict(quick="texts of up to 3 characters over 8 (letters, space, NUL, both surrogates, a character above the surrogates, Latin-1) against all of up to 2 and all one longer; every start and length from -2 to beyond the end for texts of up to 2 (and some longer) against texts of up to 1; trimming and splitting of all texts of up to 5 over 7; 6 code pages, lengths around the internal buffer, all endings of up to 2",
              thorough="all pairs of texts of up to 3, ranges of texts of up to 2 against each other, texts of up to 6 for trimming"),
  must_cover=["pairs","ranges","trims","convert","unpaired surrogate","after another conversion"],
  level_note="Texts lie in memory of exactly their size, so every read outside of them is caught. The expected results are computed on plain character sequences (case comparison and character boundaries by ICU's own string). Sub-ranges outside of the text are pinned to it, as for ICU strings.")
check("E04", harness="e04.cpp", plugins=["rec.cpp"], technique=MC,
  rule="one execution = one set of descriptors with a sequence of assignments, every parameter read in every group at every level after each; distinct_nontrivial counts distinct descriptors (with final values for the type part)",
  bounds=dict(quick="one component: every combination of default group (none, two declared, one undeclared), search strategy (3 and none given), common parameter, and for each of 3 groups absent / defined / set / set through the common one, groups declared alone or together, one assignment to any of 8 groups; two and three levels: 17 kinds of aggregate (plain, grouped, restricted to either delegate, set and unset) by 6 kinds of delegate, one assignment at any level; 4 types, single and multiple, against all 12 kinds of assignment and all reads; engines of two annotators with assignments, reconfigure and process",
              thorough="sequences of two assignments, all 17 by 17 kinds for three levels"),
  must_cover=["no groups","set own","set override","set refused","language fallback","default fallback","no fallback","override","nested override","assigned","type mismatch","engine"],
  level_note="The expected value is computed from the tables of the descriptors. Overrides are by name, as this framework documents them; a parameter whose type differs between levels is not claimed, nor are settings whose type differs from the declared one.")
check("D02", harness="d02.cpp", technique=MC,
  rule="one execution = one set of files read through the description that imports them and compared with what it would say in one piece; distinct_nontrivial counts distinct sets of files",
  bounds=dict(quick="types, type priorities and indexes: two imported files in two or three directories with every import relation among them (also of themselves, in either order), five ways to write the locations, the working directory elsewhere or that of the description, names beyond ASCII; every subset of the five places a file is looked for in; aggregates whose delegates (imported, included or in place, once or twice, in three directories) are aggregates again and import types, priorities or indexes",
              thorough="three directories for both files, the description named relative to the working directory, a CAS made from every description"),
  must_cover=["types","priorities","indexes","cycle","diamond","several directories","missing","found in place 0","found in place 1","found in place 2","found in place 3","found in place 4","in place","included","imported","imported twice"],
  level_note="Import by name is resolved by the Java side only and is not claimed; nor is an aggregate that imports itself as a delegate.")
check("T01", shards=64, harness="t01.cpp", technique=MC, profile="sched", runtime=["t01rt.cpp"], plugins=["rec.cpp"],
  rule="one execution = one ordered pair of operations in a cold (or warmed) process with one slice of its schedules; states = schedules run to their end; distinct_nontrivial counts pairs with the interrupted thread",
  bounds=dict(quick="14 operations (create and use an engine with delegates from annotator libraries, process, XMI, XCAS, binary, failing calls, parameters, logging, indexes with filters and subiterators, type systems from API and XML, pools, views and streams, writing descriptors) in every unordered pair, either thread first: every schedule with a switch at one access to memory both threads touch (one of them writing), and a second switch at any such access of the other thread; each in a process where nothing has been used before",
              thorough="also in a process where both operations have been used before; for equal operations also a switch at the start and end of every function of the library"),
  must_cover=["process","xmi","xcas","binary","errors","parameters","logging","indexes","create engine","create type system","pool","views and streams","type system reader","descriptor writer","memory used by both threads"],
  level_note="The real library is compiled so that every memory access reports to a controlled scheduler; the conflicting accesses are found by running both threads alone first, then every schedule within the bound runs to its end in a forked process and both results must equal those of the threads alone. Accesses made by ICU, xerces, APR and libstdc++ count only where they touch the program's static data or take a mutex; sharing one object between threads is not claimed.")
check("M01", harness="m01.cpp", plugins=["rec.cpp"], technique=MC,
  rule="one execution = one message with every number and length of parameters, one history of an error info, or one kind of failure with every length of name; distinct_nontrivial counts distinct texts",
  bounds=dict(quick="every message of the library with zero to one more parameter than it uses, each of 8 lengths (0 to 20000, around 4096; every combination for up to two parameters), with placeholders inside the parameters, given in every form; numbers at the ends of every type; histories of 5 operations on an error info (id, text, severity, contexts, reset, assignment, exchange, throw and rethrow); 18 kinds of failure of the library with names of 10 lengths",
              thorough="100 lengths around 4096 and one of a million; histories of 6 operations"),
  must_cover=["no parameter","one parameter","several parameters","numbers","error info","unknown range","unknown supertype","missing library","XMI type","XMI syntax","XCAS syntax","descriptor syntax","missing descriptor","view","feature of another type","array index","index label"],
  level_note="The text of each message is found by formatting it with one-character parameters, so wording is free. What is demanded is that parameters appear complete and in their place, that contexts keep their order, and that a report of a failure names what failed.")
check("L01", harness="l01.cpp", plugins=["rec.cpp"], technique=MC,
  rule="one execution = one history of two log facilities and two loggers, one engine whose components log, or one number of lives of the resource manager with a file logger; distinct_nontrivial counts distinct sequences of entries received",
  bounds=dict(quick="histories of 3 of: plain messages (3 types, 3 forms, with and without code), error infos, log streams (left unflushed, flushed in both ways, by macro), facilities deleted and made anew, loggers registered (also twice) and unregistered, level changes, a logger that throws; every level; the last error asked for at every point or not, as object and as text; primitive, aggregate and nested engines at every level, failing or not; file loggers, registered or from the environment, over up to 3 lives of the resource manager",
              thorough="histories of 4"),
  must_cover=["history","plain message","plain warning","plain error","error info","stream","flush","macro","made anew","registered twice","unregister","level","throwing logger","last error as text","primitive","aggregate","file logger","log file from the environment","resource manager made again"],
  level_note="Every logger's entries are compared with those of a model after each operation. A log facility keeps the level in force when it was made; the effect of a logged warning on the last error, and what loggers after a throwing one receive, are not claimed.")
