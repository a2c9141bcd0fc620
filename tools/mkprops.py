#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Feature values read back exactly as last written",
 "For every feature structure and every feature of it, of any primitive, string or reference range, a read returns exactly the value of the last write to that feature of that structure, or the range's default (0, false, null) if it was never written. No write to another feature or structure, creation of further structures, growth of the underlying storage, or cloning of the structure changes that value, a clone carries equal values at the time of cloning and is independent afterwards, and reading or writing through an inappropriate feature or with the wrong type is refused with an exception leaving all values unchanged. The iterator over a whole CAS yields exactly the structures created since the last reset, in the order of creation.",
 ["histories","inputs"],
 "all histories up to a bound of create / set / get / clone / bulk-growth / reset operations over structures of several types, with boundary values for each primitive type",
 "The tests set a handful of features once; interleavings of writes with storage growth, several structures and clones are never enumerated.",
 ["src/cas/featurestructure.cpp","src/cas/lowlevel_fsheap.cpp","src/cas/uima/lowlevel_internal_heap.hpp","src/cas/uima/internal_fsvalue_accessors.hpp"],
 [("feature accessors","src/cas/featurestructure.cpp"),("heap cell addressing and growth","src/cas/uima/lowlevel_internal_heap.hpp"),("string heap","src/cas/lowlevel_fsheap.cpp")],
 [("heaps","cells holding the values of all features","src/cas/uima/lowlevel_fsheap.hpp")],
 ["FeatureStructure::get*Value/set*Value","FeatureStructure::clone"])

prop("C02", "Arrays and lists behave as the sequences they represent",
 "An array feature structure of any element type is a fixed-length vector: each element reads back as last written, elements start at their default, every index outside [0,size) is refused with an exception, and the bulk copy operations move exactly the requested range in the requested direction and refuse ranges that do not fit. A list feature structure behaves as the linked sequence built by its operations (head, tail, length, n-th element, add, insert, remove), with operations that do not apply to the list's current form refused rather than answered wrongly. (Operations that would make a list circular are not claimed.)",
 ["histories","inputs"],
 "all array lengths and (offset, length) combinations around the bounds for every element type, and all list operation sequences up to a depth",
 "Tests check a few in-range elements of one or two lengths; off-by-one ranges and operation sequences are not enumerated.",
 ["src/cas/arrayfs.cpp","src/cas/listfs.cpp"],
 [("array accessors and copies","src/cas/arrayfs.cpp"),("list operations","src/cas/listfs.cpp")],
 [("array cells","element storage of an array","src/cas/lowlevel_fsheap.cpp")],
 ["*ArrayFS::get/set/copyToArray/copyFromArray","*ListFS operations"])

prop("C03", "Indexes hold exactly the structures added and not removed",
 "After any history of creating, adding, removing and resetting, every index of a view (sorted, set and bag, over its type and queried for the type or any subtype) yields exactly the structures added to that view's indexes and not since removed whose type is the queried type or below, where a set index ignores the addition of a structure whose key a member of the same exact type already has. The document annotation is indexed once the document text is not empty. The reported size and membership (contains, find) agree with what iteration yields, and removing a structure never removes a different one.",
 ["histories"],
 "all histories up to a depth of add / remove / re-add / reset over a small pool of structures (some with equal keys, some of subtypes) with indexes of all kinds",
 "Tests add fixed sets once and iterate; histories interleaving removal with already-used indexes over subtypes are not explored.",
 ["src/cas/uima/lowlevel_internal_indexes.hpp","src/cas/lowlevel_internal_indexes.cpp","src/cas/uima/lowlevel_indexrepository.hpp","src/cas/lowlevel_indexrepository.cpp","src/cas/lowlevel_index.cpp","src/cas/fsindex.cpp","src/cas/fsindexrepository.cpp"],
 [("index repository add/remove and iterator caches","src/cas/lowlevel_indexrepository.cpp"),("single and composite indexes","src/cas/lowlevel_internal_indexes.cpp")],
 [("iv_cacheDirtyFlags","per-type flag that cached composite indexes are stale","src/cas/uima/lowlevel_indexrepository.hpp")],
 ["FSIndexRepository","FSIndex::size/contains/find","FSIndex::iterator"])

prop("C04", "Index iterators visit members in key order and navigate consistently",
 "An iterator over a sorted index visits members in non-decreasing order of the declared comparator (each key ascending or descending as declared, then type priority where declared), and the annotation index orders by begin ascending, end descending, type priority. From any position, moving next, previous, to first, to last, peeking and moving to a given structure (itself if it is a member, else the first member not less than it; the latter for sorted indexes only) reach the element a cursor over that ordered sequence would reach, validity is reported exactly when the cursor is on an element, and moving an invalid iterator is harmless. The order among members with equal keys is not specified.",
 ["inputs","histories"],
 "all small multisets of structures over a small key domain, including ties and subtypes, times all cursor operation sequences up to a depth",
 "Tests iterate fixed data mostly forward; ties, backward moves, seeks to absent keys and mixed sequences are not enumerated.",
 ["src/cas/uima/lowlevel_internal_indexes.hpp","src/cas/lowlevel_indexcomparator.cpp","src/cas/fsiterator.cpp","src/cas/uima/lowlevel_indexiterator.hpp","src/cas/lowlevel_internal_indexes.cpp"],
 [("comparators","src/cas/lowlevel_indexcomparator.cpp"),("iterators and composite merging","src/cas/uima/lowlevel_internal_indexes.hpp")],
 [("iterator position","current element of each iterator","src/cas/uima/lowlevel_internal_indexes.hpp")],
 ["FSIterator::*","ANIterator"])

prop("C05", "Subiterators, unambiguous and filtered iterators select exactly their spans",
 "For any set of annotations, a subiterator yields exactly the annotations other than the bounding one that follow it in index order and begin within its span (annotations equal to it may or may not be included), the unambiguous iterator (forward only) yields the greedy leftmost non-overlapping selection, and a filtered iterator yields exactly the members the filter lets pass, each in index order and with the same navigation behaviour as any iterator. The covered text of an annotation is exactly the document text between its begin and end, and is refused where the span lies outside the text.",
 ["inputs","histories"],
 "all small sets of annotations over a short document, every bounding annotation and mode, every cursor sequence up to a depth",
 "Tests use one document with hand-picked annotations.",
 ["src/cas/uima/lowlevel_internal_indexes.hpp","src/cas/lowlevel_internal_indexes.cpp","src/cas/fsindex.cpp","src/cas/featurestructure.cpp"],
 [("sub/unambiguous/filter iterators","src/cas/fsindex.cpp")],
 [("document text","text that begin/end refer to","src/cas/internal_casimpl.cpp")],
 ["ANIndex::subIterator","ANIndex::unambigousIterator","FSIndex::filteredIterator","AnnotationFS::getCoveredText"])

prop("C06", "Feature filters and boolean combinations evaluate their defined predicate",
 "A filter built from type, integer, float, string, match and feature-path constraints combined with and, or and not accepts a feature structure exactly when the corresponding logical formula over the structure's type and feature values is true. Combinations evaluate left to right, the right operand only where it is needed. A path through an unset reference, or through a feature the structure lacks or that has another kind, is refused with an exception rather than reading unrelated data.",
 ["inputs"],
 "all constraint kinds and comparison relations, values around the boundary, all formulas up to a depth, on all structures of a small universe including null links and cycles",
 "Tests evaluate a few hand-built filters on one document.",
 ["src/cas/fsfilterbuilder.cpp","src/cas/uima/lowlevel_fsfilter.hpp"],
 [("filter classes","src/cas/fsfilterbuilder.cpp")],
 [("filter tree","formula being evaluated","src/cas/fsfilterbuilder.cpp")],
 ["FSFilterBuilder","FSFilter::match"])

prop("C07", "Type hierarchy answers are mutually consistent and match the declaration",
 "For any declared hierarchy, subsumption is exactly the reflexive-transitive closure of the declared parent relation, direct and all-subtype listings, parent, feature inheritance, appropriateness, name lookup (types by full name, features by short name and by \"Type:feature\") and iteration over all types and features agree with it. Ranges, introduction types and allowed string values are reported as declared and inherited.",
 ["configurations","inputs"],
 "all rooted hierarchies up to a bound on the number of user types, with features placed at any level, and every pair of types and features queried",
 "Tests query one fixed hierarchy.",
 ["src/cas/lowlevel_typesystem.cpp","src/cas/typesystem.cpp","src/cas/typenamespace.cpp"],
 [("type and feature tables","src/cas/lowlevel_typesystem.cpp"),("public handles","src/cas/typesystem.cpp")],
 [("appropriateness and offset tables","which feature belongs to which type","src/cas/uima/lowlevel_typesystem.hpp")],
 ["TypeSystem","Type","Feature","TypeNameSpace"])

prop("C08", "Type system construction accepts exactly valid declarations and merges correctly",
 "Building a type system from a description succeeds exactly when the description is valid (known supertypes and ranges, no cycles, no conflicting redefinition, no illegal extension of final types), regardless of the order of declarations, and an invalid one is reported as an error without a usable type system. Merging the descriptions of several components yields the union of their types and features independent of order (identical declarations given repeatedly are merged), and fails exactly when they conflict (a type with different supertypes, a feature with different ranges). Type systems imported by location belong to the description that imports them.",
 ["configurations","inputs"],
 "all small sets of type declarations over a small name universe, all declaration orders, all pairs merged",
 "Tests load a few valid descriptors and a few broken ones.",
 ["src/framework/casdefinition.cpp","src/framework/typesystemdescription.cpp","src/framework/internal_engine_base.cpp","src/cas/lowlevel_typesystem.cpp"],
 [("description merge","src/framework/casdefinition.cpp"),("type creation checks","src/cas/lowlevel_typesystem.cpp")],
 [("merged description","union of component type systems","src/framework/casdefinition.cpp")],
 ["Framework::createTypeSystem*","CASDefinition::createCASDefinition"])

prop("C09", "Views and sofas are identified and isolated correctly",
 "Every view created is retrievable by its name and by its sofa, view names and sofa numbers are unique, requests for absent or duplicate views are refused, and the initial view is the same view however it is reached. Subject data set on one view (text, local array, remote URI, mime type) reads back on that view only and can be set once until reset (an empty text counts as set), and structures added to one view's indexes are never seen through another view's indexes.",
 ["histories"],
 "all histories up to a depth of view creation, lookup, sofa creation, setting data, indexing and reset over a small set of names",
 "Tests run one scripted sequence.",
 ["src/cas/internal_casimpl.cpp","src/cas/cas.cpp","src/cas/featurestructure.cpp","src/cas/fsindexrepository.cpp"],
 [("view and sofa bookkeeping","src/cas/internal_casimpl.cpp")],
 [("sofa number map","sofa number to view","src/cas/uima/cas.hpp")],
 ["CAS::createView/getView/getViews/createSofa/getSofa","SofaFS"])

prop("C10", "Sofa data streams deliver the subject bytes exactly",
 "A stream opened on a sofa delivers exactly the bytes of its data (text in UTF-8, or the array elements in native layout, or the referenced file) or the data the handler registered for a remote subject's scheme delivers, in order, whatever sequence of read sizes and seeks is used. Reads at the end deliver the remaining bytes and then report end of data, the total size is exact, and seeks outside the data are refused without moving or corrupting the stream.",
 ["histories","inputs"],
 "all read / seek / size sequences up to a depth on sofas of every data kind and small sizes including empty",
 "Tests read each sofa once from the start in one block size.",
 ["src/cas/sofastream.cpp","src/cas/uima/sofastream.hpp"],
 [("local and remote stream handlers","src/cas/sofastream.cpp")],
 [("stream position","next byte to deliver","src/cas/uima/sofastream.hpp")],
 ["SofaFS::getSofaDataStream","SofaDataStream::get/seek/getSize"])

prop("I01", "Separate CAS instances never influence each other",
 "For any interleaving of operations on two CAS instances, whether created from the same or different type systems, and used alternately in one thread, the observable content of each is what it would be if its operations had run alone. Resetting or destroying one never changes or invalidates the other.",
 ["schedules","histories"],
 "all interleavings of two operation scripts on two instances, at API-call granularity",
 "Tests use one instance at a time.",
 ["src/cas/internal_casimpl.cpp","src/framework/engine.cpp","src/cas/lowlevel_indexrepository.cpp"],
 [("per-instance heaps and indexes","src/cas/internal_casimpl.cpp")],
 [("shared type system and definitions","read-only after commit","src/framework/casdefinition.cpp")],
 ["Framework::createCAS","CAS::reset"])

prop("S01", "XMI serialization followed by deserialization reproduces the content",
 "For any CAS content (structures of any types, primitive, string, array, list and reference features, multiple views with subject data and index membership), writing it as XMI produces well-formed XML, and reading that into an empty CAS of the same type system yields an isomorphic content: same reachable structures, values, references, sharing, views, subject data and index membership. Reading and writing again is stable. (Only characters XML allows are claimed, and a null element of a string array or list may read back as empty.)",
 ["inputs","programs"],
 "all object graphs up to a bound over a type system covering every range kind, with boundary primitive values and strings, over one and two views",
 "Tests round-trip a few sample documents and compare counts.",
 ["src/cas/xmiwriter.cpp","src/cas/xmideserializer_handler.cpp","src/cas/xmideserializer.cpp"],
 [("writer","src/cas/xmiwriter.cpp"),("SAX handler","src/cas/xmideserializer_handler.cpp")],
 [("id maps","xmi:id to structure","src/cas/uima/xmideserializer_handler.hpp")],
 ["XmiWriter::write","XmiDeserializer::deserialize"])

prop("S02", "XCAS serialization followed by deserialization reproduces the content",
 "For any CAS content (structures of any types, primitive, string, array and reference features, multiple views with subject data and index membership), writing it as XCAS produces well-formed XML, and reading that into an empty CAS of the same type system yields an isomorphic content: same reachable structures, values, references, sharing, views, subject data and index membership. (Only characters XML allows are claimed, and a null element of a string array or list may read back as empty.)",
 ["inputs","programs"],
 "all object graphs up to a bound over a type system covering every range kind, with boundary primitive values and strings, over one and two views",
 "Tests round-trip a few sample documents.",
 ["src/cas/xmlwriter.cpp","src/cas/xcasdeserializer_handler.cpp","src/cas/xcasdeserializer.cpp"],
 [("writer","src/cas/xmlwriter.cpp"),("SAX handler","src/cas/xcasdeserializer_handler.cpp")],
 [("fix-up tables","id to structure","src/cas/uima/xcasdeserializer_handler.hpp")],
 ["XCASWriter::write","XCASDeserializer::deserialize"])

prop("S03", "Binary serialization reproduces the content in either byte order",
 "Serializing any CAS content to the binary form and deserializing it into another CAS of the same type system yields isomorphic content: every structure, value, string, reference, view, subject data and index membership, whatever the target held before, and the produced size never exceeds the size announced beforehand. The same bytes written by a machine of the opposite byte order deserialize to the same content.",
 ["inputs","programs"],
 "all object graphs up to a bound with boundary primitive values, strings and arrays of every width, one and two views, both byte orders, empty and used targets",
 "Tests serialize one sample in native byte order.",
 ["src/cas/internal_casserializer.cpp","src/cas/internal_casdeserializer.cpp","src/cas/internal_serializedcas.cpp"],
 [("blob writer","src/cas/internal_casserializer.cpp"),("blob reader and byte swapping","src/cas/internal_casdeserializer.cpp")],
 [("heap arrays","fs, string, byte, short, long heaps","src/cas/uima/lowlevel_fsheap.hpp")],
 ["CASSerializer::getBlob","CASDeserializer::deserializeBlob","SerializedCAS"])

prop("S04", "XMI content unknown to the type system survives a lenient round trip",
 "When XMI is read leniently with shared data into a CAS whose type system lacks some types or features used in the document, everything known is loaded as usual and everything unknown is kept, so that writing with the same shared data yields a document that a CAS with the full type system reads back as isomorphic content, with identifiers preserved. Without lenience, unknown content is reported as an error.",
 ["inputs","programs","configurations"],
 "all small object graphs over a full type system, for every subset of types and features removed from the reduced one",
 "Tests use one pair of type systems and one document.",
 ["src/cas/xmiwriter.cpp","src/cas/xmideserializer_handler.cpp","src/cas/uima/xmishareddata.hpp"],
 [("out-of-type-system data","src/cas/xmideserializer_handler.cpp")],
 [("shared data","ids and unknown elements kept across the trip","src/cas/uima/xmishareddata.hpp")],
 ["XmiSharedData","XmiDeserializer::deserialize","XmiWriter::write"])

prop("S05", "Damaged XML input is refused cleanly and leaves the CAS usable",
 "Reading an XMI, XCAS or descriptor document that has been truncated or altered so that it is not a valid document never crashes, hangs or reads outside its data, and it is refused with an error where it is not well formed, where strict XMI names unknown types or features or dangling references, or where a descriptor has the wrong root element (XCAS and lenient XMI skip what is unknown). After such an error the CAS can be reset and a valid document read into it with the correct result.",
 ["fault_sequences","inputs"],
 "every truncation point and a set of single-edit damages at every position of small documents, followed by reset and a valid read",
 "Tests try one or two malformed files.",
 ["src/cas/xmideserializer_handler.cpp","src/cas/xcasdeserializer_handler.cpp","src/framework/taespecifierbuilder.cpp","src/cas/xmlerror_handler.cpp"],
 [("SAX handlers","src/cas/xmideserializer_handler.cpp"),("descriptor parser","src/framework/taespecifierbuilder.cpp")],
 [("parser state","state machine of the handlers","src/cas/uima/xcasdeserializer_handler.hpp")],
 ["XmiDeserializer::deserialize","XCASDeserializer::deserialize","Framework::createAnalysisEngine"])

prop("E01", "The engine life cycle obeys its protocol",
 "In any sequence of life-cycle calls on an analysis engine (initialize, type-system initialization, process, batch and collection completion, reconfigure, destroy), each call in a legal state reaches the annotator's corresponding callback exactly once and in order, and a call in an illegal state is refused with an error and reaches nothing. An error code returned or uima exception thrown by an annotator callback is reported to the caller of the engine (process lets exceptions through, other calls report their error code, a failing creation destroys and deletes what was created), and after it the engine is still in a defined state in which it can be used or destroyed.",
 ["histories","fault_sequences"],
 "all life-cycle call sequences up to a depth, with every callback failing by return code or exception at every position",
 "Tests run the normal sequence and one or two failures.",
 ["src/framework/internal_engine_base.cpp","src/framework/internal_primitive_engine.cpp","src/framework/annotator.cpp","src/framework/internal_aggregate_engine.cpp"],
 [("engine state machine","src/framework/internal_primitive_engine.cpp")],
 [("annotator state","initialized / processed","src/framework/uima/internal_primitive_engine.hpp")],
 ["AnalysisEngine::*"])

prop("E02", "Aggregates run their delegates exactly as the flow prescribes",
 "Processing a CAS with an aggregate calls each delegate named in the fixed flow exactly once, in the declared order and at any nesting depth, each seeing the results of those before it and its own mapped views, and stops at the first delegate that throws; an error code returned by a delegate is reported without stopping the flow. Completion and reconfiguration calls reach every delegate. View name mappings compose over the nesting levels, a delegate that declares no views gets its mapped default view (an error if there is none), and after processing the application sees its own names again. (CAS-multiplying delegates inside aggregates are not supported and not claimed.)",
 ["configurations","fault_sequences"],
 "all flows (orders, subsets) over a small set of delegates, nesting up to two levels, every failing position and kind, CAS multipliers producing 0..n outputs",
 "Tests run one or two aggregates.",
 ["src/framework/internal_aggregate_engine.cpp","src/framework/annotator_mgr.cpp","src/framework/casiterator.cpp","src/framework/annotator_context.cpp"],
 [("delegate dispatch","src/framework/annotator_mgr.cpp"),("CAS iteration","src/framework/casiterator.cpp")],
 [("flow list","ordered delegates","src/framework/annotator_mgr.cpp")],
 ["AnalysisEngine::process/processAndOutputNewCASes","CASIterator"])

prop("E03", "Capability and language flow calls exactly the annotators that are needed",
 "With a capability-language flow, a delegate is called exactly when, for the document's language, it declares an output the caller requested that no delegate called before has delivered successfully, or declares no outputs at all, and it is told exactly those outputs; a fixed flow calls every delegate. A capability applies to a document language if one of its languages is unspecified, equal, or the same language with one side naming no territory. Result specifications and capability queries answer by the same declared type, feature and language sets.",
 ["configurations","inputs"],
 "all small capability tables over a few types, features and languages, all requested results, all document languages",
 "Tests exercise a single capability table.",
 ["src/framework/annotator_mgr.cpp","src/framework/internal_capability_container.cpp","src/framework/language.cpp","src/framework/uima/result_specification.hpp"],
 [("capability container","src/framework/internal_capability_container.cpp"),("dispatch","src/framework/annotator_mgr.cpp")],
 [("requested-result set","types still to be produced","src/framework/annotator_mgr.cpp")],
 ["AnalysisEngine::process with ResultSpecification"])

prop("E04", "Configuration parameters resolve by group, language and override rules",
 "The value an annotator reads for a parameter is the one its descriptor and enclosing aggregates define: a value of an enclosing aggregate's parameter of the same name that may override it wins over the delegate's own value, a named group is searched by the declared strategy (none, default group, language fallback) and values keep their declared type and multiplicity. Asking for a parameter that is undefined, unset, or of another type or multiplicity is reported as such and never yields another parameter's value, and a value assigned at run time is what is read back afterwards and affects nothing else.",
 ["configurations","histories"],
 "all small parameter tables: groups, strategies, languages, set/unset at each level, overrides on/off, then all assign/read sequences up to a depth",
 "Tests cover one descriptor.",
 ["src/framework/config_param.cpp","src/framework/annotator_context.cpp","src/framework/taespecifier.cpp"],
 [("value lookup and fallback","src/framework/taespecifier.cpp"),("override lookup","src/framework/annotator_context.cpp")],
 [("name-value sets","values per group","src/framework/config_param.cpp")],
 ["AnnotatorContext::extractValue/assignValue/isParameterDefined"])

prop("E05", "A CAS pool hands each CAS to one owner at a time and never loses one",
 "For any sequence of get and release calls, a pool of n hands out at most n distinct CASes at once, never the same one to two holders, every released CAS becomes available again in reset state, an exhausted pool refuses, and releasing a CAS that is not checked out never creates a second holder. The same holds for the CASes an annotator requests through its context.",
 ["histories"],
 "all get / release / double-release / use sequences up to a depth for small pool sizes",
 "Tests run one sequence.",
 ["src/framework/caspool.cpp","src/framework/annotator_context.cpp","src/framework/casiterator.cpp"],
 [("free and in-use lists","src/framework/caspool.cpp")],
 [("pool vectors","all and free instances","src/framework/uima/caspool.hpp")],
 ["CASPool::getCAS/releaseCAS"])

prop("D01", "Component descriptors survive a write and re-read",
 "For any valid component description (primitive or aggregate, with parameters, groups, values, capabilities, types, indexes, priorities, sofa mappings and flow), writing it as XML yields a well-formed descriptor that parses to an equivalent description. Reading a descriptor yields exactly what it declares (leading and trailing blanks of texts aside).",
 ["configurations","inputs"],
 "all descriptions up to a bound built from each optional section and boundary strings and values",
 "Tests parse sample descriptors and do not compare the written form.",
 ["src/framework/taespecifier.cpp","src/framework/taespecifierbuilder.cpp","src/framework/typesystemdescription.cpp","src/framework/config_param.cpp"],
 [("XML parser","src/framework/taespecifierbuilder.cpp"),("XML writer","src/framework/taespecifier.cpp")],
 [("description objects","parsed descriptor","src/framework/uima/taespecifier.hpp")],
 ["XMLParser","AnalysisEngineDescription::toXMLBuffer"])

prop("D02", "A description put together from imported files means what it would in one piece",
 "When type systems, type priorities, indexes or delegates are imported from other files by location, the description says exactly what it would if everything stood in one file: every file that can be reached contributes once, however often and however spelled it is referred to, also when files import each other or themselves. A relative location is looked for in the working directory, next to the importing file and in the data directory (also its descriptors and specifiers folders), in that order; a file that is nowhere is refused with an exception.",
 ["configurations","inputs"],
 "all import relations between a bounded number of files, with every placement of the files, spelling of the locations and subset of the search places",
 "Tests read a few sample descriptors that import at most one level.",
 ["src/framework/taespecifierbuilder.cpp","src/framework/typesystemdescription.cpp","src/framework/resmgr.cpp"],
 [("import resolution","src/framework/typesystemdescription.cpp"),("file lookup","src/framework/resmgr.cpp")],
 [("imported description","merged description","src/framework/uima/importdescription.hpp")],
 ["XMLParser::parseAnalysisEngineDescription","ResourceManager::resolveFilename"])

prop("U01", "String references compare, search and convert like the text they denote",
 "For any text, a string reference and its substrings give the same answer for length, comparison, equality, prefix and suffix tests, searching, trimming and extraction as the plain character sequence, without reading outside it. Conversion between UTF-16, UTF-8 and single-byte encodings and back is lossless for representable text and sizes are exact. Ranges outside the text are pinned to it, as for ICU strings.",
 ["inputs"],
 "all strings up to a bound over a small alphabet including supplementary and boundary characters, all offset/length pairs",
 "Tests use a few sample strings.",
 ["src/framework/unistrref.cpp","src/framework/strtools.cpp","src/framework/uima/unistrref.hpp","src/framework/cp2ucnvrt.cpp","src/framework/u2cpcnvrt.cpp"],
 [("reference operations","src/framework/unistrref.cpp"),("converters","src/framework/cp2ucnvrt.cpp")],
 [("buffer and length","the referenced text","src/framework/uima/unistrref.hpp")],
 ["UnicodeStringRef"])

prop("U02", "Language codes parse, print and match consistently",
 "Every well-formed two-letter language with optional two-letter territory is accepted, prints back in canonical form, and keeps its identity through its numeric form, and any other text is reported invalid. Matching and equality hold exactly when languages agree and a territory, where both are given, agrees too, with the unspecified language matching as defined.",
 ["inputs"],
 "all two-letter languages and territories in every separator and case form, all strings up to a small length over a boundary alphabet, and all pairs from a representative set",
 "Tests check a dozen codes.",
 ["src/framework/language.cpp","src/framework/uima/language.hpp"],
 [("parsing","src/framework/language.cpp"),("matching","src/framework/uima/language.hpp")],
 [("packed language and territory","numeric form","src/framework/uima/language.hpp")],
 ["Language"])

prop("T01", "Engines, CASes and parsers used by different threads do not interfere",
 "When threads each use their own objects (engines with their annotators, CASes, CAS pools, type systems, serializers, deserializers, descriptor readers and writers, contexts, loggers' messages), then for every schedule each thread gets exactly the results it gets alone, including the results of failing calls, and no thread crashes, hangs or deadlocks. That also holds while engines, type systems and parsers are being created in several threads at once, from annotator libraries loaded by several of them. Registering loggers and creating the resource manager happen before the threads start, and sharing one engine or CAS between threads is not claimed.",
 ["schedules"],
 "all pairs of operations on separate objects, with every schedule of the two threads that switches at accesses to memory used by both, up to a bound on the switches",
 "The tests use one thread, or several under whatever schedule happens to occur.",
 ["src/framework/resmgr.cpp","src/framework/internal_aggregate_engine.cpp","src/framework/annotator_context.cpp","src/framework/log.cpp","src/framework/xmlerror_handler.cpp","src/framework/taespecifierbuilder.cpp","src/framework/xmltypesystemreader.cpp","src/cas/xcaswriter.cpp","src/cas/lowlevel_typesystem.cpp","src/utils/runAECpp.cpp"],
 [("library-wide singletons and locks","src/framework/resmgr.cpp"),("log lock","src/framework/log.cpp")],
 [("static data","everything shared by threads with separate objects","src/framework/resmgr.cpp")],
 ["Framework::createAnalysisEngine","AnalysisEngine::process","XmiWriter","XmiDeserializer","XCASWriter","XMLParser"])

prop("M01", "Error reports are complete: every parameter, in place, of any length",
 "Every message the library can report contains each of its parameters in full and in its place, for parameters of any length, number or text, given in any supported form, without reading or writing outside its storage. An error info keeps its id, severity, message and contexts in order through assignment, exchange, throwing and rethrowing. When a call of the library fails, the report names what failed (the unknown type, feature, range, library, descriptor, view or index label, the feature and type that do not match; for syntax errors the document and the cause).",
 ["inputs"],
 "all messages with all numbers, forms and lengths of parameters up to a bound, all histories of operations on error infos, and all kinds of failure with names of all lengths",
 "Tests check that a call fails, not what its report says, and use short names.",
 ["src/framework/message.cpp","src/framework/exceptions.cpp","src/framework/xmlerror_handler.cpp","src/framework/uima/exceptions.hpp"],
 [("formatting messages","src/framework/message.cpp"),("error information","src/framework/exceptions.cpp")],
 [("parameters and contexts","what the report must contain","src/framework/uima/exceptions.hpp")],
 ["ErrorMessage","ErrorInfo","Exception"])

prop("L01", "Every log message reaches every registered logger once and in order",
 "A message logged at or above the level its log facility was made with reaches each registered logger exactly once, in the order logged, with its type, its code, its complete text and the name of the component that logged it; text written to a log stream is delivered once, when flushed, with the type of its own stream. A logger that throws does not stop later logging, the last error logged stays available as it was logged, logging works again after the resource manager has been deleted and created anew, and the file logger writes each entry as one line.",
 ["histories", "inputs"],
 "all histories up to a bound of logging, facilities and loggers coming and going, level changes, throwing loggers, and lives of the resource manager",
 "No test looks at what loggers receive.",
 ["src/framework/log.cpp","src/framework/uima/log.hpp","src/framework/resmgr.cpp","src/framework/annotator_context.cpp"],
 [("log facility and streams","src/framework/log.cpp"),("logger registration","src/framework/resmgr.cpp")],
 [("registered loggers","who receives a message","src/framework/resmgr.cpp"),("last error","src/framework/log.cpp","src/framework/uima/log.hpp")],
 ["LogFacility","LogStream","ResourceManager::registerLogger"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
