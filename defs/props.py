"""Single source of properties.jsonl and MANIFEST.json (see gen.py)."""
PROPS = []
NOT_APPLICABLE = []
def P(id, title, statement, qtext, why, files, mech, technique=None, note=None, over=("inputs", "programs"), observe=None, design=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique or "static analysis", note=note or "", observe=observe, design=design))
def NA(id, title, statement, qtext, why, files, mech, reason, over=("inputs",)):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, reason=reason))

TRUST = " Trusts clang's AST/CFG, the extractor and the engine in sa/core.py; helpers are inlined, so the verdict follows what code does on each path, not how it is factored."

P("C01", "Operations on invalid feature-structure handles are refused, never executed",
  "Every public operation of a feature-structure, annotation, document, sofa, array or list handle that is called on an invalid handle (default constructed, null reference, or without a CAS) raises the documented error or returns a neutral result. It never reads or writes CAS memory through that handle and never dereferences its missing CAS.",
  "all operations of all handle classes x all handles, valid or not",
  "The tests call a handful of operations on one or two invalid handles; each new accessor needs its own guard and a missing one is an out-of-bounds heap access only on misuse.",
  ["src/cas/featurestructure.cpp", "src/cas/arrayfs.cpp", "src/cas/listfs.cpp", "src/cas/cas.cpp"],
  [("FeatureStructure::checkValidity / isValid", "src/cas/featurestructure.cpp"), ("FSHeap::isValid", "src/cas/lowlevel_fsheap.cpp")],
  "path-sensitive guard dataflow (validity typestate of handle cells) over inlined CFGs",
  "All paths of every public operation of every handle class and template instantiation." + TRUST)
P("C02", "Feature access, creation and typed handles respect the type system",
  "A feature read or write through a handle succeeds only if the feature is valid, belongs to the structure's type, and its range admits the accessed kind or the stored value; string subtype values outside the declared set are refused. Structures are created only of valid, non-primitive, non-array types (annotations only of annotation types), and typed array or list handles wrap only structures of their type.",
  "all feature accessors x all (type, feature, value) combinations; all creations; all handle conversions",
  "Tests probe a few mismatches (mostly int and string); the guarantee is over every accessor, range kind and type of every user-defined type system.",
  ["src/cas/featurestructure.cpp", "src/cas/listfs.cpp", "src/cas/arrayfs.cpp", "src/cas/cas.cpp"],
  [("checkAppropFeature, checkNonBuiltinFeature, checkFeature", "src/cas/featurestructure.cpp"), ("CAS::createFS/createAnnotation", "src/cas/cas.cpp")],
  "path-sensitive guard dataflow: required type-system facts at each heap accessor",
  "All paths of every public feature accessor, creation routine and typed handle constructor." + TRUST)
P("C03", "Array elements and list nodes are accessed only inside their bounds",
  "Reading, writing or bulk-copying elements of a CAS array touches only elements inside that array, for every index, offset and count, including values whose sum wraps around; everything else raises an out-of-bounds error. The head or tail of a list is read or set only on a non-empty list node.",
  "all arrays x all index / offset / count values (32/64-bit, wraparound included)",
  "Tests use small in-range indices and single off-by-one cases; wraparound and unusual offset/count mixes are unsampled.",
  ["src/cas/arrayfs.cpp", "src/cas/listfs.cpp", "src/cas/lowlevel_fsheap.cpp"],
  [("checkArraySize", "src/cas/arrayfs.cpp"), ("list checkEmpty", "src/cas/listfs.cpp")],
  "path-sensitive bound facts (linear arithmetic modulo 2^64) at each array element access",
  "All paths of every public element access and bulk copy of every array and list class." + TRUST)
P("C04", "Every route to a stored value agrees on place, width and representation",
  "A value written to a feature or array element is read back unchanged: for each kind (int, float, boolean, byte, short, long, double, string, reference) the reader and the writer use the same heap, position and encoding; element get/set, bulk copies and the reservation made at creation agree on base and element width; unset values read as 0, false or null; no route converts or narrows the value.",
  "all feature kinds and array kinds x all values x all positions",
  "A test writes a few small values through one route and reads them through the same route; disagreement shows only for particular widths, positions, mixed routes or unset values.",
  ["src/cas/lowlevel_fsheap.cpp", "src/cas/arrayfs.cpp", "src/cas/featurestructure.cpp"],
  [("FSHeap get/set<Kind>Value", "src/cas/lowlevel_fsheap.cpp"), ("BasicArrayFS get/set/copyToArray/copyFromArray", "src/cas/arrayfs.cpp")],
  "value numbering over inlined CFGs: writer/reader agreement of store, position, width and codec",
  "All primitive feature kinds, all array kinds, every access route." + TRUST)
P("C08", "Sorted and set indexes order FSs exactly as their key definition says",
  "For every index definition - any sequence of keys of any primitive kind, string or type priority, each standard or reverse - two feature structures compare by the first key on which they differ, in the direction given, over the full value range of the kind, and as equal only if no key differs; the comparison is a consistent strict order, every place that sorts, inserts, searches or merges uses that same order, redefinition of a label with different keys is rejected, and the built-in annotation index is begin ascending, end descending, type priority.",
  "all key sequences x all pairs of key values",
  "Orders go wrong only for particular kinds, directions, ties and magnitudes; tests define a few indexes with a few values.",
  ["src/cas/lowlevel_indexcomparator.cpp", "src/cas/lowlevel_internal_indexes.cpp", "src/cas/lowlevel_indexdefinition.cpp", "src/framework/casdefinition.cpp"],
  [("IndexComparator::compare", "src/cas/lowlevel_indexcomparator.cpp"), ("IndexDefinition::defineIndex", "src/cas/lowlevel_indexdefinition.cpp")],
  "abstract interpretation of the comparator over {kind} x {less, equal, greater} x {direction}, plus dataflow and pairing rules over key registration, functors, merge and index factories",
  "Every kind, direction and outcome of two consecutive keys of compare(); every functor and factory of the index code." + TRUST,
  design="""
compare() is interpreted over an abstract domain in which two FSs have symbolic key values related by <, = or >; for each of 9 key kinds x 3
relations x 2 directions x a following key (226 scenarios) the set of possible results must be exactly the sign the definition prescribes,
and each key must be read with its kind's accessor with no lossy arithmetic conversion before the comparison. The string comparison is
interpreted over prefix/limit scenarios. addKey: on every path the four key vectors grow together and the kind registered is the range type
tested. Functors and the merge order are exactly compare > 0 (antisymmetric, total); the sort pass visits every neighbouring pair until no swap.
Definitions: the agreement test covers kind, type, keys and directions; kinds map to factories, factories to index classes of one family.""")

P("C09", "Indexes list exactly the current members, for every history of changes",
  "After any sequence of adding and removing feature structures (by index or by all indexes), resets and reads, each index of a view iterates over exactly the members of its type and subtypes that are currently indexed, each once: no change leaves a supertype iterator's cache stale, removal removes the identical feature structure and only it, types without an index keep their members listed for serialisation, reset leaves nothing behind, filtered and type-restricted iterators skip only what they must in both directions, and moveTo, size and find agree with iteration.",
  "all histories of add/remove/reset/iterate x all type hierarchies",
  "Staleness needs a particular order of reading and changing across a type hierarchy and resets; unit tests build an index once and read it once.",
  ["src/cas/lowlevel_indexrepository.cpp", "src/cas/lowlevel_internal_indexes.cpp", "src/cas/fsindexrepository.cpp", "src/cas/fsindex.cpp"],
  [("IndexRepository::add / remove / reset", "src/cas/lowlevel_indexrepository.cpp"), ("CachedCompositeIndex", "src/cas/lowlevel_internal_indexes.cpp")],
  "typestate of cache freshness marks over all paths, loop-coverage and loop-protocol analysis of index changes, fills and iterator steps",
  "All mutators, resets, fills, single indexes, iterator classes, decorators and listings of the index repository." + TRUST,
  design="""
Path rules over IndexRepository: each content change is preceded by the lookup of the vector of indexes of the FS's own type, visits all of it,
and is followed on every path by clearing that type's freshness marks and marking the type used; reset() empties each used type's indexes, marks,
used flags and the un-indexed list. A composite iterator is created only where a path fact says the cache is not dirty or after a fill, which marks
fresh. Fills visit every component and store each element once, in order: a store needs the facts that the iterator is valid and either the only
one, or the other is exhausted, or compares greater; the vector is re-sorted before the next test. Erases need an identity fact on the element.
Iterator steps: forward steps only move forward until the filter accepts or the end is reached; symmetric backward. The loop analysis
recognises iterator, index and range-for loops and inlines same-file helpers. Key order itself is C08.""")

P("C11", "Text reaches XML output escaped and in the declared encoding",
  "Every string value that the XMI, XCAS and dump writers put into a document (string features, elements of string arrays and lists, covered text, document text, Sofa data, index labels, preserved out-of-type-system attribute and element values) is escaped: each UTF-16 unit is written once and in order, and an XML parser reads exactly that unit back, both in attribute values and in element content (& < > quotes, tab, line feed and carriage return as references, all others unchanged). Text put into a CDATA section cannot end it. Text written to a stream other than the console is encoded as UTF-8, as the documents declare. Names, values, descriptions and versions that the descriptor classes turn into XML are escaped in the same way.",
  "all string contents (every UTF-16 unit, in every position) and all places a writer streams text",
  "Tests write texts with few special characters in few places; an unescaped place or character shows only when that value has that character.",
  ["src/cas/xmlwriter.cpp", "src/cas/xmiwriter.cpp", "src/framework/unistrref.cpp", "src/framework/taespecifier.cpp"],
  [("XMLWriterABase::normalize", "src/cas/xmlwriter.cpp"), ("UnicodeStringRef::toSingleByteStream", "src/framework/unistrref.cpp"), ("toXMLBuffer family", "src/framework/taespecifier.cpp")],
  "abstract interpretation of the escaping function per character class; taint analysis from string getters to output streams with the escaping function as only sanitizer",
  "The escaping loop for 18 representative units (all special ones); all values streamed by the writers on all paths; all parts appended by the descriptor writers." + TRUST,
  design="""
The escaping function is run abstractly once per character: all 8 special units and representatives of the others (space, letters, DEL, BMP, surrogates,
digits of references). Every text appended for the unit on any path is decoded as an XML parser would and must be that unit; the loop around it must be counted over the
length (or pointer to end) and step once per pass. In the writers every value that reaches operator<< is traced back on all paths (values assigned from string getters, from
preserved data, from conversions of those, are dirty; normalize's output is clean). A dirty value may be streamed only in the document buffer's CDATA section, when the end mark
is known not to occur any more. In the descriptor writers the rule is the reverse: only literals, numbers, results of the family itself and escaped text may be
appended. Limits: control characters that XML 1.0 cannot represent at all are written as they are; names of types and features are valid XML names by construction of the type system.""")

P("C12", "XMI and XCAS writers and readers agree on every kind of value",
  "What the XMI and XCAS writers put into a document the readers of that format store again: for each built-in range kind (with and without multipleReferencesAllowed) and array kind, every present feature value or element is written exactly once, all elements in order, in the representation the reader expects (value, list of elements, child elements or ID), through conversions on both sides that keep every value of the kind (all 64 bits of longs, all digits of float and double, bytes as numbers, both truth values, empty strings); every feature structure written as a reference is itself written, with all views, index memberships and view members, under the same kind of ID; no two namespaces share a prefix.",
  "all feature structures, values, views and type systems that are serialised to XMI or XCAS",
  "Tests round-trip one hand-made CAS per format; a value kind, list shape or digit they do not contain is lost silently, as both sides accept the document.",
  ["src/cas/xmiwriter.cpp", "src/cas/xmlwriter.cpp", "src/cas/xmideserializer_handler.cpp", "src/cas/xcasdeserializer_handler.cpp"],
  [("XmiWriter / XCASWriter::writeFSFlat, findReferencedFSs, write", "src/cas/xmiwriter.cpp"), ("handleFeature, addArrayElement, createArray, create*List of both readers", "src/cas/xmideserializer_handler.cpp")],
  "abstract interpretation of writer and reader per range kind, representation and conversion-width comparison; loop coverage and reference/enqueue dominance rules",
  "Both formats x 31 range kinds x 2 multiplicities x 9 array kinds; all element loops and conversions." + TRUST,
  design="""
The writer's code for one feature is run over an abstract domain in which a value of the CAS is a token (shape, kind, conversion so far); what reaches
operator<< on each path gives the set of written representations per range kind and multiplicity. The reader's code for the same kind is run
with a text token and yields the set of stored shapes and kinds; the two sets must be equal, and each conversion must be wide enough (type of the stream
operand, digits of precision(), variables and casts between parse call and setter). Boolean literals are carried over concretely. findReferencedFSs must
reach an FS for every case that is written as ID, element loops on both sides must be complete and in order, the enqueuers may report "known" only for
entered FSs, all streams of addresses must go through the one ID function. Limits: whether the text of one value parses back to it is argued per
conversion (width, digits), not executed; null strings inside string arrays and empty inline string arrays have no representation in the formats; the order
of FSs and out-of-type-system data are not compared.""")

P("C13", "Configuration parameters are looked up, overridden and typed as declared",
  "A configuration parameter value has the kind (string, integer, float, boolean) and multiplicity it was created with: each typed accessor and assignment of a value hands over exactly that kind's contents or throws, never another kind's. extractValue / isParameterDefined on an annotator context ask the enclosing aggregate's context first, for the delegate's own key, and only use the engine's own value when none of the enclosing contexts overrides it; a parameter restricted to other delegates does not override. The group form searches the group itself and then, by search strategy, nothing, the default group, or the language prefixes of the group name (longest first) and then the default group; the first value found wins. An undefined parameter is an error, a defined one without value yields null / 'not present'. Values are accepted only for defined parameters of the same multiplicity and kind, once per name and group; definitions are refused after commit and when a name is defined twice; mandatory parameters without value make validation fail.",
  "all parameters, kinds, multiplicities, groups, strategies, nesting of aggregates and orders of definition",
  "Tests read a few parameters from two descriptors; which of the nested contexts, groups and fallbacks wins is only visible for particular combinations.",
  ["src/framework/annotator_context.cpp", "src/framework/config_param.cpp", "src/framework/taespecifier.cpp", "src/framework/uima/config_param.hpp"],
  [("AnnotatorContext::findNameValuePair / extractValue / assignValue / setNameValuePair", "src/framework/annotator_context.cpp"), ("NameValuePair, ConfigurationParameter", "src/framework/config_param.cpp"), ("AnalysisEngineMetaData / AnalysisEngineDescription / SettingsForGroup / ConfigurationGroup", "src/framework/taespecifier.cpp")],
  "abstract interpretation of lookup, override, accessor and definition functions over an enumerated symbolic scenario space",
  "some 600 scenarios: function x declared kind x multiplicity x group/no group x strategy x presence in context/fallback x callee outcome." + TRUST,
  design="""
Each function is executed by the abstract interpreter (sa/scen.py: symbolic atoms for strings and objects, vectors / maps / iterators as token sequences, everything
else joined) under every combination of the declared kind, multiplicity, presence of parent, group, value, fallback and restriction. All outcomes
(thrown, result, ordered calls, written fields) must be the one the statement prescribes. Loops run over the concrete shape of the scenario (0, 1, 2 or 3 elements),
so fallback order, 'first wins' and 'parent first' are decided per path, not per text. Limits: container shapes are enumerated up to three elements;
comparison of names is by symbolic identity (no case folding or Unicode); the descriptor parser that fills these objects is not part of this property.""")

P("C14", "Analysis engines follow their life cycle; aggregates reach every delegate",
  "An engine is not initialized, ready, or destroyed. initialize() is accepted only in the first state, process(), reconfigure(), reinitTypeSystem(), hasNext()/next(), batch- and collectionProcessComplete() only when ready, destroy() only before it is destroyed; a call in any other state is refused with an error (or exception) and changes nothing. An accepted call runs the engine's implementation exactly once and hands its result on; an initialization or type system re-initialization that fails or throws is reported and leaves the engine destroyed, with its annotator de-initialized. A primitive engine loads, initializes and type-system-initializes its annotator in this order, each once and only after the previous step succeeded, calls the annotator's method for each operation once and returns its result (process always, unless the engine is top-level with a language-dependent flow), and on destroy calls the annotator's destroy before deleting it. An aggregate carries initialize, reconfigure, reinitTypeSystem, batch- and collectionProcessComplete to every delegate in flow order and destroy in reverse order, each once, without stopping at a delegate's error (except initialize); with a fixed flow process() reaches every delegate; no delegate is lost or left undestroyed when setting up another one fails.",
  "all call sequences on an engine, all results and exceptions of annotator and delegate methods, all numbers of delegates",
  "Tests drive engines in the right order with annotators that succeed; a failing delegate, a call out of sequence or an exception at one step is what the guarantees are about.",
  ["src/framework/internal_engine_base.cpp", "src/framework/internal_primitive_engine.cpp", "src/framework/internal_aggregate_engine.cpp", "src/framework/annotator_mgr.cpp", "src/framework/annotator.cpp"],
  [("EngineBase::initialize / process / destroy ...", "src/framework/internal_engine_base.cpp"), ("AnnotatorManager::launch*", "src/framework/annotator_mgr.cpp"), ("AnnotatorProxy", "src/framework/annotator.cpp"), ("PrimitiveEngine::initializeImpl / processImpl / destroyImpl", "src/framework/internal_primitive_engine.cpp")],
  "abstract interpretation of the engine state machine per (state, method, callee outcome incl. exception); loop coverage and order of delegate loops",
  "EngineBase, PrimitiveEngine, AggregateEngine, AnnotatorManager and AnnotatorProxy: every public operation from every state with every outcome of every callee." + TRUST,
  design="""
Each EngineBase operation is interpreted abstractly from each of the three states, with the implementation call returning 0, an error, or throwing:
the recorded calls, the final state and the result must be what the statement says (wrong state: no implementation call, non-zero result, same state). The
primitive engine and the proxy are interpreted the same way over the sequence of annotator calls. The delegate loops must be full iterations over the
engine table (forward or reverse), call the same-named operation once per pass on the current element, and have no other way out; errors seen in a pass must make the
result non-zero. A delegate must be in the table before anything that can throw or fail follows its creation. Limits: what the annotators do;
the decision of language-dependent flows (shouldEngineBeCalled) is not judged; an aggregate whose CAS lacks the mapped default text Sofa returns error 99 in mid-flow.""")

P("C15", "Failures reach the caller: no error code or exception is lost, even in Java",
  "When a function of the framework that reports failure by an error code fails, every caller hands that failure on: it returns a non-zero error code itself, throws, or puts the error in its ErrorInfo parameter; it never goes on to report success (destructors, and a second attempt made because the first one failed, excepted). No exception handler swallows what it catches: the handler rethrows, returns an error code, or reports the error to its caller (excepted: look-ups where the exception means there is no such thing, and the loggers themselves). The factories that create engines, CASes and type systems return NULL if and only if they have set the error in ErrorInfo. XML that is not well-formed or not valid ends parsing with an exception: every parser run has an error handler, whose error() and fatalError() always throw. No C++ exception leaves a native (JNI) method; each failure in it - error code, exception of any type - is turned into a Java exception before it returns, and nothing more of the engine is run after that.",
  "all failing callees, all exceptions at all calls, all callers, all paths",
  "Tests mostly run the successful path; each of some hundred failing calls and hundred handlers would need its own injected failure, and a lost error shows as silent success.",
  ["src/framework/engine.cpp", "src/framework/annotator_mgr.cpp", "src/framework/internal_engine_base.cpp", "src/framework/taespecifierbuilder.cpp", "src/cas/xmlerror_handler.cpp", "src/jni/jni.cpp"],
  [("Framework::createAnalysisEngine / createTypeSystem / createCAS", "src/framework/engine.cpp"), ("AnnotatorManager::launch*", "src/framework/annotator_mgr.cpp"), ("XMLErrorHandler::error / fatalError", "src/cas/xmlerror_handler.cpp"), ("Java_org_apache_uima_uimacpp_UimacppEngine_*", "src/jni/jni.cpp")],
  "interprocedural may-fail closure; abstract interpretation of each caller with the callee failing; path check of every exception handler; exception-edge reachability",
  "every call of a may-fail function, every exception handler, every native method, factory, parser error handler and parser run of the analysed units." + TRUST,
  design="""
Which error-code functions can fail is computed as a closure: constants returned, or the results of functions that can fail (virtual calls: all overriders and user code).
For each call of one, the caller is interpreted abstractly with that call failing (the first time it is executed) and the others succeeding: all ends must be a throw, a report or a non-zero result.
For each handler in the source, all paths from it must throw, report, or return an error; functions that always throw or always report are computed, so a helper serves as well as the statement itself.
Native methods: with an exception edge from every call, the abnormal exit must be reachable from nowhere but inside handlers. Limits: configuration queries whose error codes mean "not set"
(extractValue ...) and the setters whose only failure is "already committed" are not judged; which error code is handed on is not judged, only that it is one.""")

P("C18", "What is created is freed exactly once, and in the way it was created",
  "An object that the library creates has one owner. If it is kept in a member, or in a container that is a member, a destructor (or the method that ends the owner's life) deletes it, on every path and for every element; the only exceptions are null pointers and objects whose own flag says they do not own it. Such a member gets a new value only after the old object was deleted or handed on. An object that a function knows only by local names is deleted, returned, thrown or handed to somebody who keeps or deletes it on every way to the end of the function, to an exception the function throws itself, and to a handler of its own; the same holds for objects kept in a local container. What is created with new is deleted with delete, new[] with delete[], and what XMLString::transcode or malloc returned goes to XMLString::release or free. A pointer that was deleted is not used, deleted again, returned or left behind in a member of an object that lives on. A pointer or reference string is not kept or returned that points into a temporary string, and none is returned that points into a local one.",
  "all objects, all paths through the functions that create, keep and delete them, all containers of any size",
  "Leaks, double deletes and mismatched deallocation are invisible to assertions; the tests run few error paths and never count allocations.",
  ["src/cas/fsiterator.cpp", "src/cas/cas.cpp", "src/cas/xmideserializer.cpp", "src/cas/lowlevel_internal_indexes.cpp", "src/framework/taespecifier.cpp", "src/framework/taespecifierbuilder.cpp", "src/framework/internal_engine_base.cpp", "src/framework/engine.cpp", "src/jni/jni_utils.cpp"],
  [("CAS::~CAS", "src/cas/cas.cpp"), ("XmiDeserializer::deserialize", "src/cas/xmideserializer.cpp"), ("AnalysisEngineMetaData::~AnalysisEngineMetaData", "src/framework/taespecifier.cpp"), ("XMLParser::build*", "src/framework/taespecifierbuilder.cpp"), ("OrderedCompositeIndex::clearAndFillCache", "src/cas/lowlevel_internal_indexes.cpp")],
  "interprocedural ownership analysis: summaries of what functions create, keep and delete; typestate of each created object on all paths; destructor completeness; lifetime of temporaries",
  "every new expression and call of a creating function, every delete, every destructor, and every pointer or reference string that is kept or returned in the analysed units." + TRUST,
  design="""
Per function: what it returns that it created, which parameters it stores (and in which member) or deletes; computed to a fixed point through virtual calls, with smart pointers and containers understood.
Destructors: for each member that receives a created object, the deletions reachable in some destructor (helpers inlined) must be on every path or in a loop that visits every element.
Locals: a typestate of the set of names of each object, sensitive to boolean flags and null tests, to the normal exit and to explicit throws. Deleted pointers: forward from each delete to a use, a second delete or the end.
Limits: objects lost when an exception passes through a function that neither throws nor catches it are not judged; nor are operating-system resources other than memory, reference counts (there are none), and user code.""")

P("C21", "Descriptors are read completely and as written",
  "The descriptor parser hands the description object exactly what the document says: every element and attribute the specifier schema knows (analysis engine, metadata, configuration parameters, groups and settings, type systems, types, features, allowed values, indexes and keys, type priorities, capabilities, flows, operational properties, sofa mappings, delegates, imports) reaches the setter or adder of its own property with its own text or enumerated value; lists keep every entry in document order; a setting for several groups reaches each of them. The result does not depend on the order of sibling elements, nor on comments and white space between them; unknown elements are ignored. Element text is the concatenation of its text, CDATA sections and environment variables, trimmed. Imports by location are resolved against the importing file and read once each, so import cycles end; type system imports by name are kept; a missing location for index, priority or delegate imports is refused. Descriptions of one type are merged: missing features are added, a different supertype is refused, a duplicate feature or parameter setting (same group) or a setting without usable value is refused. Each parse function hands the document's root to the builder of its kind",
  "all descriptors: element subsets and orders, list lengths, white space and comments, import graphs",
  "Tests read a dozen well-formed descriptors in the usual element order; an element that is dropped, mixed up or depends on its neighbours needs a descriptor that uses it.",
  ["src/framework/taespecifierbuilder.cpp", "src/framework/typesystemdescription.cpp", "src/framework/uima/taespecifierbuilder.hpp"],
  [("XMLParser::build* / parse*", "src/framework/taespecifierbuilder.cpp"), ("TypeSystemDescription::resolveImports / addTypeDescription / mergeTypeDescriptions, TypeDescription::mergeFeatureDescriptions", "src/framework/typesystemdescription.cpp")],
  "abstract interpretation of the builders over sample DOM documents (tokens) enumerated from a specification of the descriptor schema",
  "each element alone, all in order, all reversed, unknown ones, lists of 0 to 3 entries, with and without noise; 15 parse functions; import and merge scenarios." + TRUST,
  design="""
The schema is a table in checks/c21.py: per description class, element name -> setter / adder and the meaning of its text. Documents are generated from it and each
builder is executed by the abstract interpreter over the document's DOM, in which nodes, names and texts are tokens and the DOM operations (child list, first child,
siblings, node type, name, attribute) answer from the document; getSpannedText is replaced by its specified value there and interpreted on its own over text, CDATA,
comment and environment variable nodes. Every abstract outcome must produce the description object of the table: same calls, same arguments, same order in lists. The
deciding step reads only the code of the builders; nothing is run. Limits: Xerces itself (well-formedness, entity expansion, DOM construction) is trusted; conversion of
number texts is by token; delegate imports by name are not supported by the code and only checked to be refused; XInclude-like features are absent.""")

P("C23", "CAS storage grows without losing, overlapping or overrunning cells",
  "Creating a feature structure, array or string reserves exactly the cells it needs: reservations never overlap, stay within the heap's capacity, and keep every cell already stored when the heap grows. New cells read as 0; a reservation that cannot be represented or allocated raises an error and leaves the stored data intact. A reset heap is all zero and starts again at cell 1.",
  "all sequences of reservations of all sizes on all four heaps, all growth points, allocation failure",
  "Tests allocate a few small structures and rarely cross a growth boundary; overlap, stale cells or wraparound shows only at particular sizes and sequences.",
  ["src/cas/uima/lowlevel_internal_heap.hpp", "src/cas/lowlevel_fsheap.cpp"],
  [("Heap::increaseHeap / resetHeap", "src/cas/uima/lowlevel_internal_heap.hpp"), ("FSHeap::createFSInternal / createArrayFS", "src/cas/lowlevel_fsheap.cpp")],
  "value numbering + linear path facts over each heap instantiation; who-may-write field effects",
  "All paths of growth, reset, construction and reservation for the four heap instantiations; every write of a heap's block, top or capacity in the library." + TRUST)
P("C24", "Instances used in different threads share no mutable state",
  "Engines, CASes, parsers, readers and writers that are created and used each in their own thread work as if they were alone in the process (runAECpp -n, the documented multi-threaded use). Outside the process-wide set-up the application does first (creating and deleting the ResourceManager, its register/set/enable functions, ErrorInfo's global prefixes, the JNI logger at first construction), no function of the library (src/framework, src/cas, src/jni) changes a namespace-scope variable, a static member or a function-local static, hands one on to be changed, or gives one out for change, unless it is thread_local or the change is made under the lock that guards it; and none calls a function that keeps its result in static memory or changes settings of the whole process (ctime, localtime, gmtime, asctime, strtok, strerror, rand, setlocale, putenv, chdir, ...). What is shared by design stays consistent: the resource cache is searched and extended under one lock; the registered loggers are called only while the log's lock is held, the lock is given back on every way out, also when a logger throws, and not taken again while held; the last error of the framework's log is changed under the lock; every log facility records the name of its own engine whichever was made first.",
  "all schedules of any number of threads, all calls, all exceptions thrown by loggers",
  "Tests run one engine in one thread; a shared buffer or an unlocked list fails only for one interleaving.",
  ["src/framework/log.cpp", "src/framework/resmgr.cpp", "src/framework/uima/resmgr.hpp", "src/framework/taespecifierbuilder.cpp", "src/cas/xmlwriter.cpp", "src/cas/xmltypesystemreader.cpp", "src/cas/xmiwriter.cpp", "src/cas/lowlevel_typesystem.cpp", "src/framework/uima/timedatetools.hpp"],
  [("LogFacility, LogStreamBuffer: log, doLog, sync", "src/framework/log.cpp"), ("ResourceManager: requestResource, statics", "src/framework/resmgr.cpp"), ("XMLParser conversion buffers (thread_local)", "src/framework/taespecifierbuilder.cpp"), ("XCASWriter", "src/cas/xmlwriter.cpp"), ("time formatting", "src/framework/uima/timedatetools.hpp")],
  "whole-program effect analysis on global storage (who may change which static variable); lock typestate over all, also exceptional, paths",
  "std::cout/cerr are exempt; one object used by several threads at once is not covered; getLastError and getLogStream belong to the facility's owner; set-up functions are assumed to be called before threads start; annotators written by users are outside." + TRUST,
  design="""
Every variable of static storage duration of the 71 units is collected from the declarations (namespace scope, static members, function-local statics); const without mutable
parts and thread_local ones need nothing. For each of the others every use in every function is classified: read, written (assignment, increment, non-const member call,
element store through it), handed on by non-const reference or pointer (followed into callees), or given out. A changing use must lie in set-up code: a function that the call
graph reaches only from the named set-up entry points, or the variable's own initialisation; otherwise it must be dominated by taking the lock that guards it. Members of the
ResourceManager (one per process) count as static storage. Calls of functions that keep state of the C library or the process are listed from a table. The lock is a typestate
(free / held) run over the control-flow graph with an exceptional edge from every call that may throw: loggers called only held, no path leaves held, none takes it twice.
Why this reaches what tests cannot: the rule does not depend on a schedule; without shared mutable storage there is nothing to race on.""")

P("C26", "References into CAS storage are not used after the storage may have moved",
  "A string reference or array address obtained from the CAS and passed back to any API (feature values, array elements, list values, document text, Sofa names and MIME types) is stored correctly even when storing it makes a CAS heap grow or replaces the document text: inside the library no pointer into a heap or into a view's document copy is used after a call that may move or release that memory, and none is kept in an object that outlives the call.",
  "all call sequences x all heap fill levels at which growth happens",
  "The use-after-move shows only when a heap is full to within a few cells at exactly that call; tests run with almost empty heaps.",
  ["src/cas/uima/lowlevel_fsheap.hpp", "src/cas/cas.cpp", "src/cas/featurestructure.cpp", "src/cas/arrayfs.cpp", "src/cas/sofastream.cpp"],
  [("Heap::increaseHeap moves the block", "src/cas/uima/lowlevel_internal_heap.hpp"), ("CAS::copyDocumentString", "src/cas/cas.cpp")],
  "interprocedural invalidation analysis: may-grow effect sets per heap + staleness typestate of reference-like locals and parameters",
  "Every function of the library that holds a heap-derived pointer or string reference across a call that may grow that heap (heaps told apart by member)." + TRUST,
  design="""
May-grow sets: the functions that assign a heap's block pointer, and transitively all callers, kept per heap member (FS, string-ref, string,
8/16/64-bit) and for the view's document copy. Reference-like values (scalar pointers, UnicodeStringRef) derived from a heap start accessor,
interprocedurally through returns and parameters; string arguments of API functions are assumed to point into the string heap or the document.
Typestate fresh -> stale at a may-grow call; any use of a stale value is a violation, unless path facts place it outside the block
(ptr < start, or ptr >= start + top). Storing a heap pointer in a field is a violation. Limits: addresses handed to the user
(getStringValue, getDataPointer) are the user's to re-fetch; non-reference aggregates holding pointers are not followed.""")

P("C05", "Binary serialization restores the CAS it was made from, in both byte orders",
  "Deserializing what serializing a CAS produced restores it completely: the blob carries every heap whole and the members of every view (also views without members, members of types without an index, and a CAS without a Sofa), each section is read back from exactly where it was written with the stored length, nothing is written beyond the size the caller was told and the buffer was checked against, a blob from a machine of the other byte order is converted element by element, and the table form used by JNI pairs the same heaps cell by cell.",
  "all CAS contents (all heap fill levels, all sets of views and members), both byte orders, all buffer sizes",
  "A wrong offset or length shows only at particular remainders of heap sizes (alignment), for views with or without members, or for foreign byte order, which the tests never produce.",
  ["src/cas/internal_casserializer.cpp", "src/cas/internal_casdeserializer.cpp", "src/cas/uima/internal_serializedcas.hpp"],
  [("CASSerializer::getBlob / serializeIndexedFSs / serializeData", "src/cas/internal_casserializer.cpp"), ("CASDeserializer::deserializeBlob / swapBlob / deserializeIndexedFSs", "src/cas/internal_casdeserializer.cpp")],
  "byte-level value numbering of buffer offsets as linear terms with floor division; writer layout vs reader, swapper and size function; loop coverage",
  "getBlob, getBlobSize, deserializeBlob, swapBlob with its element swappers, (de)serializeIndexedFSs and the table form. The type-system definition tables are not part of this property." + TRUST,
  design="""
Every store and block copy of getBlob is expressed as (offset, length) from the buffer, in linear terms over the heap tops with floor division;
sections must be pairwise ordered, carry `top x width` bytes of one heap, and end below the size that is returned, compared with the buffer and
returned by getBlobSize; none may be skipped on a successful path. deserializeBlob is evaluated the same way, loads from the buffer being replaced
by what the writer stores at that offset: every copy must hit the section of its own heap, with that heap enlarged to it, and may be skipped only
under a condition that implies it is empty. swapBlob must visit each word and section exactly once with its width, its element functions must
reverse all bytes, and it is called exactly under the reversed key. The index section: loop analysis shows each view 0..n emits one count and exactly
that many entries, covering all members of all used types' indexes plus the members without index; the reader's cursor moves by 1 + count on each
path, adds exactly these entries to the same view, starting from an empty list.""")

P("C06", "A reset or reloaded CAS carries nothing over from the previous document",
  "After CAS::reset, and after loading a serialized CAS into a used one, nothing of the previous document can be seen: document text, language, Sofas, view registrations, index members, heap contents and string tables are those of a new CAS, for the base CAS and every view; loading empties the CAS before it fills it, and indexes members only after all data they are ordered by is in place.",
  "all prior contents and all sequences of reset / load / use, all sets of views",
  "A leftover is visible only for a particular pair of consecutive documents, e.g. a view the second one lacks.",
  ["src/cas/cas.cpp", "src/cas/lowlevel_fsheap.cpp", "src/cas/lowlevel_indexrepository.cpp", "src/cas/internal_casdeserializer.cpp", "src/cas/internal_serializedcas.cpp"],
  [("CAS::reset", "src/cas/cas.cpp"), ("FSHeap::reset", "src/cas/lowlevel_fsheap.cpp"), ("CASDeserializer::deserializeBlob / deserializeData", "src/cas/internal_casdeserializer.cpp")],
  "field-effect analysis: every field changed by use is restored on every path of reset; ordering of reset before fill before indexing",
  "All fields of CAS that any function changes, all heaps of FSHeap, all tables of SerializedCAS, the deserialization entry points. IndexRepository's own reset is decided in C09, Heap's in C23." + TRUST,
  design="""
Field effects: every field of CAS written (or changed through a method) anywhere outside constructors, destructor and reset must be restored by
reset() on every path to the constructor's value, for `this` and each view in the view map (loop coverage); a short list of fields that
are not document content is excepted, each with its reason. Views are created only where they are entered in the map reset() walks. The
deserializers must reset before the first heap or index change and index only after the last heap is filled.""")

P("C07", "The type system is a consistent single-rooted tree with inherited features",
  "Creating types and features, merging type system descriptions, and committing keep the type system consistent: every type has one existing parent and appears exactly once among its children, names are unique and found again, the primitive, array and string-subtype types are final, nothing is created after commit; subsumption is exactly reachability of the parent relation; a type has exactly its own and its ancestors' features, each at its own offset; type priorities stay acyclic; merging accepts a redeclaration only when parent, range and allowed values agree, and ends also for cyclic descriptions.",
  "all type system descriptions, all orders of creation and merging, all depths of the hierarchy",
  "Type systems come from user descriptors: the inconsistent ones (cycles, conflicts, name clashes) and the deep ones are not what tests load.",
  ["src/cas/lowlevel_typesystem.cpp", "src/cas/typesystem.cpp", "src/framework/casdefinition.cpp", "src/cas/uima/lowlevel_typesystem.hpp"],
  [("lowlevel::TypeSystem", "src/cas/lowlevel_typesystem.cpp"), ("mergeType / CASDefinition::mergeTypeSystem / addTypePriorities", "src/framework/casdefinition.cpp")],
  "abstract interpretation of the table operations, dominance/fact analysis of creation guards, loop-coverage analysis of inheritance and merging",
  "lowlevel::TypeSystem's tables and all functions that change them, the queries subsumes/getMostSpecificCommonSupertype/getDirectSubtypes..., commit, type priorities, and the merging of descriptions; the parsing of descriptors into descriptions is C21." + TRUST,
  design="""
The parallel tables (one row per type / per feature) are interpreted symbolically for the creation functions: each grows every table by one and
fills the new row from the right parameter. Creation calls are dominated by a lookup that failed and by the final-type test; finality is checked
by evaluating the predicate for every built-in code. Inheritance: loop coverage (every child, every feature of the parent, every introduced
feature), offsets equal to the running count. subsumes/closure/common-supertype are evaluated over an oracle of parent/equal/top cases. Priority
pairs are kept only after the acyclicity test. Merging: every description and feature visited; facts at the normal round ends must entail equal
parents and ranges; a supertype chain is followed recursively only after a loop that counts its length (or collects names) and throws.""")

P("C10", "Malformed XCAS/XMI documents are refused or yield a well-formed CAS",
  "Whatever XCAS or XMI document is read, reading either raises an error or leaves a well-formed CAS: each FS-valued feature, FS array element and FS list head that the document states as an ID ends up null or as the address of the feature structure read for that ID, never as the ID itself - with duplicate, missing, forward, dangling or non-dense IDs, in every kind of range and with or without multipleReferencesAllowed; no number of the document (Sofa or view number, array size or position, ID) subscripts anything without being inside; a Sofa reference selects a view only if it names a Sofa that has one; attributes and content are stored in the feature structure of their own element only, and content of elements without one (unknown types) in none.",
  "all documents: all sequences of element, attribute and content events and all numeric values in them",
  "Broken references, odd numbers and unknown types do not occur in documents the library wrote itself, which is what the tests read; the damage (an ID taken for a heap address) shows much later.",
  ["src/cas/xcasdeserializer_handler.cpp", "src/cas/xmideserializer_handler.cpp", "src/cas/uima/xmishareddata.hpp"],
  [("XCASDeserializerHandler::finalizeFS / handleFeature / readFS", "src/cas/xcasdeserializer_handler.cpp"), ("XmiDeserializerHandler::finalizeFS / createArray / processView", "src/cas/xmideserializer_handler.cpp")],
  "abstract interpretation of reader and finalizer over all range kinds (ID/address taint), registration typestate, element-event fixpoint, linear facts for subscripts",
  "All subscripts, nullable attributes, creations, reference cells (27 range kinds x 2 multiplicities, array kinds) and per-element state of both XML readers." + TRUST,
  design="""
A finite-domain abstract interpreter runs the reader's feature and array code for every range kind and multiplicity and notes whether a reference
cell receives a document number (ID) or an address; the end-of-document pass is run for the same kind, with the ID found and not found, exceptions
included, and must overwrite exactly the ID cells, with 0 or the address found. Every FS created on any path of startElement/endElement is followed into
exactly one of the collections endDocument goes through completely (loop coverage), with a finalizer that suits it; an entry that replaces another
keeps the old one. A fixpoint over abstract event sequences (start of known/array/byte-array/unknown element, content, end) shows that no field that
belongs to an earlier FS element is read. Subscripts need linear facts on all paths (or at all callers). Limits: well-nested events are
Xerces' guarantee; an ID mapping supplied by the caller (merging into a CAS) is trusted; text-to-number conversion itself is libc's.""")

P("C28", "What the library writes fits the buffers it sizes itself",
  "Wherever the library writes characters or bytes into a buffer whose size it fixes or computes itself (a local, member or global array, or memory from new[], malloc or a pool), it never writes past the buffer's end or before its start, whatever the length of the names, paths, file names, environment variables, language codes, messages, numbers or texts it is given. This covers strcpy, strcat, strncpy, memcpy, memset, sprintf, fread, text extraction and conversion into char buffers, the terminating zero, and element stores by index or through a pointer walking such a buffer. Writers without a limit (strcpy, strcat, sprintf) into an existing string are used only where that string is shown to be at least as long. The CAS heaps (Heap<T>) never have more cells in use than allocated, after construction, growth and reset.",
  "all lengths and contents of names, paths, environment variables, messages, texts; all states of the heaps",
  "Tests use short names and small numbers; an overrun shows only for one length, and often not even then.",
  ["src/framework/language.cpp", "src/framework/resmgr.cpp", "src/framework/uima/filename.hpp", "src/framework/engine.cpp", "src/framework/ftools.cpp", "src/framework/consoleui.cpp", "src/framework/taespecifier.cpp", "src/cas/cas.cpp", "src/cas/sofastream.cpp", "src/cas/uima/lowlevel_internal_heap.hpp"],
  [("Heap<T>: constructor, increaseHeap, reset", "src/cas/uima/lowlevel_internal_heap.hpp"), ("Language::init, _initFromString", "src/framework/language.cpp"), ("ResourceManager::ResourceManager (stream handlers), XML reader schema path", "src/framework/resmgr.cpp"), ("Filename::setNewName, setNewExtension", "src/framework/uima/filename.hpp"), ("CAS::copyDocumentString", "src/cas/cas.cpp"), ("ConsoleUI", "src/framework/consoleui.cpp")],
  "path-sensitive linear-inequality analysis of every write into a buffer of known size (bytes written <= capacity)",
  "writes into buffers received from callers (7 sites, through parameters) and into buffers sized elsewhere (153 sites: containers, blob sections covered by C05) are listed in the evidence but not decided; extractPath/extractBaseName are contracts checked at their callers; ICU's default code page is UTF-8; integer overflow of lengths is not considered." + TRUST,
  design="""
Every function of the 71 units is scanned for writes: calls of the writing functions of the C library, ICU and the string classes, and element stores. The capacity of the
destination comes from its declaration or the allocation reaching the write (new[], malloc, apr_palloc, string assign/resize), the bytes written from the function's contract
(formatted output: the widest output of each conversion; extraction: the limit given). Along every path of the function the branch conditions and the last value of each local
are kept as linear inequalities; bytes written <= capacity must follow from them (equations eliminated, then a bounded search for a combination of inequalities). Loops: counters
bounded by their condition; a growing position needs a bound tested in the loop. Small helpers that compute a number are followed into. Heaps: 1 <= used <= allocated cells is
assumed at entry of every Heap<T> member and must follow at every exit.""")

P("C30", "Description objects keep what they are given and are frozen by commit",
  "The value handed to a setter or adder of a description object (analysis engine, metadata, capability, flow, index, key, type priority, type, feature, allowed value, type system, import, sofa mapping, configuration parameter and group) is the one its accessor returns, and no other member changes; adders append and report when they take ownership. Constructors give every plain member a value; copies of type, feature and allowed value descriptions carry every member, with their own copies of the parts. commit() makes the object refuse further changes and reaches every part of it (types, features, allowed values, imports, indexes, keys, priorities, capabilities, flow, parameter groups and parameters, sofa mappings, delegates); imports are resolved before. After commit every setter and adder that reports an error code returns UIMA_ERR_CONFIG_OBJECT_COMITTED, changes nothing and takes no ownership (parameter values, NameValuePair and setNameValuePair, stay changeable by design). A type system or CAS definition made from a modifiable description commits it before reading its types",
  "all description classes, setters, adders, part counts, both states",
  "Tests fill descriptions from files and never change them afterwards; one forgotten guard, part or member shows only after commit or for one particular part.",
  ["src/framework/uima/taespecifier.hpp", "src/framework/uima/typesystemdescription.hpp", "src/framework/uima/capability.hpp", "src/framework/uima/config_param.hpp", "src/framework/uima/sofamapping.hpp", "src/framework/uima/importdescription.hpp", "src/framework/taespecifier.cpp", "src/framework/typesystemdescription.cpp", "src/framework/casdefinition.cpp"],
  [("MetaDataObject and its subclasses: set* / add* / commit / constructors", "src/framework/uima/taespecifier.hpp"), ("AnalysisEngineMetaData::commit, AnalysisEngineDescription::commit", "src/framework/taespecifier.cpp"), ("CASDefinition::create*", "src/framework/casdefinition.cpp")],
  "abstract interpretation of every setter, adder, accessor, constructor and commit of the class family in both states; effect recording",
  "every class derived from MetaDataObject, found in the class table, so a new setter is covered without being listed." + TRUST,
  design="""
The subjects are found structurally: every class derived from MetaDataObject and every method of it that returns an error code and is called set* / add*. Committed state:
with the flag false, no reachable statement may write to the object, delete anything or claim ownership, and all paths return the one error. Modifiable state: with
distinct tokens in all members, exactly one member changes to the argument and the accessor, interpreted on the resulting state, yields it. commit(): members of
description type (pointer, vector, map) get 0, 1 and 3 parts; each must receive commit(), the flag must be off at the end and still on when imports are resolved.
Constructors: every plain member is written; copy constructors: member by member. Limits: void setters (operational properties, file location, root tag) have no way to
refuse and are outside; maps of groups are covered through C13; accessor names for adders come from a table.""")

P("C31", "Inconsistent descriptions are refused before use; merging keeps everything",
  "AnalysisEngineDescription::validate accepts a description exactly if it is consistent. Refused with a ValidationException: two types of one name; a type with two features of one name; allowed values on a type that is not a direct subtype of uima.cas.String; a missing (null) capability or index description; two index descriptions with one label; a mandatory configuration parameter, in any group, for which the lookup with the group, the name and the declared search strategy finds no value. Everything else passes these tests. An aggregate is validated by validating every delegate, then merging every delegate's type system into its own, then validating its own metadata; a failure of any of the three is not swallowed. Merging keeps everything: unknown types and features are copied in, a type known with the same supertype gets the other's features and allowed values, a different supertype is refused, and so is a feature with a different range and an added feature or allowed value whose name is taken; the lookups by name these rules rest on find exactly the entry of that name. No path leads from reading an analysis engine descriptor to a CAS definition or annotator context made of it without validate() and then commit(). No step reads outside the lists it walks.",
  "all lists of names, groups, parameters, delegates, in every position",
  "Valid descriptors never take the refusing paths; the tests validate a handful of valid files and no invalid one.",
  ["src/framework/taespecifier.cpp", "src/framework/typesystemdescription.cpp", "src/framework/engine.cpp", "src/framework/uima/taemetadata.hpp"],
  [("AnalysisEngineDescription::validate, AnalysisEngineMetaData::validate", "src/framework/taespecifier.cpp"), ("TypeSystemDescription / TypeDescription: validate, merge*, add*, get*", "src/framework/typesystemdescription.cpp"), ("Framework::createAnalysisEngine(bool, UnicodeString, ErrorInfo)", "src/framework/engine.cpp")],
  "abstract interpretation of the validation and merge functions over symbolic lists with and without each inconsistency; forward typestate from parser to engine",
  "lists of up to three entries in all equality patterns that matter, every position of the faulty entry, up to three delegates." + TRUST,
  design="""
The functions are interpreted over symbolic lists (entries are tokens, names their equality classes); for every list the outcome must be refusal exactly if the statement
says so, on every path, and every element of a valid list must be visited. Delegates, metadata and merge calls are recorded in order, with each of them made to throw in
turn: no normal exit may follow. Merge and add functions: the recorded additions must be exactly the missing names, with copies of the other's entries. made(): typestate
(read, validated, committed) along all paths of the functions that parse a descriptor and create an AnnotatorContext. Elements read outside a tracked vector are reported
whatever the use. Limits: feature ranges and supertypes are compared only by name here (C07 covers the type system built from them); lists longer than three follow by the
loops treating elements alike.""")
