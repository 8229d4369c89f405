#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The committed files are the output of this script."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, text, why, files, mechanism[(name, where)], observe_at, note
P = []
def prop(id, title, statement, over, text, why, files, mech, obs, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs, technique=technique, note=note))

TRUST = " Trusted: the Go toolchain, the reference model and the generators in /verif/harness; nothing is claimed about executions that were not produced."

prop('C01', 'Map behaves as an insertion-ordered association list',
 'For every history of Map operations (put, remove, bulk and derived operations, iteration, construction) the Map answers exactly as an insertion-ordered association list keyed by value equality would: same content, same order, same return values, same length, no duplicate keys. Mutation of a frozen Map panics and changes nothing, and the memory of a Map stays proportional to its number of entries.',
 ['histories', 'inputs'], 'All operation histories over all keys and values, including keys with equal hash codes, native Go arguments, self-referential arguments and tables that grow and shrink.',
 'The tests sample a few short histories with distinct well-hashing keys; bucket and link order bugs need particular collisions, removals and resizes in sequence.',
 ['internal/map.go', 'vf/map.go', 'internal/array.go'],
 [('hash table with linked entries, resize, put/remove', 'internal/map.go hashMap'), ('ToMap/ToMapFromEntries', 'internal/array.go')],
 ['dgo.Map methods', 'vf.Map/MutableMap'], 'model-based runtime monitor over operation histories', 'Held on the executed histories, every live map compared with the model after every operation.')
prop('C02', 'Array behaves as a sequence',
 'For every history of Array operations the Array answers exactly as a plain sequence of values would: element access, insertion, removal, slicing, mapping, filtering, flattening, uniqueness, search and multiset containment. Positions outside of the array panic or are no-ops as documented, mutation of a frozen Array panics and changes nothing, and an Array never exposes an unset position.',
 ['histories', 'inputs'], 'All operation histories over all element values, positions and argument kinds.',
 'The tests check each operation on one or two arrays; storage sharing between arrays and multiset containment depend on capacity, order and earlier operations.',
 ['internal/array.go', 'vf/array.go', 'internal/arguments.go'],
 [('slice backed array', 'internal/array.go array')], ['dgo.Array methods', 'vf array constructors'],
 'model-based runtime monitor over operation histories', 'Held on the executed histories, every live array compared with the model after every operation.')
prop('C03', 'Derived values and copies never share mutable state',
 'A copy (plain, frozen or thawed) of a mutable collection, and a value created from Go data by an immutable constructor, is independent of what it was made from at every nesting depth: later mutation of either is never visible through the other. A collection derived in another way (With, Without, Slice, Merge, Map, Select, Keys, Values, Entries ...) is a container of its own, so that changing which elements it holds never affects the source or other derivations, although mutable elements of mutable collections may be shared. Thawed and mutable copies are mutable at every level.',
 ['histories', 'inputs'], 'All derivations of all nested values followed by all mutations of source and result.',
 'Tests mutate after one derivation at the top level; sharing shows only after a particular derivation followed by a particular mutation of a nested part.',
 ['internal/array.go', 'internal/map.go', 'internal/struct.go', 'internal/binary.go', 'internal/sensitive.go', 'util/slice.go'],
 [('SliceCopy, Copy, FrozenCopy, ThawedCopy', 'internal/array.go, internal/map.go, internal/binary.go')], ['all derived-value operations'],
 'snapshot monitor: deep observation before and after every mutation', 'Held on the executed derivation and mutation sequences.')
prop('C04', 'A frozen value is immutable to its full depth',
 'After a value is frozen, or obtained as a frozen copy or by an immutable constructor, every value reachable from it reports to be frozen, every mutating operation on any part of it panics, and nothing that can be done through the API or to the Go data used to create it changes what it contains. A frozen copy of a frozen value is that value, and making a frozen copy never freezes the original.',
 ['histories', 'inputs'], 'All values, all ways to obtain a frozen one, and all later operations on the value, its parts, its origin and what is derived from it.',
 'Tests freeze one collection and try one mutator; deep freezing must cover every container kind nested in every other, keys and derived collections.',
 ['internal/array.go', 'internal/map.go', 'internal/struct.go', 'internal/binary.go', 'internal/sensitive.go', 'internal/native.go', 'internal/error.go'],
 [('Freeze/Frozen/FrozenCopy', 'internal/*.go'), ('frozenMap/frozenArray panics', 'internal/array.go, internal/map.go')], ['dgo.Freezable', 'mutators'],
 'invariant monitor walking frozen graphs while hostile mutations are attempted', 'Held on the frozen graphs and mutation attempts executed.')
prop('C05', 'Equality is structural and consistent with hash codes and map lookup',
 'Two values are equal exactly when they have the same kind and the same content (map order and time zone excepted), regardless of how they were built, whether they are frozen, and whether one is given as a Go value; equality is reflexive, symmetric and transitive. Equal values have equal hash codes, and a value used as a map key is found by every value that equals it.',
 ['inputs'], 'All pairs and triples of values, in all representations.',
 'The tests compare a few hand-picked pairs; symmetry across representations and hash consistency are quantified over all pairs.',
 ['internal/value.go', 'internal/compare.go', 'internal/map.go', 'internal/array.go', 'internal/string.go', 'internal/time.go', 'internal/binary.go', 'internal/native.go', 'internal/error.go', 'internal/sensitive.go', 'internal/struct.go'],
 [('Equals/HashCode of each value kind', 'internal/*.go'), ('deep equality with recursion guard', 'internal/compare.go')], ['Value.Equals', 'Value.HashCode', 'Map.Get'],
 'algebraic-law monitor against a structural reference equality', 'Held on the pairs and triples generated.')
prop('C06', 'Type equality is an equivalence consistent with hash codes and meaning',
 'Equality between types is reflexive, symmetric and transitive, equal types have equal hash codes and so find each other as map keys, and equal types accept exactly the same values and are mutually assignable. Two types that were built from the same parts are equal however they were built.',
 ['inputs'], 'All pairs of types of all kinds including operators whose operands are given in any order, exact types and named types.',
 'The tests compare single pairs and never check hash codes of permuted operands.',
 ['internal/ternary.go', 'internal/exact.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/function.go', 'internal/meta.go', 'internal/not.go', 'internal/string.go', 'internal/integer.go', 'internal/float.go'],
 [('Equals/HashCode/deepEqual of each type', 'internal/*.go')], ['Type.Equals', 'Type.HashCode', 'Map.Get with type keys'],
 'algebraic-law monitor over generated types', 'Held on the type pairs generated.')
prop('C07', 'Natural order is a total order within a kind and sort respects it',
 'Where two values are comparable the order is antisymmetric, transitive and agrees with equality and with the numerical or lexical order of what they represent; nil is less than everything else, and an integer compares with a float as the float that it converts to. Sorting returns a stable, ordered permutation of the elements and leaves its receiver as it was.',
 ['inputs'], 'All comparable values and all arrays of them, including boundary numbers, mixed numbers, nested arrays and nil.',
 'Tests compare a few pairs and sort short homogenous arrays; transitivity and precision at extremes are never sampled.',
 ['internal/compare.go', 'internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/time.go', 'internal/array.go', 'internal/boolean.go', 'internal/nil.go'],
 [('CompareTo', 'internal/*.go'), ('array.Sort', 'internal/array.go')], ['Comparable.CompareTo', 'Array.Sort'],
 'algebraic-law monitor against exact reference order', 'Held on the pairs, triples and arrays generated.')
prop('C08', 'A type accepts exactly the values that its definition denotes',
 'For every type and every value, the instance check answers what the definition of the type says: ranges, sizes, patterns, enumerations, element, key, value and tuple types, struct maps with required, optional and additional entries, any/all/one-of/not combinations, exact values, sensitive, function and meta types. The answer is the same whether the value is given as a value or as the Go scalar it represents, frozen or not.',
 ['inputs', 'programs'], 'All types composed from all type constructors and all values, in particular values at the boundary of acceptance.',
 'Tests check each constructor with a handful of values; combinations and boundary sizes are open.',
 ['internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/ternary.go', 'internal/not.go', 'internal/string.go', 'internal/integer.go', 'internal/float.go', 'internal/exact.go', 'internal/sensitive.go', 'internal/meta.go', 'internal/binary.go', 'tf/'],
 [('Instance/DeepInstance', 'internal/*.go')], ['Type.Instance'],
 'differential runtime monitor against a denotational reference evaluator', 'Held on the type and value pairs generated.')
prop('C09', 'Assignability is sound, reflexive, and decides exact types',
 'If a type is assignable from another then every instance of the other is an instance of it. Every type is assignable from itself, the unconstrained type from every type, and a type is assignable from the exact type of a value when and only when that value is an instance of it.',
 ['inputs', 'programs'], 'All pairs of types and all values.',
 'Tests assert single pairs in one direction; soundness is a statement over all pairs and all values.',
 ['internal/type.go', 'internal/array.go', 'internal/map.go', 'internal/mapstruct.go', 'internal/ternary.go', 'internal/not.go', 'internal/string.go', 'internal/integer.go', 'internal/float.go', 'internal/exact.go', 'internal/meta.go', 'internal/function.go'],
 [('Assignable/DeepAssignable/AssignableTo', 'internal/*.go')], ['Type.Assignable', 'Type.Instance'],
 'cross-check monitor: assignability verdicts against instance observations', 'A false "assignable" is detected only when a witness value is generated; witnesses are drawn from the boundary of both types.')
prop('C10', 'The type of a value denotes that value, and generic types contain it',
 'The type of a value has that value as an instance and no value that differs from it; its generic form, its declared element, key and value types, and its declared size limits are all consistent with the value. The generic form of any type accepts every instance of the type.',
 ['inputs'], 'All values, and all types with their instances.',
 'Tests look at the types of a few literal values.',
 ['internal/exact.go', 'internal/array.go', 'internal/map.go', 'internal/string.go', 'internal/type.go', 'internal/ternary.go', 'internal/struct.go'],
 [('Type(), Generic(), ElementType, KeyType, ValueType', 'internal/*.go')], ['Value.Type', 'typ.Generic', 'typ.ExactValue'],
 'invariant monitor over generated values and near misses', 'Held on the values generated.')
prop('C11', 'The text form of a type parses back to an equal type',
 'For every type that the type language can express, the text produced for the type is accepted by the parser and yields a type that is equal to it, accepts the same values, and has the same text. The text is stable: it is the same each time and for equal types built in the same way.',
 ['inputs', 'programs'], 'All types composed from all constructors with all literals, including strings and patterns with quotes, backslashes, control characters and slashes.',
 'Tests round-trip single literal expressions.',
 ['stringer/typestring.go', 'parser/parser.go', 'parser/lexer.go', 'util/string.go'],
 [('TypeString', 'stringer/typestring.go'), ('Parse', 'parser/parser.go')], ['Type.String', 'tf.ParseType'],
 'round-trip monitor over generated types', 'Held on the types generated.')
prop('C12', 'Parsers are total',
 'For every input text, parsing ends promptly with either a value or a reported parse error that carries a message: it never hangs, exhausts the stack for moderately sized input, fails with an internal runtime error, or returns nothing. A failed parse leaves no effects, and parsing the same text again gives the same outcome.',
 ['inputs'], 'All texts: random bytes, token soups, mutations and truncations of valid expressions, for the type language, the Puppet type dialect and JSON.',
 'Tests contain a few malformed texts.',
 ['parser/lexer.go', 'parser/parser.go', 'streamer/pcore/lexer.go', 'streamer/pcore/parser.go', 'util/reader.go', 'streamer/json.go'],
 [('lexers and recursive descent parsers', 'parser/, streamer/pcore/')], ['tf.Parse', 'pcore.Parse', 'streamer.UnmarshalJSON'],
 'grammar-aware fuzzing with a crash, hang and outcome-class monitor', 'Held on the texts generated.')
prop('C13', 'A type expression means what the language documents, whatever its layout',
 'Parsing an expression yields the same type as composing that type through the factory functions, with the documented precedence of operators, for all placements of insignificant white space, comments-free layout and redundant parentheses, and for both the type language and its Puppet counterpart where they can express the same type.',
 ['inputs', 'programs'], 'All expressions generated from the documented grammar.',
 'Tests parse a fixed list of expressions.',
 ['parser/parser.go', 'parser/lexer.go', 'streamer/pcore/parser.go', 'docs/types.md', 'tf/'],
 [('grammar', 'parser/parser.go, streamer/pcore/parser.go')], ['tf.ParseType', 'pcore.Parse'],
 'differential monitor: parsed expression against factory-built type', 'Held on the expressions generated.')
prop('C14', 'JSON serialization round-trips every serializable value',
 'Encoding a value as JSON with rich data enabled produces valid JSON which decodes to an equal value with the same map order, for all nestings of data, binaries, times, types, sensitives and repeated values. Encoding never alters the value, and plain data encodes to the same document that the Go JSON encoder would accept as equivalent.',
 ['inputs'], 'All nested values, including special strings, keys that resemble the encoding\'s own markers without being one, boundary numbers and shared substructure.',
 'Tests round-trip single examples of each kind.',
 ['streamer/json.go', 'streamer/streamer.go', 'streamer/decoder.go', 'streamer/dialect.go', 'streamer/basiccollector.go', 'streamer/datacollector.go'],
 [('Marshal/UnmarshalJSON', 'streamer/json.go')], ['streamer.MarshalJSON', 'streamer.UnmarshalJSON'],
 'round-trip monitor with an independent JSON reader as second oracle', 'Held on the values generated.')
prop('C15', 'Streaming honours its options and resolves every reference',
 'For every value and every combination of streaming options and dialect the event stream is well formed, emits each reference only to a value already sent, and is rebuilt by the decoder into a value equal to the original; non-string keys and rich values are refused or encoded exactly as the options say. Deduplication levels change the size of the stream but never what it denotes.',
 ['inputs', 'configurations'], 'All values with shared substructure crossed with all options, capabilities and dialects.',
 'Tests use a handful of option combinations with fixed values.',
 ['streamer/streamer.go', 'streamer/consumer.go', 'streamer/basiccollector.go', 'streamer/decoder.go', 'streamer/dialect.go', 'streamer/pcore/pcoredialect.go'],
 [('Stream, dedup levels, AddRef', 'streamer/streamer.go')], ['streamer.Consumer events'],
 'event-trace monitor (online checker of the stream grammar) plus rebuild comparison', 'Held on the traces recorded.')
prop('C16', 'Conversion between dgo and Go values is faithful',
 'Converting a Go value to dgo and back into a Go variable of the same type yields an equal Go value, and assigning a dgo value to a Go variable either preserves it exactly or panics; it never silently truncates, wraps, overflows, or drops data (a float is rounded to the nearest value of a less precise destination, and Nil becomes the zero value). Functions called through dgo receive and return exactly the converted arguments.',
 ['inputs'], 'All Go values of supported kinds (numbers of every width, strings, slices, maps, pointers, structs, interfaces, functions) and all destinations.',
 'Tests use values that fit and matching destinations.',
 ['internal/value.go', 'internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/array.go', 'internal/map.go', 'internal/native.go', 'internal/function.go', 'internal/binary.go', 'internal/time.go'],
 [('Value, ReflectTo, FromValue', 'internal/value.go and ReflectTo methods')], ['vf.Value', 'vf.FromValue', 'dgo.Function.Call'],
 'round-trip monitor over generated Go values and destinations', 'Held on the Go values and destinations generated.')
prop('C17', 'A map backed by a Go struct behaves as a map over its fields',
 'A Go struct viewed as a Map reads and writes the fields of that struct, in declaration order, with the same answers as an ordinary Map of the same content for all read, derive, copy, freeze, compare and iterate operations; only the set of keys is fixed. Writing through the map updates the struct and nothing else, and copies do not write through.',
 ['histories', 'inputs'], 'All histories of map operations on struct views of all field types.',
 'Tests call each operation once on one struct.',
 ['internal/struct.go', 'internal/native.go', 'internal/map.go'],
 [('structVal', 'internal/struct.go')], ['dgo.Struct', 'dgo.Map methods'],
 'model-based runtime monitor over operation histories', 'Held on the executed histories.')
prop('C18', 'Struct map validation agrees with the instance check',
 'For every struct map type and every map, validation reports no error exactly when the map is an instance of the type, and otherwise reports an error for each missing, unknown or mismatching entry and for nothing else; the verbose form agrees with the plain form. A struct map type converts to and from its map description without loss.',
 ['inputs', 'programs'], 'All struct map types and all maps near the boundary of acceptance.',
 'Tests validate a few parameter maps.',
 ['internal/mapstruct.go', 'internal/typeerror.go'],
 [('Validate/ValidateVerbose', 'internal/mapstruct.go')], ['dgo.MapValidation', 'StructMapType.ToMap'],
 'differential monitor between validation, instance check and a reference evaluator', 'Held on the type and map pairs generated.')
prop('C19', 'Creating a value from a type yields an instance or fails',
 'For every type and every argument, creating a value either returns an instance of the type that represents the argument or panics with an error; it never returns a value that the type does not accept. Conversions from text and between numbers give the number that the text or number denotes.',
 ['inputs', 'programs'], 'All types and all arguments including texts in every radix and boundary numbers.',
 'Tests convert single values.',
 ['internal/type.go', 'internal/value.go', 'internal/integer.go', 'internal/float.go', 'internal/string.go', 'internal/boolean.go', 'internal/time.go', 'internal/binary.go', 'internal/array.go', 'internal/map.go', 'internal/sensitive.go', 'internal/error.go'],
 [('New and Factory', 'internal/type.go')], ['vf.New'],
 'post-condition monitor with reference conversions', 'Held on the type and argument pairs generated.')
prop('C20', 'Loaders bind each name at most once under all schedules',
 'Under every interleaving of lookups through a loader hierarchy, every name resolves to one value: all callers that get a value for a name get the same one, the finder result that was kept stays bound, parents take precedence over children, a name that was found never disappears, and namespaces resolve to one loader. Concurrent use is free of data races and ends without deadlock.',
 ['schedules', 'histories'], 'All interleavings of lookups, namespace creation and finder results on shared loaders.',
 'The tests are sequential.',
 ['loader/loader.go', 'dgo/loader.go'],
 [('mutable loader with lock', 'loader/loader.go')], ['dgo.Loader methods'],
 'race detector plus linearizability check of recorded histories', 'Held on the recorded histories and interleavings.')
prop('C21', 'The type registry and aliases are linearizable and race free',
 'Under every interleaving, registering, looking up and removing named types and adding aliases behave as atomic operations on one registry: a lookup sees the latest completed registration, two registrations of one name yield one type, and parsing that refers to names sees a consistent registry. Concurrent use is free of data races.',
 ['schedules', 'histories'], 'All interleavings of registration, lookup, removal, alias definition and parsing.',
 'The tests are sequential.',
 ['internal/named.go', 'internal/alias.go', 'tf/named.go', 'tf/type.go', 'parser/parser.go'],
 [('named type map with lock, alias map with lock', 'internal/named.go, internal/alias.go')], ['tf.NewNamed, tf.Named, tf.RemoveNamed', 'tf.AddAliases'],
 'race detector plus linearizability check of recorded histories', 'Held on the recorded histories and interleavings.')
prop('C22', 'Frozen values and types can be shared between goroutines',
 'Any number of goroutines may concurrently read, compare, hash, print, copy, iterate, stream, type check and derive from the same frozen value or the same type without a data race, and every one of them gets the answer it would get alone.',
 ['schedules'], 'All interleavings of all read operations on shared frozen values, exact types, parsed types and named types.',
 'The tests never share a value between goroutines.',
 ['internal/', 'stringer/typestring.go', 'streamer/', 'parser/'],
 [('immutability, absence of unsynchronized lazy state', 'internal/*.go')], ['all read operations'],
 'race detector with answer comparison over shared values', 'Held on the interleavings executed under the race detector.')
prop('C23', 'Sensitive content is never disclosed',
 'No text form, error message, formatting verb or type description of a sensitive value, of anything that contains it, or of its type reveals the wrapped value; only explicit unwrapping and serialization that is explicitly asked to include it do. Sensitives compare equal exactly when their content does.',
 ['inputs'], 'All values that contain sensitives at any depth and all ways to print or report them.',
 'Tests print one sensitive string.',
 ['internal/sensitive.go', 'stringer/typestring.go', 'util/indenter.go', 'util/erpindenter.go', 'internal/typeerror.go', 'internal/exact.go'],
 [('sensitive String/AppendTo', 'internal/sensitive.go')], ['String, fmt verbs, type errors, panics'],
 'taint-marker monitor: unique secrets searched for in every output', 'Held on the outputs produced.')
prop('C24', 'Self-referencing values and recursive types are handled in finite time',
 'For values that contain themselves and types that are defined in terms of themselves, comparison, hashing, instance and assignability checks, printing and streaming end and give answers consistent with the equivalent finite unrolling. Checking a finite value against a recursive type decides exactly as the unrolled definition would.',
 ['inputs', 'programs'], 'All cyclic graphs of mutable collections and all recursive type definitions by alias.',
 'Tests build one or two cycles.',
 ['internal/compare.go', 'internal/type.go', 'internal/alias.go', 'internal/map.go', 'internal/array.go', 'util/erpindenter.go', 'stringer/typestring.go', 'parser/parser.go'],
 [('recursion guards, seen lists', 'internal/compare.go, internal/type.go')], ['Equals, HashCode, Instance, Assignable, String'],
 'termination watchdog plus differential monitor against unrolled definitions', 'Termination is restated as a bound on CPU and stack per case.')
prop('C25', 'Text and binary encodings of scalar values are exact',
 'Encoding a binary, time, finite number, string or regular expression to text and reading it back gives an equal value; every documented encoding and length limit of binaries is honoured and invalid text is refused. Indented and compact text forms of a collection denote the same content.',
 ['inputs'], 'All byte strings, times, numbers and texts in all encodings.',
 'Tests encode single values.',
 ['internal/binary.go', 'internal/time.go', 'internal/string.go', 'internal/float.go', 'internal/integer.go', 'util/indenter.go', 'util/string.go', 'util/write.go', 'internal/regexp.go'],
 [('Binary encodings, RFC3339 times, quoting', 'internal/*.go, util/')], ['Binary.Encode', 'vf.BinaryFromEncoded', 'Value.String'],
 'round-trip monitor with the Go standard library as reference', 'Held on the values generated.')
prop('C26', 'Type factories compose exactly what their arguments describe',
 'A type factory (array, slice, tuple, map, string, integer, float, struct map, entries ...) called with any arguments either gives the type that the documented reading of those arguments describes - swapped limits normalized, kinds of numbers immaterial, literals taken as exact types - or panics with a descriptive error, never with an error of the Go runtime and never with a type of another meaning.',
 ['inputs'], 'All factories with all argument lists: types, numbers of all Go kinds and signs, strings, literals, wrong kinds and wrong counts.',
 'The tests call each factory with a handful of well formed argument lists; negative and extreme limits, mixed argument kinds and wrong arguments in each position are combinations.',
 ['internal/array.go', 'internal/map.go', 'internal/string.go', 'internal/binary.go', 'internal/integer.go', 'internal/float.go', 'internal/function.go', 'internal/mapstruct.go', 'tf/array.go', 'tf/map.go', 'tf/primitive.go', 'tf/function.go', 'tf/type.go'],
 [('ArrayType, newTupleType, MapType, StringType, StructMapType', 'internal/')], ['tf factories', 'Type.Instance', 'Type.String'],
 'reference-model monitor over calls of the type factories', 'Held on the argument lists generated.')
prop('C27', 'Source positions and text helpers are exact',
 'Reading a text rune by rune and peeking ahead gives exactly its runes with the position, line and column of each, whatever is not text (invalid UTF-8, NUL) is refused with an error at its position; a syntax error names the file, line and column of the token that caused it in texts of both syntaxes. The writing helpers pass on exactly what was written and report the failure of the underlying writer, and the catching helper returns exactly the reported errors and lets everything else through.',
 ['inputs', 'histories'], 'All texts, all places of an error in them, all sequences of reads, peeks and writes, and writers that fail after any number of bytes.',
 'The tests read a few one line texts and check a single error position; columns after newlines and multi byte runes, and failures in the middle of writing, are combinations.',
 ['util/reader.go', 'util/write.go', 'util/catch.go', 'util/slice.go', 'util/string.go', 'parser/parser.go', 'parser/lexer.go', 'streamer/pcore/lexer.go'],
 [('StringReader', 'util/reader.go'), ('DoParse', 'parser/parser.go'), ('Write functions, Catch', 'util/write.go, util/catch.go')], ['util.StringReader', 'parser errors', 'util.Catch'],
 'reference-model monitor over reads, writes and injected syntax and writer errors', 'Held on the texts and operations generated.')
prop('C28', 'Named types create, print, parse and recognize their values',
 'A named type accepts exactly the values of its Go type or interface (and those its parameters allow), creates its values with its constructor, and describes them by their initial argument. Texts of types and values in which named types and their exact and parameterized forms occur anywhere parse to an equal type or value, equal named types have equal hash codes, and assignability between named types agrees with the values they accept.',
 ['inputs'], 'All values of named types, in all positions of types and collections, all parameters and all constructor arguments.',
 'The tests use one named type in one position.',
 ['internal/named.go', 'tf/named.go', 'parser/parser.go', 'stringer/typestring.go', 'streamer/pcore/parser.go'],
 [('named, exactNamed, parameterized', 'internal/named.go'), ('namedType', 'parser/parser.go')], ['tf.NewNamed', 'NamedType.New', 'Type.String', 'tf.Parse'],
 'reference-model monitor over generated values and types of registered named types', 'Held on the values and types generated.')

prop('C29', 'Alias maps bind each name to what it was declared to denote',
 'A name declared in an alias map, in whatever order the declarations are made and whether by type expressions of either language or by types that contain references, denotes the type that was declared: every reference in it is resolved to the type that its name denoted, it accepts exactly the values described, and its own name is found for it. A map that was obtained earlier never changes, an addition that fails (an unknown name, a name defined as itself, a name that is declared already) changes nothing, and an addition of nothing creates no new map.',
 ['inputs', 'histories'], 'All histories of additions with Collect, AddAliases, AddDefaultAliases, and the parsers, all graphs of references between the declared types, and all orders of the declarations.',
 'The tests declare a few names in one order; forward, backward, mutual, and chained references, names that are bound again, nested additions, and failures half way are not combined.',
 ['internal/alias.go', 'tf/type.go', 'parser/parser.go', 'streamer/pcore/parser.go'],
 [('aliasAdder.resolve, Replace, isEndless', 'internal/alias.go'), ('aliasMap.Collect, update', 'internal/alias.go'), ('AddAliases, AddDefaultAliases', 'internal/alias.go'), ('aliasDeclaration, aliasReference', 'parser/parser.go, streamer/pcore/parser.go')],
 ['AliasMap.GetType', 'AliasMap.GetName', 'AliasMap.Collect', 'tf.AddAliases', 'tf.AddDefaultAliases', 'tf.ParseFile'],
 'reference-model monitor over recorded histories of alias map versions', 'Held on the histories generated.')

def main():
    checks_dir = os.path.join(HERE, 'harness', 'checks')
    have = set()
    for f in os.listdir(checks_dir):
        s = open(os.path.join(checks_dir, f)).read()
        for p in P:
            if re.search(r'ID: +`%s`' % p['id'], s):
                have.add(p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as o:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['obs'], hook_needed=None)), ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh',
        checks=[dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'], thorough_cmd='./run.sh %s thorough' % p['id'],
                     evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note'] + TRUST) for p in P if p['id'] in have],
        not_applicable=[dict(property=p['id'], reason='The check is not built yet.') for p in P if p['id'] not in have],
        notes='All checks run harness/ (a Go module which replaces github.com/lyraproj/dgo with /repo) through run.sh. Nothing in /repo is guarded by a build tag: all events are observable at the public API.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as o:
        json.dump(m, o, indent=1, ensure_ascii=False)
        o.write('\n')
    print(len(P), 'properties', len(have), 'checks')
main()
