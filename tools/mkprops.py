"""Writes /verif/properties.jsonl.  Run: python3 tools/mkprops.py"""
import json, pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


J, JP, PA, U, C, S = ('jschon/json.py', 'jschon/jsonpointer.py', 'jschon/jsonpatch.py', 'jschon/uri.py',
                      'jschon/catalog/__init__.py', 'jschon/jsonschema.py')
V = 'jschon/vocabulary/'

prop('C01', 'A JSON node represents exactly the value it was built from',
     'Building a JSON document from any JSON-compatible Python value yields a tree whose every node reports the right JSON '
     'type, whose value is the given value again, and whose length, truth value, iteration and indexing are those of the '
     'given value. Every child links to its parent and knows its key, and its path, evaluated from the root, leads back to that very node. '
     'The source value is neither modified nor aliased, and anything that is not JSON-compatible is refused with a TypeError wherever it is nested.',
     ['inputs'], 'every nested combination of null, booleans, integers, floats, strings, sequences and string-keyed mappings',
     'The tests sample hypothesis values for a few fixed assertions on the top level; paths of nested nodes, container subclasses '
     'and nested bad values are never enumerated.',
     [J], [('recursive construction of child nodes with parent and key', 'JSON.__init__'),
           ('path and value derived from the links and cached', 'JSON.path, JSON.value')])

prop('C02', 'JSON text and file round trips preserve every value',
     'Serialising a document to a string or a file and reading it back, through any of the string, file or remote loaders, gives an equal value with the '
     'same JSON types, and the text is standard JSON that an independent parser reads as the same value. '
     'Files are UTF-8 whatever the locale of the process. NaN and the infinities are rejected, at any depth, both when writing and when reading, as is any text that is not JSON by its grammar.',
     ['inputs', 'configurations'], 'every JSON value (deep, unicode, huge and tiny numbers) and every process locale',
     'The tests round-trip sampled values in one locale and only a few hand-written non-finite values.',
     [J, 'jschon/utils.py'], [('json dump/load wrappers with non-finite constants rejected', 'utils.json_dumps, json_loads, json_dumpf, json_loadf, json_loadr'),
                              ('nodes serialised through their data', 'JSON.dumps, JSON.dumpf')])

prop('C03', 'Equality and ordering of nodes follow the JSON data model',
     'Two JSON nodes, or a node and a plain value, are equal exactly when they denote the same JSON value: numbers compare by mathematical value, a boolean never '
     'equals a number, arrays compare item by item, objects ignore member order, and unequal types are unequal. '
     'Equality is reflexive, symmetric and transitive, and inequality is its negation. Order comparisons of numbers and of strings agree with '
     'those of the plain values, on either side.',
     ['inputs'], 'all pairs and triples of JSON values, including near-equal ones',
     'Randomly drawn pairs of values are almost never equal or nearly equal, so tests say little about 1 == 1.0, true == 1, nested or reordered values.',
     [J], [('structural comparison by type', 'JSON.__eq__'), ('delegated ordering', 'JSON.__lt__, __le__, __gt__, __ge__')])

prop('C04', 'Mutating a document keeps the whole tree consistent',
     'After any sequence of item assignments, insertions, appends, extensions, pops, deletions, reversals and clearings of arrays by integer index, and of assignments, deletions, pops and updates of objects, at any depth of a document, its value is '
     'what the same operations produce on plain lists and dicts, and an operation that fails fails on both and changes nothing. '
     'At every step each node\'s key, parent, path, type and value match its current place in the tree, no matter which of them were read before. '
     'Values inserted into a document are copied: later changes to either side never show on the other.',
     ['histories', 'inputs'], 'every history of mutating calls with in-range, negative and out-of-range indices, with reads of cached attributes at arbitrary points between them',
     'Tests apply one or two fixed mutations; staleness of cached paths and values needs particular read/mutate interleavings at depth.',
     [J], [('key renumbering and cache invalidation on insert and delete', 'JSON.__setitem__, __delitem__, insert'),
           ('upward value and downward path invalidation', 'JSON._invalidate_value, JSON._invalidate_path')],
     state=[('path/value caches', 'memoised on each node until invalidated', 'JSON.path, JSON.value')])

prop('C05', 'In-place add, remove and replace agree with JSON Patch',
     'The in-place add, remove and replace operations on a document, or on any node within a larger document, give the same resulting value as the RFC 6902 operation of the same name. '
     'They fail with the library\'s JSON error, leaving the document unchanged, exactly when RFC 6902 makes the operation an error. '
     'Afterwards the tree is consistent: keys, parents, paths and values are right everywhere, including outside the node operated on.',
     ['histories', 'inputs'], 'all sequences of add/remove/replace at existing, new, missing, malformed-index and root locations of any document',
     'Only a handful of fixed in-place operations are tested, none with lax indices or after other edits.',
     [J, JP], [('target lookup then insert, set or delete', 'JSON.add, JSON.remove, JSON.replace')])

prop('C06', 'JSON Pointer text is parsed and written exactly as RFC 6901 says',
     'A string is accepted as a JSON Pointer exactly when it matches the RFC 6901 grammar, its keys are the unescaped reference tokens, and writing the pointer gives the original string back. '
     'Any sequence of keys survives escaping to text and parsing, and percent-encoding as a URI fragment and decoding, unchanged. '
     'The encoded fragment uses only characters legal in a URI fragment, and malformed text is refused with the pointer-malformed error.',
     ['inputs'], 'all strings, and all sequences of unicode keys including empty ones and ones with ~, /, % and reserved characters',
     'Tests sample printable keys; escapes of escapes, ~ at boundaries and newline or non-ASCII keys are seldom drawn.',
     [JP], [('grammar regex', 'JSONPointer.__new__'), ('escape/unescape', 'JSONPointer.escape, JSONPointer.unescape'),
            ('fragment codec', 'JSONPointer.uri_fragment, JSONPointer.parse_uri_fragment')])

prop('C07', 'JSON Pointers behave as immutable key sequences with prefix ordering',
     'Concatenation from strings, key lists and pointers, the / operator, indexing, slicing, length, iteration and membership all agree with the same operation on the tuple of keys. '
     'Equality and hash depend on the keys alone, <= and < are the prefix and proper-prefix relations and > and >= their converses. '
     'No operation changes an existing pointer or the iterables it was built from.',
     ['inputs', 'histories'], 'all tuples of pointers, keys, and slice bounds',
     'Tests sample unrelated pointers, for which prefix relations are almost always false.',
     [JP], [('key list wrapped as a Sequence', 'JSONPointer.__getitem__, __truediv__, __eq__, __le__, __lt__, __hash__')])

prop('C08', 'Evaluating a JSON Pointer selects the node RFC 6901 says, or errs',
     'Evaluating a pointer against any document, plain Python data or JSON nodes alike, returns the very value obtained by following its keys as exact member names and as array indices without sign or leading zeros. '
     'Whenever some step does not exist, whether a missing member, a bad, out-of-range, "-" or non-canonical index, or a scalar, the pointer-reference error is raised and never another exception or value.',
     ['inputs'], 'all documents (as plain data and as nodes) and all pointers, existing, nearly existing and malformed as indices',
     'Tests walk only existing paths and a few fixed missing ones on plain data; non-canonical indices on nodes are not tried.',
     [JP], [('recursive resolution with index grammar check', 'JSONPointer.evaluate')])

prop('C09', 'Relative JSON Pointers parse, print and evaluate per the specification',
     'A string is accepted exactly when it matches the Relative JSON Pointer grammar, and printing what was parsed, or what was built from parts, gives the same text and an equal pointer again. '
     'Evaluation from any node climbs the given number of levels, applies the index adjustment within the enclosing array, and then yields the node at the trailing pointer or the key or index of the node reached. '
     'It raises the relative-pointer reference error exactly when one of those steps is impossible.',
     ['inputs'], 'all strings near the grammar, and every node of every document with every combination of levels, adjustment and trailing pointer',
     'Tests cover the examples of the draft and sampled trees without adjustments that land exactly on the array bounds.',
     [JP], [('grammar and parts', 'RelativeJSONPointer.__new__'), ('walk over parent links', 'RelativeJSONPointer.evaluate')])

prop('C10', 'Applying a JSON Patch gives the RFC 6902 result or a patch error',
     'Evaluating any list of add, remove, replace, move, copy and test operations, given as dicts or operation objects, against any document gives the document RFC 6902 defines. '
     'If any operation is an error under RFC 6902 (missing location, bad array index, failed test, move into own child, scalar parent), the patch error is raised and nothing else.',
     ['inputs', 'histories'], 'all documents and operation lists, with locations biased to exist, nearly exist, nest or overlap',
     'The RFC examples and single hypothesis-drawn operations do not reach sequences, overlapping move/copy locations or scalar parents.',
     [PA, JP], [('location classification', 'jsonpatch.Node'), ('operations', 'jsonpatch.add, remove, replace, move, copy, test')])

prop('C11', 'Applying a JSON Patch never disturbs or shares its inputs',
     'Evaluating a patch, whether it succeeds or fails part-way, leaves the input document and every operation of the patch exactly as they were. '
     'The result shares no mutable part with the input document, the operations or another part of itself, so editing the result changes neither, and applying the same patch again gives the same result.',
     ['inputs', 'histories'], 'all documents and patches, including failing ones, repeated evaluation and mutation of results',
     'Aliasing shows only after a later mutation of the result or a second evaluation, which the tests never do.',
     [PA], [('deep copies of document and operation values', 'JSONPatch.evaluate, jsonpatch.add, replace')])

prop('C12', 'A JSON Patch is a faithful mutable sequence of its operations',
     'Any history of insertions, assignments, deletions, appends, slices and extensions on a patch object, with operations given as dicts or operation objects, leaves it equal to the same history on a plain list of operations. '
     'Listing its operations as dicts gives standard RFC 6902 operation objects, and rebuilding a patch from them gives an equal patch with the same effect on every document; patches that differ in any operation are unequal.',
     ['histories', 'inputs'], 'every history of sequence operations over every operation type',
     'Tests check a few fixed patches; null values, from-aliases and slices in combination are not covered.',
     [PA], [('MutableSequence over an operation list', 'JSONPatch'), ('dict codec', 'JSONPatchOperation.asdict, __new__, __eq__')])

prop('C13', 'URIs keep their text and components and resolve per RFC 3986',
     'A URI prints as the text it was made from and exposes exactly its RFC 3986 scheme, authority, path, query and fragment; an absent and an empty query or fragment are told apart. '
     'Copying with a component removed, replaced or kept changes that component alone. Resolving a reference against an absolute hierarchical base gives the target that RFC 3986 section 5.2 defines, up to normalisation, and neither operand changes.',
     ['inputs'], 'all URI references generated from the RFC 3986 grammar, all component replacements, all bases with all relative references',
     'Tests check a small table of URIs; dot segments, empty queries and fragments, and their combinations are unbounded.',
     [U], [('wrapper over parsed references', 'URI.__init__, URI.copy, URI.resolve')])

prop('C14', 'URI equality, hashing and validation are mutually consistent',
     'URIs are equal exactly when they agree after normalisation (case of scheme, host and percent-escapes, and dot segments), equality is an equivalence, equal URIs have equal hashes, and so either spelling finds the same dict entry or cached schema. '
     'Validation accepts a URI exactly when its components are well-formed and it satisfies each requested condition (scheme present, normalised, no fragment, no non-empty fragment), and otherwise raises the URI error.',
     ['inputs'], 'all pairs of URIs related by normalisation-preserving or -breaking rewrites, and all option combinations',
     'Equality under rewriting and its interplay with hashing needs pairs that differ only in normalisation; tests use unrelated URIs.',
     [U], [('normalising comparison and hash', 'URI.__eq__, URI.__hash__'), ('validator options', 'URI.validate')])

prop('C15', 'A catalog loads each URI from its most specific registered source',
     'Loading an absolute normalised URI consults exactly one source, the one registered last under the longest base URI that is a prefix of it, or the default source if none is, with the remainder of the URI after that base (bases have no query); the result is what that source returns. '
     'With no candidate source, with an invalid or relative URI or one with a fragment, or when the source fails in any way, the catalog error is raised; '
     'registering an invalid base URI raises the catalog error and changes nothing.',
     ['configurations', 'histories', 'fault_sequences'], 'all registration orders of nested, overlapping and default sources, all URIs and all source failures',
     'Tests register one or two sources; overlapping prefixes in each order, re-registration and failing sources are combinatorial.',
     [C], [('longest-prefix choice', 'Catalog.load_json'), ('base URI validation', 'Catalog.add_uri_source')])

prop('C16', 'A source reads exactly the file or URL named, under its base',
     'For any relative path that names a file (not ending in "/" or a dot segment) and optional suffix, a local source returns the parsed content of the file at base directory + path + suffix, and a remote source that of the URL at base URL + path + suffix, whatever characters the name contains. '
     'Loading a URI whose file is missing, unreadable or malformed through a catalog gives the catalog error. '
     'No URI handled by a catalog makes a source read a file outside its base directory, or fetch a URL of its own host outside its base URL.',
     ['inputs', 'configurations'], 'all directory trees, file names, suffixes and URIs, including ones with dot segments, empty segments and encoded characters',
     'Tests use one schema file; escaping paths and odd names are not tried.',
     [C, 'jschon/utils.py'], [('path join and suffix', 'LocalSource.__call__'), ('URI normalisation requirement', 'Catalog.load_json')])

prop('C17', 'Schema caches hold and return exactly what was put in them',
     'Any history of creating, adding, fetching and deleting schemas over several catalogs and cache identifiers behaves as a map per catalog and cache identifier: fetching a URI returns the very schema last stored under it there and never one from another cache or catalog. '
     'A URI that is absent is loaded from the sources at most once per cache (documents whose "$id", if any, is the URI they are loaded under), or else gives the catalog error. '
     'A cache scope starts empty, refuses an identifier in use, and drops all its entries on leaving, even by an exception.',
     ['histories'], 'every history over several catalogs, cache identifiers and URI spellings, with nested cache scopes and exceptions',
     'Tests exercise single operations with fixed URIs; leakage between caches needs histories.',
     [C, S], [('cache dictionary keyed by cache identifier and URI', 'Catalog.add_schema, del_schema, get_schema, cache'),
              ('re-keying when the URI of a schema changes', 'JSONSchema.uri')],
     state=[('schema cache', 'schemas by cache identifier and URI', 'Catalog._schema_cache')])

prop('C18', 'Every embedded schema is found under each of its identifiers',
     'After constructing a schema document, the catalog returns exactly the embedded schema at a location for every URI that identifies it: its own resolved "$id", its base URI plus "$anchor" or "$dynamicAnchor", and each enclosing resource\'s URI plus the JSON Pointer fragment to it (contentSchema aside). '
     'Relative identifiers resolve against the nearest enclosing base URI per RFC 3986. '
     'Identifiers inside data that is not a schema (const, enum, default, unknown keywords) identify nothing, and a fragment that leads to no schema gives the catalog error.',
     ['inputs', 'programs'], 'all schema documents with nested and relative identifiers and anchors at every applicator position, in each dialect',
     'Needs documents with several nested resources; the tests check one fixed example document.',
     [S, V + 'core.py', V + 'future.py', C], [('identifier keywords register schemas', 'IdKeyword, IdKeyword_Next, AnchorKeyword, DynamicAnchorKeyword'),
                                              ('fragment lookup', 'Catalog.get_schema')],
     state=[('schema cache', 'schemas by cache identifier and URI', 'Catalog._schema_cache')])

prop('C19', 'A schema object mirrors its document and knows where it is',
     'A schema constructed from a document has that document as its value, gives schema nodes exactly at the positions its dialect defines as subschemas (contentSchema aside) and plain nodes elsewhere, and each node\'s parent, key and path match its position. '
     'For every subschema the parent schema, resource root, document root, base URI and metaschema are those of its lexical position, and its canonical URI, looked up in the catalog, returns that same subschema.',
     ['inputs', 'programs'], 'all schema documents with nested subschemas and identifiers, in each dialect',
     'Invariants over all nodes of arbitrary nested documents; the tests inspect chosen nodes of one document.',
     [S, V + '__init__.py'], [('keyword-driven construction of subschemas', 'JSONSchema.__init__, Subschema, ArrayOfSubschemas, ObjectOfSubschemas'),
                              ('lexical navigation', 'JSONSchema.parentschema, resource_rootschema, document_rootschema, base_uri, canonical_uri')])

prop('C20', 'Assertion keywords give the verdict the specification defines',
     'For every value of type, enum, const, multipleOf, the numeric, length, item and property count bounds, pattern, uniqueItems, required, dependentRequired and min/maxContains, and every instance, the schema is valid for the instance exactly when the JSON Schema specification says so, in each dialect. '
     'Multiples are judged by the exact value of the decimal text of the numbers, bounds and equality by their exact value, strings by characters, equality by the JSON data model, and a keyword never rejects an instance of a type it does not apply to.',
     ['inputs'], 'all keyword values crossed with all instances, biased to lie at, just below and just above each bound',
     'The official suite is not available to the test run, and in any case samples fixed pairs rather than boundary neighbourhoods of arbitrary bounds.',
     [V + 'validation.py', J], [('assertion keyword classes', 'vocabulary/validation.py')])

prop('C21', 'Applicator keywords combine subschema verdicts as specified',
     'For every schema nested from allOf, anyOf, oneOf, not, if/then/else, dependentSchemas, properties, patternProperties, additionalProperties, propertyNames, prefixItems, items (array and schema forms), additionalItems and contains with its bounds, and every instance, the verdict is the one the specification defines in each dialect. '
     'Each subschema is applied to exactly the parts of the instance it governs, and a boolean subschema acts as always or never valid.',
     ['inputs', 'programs'], 'all nestings of applicators over all instances, three dialects',
     'The number of keyword combinations is unbounded and interactions (contains under not, oneOf in items, missing siblings) are not in any fixed table.',
     [V + 'applicator.py', V + 'legacy.py', S], [('applicator keyword classes', 'vocabulary/applicator.py, vocabulary/legacy.py'),
                                                 ('verdict aggregation', 'JSONSchema.evaluate, Result')])

prop('C22', 'Unevaluated keywords see exactly what successful siblings evaluated',
     'unevaluatedItems and unevaluatedProperties apply their subschema to exactly those items and properties of the instance that no other keyword of the same schema, nor any subschema applied in place to the same instance that was itself valid, has evaluated. '
     'Nothing evaluated inside a failed branch, a negation, or a sibling schema outside counts, and references and conditionals count like inline subschemas, in each dialect.',
     ['inputs', 'programs'], 'all compositions of in-place applicators and references around unevaluated keywords, with all instances',
     'Depends on the interaction of every applicator with annotation flow, including passing branches nested in failing ones.',
     [V + 'applicator.py', V + 'legacy.py', S], [('annotation collection over the sibling results', 'Result.collect_annotations'),
                                                 ('unevaluated keyword classes', 'UnevaluatedItemsKeyword, UnevaluatedPropertiesKeyword and 2019-09 forms')])

prop('C23', 'Static, dynamic and recursive references reach the right schema',
     'A reference keyword applies exactly the schema its URI designates after resolution against the lexical base URI, across embedded resources, anchors, pointers and separately loaded documents (of the referring dialect unless they name another), in whatever order the documents are created or loaded. '
     '$dynamicRef and $recursiveRef re-target to the outermost matching dynamic or recursive anchor in the dynamic scope, if and only if their initial target has one. '
     'Recursive schemas whose references descend into the instance terminate, and a reference to nothing is an error when the schema is created.',
     ['inputs', 'programs', 'histories'], 'all sets of schema documents linked by references, with extension patterns over dynamic and recursive anchors',
     'Dynamic scope depends on the path of evaluation through several resources; fixed examples cover few of the paths.',
     [V + 'core.py', V + 'legacy.py', C], [('reference resolution after construction', 'RefKeyword.resolve, DynamicRefKeyword.resolve, RecursiveRefKeyword_2019_09.resolve'),
                                           ('dynamic scope walk over result parents', 'DynamicRefKeyword.evaluate, RecursiveRefKeyword_2019_09.evaluate')])

prop('C24', 'Verdicts do not depend on how a schema or instance is written',
     'The verdict, the set of annotations and the set of failing locations are unchanged when keywords, properties or instance members are reordered, when schemas are given as text, plain data or another mapping type, or when the process hashes strings differently. '
     'The verdict is unchanged under logically neutral rewrites: wrapping in a singleton allOf, anyOf or oneOf, double negation (where no unevaluated keyword looks on), extraction into $defs behind a reference, replacing true by an empty schema, and adding keywords that do not constrain; and negation inverts it.',
     ['inputs', 'programs', 'configurations'], 'all schemas and instances, all reorderings and neutral rewrites, several hash seeds',
     'A relation between runs on many related schemas, which example tests do not compare.',
     [S, V + '__init__.py', V + 'applicator.py'], [('dependency-ordered keyword construction', 'JSONSchema._resolve_dependencies, Keyword.depends_on')])

prop('C25', 'Evaluation is a pure, repeatable function of schema and instance',
     'Evaluating an instance changes neither the schema document nor the instance, and evaluating it again, after evaluating any other instances with this or other schemas, validating the schema, or producing output, gives an identical result. '
     'Evaluating in several threads at once, or against a node inside a larger document, gives the same verdict as evaluating alone.',
     ['histories', 'schedules', 'inputs'], 'all interleavings of evaluations, validations and outputs over several schemas and instances, including concurrent ones',
     'State left behind by an evaluation shows only in a later one; each test evaluates once.',
     [S, V + '__init__.py'], [('results held in a fresh tree per evaluation', 'JSONSchema.evaluate, Result')])

prop('C26', 'Collected annotations are exactly those the specification produces',
     'For a valid instance the annotations collected from the result, in total, by keyword and by instance location, are exactly the values the specification says each keyword produces at each location it was successfully applied to: names, indices or true for applicators, and the keyword value for metadata, format, content and unknown keywords (null values, and contains of 2019-09 and dependentSchemas, aside). '
     'Nothing is collected from a failed branch or negation; for an invalid instance the root yields no annotation and at least one error.',
     ['inputs', 'programs'], 'all schemas with annotating keywords in any nesting of applicators and references, and all instances',
     'Annotation dropping depends on the nesting of passing and failing branches; tests check one schema.',
     [S, V + 'annotation.py', V + 'applicator.py'], [('annotation storage and traversal', 'Result.annotate, Result.collect_annotations, Result.collect_errors')])

prop('C27', 'All output formats tell the same story as the result',
     'Flag, basic, detailed, verbose and hierarchical output all carry the verdict of the result, and their units are the result\'s nodes: every instance location leads to a value in the instance, every keyword location follows the evaluation path through references, and every absolute location identifies the schema that produced it. '
     'Basic lists exactly the errors, or annotations, of the verbose tree along nodes that share the verdict; detailed is that tree with units of a single child replaced by it, hierarchical has one unit per applied schema, and neither loses or invents an error or annotation; a format registered by a program gets the result and its options.',
     ['inputs', 'programs'], 'all schemas and instances, in every format, with and without annotation filters',
     'Tests compare one fixed schema and instance per format.',
     ['jschon/output.py', S], [('formatters over the result tree', 'output.basic, detailed, verbose, hierarchical'),
                               ('locations', 'Result.path, Result.absolute_uri')])

prop('C28', 'Schemas are judged by their metaschema exactly as its text says',
     'Validating a schema accepts it exactly when the published metaschema of its dialect accepts the schema document as an instance, at every depth, including subschemas and keyword values of the wrong type or range. '
     'The metaschemas themselves are valid, and the verdict is the same whether a schema is validated before or after it is used.',
     ['inputs', 'programs'], 'all schema-shaped documents, valid ones and ones with one keyword value mutated anywhere, in each dialect',
     'Requires the metaschema files, absent in the test run, and arbitrary mutations of arbitrary schemas.',
     [S, V + '__init__.py', 'jschon/catalog/_2020_12.py', 'jschon/catalog/_2019_09.py'], [('metaschema evaluated on the schema document', 'JSONSchema.validate'),
                                                                                          ('vocabulary composition', 'catalog initialize functions')])

prop('C29', 'Vocabularies decide which keywords a schema understands',
     'A schema under a metaschema with a vocabulary declaration gives behaviour to exactly the keywords of the declared vocabularies the catalog knows, and treats every other keyword as a plain annotation that never affects validity. '
     'A metaschema requiring an unknown vocabulary, or omitting or not requiring its core one (the known one listed, or else the given default), is refused; an unknown optional vocabulary is ignored. '
     'Custom keyword classes added in a vocabulary take effect for schemas of that metaschema only.',
     ['configurations', 'programs'], 'all subsets and required flags of vocabularies, all unknown keyword names, and custom keywords, crossed with schemas and instances',
     'Tests build one custom metaschema; the subset and flag combinations are exponential.',
     [V + '__init__.py', V + 'core.py', C], [('vocabulary to keyword class mapping', 'Metaschema.get_kwclass, VocabularyKeyword, Catalog.create_vocabulary, create_metaschema')])

prop('C30', 'Format asserts only when enabled, and only for its types',
     'A format keyword always annotates and rejects an instance exactly when that format is enabled in the schema\'s own catalog, the instance is of a type the format covers, and the registered validator refuses the value. '
     'Enabling formats affects only the catalog it is done on and schemas created after it. The json-pointer format accepts exactly the RFC 6901 strings.',
     ['configurations', 'histories', 'inputs'], 'all subsets of enabled formats over several catalogs, validators and instance types',
     'Tests check single formats in one catalog.',
     [V + 'format.py', 'jschon/formats.py', C], [('validator registry and enabled set', 'FormatKeyword, format_validator, Catalog.enable_formats')])

prop('C31', 'Valid schemas always construct and evaluate; failures are library errors',
     'Any schema document that its metaschema accepts, whose references resolve without running in circles and whose patterns compile can be constructed and evaluated against any instance, in finite time, with every output format, and without any exception. '
     'An otherwise valid document with an identifier, reference or dialect that cannot be resolved is refused with one of the library\'s own error types, and the refusal does not disturb schemas already in the catalog.',
     ['inputs', 'programs', 'fault_sequences'], 'all metaschema-valid schemas with unusual values and names, all instances, and faulty documents (bad $id, dangling reference, bad $schema) at any position',
     'Crashes come from unusual but legal values (empty names, huge numbers, booleans where objects are usual) that example schemas avoid.',
     [S, V + '__init__.py', V + 'core.py', V + 'validation.py'], [('construction and evaluation of every keyword', 'JSONSchema.__init__, Metaschema.get_kwclass, Keyword subclasses')])

prop('C32', 'The result tree is a navigable, faithful record of evaluation',
     'Every node of an evaluation result is linked to its parent, is found among the children by its key and instance location, and leads to the very instance node and schema node it is about: its path is the keyword path, its relative path leads from its schema to that schema node. '
     'A valid node has no error and an invalid one has an error or an invalid child, conditional keywords that do not apply leave no node, all nodes share one set of globals that is empty when an evaluation begins, siblings are found by keyword and instance, and the annotations or errors collected from any node, filtered by instance, keyword or both, are exactly those of the nodes reached from it along nodes with its verdict. '
     'A result of a caller\'s own class, given at the root or set by a keyword, is used from there on for everything below.',
     ['inputs', 'programs'], 'all schemas and instances, every node of the result tree, every combination of filters, and result classes set at any level',
     'Tests read verdicts and a few paths at the root; links, places, siblings and filters are per node of arbitrary trees.',
     [S], [('tree of results', 'Result.__init__, Result.__call__, Result.path, relpath, schema_node, sibling'), ('collection', 'Result.collect_annotations, collect_errors')])

prop('C33', 'Custom keywords run once, in order, on their types, with their subschemas',
     'A keyword class added in a vocabulary is evaluated once for every place where its schema object is applied to an instance of one of its types, never when static, and always after the keywords it depends on, whatever the order of members; the results of those are its siblings. '
     'Its value becomes schemas exactly where its subschema mixins say (one, an array, an object, or either of two) and a plain value otherwise, with which construction still succeeds; the roots, base URI, metaschema and path it sees of its schema while being constructed are those seen afterwards. '
     'Its verdict and annotation take part in those of the schema like any standard keyword\'s, unless it discards its result, does not assert, or reverses its failure.',
     ['programs', 'inputs'], 'all sets of keyword classes with acyclic dependencies, instance types and subschema forms, over any number of vocabularies, in all schemas and instances',
     'Tests define one or two custom keywords and evaluate them in one schema.',
     [V + '__init__.py', S], [('keyword construction and mixins', 'Keyword.__init__, Subschema, ArrayOfSubschemas, ObjectOfSubschemas'),
                              ('dependency order and type dispatch', 'JSONSchema._resolve_dependencies, JSONSchema.evaluate')])

prop('C34', 'Metaschemas are checked when created and kept until replaced',
     'Creating or first using a metaschema loads it and every metaschema it is described by; it is cached only if it is a schema object with a usable vocabulary declaration that is valid under its own metaschema, and otherwise it is refused with a library error and leaves what was cached before untouched. '
     'From then on every schema that names it gets that same object, whatever becomes of the source, until it is created anew. '
     'A schema that is not itself a metaschema is never taken for one.',
     ['histories', 'fault_sequences'], 'all histories of serving, changing, withdrawing, creating, fetching and using several metaschemas that describe themselves or one another, with faults in documents and sources',
     'Tests create one metaschema from one good document.',
     [C, V + '__init__.py', S], [('creation and lookup', 'Catalog.create_metaschema, get_metaschema'), ('metaschema construction', 'Metaschema.__init__, Metaschema._bootstrap'), ('lookup by $schema', 'JSONSchema.metaschema')])

prop('C35', 'Catalogs are found by name and independent of one another',
     'A name always gives the catalog that was last created under it, an unnamed catalog is the default one, an unknown name is refused with a CatalogError, and a catalog for an unknown version with a ValueError. '
     'A schema built with a catalog\'s name belongs to that catalog. '
     'Sources, vocabularies, metaschemas, schemas and formats added to or deleted from one catalog are never seen in another, even one of the same name or with the same URIs.',
     ['histories', 'configurations'], 'all histories over several catalogs of equal and different names and versions, with the same URIs registered in each',
     'Tests mostly use one catalog at a time; leaks show only when two catalogs with overlapping content are compared after each step.',
     [C, 'jschon/__init__.py', S], [('registry of catalogs', 'Catalog.__init__, Catalog.get_catalog, create_catalog'), ('per-catalog stores', 'Catalog.__init__')])

prop('C36', 'A constructed schema is self-contained',
     'Once a schema has been constructed, evaluating it and taking outputs loads nothing from any source and always gives the same results. '
     'It does not matter what happens to the catalog afterwards: its cache scope ends, entries are deleted or replaced by other schemas under the same URIs, sources change or fail, the values it was made from are edited, formats are enabled, vocabularies or metaschemas are created anew, or another catalog takes the name. '
     'The same holds for validating a schema that is an object against its metaschema.',
     ['histories', 'faults'], 'all schemas and groups of documents that refer to one another statically, dynamically or recursively, and all later histories of their catalogs',
     'Tests evaluate a schema right after construction in a catalog that is not touched again.',
     [S, V + 'core.py', V + 'legacy.py', V + 'format.py', C], [('references resolved at construction', 'JSONSchema._resolve_references, RefKeyword.resolve, RecursiveRefKeyword_2019_09.resolve'),
                                                        ('dynamic anchors', 'DynamicRefKeyword.evaluate, DynamicAnchorKeyword.__init__'), ('formats', 'FormatKeyword.__init__')])

ids = [p['id'] for p in P]
assert len(ids) == len(set(ids))
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P), 'properties')
