"""The properties.  tools/mk.py writes properties.jsonl and MANIFEST.json from this file."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    a = {'files': ['jschon/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'jschon/' + w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'jschon/' + w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'JSON Pointer text is a faithful encoding of its keys',
     'A JSON Pointer built from any sequence of keys prints as the RFC 6901 text of those keys, and reading that text '
     'back gives an equal pointer with the same keys. A text is accepted exactly if it is a JSON Pointer by the RFC '
     '6901 grammar, and every accepted text prints back unchanged; anything else raises the malformed-pointer error. '
     'Escaping and unescaping a key are inverse, and distinct key sequences never share a text.',
     ['inputs'], 'every key sequence and every text, over all Unicode characters including "~", "/", digits and controls',
     'the tests sample generated pointers; they cannot exclude a character or an escape sequence for which two '
     'pointers collide or a malformed text is read',
     ['jsonpointer.py'],
     [('JSONPointer.__new__', 'jsonpointer.py:84'), ('escape/unescape', 'jsonpointer.py:258'),
      ('__str__', 'jsonpointer.py:179')])
prop('C02', 'JSON Pointers obey the algebra of key sequences',
     'A JSON Pointer behaves as the immutable sequence of its keys: indexing, slicing, length, iteration, joining with '
     '"/" and equality agree with the same operation on the key sequence, and no operation changes its operands. The '
     'order relations hold exactly when one key sequence is a (proper) prefix of the other, and equal pointers have '
     'equal hashes. An operation with an operand of a wrong type is refused rather than answered.',
     ['inputs'], 'all pairs of pointers, all suffixes, all indices and slices',
     'tests compare generated pairs, which almost never share a long prefix or differ only in one character',
     ['jsonpointer.py'],
     [('sequence protocol', 'jsonpointer.py:121'), ('__truediv__', 'jsonpointer.py:141'),
      ('prefix order', 'jsonpointer.py:155'), ('hash', 'jsonpointer.py:175')])
prop('C03', 'JSON Pointer URI fragments round-trip and contain only fragment characters',
     'The URI fragment of a JSON Pointer contains only characters that RFC 3986 allows in a fragment, and parsing it '
     'gives back an equal pointer, for every Unicode key. Parsing a fragment percent-decodes UTF-8 before the pointer '
     'is read, and reports a fragment that is not a pointer as malformed.',
     ['inputs'], 'all keys of any Unicode characters, all fragment texts with and without percent escapes',
     'tests round-trip random text only; which characters must be escaped and the order of decoding are not checked',
     ['jsonpointer.py'],
     [('uri_fragment', 'jsonpointer.py:235'), ('parse_uri_fragment', 'jsonpointer.py:224')])
prop('C04', 'Evaluating a JSON Pointer finds exactly the RFC 6901 location',
     'Evaluating a JSON Pointer against a plain value or a JSON document returns exactly the value that the RFC 6901 '
     'rules reference: object members by exact key, array items by a decimal index without leading zeros. Every other '
     'reference, including "-", negative, out-of-range or malformed indices and steps into scalars, raises the pointer '
     'reference error. The path of every node of a document evaluates to that same node.',
     ['inputs'], 'all documents and all pointers',
     'tests walk to locations that exist and sample a few that do not',
     ['jsonpointer.py', 'json.py'],
     [('JSONPointer.evaluate', 'jsonpointer.py:187'), ('JSON.path', 'json.py:154')])
prop('C05', 'Relative JSON Pointers evaluate by their defining steps',
     'A relative JSON Pointer text is accepted exactly if it follows the grammar (non-negative up-count without leading '
     'zeros, optional signed index adjustment, then "#" or a JSON Pointer), and prints back in a form that parses equal. '
     'Evaluation goes up that many levels, shifts the array index, and then yields the key or index of the node for "#" '
     'or the node the pointer references from there. Going above the root, an index outside the array, an adjustment '
     'where there is no array, or "#" at the root raises the relative-pointer reference error.',
     ['inputs'], 'all relative pointers, start nodes and documents',
     'tests use a fixed table of examples and random well-formed texts',
     ['jsonpointer.py'],
     [('RelativeJSONPointer.__new__', 'jsonpointer.py:288'), ('evaluate', 'jsonpointer.py:358'),
      ('__str__/__eq__', 'jsonpointer.py:335')])
prop('C06', 'A JSON document is a consistent tree after any history of changes',
     'After any sequence of item assignments, deletions, insertions and the inherited list and mapping operations, a '
     'JSON document holds the data a Python list or dict would hold after the same operations. Every node has the right '
     'parent, key, type, path and value, whichever of these was read before the change. Operations fail exactly when '
     'the Python operation fails, and a failed one leaves the document as it was.',
     ['histories', 'inputs'], 'all operation sequences on all documents, with cached paths and values read at any time',
     'tests apply one kind of operation to one kind of document and rarely read the caches in between',
     ['json.py'],
     [('__setitem__/__delitem__/insert', 'json.py:236'), ('invalidate path and value caches', 'json.py:172')],
     state=[('_path/_value cache', 'cached path and value of a node', 'json.py:154')])
prop('C07', 'JSON equality and order follow the JSON data model',
     'Two JSON values are equal exactly if they have the same JSON type and the same value: numbers by mathematical '
     'value, strings by characters, arrays item by item in order, objects by members regardless of order; true and false '
     'never equal numbers, at any depth. Equality is reflexive, symmetric and transitive, and comparing with plain data '
     'equals comparing with a JSON document of that data. The order relations compare two numbers or two strings with '
     'the usual meaning and refuse a number and a string.',
     ['inputs'], 'all pairs and triples of JSON values',
     'tests compare generated values that are almost never nearly equal (1, 1.0, true; reordered members; nested variants)',
     ['json.py'],
     [('__eq__', 'json.py:282'), ('__ge__/__gt__/__le__/__lt__', 'json.py:296')])
prop('C08', 'JSON documents round-trip through JSON text and files',
     'Printing a JSON document gives JSON text of its value, and loading that text, from a string or a file, gives an '
     'equal document with the same types in which integers stay exact, whatever the encoding of the platform. The constants NaN '
     'and Infinity, and numbers beyond what a float can hold, are refused when they occur in a text that is loaded.',
     ['inputs'], 'all JSON values and texts with constants in any position',
     'tests sample round trips; they do not cover every scalar class in every position or the refused constants',
     ['json.py', 'utils.py'],
     [('dumps/loads/loadf/dumpf', 'json.py:38'), ('json_loads parse_constant', 'utils.py:61'),
      ('_serialize_custom_obj', 'utils.py:73')])
prop('C09', 'JSON Patch operations compute what RFC 6902 defines',
     'Applying an add, remove, replace, move, copy or test operation to a document gives exactly the document RFC 6902 '
     'defines, for every target location including "-", array bounds and the whole document. It raises the JSON Patch error exactly '
     'when RFC 6902 makes the operation an error: a location that does not exist, a malformed or out-of-range array '
     'index, a move into the moved value\'s own descendants, a failed test.',
     ['inputs'], 'all documents, operations, paths and values',
     'tests use random but valid target locations plus a handful of error examples',
     ['jsonpatch.py'],
     [('add/remove/replace/move/copy/test', 'jsonpatch.py:233'), ('Node', 'jsonpatch.py:194')])
prop('C10', 'A JSON Patch is atomic, pure and repeatable',
     'Evaluating a patch applies its operations in order and returns a new document; the document given, the patch and '
     'the values in it are never changed, also when an operation in the middle fails, in which case the error is raised. '
     'Results share no mutable data with the patch, the document given or earlier results, so the same patch evaluated '
     'again gives the same result whatever was done to the first one.',
     ['inputs', 'histories'], 'all patches, documents and later changes to the results',
     'aliasing shows only when a result or a value in the patch is changed afterwards, which no test does',
     ['jsonpatch.py'],
     [('JSONPatch.evaluate deep copies the document', 'jsonpatch.py:124'),
      ('deepcopy of operation values', 'jsonpatch.py:68')])
prop('C11', 'In-place patch methods of JSON documents agree with JSON Patch',
     'add, remove and replace called on a JSON document change it in place to the document that the same JSON '
     'Patch operation gives on its plain value, and leave a consistent tree. They raise the JSON error exactly when the '
     'patch operation is an error, and then leave the document unchanged, also when called on a '
     'node inside a larger document, of which everything else stays as it was.',
     ['inputs', 'histories'], 'all documents, target locations and values',
     'the in-place and the functional implementation are separate code; tests never compare them',
     ['json.py', 'jsonpatch.py'],
     [('JSON.add/remove/replace', 'json.py:332'), ('patch functions', 'jsonpatch.py:233')])
prop('C12', 'JSON Patch objects serialise faithfully and behave as a list',
     'A patch converts to the list of operation objects of RFC 6902, with exactly the members each kind of operation '
     'has, and a patch built from that list is equal to the first. Indexing, slicing, assignment, deletion, insertion, '
     'length and equality behave as on that list, and an operation with an unknown name or without a path is refused when '
     'it is made.',
     ['inputs', 'histories'], 'all operations, member combinations and list operations',
     'tests use complete, well-formed operations only',
     ['jsonpatch.py'],
     [('JSONPatchOperation.__new__/asdict', 'jsonpatch.py:39'), ('JSONPatch sequence protocol', 'jsonpatch.py:111')])
prop('C13', 'Value assertion keywords decide as JSON Schema defines',
     'type, enum, const, the numeric, string, array and object size limits, pattern, multipleOf, uniqueItems, required '
     'and dependentRequired accept exactly the instances JSON Schema says they accept. Keywords for one type ignore '
     'instances of other types; true/false are not numbers, 1.0 is an integer, lengths count characters, and multipleOf '
     'is exact for decimals.',
     ['inputs'], 'all instances and keyword values, including every limit boundary',
     'the stable tests do not evaluate schemas at all, and the official suite, where present, samples boundary values',
     ['vocabulary/validation.py'],
     [('assertion keywords', 'vocabulary/validation.py:33')])
prop('C14', 'Logical applicators combine subschema verdicts correctly',
     'allOf, anyOf, oneOf, not, if/then/else and dependentSchemas, and the subschemas they hold (boolean ones included), '
     'give the verdict that JSON Schema defines from the verdicts of their subschemas: all, at least one, exactly one, '
     'none; then applies exactly when if passes and else exactly when it fails, and neither without if. A schema is '
     'valid exactly if none of its keywords fails.',
     ['inputs', 'programs'], 'all subschema verdict combinations, all instances',
     'the space of verdict combinations and keyword combinations is not sampled by the stable tests',
     ['vocabulary/applicator.py', 'jsonschema.py'],
     [('logic keywords', 'vocabulary/applicator.py:28'), ('JSONSchema.evaluate', 'jsonschema.py:191')])
prop('C15', 'Array applicators apply each subschema to exactly the right items',
     'prefixItems, items, additionalItems and contains with minContains/maxContains apply their subschemas to exactly '
     'the items JSON Schema assigns to them under the dialect of the schema: positional ones to the items at their '
     'positions, the rest to items or additionalItems; contains accepts exactly if the number of matching items lies '
     'within the limits (at least 1 by default). Instances that are not arrays are ignored.',
     ['inputs', 'programs'], 'all arrays, prefix lengths, limits and item verdicts, in the 2019-09 and 2020-12 dialects',
     'interplay of the keywords at every array length and match count is not sampled',
     ['vocabulary/applicator.py', 'vocabulary/legacy.py', 'vocabulary/validation.py'],
     [('prefixItems/items/contains', 'vocabulary/applicator.py:145'), ('2019-09 items/additionalItems', 'vocabulary/legacy.py:56'),
      ('minContains/maxContains', 'vocabulary/validation.py:180')])
prop('C16', 'Object applicators apply each subschema to exactly the right members',
     'properties, patternProperties, additionalProperties and propertyNames apply their subschemas to exactly the '
     'members JSON Schema assigns to them: by exact name, by unanchored regular expression match, to the members neither '
     'of those covers, and to every name. Instances that are not objects are ignored.',
     ['inputs', 'programs'], 'all objects, names, patterns and member verdicts',
     'which of several keywords covers a member depends on every name and pattern combination',
     ['vocabulary/applicator.py'],
     [('properties/patternProperties/additionalProperties/propertyNames', 'vocabulary/applicator.py:273')])
prop('C17', 'Unevaluated items and properties are exactly those nothing evaluated',
     'unevaluatedItems and unevaluatedProperties apply their subschema to exactly those items and members that no '
     'adjacent or in-place-nested keyword of a passing subschema has evaluated, whatever route ($ref, allOf, anyOf, '
     'oneOf, if/then/else, dependentSchemas, nested unevaluated keywords) the evaluation took. Subschemas that failed, '
     'and subschemas under not, evaluate nothing.',
     ['inputs', 'programs'], 'all combinations of in-place applicators, their verdicts and instances, per dialect',
     'the outcome depends on which combination of branches passed; sampling covers few of them',
     ['vocabulary/applicator.py', 'vocabulary/legacy.py', 'jsonschema.py'],
     [('unevaluatedItems/unevaluatedProperties', 'vocabulary/applicator.py:193'),
      ('2019-09 variants', 'vocabulary/legacy.py:117'), ('annotation collection of passing results', 'jsonschema.py:515')])
prop('C18', 'Schema evaluation is deterministic, order-independent and pure',
     'The verdict of a schema for an instance does not depend on the order of the keywords in the schema or of the '
     'members in the instance. Evaluating changes neither the schema nor the instance, and evaluating again, with the '
     'same or another instance in between, gives the same verdict and the same output.',
     ['inputs', 'programs', 'histories'], 'all schemas, keyword orders, instances and evaluation histories',
     'an order dependence shows only for a specific pair of interacting keywords in a specific order',
     ['jsonschema.py', 'vocabulary/__init__.py'],
     [('_resolve_dependencies', 'jsonschema.py:169'), ('evaluate', 'jsonschema.py:191')])
prop('C19', 'Every output format reports the same verdict, faithfully',
     'For any evaluation the flag, basic, detailed, verbose and hierarchical outputs all report the verdict of the '
     'evaluation, and are JSON data. A failing evaluation lists in the basic output exactly the errors of the failing keywords, '
     'and a passing one exactly the annotations of the passing keywords, null ones apart (limited to the annotation names asked '
     'for), each with the locations of the keyword and of the instance value it belongs to. The verbose output nests one unit for every '
     'result; the leaves of the detailed output are the results that have no part that agrees with the verdict; every unit of the hierarchical '
     'output is a result, with its verdict and locations and only annotations or errors of its own.',
     ['inputs', 'programs'], 'all schemas, instances and annotation filters',
     'no stable test produces an output; formats must agree for every shape of result tree',
     ['output.py', 'jsonschema.py'],
     [('formatters', 'output.py:40'), ('create_output', 'output.py:35'), ('Result.output', 'jsonschema.py:537')])
prop('C20', 'Annotations and errors are collected from exactly the right results',
     'A keyword contributes an annotation (other than null) only if it and every schema that contains it down from the root passed; '
     'collected annotations and errors can be limited to an instance location and a keyword, and nothing is lost, repeated '
     'or reported for a keyword that did not apply to the instance. Annotation keywords and unknown keywords annotate '
     'with their own value and never affect the verdict.',
     ['inputs', 'programs'], 'all schemas and instances',
     'no stable test reads annotations; dropped or leaked annotations need specific pass/fail nestings',
     ['jsonschema.py', 'vocabulary/annotation.py', 'vocabulary/__init__.py'],
     [('collect_annotations/collect_errors', 'jsonschema.py:515'), ('Result.__call__', 'jsonschema.py:401'),
      ('_AnnotationKeyword/_UnknownKeyword', 'vocabulary/annotation.py:19')])
prop('C21', 'References reach exactly the schema their URI identifies',
     '$ref evaluates as the schema its URI reference identifies after resolution against the base URI in force: by '
     '$id (nested and relative included), $anchor, or JSON pointer fragment (percent-encoded, escaped, crossing embedded '
     'resources). Every subschema reports a canonical URI under which the catalog returns that same subschema, and a reference '
     'that identifies no schema is reported as an error when the schema is made, never evaluated.',
     ['inputs', 'programs'], 'all nestings of $id, anchors and keys, all reference forms',
     'no stable test resolves references between schemas; resolution depends on every key character and nesting',
     ['jsonschema.py', 'vocabulary/core.py', 'catalog/__init__.py', 'uri.py'],
     [('RefKeyword', 'vocabulary/core.py:82'), ('IdKeyword/AnchorKeyword', 'vocabulary/core.py:65'),
      ('Catalog.get_schema', 'catalog/__init__.py:313'), ('canonical_uri', 'jsonschema.py:319')])
prop('C22', 'Dynamic references resolve to the outermost matching dynamic anchor',
     '$dynamicRef, when its initial target is a dynamic anchor, evaluates as the outermost schema resource in the dynamic scope '
     'that defines a dynamic anchor of that name, and otherwise exactly as $ref would; $recursiveRef likewise selects the '
     'outermost resource in the dynamic scope with $recursiveAnchor true, when its initial target has it. The outcome depends only on the path of '
     'evaluation, not on the order in which schemas were loaded or evaluated before.',
     ['inputs', 'programs', 'histories'], 'all chains of resources with and without matching anchors',
     'which resource wins depends on the whole chain of evaluation; no stable test evaluates one',
     ['vocabulary/core.py', 'vocabulary/legacy.py', 'jsonschema.py'],
     [('DynamicRefKeyword', 'vocabulary/core.py:121'), ('RecursiveRefKeyword_2019_09', 'vocabulary/legacy.py:16')])
prop('C23', 'The catalog loads a URI from the most specific matching source',
     'A URI is loaded from the source whose base URI is the longest that is a prefix of it, by the remainder of the URI, with the '
     'suffix of the source added and fragments ignored, whatever the order sources were added in; a URI no source matches, or whose '
     'source fails, raises the catalog error. A local source takes a remainder that starts with "/" as relative to its '
     'base directory, and a remote source appends the remainder to its base URL, also when it has a colon or starts with "/".',
     ['inputs', 'histories', 'configurations'], 'all sets of sources and URIs',
     'tests add one or two sources with unrelated base URIs',
     ['catalog/__init__.py'],
     [('add_uri_source', 'catalog/__init__.py:102'), ('load_json', 'catalog/__init__.py:131'),
      ('LocalSource', 'catalog/__init__.py:34')])
prop('C24', 'Schema caches are isolated from each other',
     'A schema is found under its URI in exactly the cache it was added to, whatever happens in other caches or other catalogs: '
     'adding, looking up, removing, and leaving a cache context in any order. Entering a cache context that is already in use '
     'is refused, leaving it removes its schemas also when an exception is raised, and getting a '
     'schema again from the same cache returns the same object.',
     ['histories', 'configurations'], 'all interleavings of cache operations over several caches and catalogs',
     'tests use a single cache at a time',
     ['catalog/__init__.py'],
     [('add_schema/del_schema/get_schema/cache', 'catalog/__init__.py:281')],
     state=[('_schema_cache', 'cacheid -> URI -> schema', 'catalog/__init__.py:83')])
prop('C25', 'URIs are values with RFC 3986 resolution and normal-form equality',
     'URIs are equal exactly if they are the same after normalising case (scheme, host, percent escapes) and removing dot segments, equal '
     'URIs have equal hashes, and a URI equals the text of a URI as it equals that URI. Resolving a reference against a base URI with an '
     'absolute path follows RFC 3986, copying with a replaced or removed component changes '
     'exactly that component and never the original, and the parts put together give the URI back. Validation enforces '
     'exactly the requirements asked for (a scheme, no fragment, no non-empty fragment, normalised).',
     ['inputs'], 'all URIs and references, all combinations of validation requirements',
     'tests use a few fixed URIs',
     ['uri.py'],
     [('URI', 'uri.py:15'), ('copy/resolve', 'uri.py:64'), ('validate', 'uri.py:94')])
prop('C26', 'The dialect of a schema decides which keywords it has',
     'A schema evaluates exactly the keywords of the vocabularies of its metaschema: the one its own $schema names, otherwise that '
     'of the closest enclosing schema that has one, otherwise the one given; keywords it does not know are ignored but '
     'annotated. A metaschema takes effect with exactly the vocabularies it declares plus the core, and a required '
     'vocabulary that is unknown is refused while an optional one is skipped.',
     ['inputs', 'programs', 'configurations'], 'all combinations of declared vocabularies, dialects and keywords',
     'no stable test creates a custom metaschema',
     ['vocabulary/__init__.py', 'vocabulary/core.py', 'jsonschema.py', 'catalog/__init__.py'],
     [('Metaschema.get_kwclass', 'vocabulary/__init__.py:93'), ('VocabularyKeyword', 'vocabulary/core.py:37'),
      ('metaschema_uri inheritance', 'jsonschema.py:272')])
prop('C27', 'Format asserts exactly when it is enabled and applies',
     'The format keyword annotates with its value and makes an instance invalid exactly if the format is enabled in the '
     'catalog of the schema and has a validator registered (both at the time the schema is made) for the type of the instance, and that validator rejects the instance; enabling a '
     'format in one catalog affects no other. A format unknown or not enabled never fails.',
     ['inputs', 'configurations', 'histories'], 'all formats, enablement histories and instances',
     'no stable test enables a format',
     ['vocabulary/format.py', 'catalog/__init__.py', 'formats.py'],
     [('FormatKeyword', 'vocabulary/format.py:14'), ('enable_formats', 'catalog/__init__.py:267')])
prop('C28', 'Results locate keywords and instance values precisely',
     'For every result of an evaluation, the instance location leads to the instance value it is about; the keyword path is the path '
     'of evaluation from the root, through references, to the keyword; and the absolute keyword location identifies, '
     'through the catalog, the very schema node that was evaluated.',
     ['inputs', 'programs'], 'all schemas with references and embedded resources, all instances',
     'no stable test reads locations; keys with special characters and references at any depth matter',
     ['jsonschema.py'],
     [('Result paths', 'jsonschema.py:351'), ('absolute_uri', 'jsonschema.py:503')])
prop('C29', 'A schema validates exactly if it has the form its dialect gives',
     'Validating a schema succeeds exactly if every keyword in it, in every subschema at any depth (and in no place that holds no '
     'subschemas), has a value of the form its dialect prescribes; it agrees with evaluating the plain value of the schema against the metaschema, '
     'and changes nothing. A schema that has the form can be constructed; one that has not is refused by a type, value or schema error, or reported.',
     ['inputs', 'programs'], 'all schemas: every keyword, value and nesting',
     'no stable test validates a schema against a standard metaschema: the metaschema documents are not in the repository',
     ['jsonschema.py', 'vocabulary/core.py', 'vocabulary/legacy.py', 'vocabulary/applicator.py', 'vocabulary/validation.py'],
     [('validate', 'jsonschema.py:198'), ('DynamicRefKeyword', 'vocabulary/core.py:128')])
prop('C30', 'Custom keywords are evaluated as they are declared',
     'The keywords of a user-defined vocabulary, used in a schema of a metaschema that declares it, are each evaluated once per instance and only on '
     'instances of the types they declare, after every keyword they depend on, in any order of the vocabulary and of the schema. What a keyword does with its result - pass, '
     'fail, recover, not assert, be discarded, annotate - decides the validity and the output as documented. The subschema mixins make subschemas of '
     'exactly the values that can be one, wherever the keyword is used, what one keyword leaves for a dependent is seen by it in the same schema object only, and a result class that a '
     'keyword gives is that of all results below it.',
     ['inputs', 'programs', 'configurations'], 'all dependency graphs, orders, instance types and behaviours of custom keywords',
     'no stable test defines a keyword',
     ['vocabulary/__init__.py', 'jsonschema.py'],
     [('Keyword/Subschema', 'vocabulary/__init__.py:127'), ('JSONSchema._resolve_dependencies', 'jsonschema.py:177'), ('Result', 'jsonschema.py:351')])
prop('C31', 'A schema is a JSON document whose subschemas know where they belong',
     'A schema constructed from a value is the JSON document of that value: equal to it, of the same length, structure, paths and text, before and after '
     'evaluation. Exactly the values in the places for subschemas are schemas, at any depth; each knows its parent schema, the root of '
     'its resource and of its document, its base URI, and its metaschema: its own $schema or that of the closest enclosing resource that has one, otherwise the one given. Each keyword '
     'in it is the node of that member.',
     ['inputs', 'programs'], 'all schema documents, nestings of resources and names',
     'no stable test constructs a schema with subschemas: the metaschema documents are not in the repository',
     ['jsonschema.py', 'json.py', 'vocabulary/__init__.py'],
     [('JSONSchema.__init__', 'jsonschema.py:27'), ('parentschema/resource_rootschema/document_rootschema', 'jsonschema.py:231'), ('Subschema mixins', 'vocabulary/__init__.py:175')])
