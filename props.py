#!/usr/bin/env python3
# generates properties.jsonl
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))
p('C01', 'Parsing any byte sequence is memory safe, terminates and leaks nothing',
  'Whatever bytes are given to the document parser, it returns after a finite amount of work without reading or writing outside the blocks it owns and without using released memory. Once the returned document or the returned error is released, every block allocated during the call has been released exactly once.',
  ['inputs'], 'every byte sequence (valid, malformed, truncated, with embedded NUL bytes or not terminated by one) and every size argument',
  'The tests parse a few dozen fixed documents; out-of-bounds reads and leaks on rejected input are invisible to them.',
  ['src/axl_doc.c', 'src/axl_stream.c', 'src/axl_node.c', 'src/axl_factory.c', 'src/axl_stack.c'],
  [('parser driver and its error paths', 'src/axl_doc.c:__axl_doc_parse_common, __axl_doc_parse_node, __axl_doc_parse_close_node'), ('linked-object ownership on failure', 'src/axl_stream.c:axl_stream_link/axl_stream_free'), ('token extraction', 'src/axl_stream.c:__axl_stream_get_untilv_wide')], ['return value of the parse functions', 'heap'])
p('C02', 'Parse result and error report always agree',
  'A parse call either returns a document and leaves the error reference clear, or returns nothing and delivers exactly one error object with a non-zero code and a readable message. The outcome (accepted or rejected) does not depend on whether the caller asked for the error.',
  ['inputs'], 'every byte sequence; error reference requested or not',
  'Tests look at the error of a handful of malformed documents; a silent failure or an error reported next to a document needs a specific malformed input.',
  ['src/axl_doc.c', 'src/axl_error.c', 'src/axl_stream.c', 'src/axl_dtd.c'],
  [('error reporting at each rejection point', 'src/axl_doc.c'), ('error object creation', 'src/axl_error.c:axl_error_new, axl_error_report')], ['document pointer', 'error pointer, code and message'])
p('C03', 'Malformed markup is always rejected',
  'No document is accepted whose element tags do not nest properly: a closing tag that does not name the element most recently opened, an element left open at the end of input, a second root, content outside the root, an attribute given twice in the same element, an attribute value that is unquoted or unterminated, and an unterminated comment, CDATA section or processing instruction are all parse errors.',
  ['inputs'], 'every document over the markup alphabet within the bounds, compared with an independent well-formedness recogniser',
  'Each malformation interacts with whatever precedes it; tests contain one example of a few of them.',
  ['src/axl_doc.c', 'src/axl_node.c', 'src/axl_stream.c'],
  [('open element stack', 'src/axl_doc.c:__axl_doc_parse_close_node, axlDoc.parentNode'), ('attribute parsing', 'src/axl_doc.c:__axl_doc_parse_xml_attributes'), ('duplicate attribute detection', 'src/axl_node.c:axl_node_has_attribute')], ['parse result'])
p('C04', 'The parsed tree reproduces the document: names, attributes, text, order',
  'Every well-formed document is accepted, and the resulting tree has exactly the elements, attribute names and values, text, CDATA sections, comments and processing instructions of the document, with the same nesting and in the same order (white space that is not significant, see xml:space, aside). Either quoting style and any legal amount of white space inside tags give the same tree.',
  ['inputs'], 'every well-formed document that an independent generator can build within the bounds (structure, names, values, text and spacing chosen symbolically)',
  'Tests compare a few documents node by node; combinations of empty elements, mixed content, spacing and quoting are unbounded.',
  ['src/axl_doc.c', 'src/axl_node.c', 'src/axl_stream.c'],
  [('node and attribute construction', 'src/axl_doc.c:__axl_doc_parse_node, __axl_doc_parse_xml_attributes'), ('content handling', 'src/axl_doc.c:__axl_doc_parse_common'), ('item list of a node', 'src/axl_node.c:axl_node_set_content_from_factory, axl_item_*')], ['tree navigation API'])
p('C05', 'Serialising and parsing again gives an equal document',
  'For every document, parsed or built through the API, the serialised text parses successfully to a document whose root element is equal to the original, and serialising that one again gives the same text (attributes may be written in another order when an element has more than ten; instructions and DOCTYPE outside the root are not serialised). The reported flat size and the reported dump size both equal the length of the serialised text; the same holds for the serialisation of a single element.',
  ['inputs', 'histories'], 'every document within the bounds: any mix of elements, attributes, text, CDATA, comments, processing instructions and XML header fields',
  'The dump code computes the size and writes the text in two separate recursive passes; tests exercise fixed documents and cannot show that both agree and that the text is parseable for all content.',
  ['src/axl_doc.c', 'src/axl_node.c'],
  [('size pass', 'src/axl_doc.c:axl_doc_get_flat_size_common, src/axl_node.c:axl_node_get_flat_size'), ('write pass', 'src/axl_node.c:axl_node_dump_at, src/axl_doc.c:__axl_doc_dump_common')], ['dump functions', 'equality functions'])
p('C06', 'Pretty-printed output keeps the document content',
  'For every document and every indentation width, the pretty serialisation is well formed, its reported size equals its length, and parsing it gives a document equal to the original up to white space around element boundaries.',
  ['inputs', 'configurations'], 'every document within the bounds, every indentation width from none upwards, both pretty and tabular variants, at document and element level',
  'Indentation depends on depth, on siblings and on mixed content; tests dump a few fixed files.',
  ['src/axl_doc.c', 'src/axl_node.c'],
  [('indentation in both passes', 'src/axl_node.c:axl_node_get_flat_size, axl_node_dump_at')], ['pretty/tabular dump functions'])
p('C07', 'The parse result does not depend on how the bytes arrive',
  'Parsing the same bytes from memory with an explicit size, from memory as a terminated string, or from a file whose reads return arbitrary short counts gives the same outcome and equal documents. A read error is reported as a parse failure, and every descriptor that was opened is closed.',
  ['inputs', 'fault_sequences'], 'every document within the bounds, every partition of it into read results, a failing read at any point',
  'Tests read files in one or two large chunks; a token split across two reads at an arbitrary place needs an arbitrary schedule of read sizes.',
  ['src/axl_stream.c', 'src/axl_doc.c'],
  [('refilling the parse buffer', 'src/axl_stream.c:axl_stream_prebuffer, axl_stream_fall_outside'), ('token search across refills', 'src/axl_stream.c:__axl_stream_get_untilv_wide')], ['parse result from memory and from file'])
p('C08', 'Escaping is lossless for content and attribute values',
  'Any string stored as element content, CDATA or attribute value can be read back unchanged through the translated accessors, and the stored form contains no raw markup character, so it survives serialising and parsing. A value that was read from a document is never escaped a second time when the node is modified, copied or serialised.',
  ['inputs', 'histories'], 'every string over all byte values (including runs of the five special characters and CDATA terminators), set with explicit or implicit length',
  'Escaping is byte-wise with look-ahead; tests use a few strings with each special character once.',
  ['src/axl_node.c', 'src/axl_stream.c'],
  [('detection and translation of invalid sequences', 'src/axl_node.c:__axl_node_content_have_invalid_chars*, __axl_node_content_copy_and_escape, __axl_node_content_translate_defaults'), ('set and get functions', 'src/axl_node.c:axl_node_set_content, axl_node_set_cdata_content, axl_node_set_attribute, axl_node_get_content_trans, axl_node_get_attribute_value_trans')], ['content and attribute accessors', 'dump'])
p('C09', 'Attributes of an element behave as a map from name to value',
  'After any sequence of setting and removing attributes, with any number of them, an element reports exactly the attributes that are set: lookups by name, presence and value tests, the count, iteration by callback and iteration by cursor all agree, each name appears once, and the value is the one given when the name was set (setting a name that is already set changes nothing, as documented). Copying an element copies exactly that map.',
  ['histories', 'inputs'], 'every sequence of set and remove operations across the internal growth threshold, every name and value',
  'Tests add and remove a fixed sequence of attributes; the representation changes with the number of attributes in both directions.',
  ['src/axl_node.c', 'src/axl_hash.c'],
  [('attribute list and hash with switch-over', 'src/axl_node.c:__axl_node_set_attribute, axl_node_remove_attribute'), ('attribute cursor and foreach', 'src/axl_node.c:axl_node_attr_cursor_*, axl_node_attr_foreach')], ['attribute accessors'])
p('C10', 'Editing the tree keeps every link consistent',
  'After any sequence of inserting, appending, replacing, removing, detaching, moving and clearing elements and other items, walking forwards and walking backwards visit the same children in the same order, every child reports its real parent, a detached or removed element has no parent and no siblings, and counts match. Releasing the document afterwards releases every element exactly once.',
  ['histories'], 'every sequence of edit operations within the bounds on trees with mixed content (elements, text, comments, CDATA, processing instructions)',
  'Every edit special-cases first, last, only and middle children and their mixture with text; tests perform a few fixed edits.',
  ['src/axl_node.c', 'src/axl_doc.c'],
  [('item list maintenance', 'src/axl_node.c:axl_node_set_child, axl_node_set_child_after, axl_node_replace, axl_node_remove, axl_node_deattach, axl_node_transfer_childs, axl_item_remove, axl_item_replace, axl_item_transfer_childs_after, axl_node_set_is_empty')], ['navigation API'])
p('C11', 'Equality decides sameness and copies are equal and independent',
  'Every document and element is equal to itself and to a copy of itself, equality is symmetric, and two documents that differ in a name, an attribute, a text, an item or their order are reported as different (the trimmed comparison ignoring only surrounding white space in text), with an error explaining the difference when one is asked for. Changing or releasing a copy never affects the original.',
  ['inputs'], 'all pairs of documents within the bounds, including ones that differ in a single place',
  'A missing comparison only shows on a pair that differs exactly there; tests compare a few pairs.',
  ['src/axl_doc.c', 'src/axl_node.c'],
  [('comparison', 'src/axl_node.c:axl_node_are_equal_full, axl_item_are_equal_full, axl_doc.c:axl_doc_are_equal*'), ('copy', 'src/axl_node.c:axl_node_copy, axl_item_copy')], ['equality and copy functions'])
p('C12', 'Navigation and lookup visit exactly the elements of the tree in order',
  'First, last, next, previous, parent and n-th child, the named variants, lookup by path, find-by-name in a subtree (children first, then deeper), instruction queries and child counts all agree with the tree. A path gives the elements found at its last component, in order. Deep and wide iteration visit each element exactly once in document order and in level order respectively, until the callback stops them.',
  ['inputs'], 'every tree shape and naming within the bounds, every path, every stopping point',
  'Tests navigate a few fixed trees; each lookup has its own traversal code.',
  ['src/axl_node.c', 'src/axl_doc.c'],
  [('navigation', 'src/axl_node.c:axl_node_get_next*, axl_node_get_previous*, axl_node_get_child_*, axl_node_find_called'), ('path lookup', 'src/axl_doc.c:axl_doc_get, axl_doc_find_called'), ('iteration', 'src/axl_doc.c:axl_doc_iterate_full, __axl_doc_iterate_common')], ['navigation API'])
p('C13', 'DTD validation accepts exactly what the content model allows',
  'For a DTD whose content models are (as XML requires, deterministic) sequences or choices of element names and nested models with repetition marks, text-only, mixed, EMPTY or ANY declarations, a document is valid if and only if every element in it, from the root down, is declared, its children match its declared model, and it has character data only where its declaration allows it. An invalid document always yields an error, a valid one never does.',
  ['inputs', 'configurations'], 'every such content model within the bounds against every sequence of children within the bounds',
  'The matcher is hand written with look-ahead positions; tests validate a few models against a few documents.',
  ['src/axl_dtd.c'],
  [('content matching', 'src/axl_dtd.c:__axl_dtd_validate_sequence, __axl_dtd_validate_choice, __axl_dtd_validate_item_list, axl_dtd_validate')], ['validate result and error'])
p('C14', 'DTD attribute rules are enforced exactly',
  'For a document whose content matches, validity is decided by the attribute declarations: it is valid if and only if every element that has an attribute declaration carries only declared attributes, all the required ones, the fixed ones with their fixed value and, where present, enumerated ones with a listed value, identifiers (where present) are unique in the document, and every identifier reference, alone or in a list of references, names an identifier of the document wherever it is.',
  ['inputs', 'configurations'], 'every declaration kind and default rule within the bounds against every attribute assignment within the bounds',
  'Each rule interacts with presence and value of other attributes across elements; tests check one positive and one negative case for some.',
  ['src/axl_dtd.c'],
  [('attribute validation', 'src/axl_dtd.c:axl_dtd_attr_validate, __axl_dtd_attr_validate_foreach, __axl_dtd_attr_validate_required'), ('declaration parsing', 'src/axl_dtd.c:__axl_dtd_parse_attlist')], ['validate result and error'])
p('C15', 'Parsing any DTD text is memory safe, terminates and reports errors',
  'Whatever bytes are given to the DTD parser, from memory or as a file, it returns after a finite amount of work without invalid memory access, giving either a DTD and no error or no DTD and an error. Releasing the result releases everything that was allocated.',
  ['inputs'], 'every byte sequence within the bounds, alone and inside each kind of declaration',
  'The tests load well-formed DTDs and a few broken ones.',
  ['src/axl_dtd.c', 'src/axl_stream.c'],
  [('declaration parsers and their error paths', 'src/axl_dtd.c:__axl_dtd_parse_element, __axl_dtd_read_element_spec, __axl_dtd_parse_attlist, __axl_dtd_parse_entity'), ('root computation', 'src/axl_dtd.c:__axl_dtd_get_new_root')], ['return value, error, heap'])
p('C16', 'DTD declarations are represented as written',
  'For every well-formed set of element, attribute and entity declarations, the queries return the declared elements, their kind, their particles in order with their repetition marks and nesting, the declared root and the entity values. Two DTDs are reported equal exactly when they make the same declarations in the same order, and a DTD equals itself. (Notations, external entities and processing instructions are not supported in DTDs.)',
  ['inputs'], 'every declaration the generator can build within the bounds (kinds, nesting, repetition marks, spacing)',
  'Tests query two or three DTDs.',
  ['src/axl_dtd.c'],
  [('element model', 'src/axl_dtd.c:__axl_dtd_read_element_spec, axl_dtd_get_item_list, axl_dtd_item_*'), ('root', 'src/axl_dtd.c:axl_dtd_get_root'), ('equality', 'src/axl_dtd.c:axl_dtd_are_equal'), ('entities', 'src/axl_dtd.c:axl_dtd_get_entity_value')], ['DTD query API'])
p('C17', 'Lists behave as ordered sequences under any history of operations',
  'After any sequence of ordered insertions, appends, prepends, positional insertions, removals, unlinks, cursor insertions, cursor removals and cursor moves, a list holds exactly the expected items in the expected order, seen the same from both ends, by position, by lookup and by cursor, with the right length. Each item removed, or still held when the list is released, is handed to the destructor exactly once, and unlinked items never.',
  ['histories', 'inputs'], 'every sequence of operations and values within the bounds, for both ordering modes, with and without destructor',
  'Node recycling, first/last/middle cases and cursors combine; tests run two or three fixed sequences.',
  ['src/axl_list.c'],
  [('node linking and recycling', 'src/axl_list.c:axl_list_add, axl_list_append, axl_list_prepend, axl_list_add_at, __axl_list_remove_common, __axl_list_allocate_node'), ('cursor', 'src/axl_list.c:axl_list_cursor_*')], ['list API'])
p('C18', 'Hash tables behave as maps under any history of operations',
  'After any sequence of insertions, replacements, removals, deletions and lookups with any keys (colliding or not) and across growth and shrinking, a hash table holds exactly the expected key/value pairs: lookups, existence, the item count, callback iteration and cursor iteration all agree and each pair is visited once. Key and value destructors run exactly once for each pair replaced, removed or still held at release, and never for pairs taken out with delete.',
  ['histories', 'inputs'], 'every sequence of operations within the bounds, every key, any callback that stops early, removal through the cursor',
  'Collisions, bucket compaction and resizing depend on the key set; tests use fixed key sets.',
  ['src/axl_hash.c'],
  [('buckets and resizing', 'src/axl_hash.c:axl_hash_insert_full, axl_hash_remove, axl_hash_delete, __axl_hash_internal_lookup'), ('cursor', 'src/axl_hash.c:axl_hash_cursor_*'), ('copy', 'src/axl_hash.c:axl_hash_copy')], ['hash API'])
p('C19', 'Stacks are last-in first-out under any history',
  'After any sequence of pushes, pops and peeks, the pointer stack and the compact bit stack return the values pushed in reverse order, report their size and emptiness correctly and never touch memory outside their storage. Items still held when a stack is released are handed to the destructor exactly once.',
  ['histories', 'inputs'], 'every sequence of operations within the bounds, across growth of the storage; every bit pattern',
  'The compact stack packs values into bytes and grows in blocks; tests push one fixed pattern.',
  ['src/axl_stack.c'],
  [('stack', 'src/axl_stack.c:axl_stack_push, axl_stack_pop, axl_stack_peek'), ('bit stack', 'src/axl_stack.c:axl_binary_stack_push, axl_binary_stack_pop, axl_binary_stack_peek')], ['stack API'])
p('C20', 'Block and string factories hand out disjoint, cleared, stable memory',
  'Every block handed out by a factory has the requested size, does not overlap any other block handed out by it, is zero filled when first handed out, and stays valid and unchanged until the factory is released, whatever the sequence of requests. Releasing the factory releases everything.',
  ['histories', 'inputs'], 'every sequence of requests and sizes within the bounds, across the internal block size',
  'Whether two requests overlap depends on the exact sequence of sizes around the internal block boundary.',
  ['src/axl_factory.c'],
  [('item factory', 'src/axl_factory.c:axl_factory_create, axl_factory_get'), ('string factory', 'src/axl_factory.c:axl_string_factory_create, axl_string_factory_alloc')], ['factory API'])
p('C21', 'String utilities compute their documented results for every input',
  'Splitting by separators and joining are inverse and lose nothing; replacing substitutes every occurrence and nothing else; trimming removes exactly leading and trailing white space; removing, concatenating, duplicating, comparing with and without case, case conversion and formatted printing give their documented results. None of them reads or writes outside its arguments or leaks.',
  ['inputs'], 'every string and argument within the bounds, including empty strings, overlapping occurrences, separators at the ends and non-ASCII bytes',
  'Tests use a few literal strings.',
  ['src/axl_stream.c'],
  [('split/join', 'src/axl_stream.c:axl_stream_split, axl_stream_splitv, axl_stream_join'), ('replace and remove', 'src/axl_stream.c:axl_stream_replace, axl_stream_remove'), ('trim', 'src/axl_stream.c:axl_stream_trim_with_size, axl_stream_clean_split'), ('compare', 'src/axl_stream.c:axl_stream_cmp, axl_stream_casecmp')], ['string API'])
p('C22', 'Stream inspection consumes exactly what it matches',
  'Inspecting, peeking, consuming white space and reading up to one of several terminators return the documented result for every input: a match consumes exactly the matched bytes, a mismatch consumes nothing, reading up to a terminator returns the bytes before it and reports which terminator ended it, and running out of data is reported as such. Pushed back data is delivered first, and no call leaves the stream beyond its data.',
  ['inputs', 'histories'], 'every stream content and every pattern within the bounds, every sequence of calls',
  'Matches at the end of data and multi-byte terminators that share prefixes need specific contents.',
  ['src/axl_stream.c'],
  [('inspect and peek', 'src/axl_stream.c:axl_stream_inspect, axl_stream_inspect_several, axl_stream_peek'), ('get until', 'src/axl_stream.c:axl_stream_get_until, axl_stream_get_until_zero, __axl_stream_get_untilv_wide'), ('spaces', 'src/axl_stream.c:axl_stream_consume_white_spaces')], ['stream API'])
p('C23', 'Encoded documents are decoded to UTF-8 exactly, or rejected',
  'With encoding support active, a document declared in a supported single-byte encoding yields, for every byte of that encoding, the UTF-8 form of the character the standard assigns to it, at any position and however the input is delivered. A document that is not valid UTF-8 and declares no other encoding is rejected, valid UTF-8 is accepted unchanged, and a byte the declared encoding leaves undefined is an error. (Documents declaring an encoding that is not supported are read without conversion or check, as documented.)',
  ['inputs', 'configurations'], 'every byte value in each supported encoding, every byte sequence up to the bound for UTF-8 validation, every delivery schedule within the bounds',
  'Tests decode one sample file per encoding, which uses a fraction of the code table.',
  ['babel/axl_babel.c', 'babel/axl_babel_iso88591.c', 'babel/axl_babel_iso885915.c', 'babel/axl_babel_iso88592.c', 'src/axl_stream.c', 'src/axl_doc.c'],
  [('code tables', 'babel/axl_babel_iso8859*.c'), ('decoding and UTF-8 check', 'babel/axl_babel.c:axl_babel_*'), ('decode on refill', 'src/axl_stream.c:axl_stream_setup_decode, axl_stream_prebuffer')], ['content of the parsed document'])
p('C24', 'Namespace resolution follows nearest-ancestor scoping',
  'In a document accepted by namespace validation, the namespace reported for a prefix or for the default namespace at an element is the one bound by the nearest enclosing declaration, and the name comparison, navigation and lookup functions qualified by namespace match exactly the elements whose resolved namespace and local name agree. Validation fails if and only if some used prefix has no declaration in scope, and leaks nothing either way.',
  ['inputs'], 'every tree within the bounds with declarations, redeclarations and uses placed arbitrarily',
  'Scoping depends on the relative position of declarations and uses; tests validate a few documents.',
  ['ns/axl_ns_doc.c', 'ns/axl_ns_node.c'],
  [('validation and annotation of declarations', 'ns/axl_ns_doc.c:axl_ns_doc_validate'), ('lookup', 'ns/axl_ns_doc.c, ns/axl_ns_node.c:axl_ns_node_cmp, axl_ns_node_find_called')], ['namespace API'])
p('C25', 'White space is kept or trimmed exactly as xml:space asks',
  'White space between and around text is preserved in elements under an xml:space="preserve" declaration, and white-space-only text next to tags is dropped elsewhere (text with other characters is kept as written); the setting applies to the element that declares it and its descendants, is overridden by a nearer declaration, and ends with that element.',
  ['inputs'], 'every arrangement of declarations on nested and sibling elements within the bounds, every white space content',
  'The setting is tracked on a side stack while parsing, so its scope depends on the whole preceding document; tests use one document.',
  ['src/axl_doc.c', 'src/axl_stack.c'],
  [('xml:space stack', 'src/axl_doc.c:__axl_doc_get_white_space_behaviour, __axl_doc_set_xml_preserve'), ('content assembly', 'src/axl_doc.c:__axl_doc_parse_common')], ['content accessors'])
p('C26', 'Annotations attach data to the right element and release it once',
  'Data annotated on an element under a name is returned by a lookup on that element, by a lookup from any descendant when parent search is requested (nearest first), and by no other lookup; a later annotation under the same name replaces the earlier one. A typed accessor returns the integer, string or double that was annotated, and nothing for one of the other two types. Destructors run exactly once per annotated key and value when it is replaced or the element is released.',
  ['histories', 'inputs'], 'every set of annotations placed on a chain of elements, every query, typed and pointer variants',
  'Nearest-first lookup and destructor counts depend on where and in which order annotations are made.',
  ['src/axl_node.c'],
  [('annotation storage and lookup', 'src/axl_node.c:axl_node_annotate_data*, axl_node_annotate_get*, axl_node_annotate_int/string/double')], ['annotation API'])
p('C27', 'Writing to a file reports success only if the whole text was written',
  'Each function that writes a document or an element to a file leaves in the file exactly the text that the corresponding in-memory function returns, and reports success. If the file cannot be opened, or does not take the whole text (noticed by the write or only when the buffered data is flushed on closing), failure is reported. In every case the file is closed, no memory is lost, and the document can be written again.',
  ['inputs', 'fault schedules'], 'every document within the bounds, every number of bytes the file takes before it is full, every point where that is noticed',
  'Full and unwritable files, and errors that only show when the file is closed, do not occur in a test run.',
  ['src/axl_doc.c', 'src/axl_node.c'],
  [('document to file', 'src/axl_doc.c:axl_doc_dump_to_file, axl_doc_dump_pretty_to_file'), ('element to file', 'src/axl_node.c:axl_node_dump_to_file, axl_node_dump_pretty_to_file')], ['return value, file content'])
p('C28', 'Text given in pieces or through a format is parsed as the whole text',
  'Parsing several strings gives the same verdict, the same error and the same tree as parsing their concatenation, wherever the text is cut and however many pieces are empty; an element created from strings or from a format is the root of the document that the resulting text describes, belongs to no tree, can be used in any document, and is released completely with it. The verdict does not depend on whether the caller asks for the error.',
  ['inputs', 'configurations'], 'every text within the bounds, every way to cut it into up to three pieces',
  'Tests use documents cut at line ends only, always valid and always with the error requested.',
  ['src/axl_doc.c', 'src/axl_node.c', 'src/axl_stream.c'],
  [('document from strings', 'src/axl_doc.c:axl_doc_parse_strings'), ('element from strings or a format', 'src/axl_node.c:axl_node_parse_strings, axl_node_parse'), ('joining', 'src/axl_stream.c:axl_stream_concat, axl_strdup_printfv')], ['parsed tree, error object'])
p('C29', 'Operations on separate objects do not disturb each other',
  'The library keeps no state of its own between or during operations on different documents, DTDs, containers and streams: whatever one task does with its objects, at any point in the middle of what another task does with other objects (in another thread, in a callback or simply in between), both get the results they get when they run alone, and values already returned stay valid and unchanged.',
  ['schedules', 'inputs'], 'every point at which one task can be interrupted by another one that shares no object with it (one preemption), for every input within the bounds',
  'Tests use one document at a time in one thread, and a schedule that hits a window of a few instructions does not occur by chance.',
  ['src', 'ns', 'babel'],
  [('variables of the library', 'src/axl_doc.c, src/axl_log.c'), ('all operations', 'src/axl_doc.c, src/axl_node.c, src/axl_dtd.c, src/axl_stream.c, src/axl_list.c, src/axl_hash.c, ns/axl_ns_doc.c')], ['results of both tasks', 'error objects'])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
