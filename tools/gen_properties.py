#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)

JD='deser-json/src/de.rs'; JS='deser-json/src/ser.rs'; DI='deser/src/de/impls.rs'; SI='deser/src/ser/impls.rs'
DD='deser/src/de/driver.rs'; SD='deser/src/ser/driver.rs'

p('C01','JSON parsing never panics and always terminates',
  'For every byte sequence given to the JSON parser, parsing ends with either a value or an error. It never panics, never reads outside the input, never overflows machine arithmetic and never loops forever.',
  ['inputs'],'every byte sequence (valid JSON or not, valid UTF-8 or not), every parser state reachable on it',
  'The tests parse about a dozen well-formed snippets; malformed input, extreme exponents and truncated escapes are never sampled, and totality is a statement about all inputs.',
  [JD],[('Deserializer::deserialize_into state machine',JD),('token, string, escape and number scanners',JD),('f64_from_parts',JD)],
  ['deser_json::from_str','deser_json::Deserializer::new(..).deserialize()'])
p('C02','The JSON parser accepts exactly JSON and reports its exact structure',
  'A parse that succeeds implies that the whole input is exactly one JSON text (RFC 8259 grammar, optional surrounding whitespace), and every such text whose numbers fit a finite double is accepted by a target that accepts everything. The target is fed exactly the document: one start and one end per array or object, every key directly before its value, every element once, all in document order.',
  ['inputs'],'every byte sequence, every nesting depth, every placement of commas, colons, brackets and whitespace',
  'Tests contain a few accepted documents and no rejected ones; grammar acceptance and event order are claims about every document.',
  [JD],[('Deserializer::deserialize_into (container stack, comma / key / colon handling)',JD),('Deserializer::next_token, parse_ident, parse_whitespace',JD)],
  ['deser_json::from_str','events delivered to the sink'])
p('C03','JSON string literals decode to exactly the text they denote',
  'Every JSON string literal, as value or key, is delivered as exactly the Unicode text it denotes: unescaped characters unchanged, the eight short escapes and \\uXXXX escapes (in either hex case, surrogate pairs combined) decoded. Unescaped control characters, unknown or truncated escapes, non-hex digits, lone or mismatched surrogates and unterminated strings are rejected. The text handed on is always valid UTF-8, whatever bytes the input contains.',
  ['inputs'],'every string literal, every escape sequence and every code point, at any length and position',
  'Two tests decode one emoji and a plain word; the space of escapes (65536 code units, 2^20 surrogate pairs) and their positions is never covered.',
  [JD],[('Deserializer::parse_str / parse_escape / decode_hex_escape',JD),('ESCAPE table',JD)],
  ['deser_json::from_str::<String>'])
p('C04','JSON integer literals are delivered exactly and malformed numbers rejected',
  'An integer literal without fraction or exponent is delivered as exactly its value whenever it lies between -2^63 and 2^64-1, and as a double otherwise. Literals with leading zeros, a lone minus, a missing digit after the point or after the exponent marker, or a leading plus or point are rejected. The literal ends exactly where its digits end.',
  ['inputs'],'every number literal of any length, including the 64-bit boundaries',
  'The tests parse small integers; the overflow boundaries of u64/i64 and malformed numbers are not sampled.',
  [JD],[('Deserializer::parse_integer / parse_number / parse_long_integer',JD)],
  ['deser_json::from_str::<u64>','deser_json::from_str::<i64>'])
p('C05','JSON fractions and exponents are scaled exactly and never become infinite',
  'A number literal with a fraction or an exponent is delivered as a finite double with the sign of the literal and the magnitude its digits and exponent denote: its digits (up to 64 bits of them) and its combined decimal exponent are accumulated exactly. It is the correctly rounded double when the digits without the point fit 2^53 and the combined exponent is within -22..22. A literal whose magnitude exceeds the largest double is an error, a magnitude below the smallest is zero, and never infinity or NaN.',
  ['inputs'],'every fraction/exponent literal, including exponents beyond the 32-bit range and thousands of digits',
  'One test parses a simple float. Extreme exponents and digit counts are not sampled.',
  [JD],[('Deserializer::parse_decimal / parse_exponent / parse_exponent_overflow',JD),('f64_from_parts and the POW10 table',JD)],
  ['deser_json::from_str::<f64>'])
p('C06','Serialized JSON strings are valid JSON and denote the original text',
  'For every string (or char), the JSON serializer writes a quoted literal in which every quote, backslash and control character is escaped and nothing else is altered, so that the literal is valid JSON and decodes to exactly the original text.',
  ['inputs'],'every Unicode string, in value and key position',
  'Tests serialize two plain strings; the 34 bytes that need escapes and their positions relative to multi-byte characters are not covered.',
  [JS],[('Serializer::write_escaped_str',JS),('ESCAPE table',JS)],['deser_json::to_string'])
p('C07','Serialized JSON mirrors the value structure and is always well-formed',
  'For every value, serialization to JSON either fails with an error or yields one well-formed JSON text that mirrors the value: brackets match, elements and members appear once in order separated by single commas, each key is a string followed by a colon and its value. null, true and false, integers of any size and finite floats are written as the literal with that exact value, and non-finite floats as null. Byte strings and non-string map keys are errors, never output.',
  ['inputs'],'every event stream a value can produce: every nesting of maps and sequences, every scalar',
  'Tests serialize four values. Comma and colon placement depends on the nesting history (first element, key position after nested containers), which samples do not settle.',
  [JS],[('Serializer::serialize container stack',JS)],['deser_json::to_string'])
p('C08','JSON round-trips values exactly',
  'Serializing a value made of null, booleans, integers, chars, strings, sequences and string-keyed maps to JSON and parsing the text back delivers the same structure with the same scalars (chars as one-character strings). For types built from these the parsed value equals the original.',
  ['inputs'],'every such value, of any size and depth',
  'No existing test round-trips; the guarantee spans parser and serializer together.',
  [JS,JD],[('contracts of parser and serializer composed',JS)],['deser_json::to_string','deser_json::from_str'])
p('C09','Integer targets receive exactly the integer sent or an out-of-range error',
  'Deserializing an integer into any of the ten built-in integer types stores exactly that integer when the type can represent it, and fails with an out-of-range error otherwise. It never wraps, truncates or changes sign, whether the integer arrived as signed or unsigned.',
  ['inputs'],'all 2^64 unsigned and 2^64 signed values for each integer type',
  'Tests send a handful of small values; wrap-around happens only at the extremes.',
  [DI],[('integer sinks',DI)],['DeserializeDriver::emit into Option<intN>','deser_json::from_str::<intN>'])
p('C10','Scalar targets accept exactly their own kind and keep the value',
  'The unit, bool, string and char targets accept exactly their own kind of scalar (char also a string of exactly one character), and float targets accept any number converted to the nearest value; what is stored equals what was sent. Every other scalar, and every map or sequence, is an error and stores nothing.',
  ['inputs'],'every scalar event against every scalar target type',
  'Tests cover a few matching pairs; the cross product of kinds and the value ranges are not covered.',
  [DI,'deser/src/de/mod.rs'],[('scalar sinks',DI),('default Sink methods',"deser/src/de/mod.rs")],['DeserializeDriver::emit'])
p('C11','Vectors and sets receive every sequence element, in order',
  'A deserialized Vec holds exactly the elements of the input sequence, in order; a BTreeSet or HashSet holds exactly the distinct elements. This holds for every length, including empty, and for elements that are themselves containers or null-able.',
  ['inputs','histories'],'every sequence of element deliveries to the collection target',
  'Tests use lists of two or three elements; element hand-over is a stateful protocol across calls.',
  [DI],[('vector and set sinks (flush / next_value / finish)',DI)],['DeserializeDriver','deser_json::from_str::<Vec<_>>'])
p('C12','Tuples and arrays require exactly their length and keep element order',
  'A tuple or fixed-size array is produced only from a sequence of exactly its length, with element i stored at position i; any shorter or longer sequence is a wrong-length error and stores nothing. Elements are neither leaked, dropped twice nor left uninitialised.',
  ['inputs','histories'],'every tuple arity up to 12, every array length, every sequence length',
  'Tests cover one tuple and two arrays; other arities come from a macro and are unexercised.',
  [DI],[('tuple sinks (macro generated)',DI),('array sink with uninitialised buffer',DI)],['DeserializeDriver'])
p('C13','Maps keep every key with its own value, the last duplicate winning',
  'A deserialized BTreeMap or HashMap contains exactly the keys of the input map, each associated with the value that followed it, and for a repeated key the value of its last occurrence. This holds for every number of entries, including none.',
  ['inputs','histories'],'every sequence of key and value deliveries to the map target',
  'Tests deserialize one small BTreeMap and no HashMap; pairing is a protocol across calls.',
  [DI],[('map sinks (flush / next_key / next_value / finish)',DI)],['DeserializeDriver'])
p('C14','Option and Box targets are transparent',
  'An Option target yields None for null (an option directly inside an option receives the null itself) and otherwise exactly Some of what its inner type would have produced from the same input, including maps, sequences and structs. A Box target always yields exactly what its inner type would. An error of the inner type is an error of the wrapper.',
  ['inputs'],'every inner type and every event sequence it accepts or rejects',
  'Tests wrap integers and strings only; the wrappers must forward the whole protocol, including end-of-value notifications.',
  [DI],[('null-ignoring sink',DI),('boxed sink',DI)],['DeserializeDriver'])
p('C15','Scalar and pointer-like values serialize to exactly their value',
  'Every integer, float, bool, char, unit and string type serializes to one scalar event with exactly its value (sign and width preserved, f32 widened exactly). None and unit serialize as null and are the only optional ones. Some, references and boxes serialize as exactly the inner value, including its end-of-value hook; references and boxes are optional exactly when what they point to is.',
  ['inputs'],'every value of every built-in scalar and pointer-like type',
  'Tests serialize a few small values per type.',
  [SI,'deser/src/event.rs','deser/src/ser/chunk.rs'],[('Serialize impls of scalars, Option, references and Box',SI)],['SerializeDriver::next'])
p('C16','Collections serialize every element exactly once, in order',
  'Vectors, slices, arrays, tuples, sets and maps serialize to one container holding each of their elements (each key directly followed by its own value) exactly once, in iteration order. A collection of n elements yields exactly n, including none.',
  ['inputs'],'every length and content; every tuple arity up to 12',
  'Tests serialize two or three small collections; tuple emitters are macro generated per arity.',
  [SI],[('slice, map, set and tuple emitters',SI)],['SerializeDriver::next'])
p('C17','The serialization event stream is the exact traversal of the value',
  'Driving any serializable value yields its depth-first traversal: each scalar once, each container as a start, its children in the order its emitter supplies them, and the matching end, struct field names directly before their values. Start and end carry the descriptor of the value that produced them. The state a value or emitter sees lists exactly the containers then open around it: depth is their number, the top descriptor the innermost one. Every value gets its end-of-value hook exactly once after its last event, and after the last event the stream stays ended.',
  ['inputs','histories'],'every value tree of any shape and depth, including user-defined emitters',
  'Two tests traverse depth-2 values; the driver is a state machine over explicit stacks whose correctness is about all nestings.',
  [SD],[('SerializeDriver::advance',SD)],['SerializeDriver::next'],None,
  [('state_stack / emitter_stack / serializable_stack','pending work of the traversal',SD)])
p('C18','The deserialization driver delivers every event to the right sink',
  'For every well-formed event sequence the driver delivers each event to the sink the structure designates: the root sink first, inside a map alternately the key sink and the value sink its map sink supplies, inside a sequence the next element sink. Each sink that received a scalar or a container is finished exactly once, right after it. The state a sink sees lists exactly the containers open around it (its own too, from its first child to its finish): depth is their number, the top descriptor the innermost one. An error from any sink is returned unchanged and ends delivery.',
  ['inputs','histories'],'every well-formed event sequence of any depth, every implementation of the sink protocol',
  'One driver test feeds a flat map; delivery depends on the nesting history.',
  [DD],[('DeserializeDriver::emit',DD),('layer stack',DD)],['DeserializeDriver::emit','user Sink implementations'])
p('C19','Byte strings take the bytes form and arrive unchanged',
  'Vectors, slices and arrays of u8 serialize as a single byte string with exactly their bytes, and no other element type does. A byte string deserializes into Vec<u8> and into [u8; N] of the same length unchanged; into any other element type or length it is an error.',
  ['inputs'],'every byte content and length, every element type',
  'Tests cover one short byte string; the specialisation is guarded by an unsafe reinterpretation.',
  [SI,DI],[('private byte-slice specialisation',SI),('bytes handling in vector and array sinks',DI)],['SerializeDriver::next','DeserializeDriver::emit'])
p('C20','Unknown keys and ignored values have no effect',
  'A value that is delivered where nothing wants it (a key a struct does not know, or an ignoring sink) is consumed completely whatever its shape and depth, without error and without changing anything else that is being deserialized.',
  ['inputs'],'every value tree in ignored position',
  'One test skips a scalar.',
  ['deser/src/de/ignore.rs','deser/src/de/mod.rs'],[('Ignore sink',"deser/src/de/ignore.rs")],['DeserializeDriver::emit'])
p('C21','Serialization path tracking always names the location of the value',
  'While a path-wrapped value is serialized, whenever a nested value is asked to serialize itself the tracked path equals its location (keys and indexes from the root; a map key is located at its map), and when the traversal has finished the path is empty again. Path tracking does not change the produced events.',
  ['inputs','histories'],'every value tree of any shape and depth',
  'One test checks a single nested document at a few points.',
  ['deser-path/src/ser.rs'],[('path wrappers and emitters','deser-path/src/ser.rs')],['state.get::<Path>() inside Serialize::serialize'])
p('C22','Deserialization path tracking always names the location of the value',
  'While a path-wrapped sink is driven, whenever a nested sink receives a scalar value (map keys themselves excepted) the tracked path equals its location: the key or index of every enclosing container from the root, with an unknown marker for keys that are neither strings nor non-negative integers. After a nested container ends, siblings see their own location again, and when the whole value has ended the path is empty.',
  ['inputs','histories'],'every event sequence of any shape and depth',
  'One test checks a flat list in a map.',
  ['deser-path/src/de.rs'],[('path sink','deser-path/src/de.rs')],['state.get::<Path>() inside Sink::atom'])
p('C23','Derived names follow the rename rules',
  'Without renaming, a derived field or variant uses its Rust name. A rename_all rule transforms every field name (written snake_case) and variant name (written PascalCase) exactly to the requested style: lowercase, UPPERCASE, PascalCase, camelCase, snake_case, SCREAMING_SNAKE_CASE, kebab-case or SCREAMING-KEBAB-CASE, where for fields lowercase and UPPERCASE keep underscores. An explicit rename overrides the rule. Every documented attribute is accepted wherever it is documented, alone and combined; one that is unknown, malformed or given twice is refused when the type is compiled.',
  ['programs'],'every identifier and every rename rule',
  'Tests derive a few structs and enums with some rules.',
  ['deser-derive/src/attr.rs'],[('field and variant name transformation','deser-derive/src/attr.rs')],['names in derived Serialize / Deserialize output'])
p('C24','Derived struct deserialization fills every field from its own key',
  'For a derived struct each field is set from the value of its own key or one of its aliases, keys may come in any order, the last duplicate wins, and unknown keys are skipped. A missing field is None when optional, its field or container default when one is declared, and otherwise an error naming it. Flattened struct fields receive the keys the struct itself does not know. A struct in which two fields claim the same key is refused when it is compiled.',
  ['inputs','programs'],'every struct shape (fields, aliases, defaults, flatten) and every order, subset and superset of keys',
  'Tests cover selected shapes with one or two documents each.',
  ['deser-derive/src/de.rs'],[('generated struct sink','deser-derive/src/de.rs')],['DeserializeDriver into a derived struct'])
p('C25','Derived struct serialization emits each field once under its name',
  'A derived struct serializes to a map with each of its fields in declaration order exactly once under its name, flattened fields in place of their own position. Fields are omitted exactly when their skip condition holds or when they are absent optionals and optionals are skipped.',
  ['inputs','programs'],'every struct shape and every combination of skipped and flattened fields',
  'Tests cover selected shapes with one value each.',
  ['deser-derive/src/ser.rs'],[('generated struct emitter','deser-derive/src/ser.rs')],['SerializeDriver over a derived struct'])
p('C26','Derived enums and newtypes map names and inner values both ways',
  'A derived unit enum serializes each variant as its name and deserializes exactly the names and aliases of its variants to that variant; any other string or kind is an error. An enum in which two variants claim the same name is refused when it is compiled. A derived newtype behaves in both directions exactly like its inner type does on the values it is given.',
  ['inputs','programs'],'every variant set, every string; every inner type',
  'Tests use one enum and one newtype.',
  ['deser-derive/src/de.rs','deser-derive/src/ser.rs'],[('generated enum slot wrapper','deser-derive/src/de.rs'),('generated newtype sink','deser-derive/src/de.rs')],['DeserializeDriver','SerializeDriver'])
p('C27','Event and chunk conversions preserve kind and value',
  'Converting a Rust value into an event or chunk keeps its kind and exact value for every supported type. Making a static copy of an event or scalar yields an equal one.',
  ['inputs'],'every value of every convertible type',
  'Used incidentally by tests with small values only.',
  ['deser/src/event.rs','deser/src/ser/chunk.rs'],[('From impls, to_static','deser/src/event.rs')],['Event::from','Chunk::from','Event::to_static'])
p('C28','Debug output always terminates and shows the whole value',
  'The debug dump of any value that serializes to finitely many events without an error terminates, shows every scalar and container of the value in order and nothing else, and stops with an error when the writer fails.',
  ['inputs','fault_sequences'],'every value and every point at which the writer can fail',
  'One test formats one value to a string that cannot fail.',
  ['deser-debug/src/lib.rs'],[('event dump','deser-debug/src/lib.rs')],['ToDebug Display/Debug'])
p('C29','Lifetime extension inside drivers and owned sinks is memory safe',
  'No sequence of calls on the drivers or on owned sinks, including early drop at any point and errors or panics in user code, lets a handle outlive or alias the data it borrows.',
  ['histories'],'every call sequence, every drop point, every user implementation',
  'Aliasing and drop order are not observable in passing tests.',
  [SD,DD,'deser/src/de/owned.rs'],[('lifetime transmutes and manual drop order',SD)],None)
p('C30','Nesting depth does not consume the native stack',
  'Serializing or deserializing a deeply nested value through the drivers needs stack space independent of the nesting depth.',
  ['inputs'],'every nesting depth',
  'Tests nest at most three levels.',
  [SD,DD],[('explicit stacks instead of recursion',SD)],None)
p('C31','Extension state is kept per type for the whole run',
  'A value stored in the driver state for a type is returned, with all modifications, by every later access for the same type during that run, independent of accesses for other types; the first access sees the default. (Accesses whose references overlap in time are not part of this: the cells reject them.)',
  ['histories'],'every interleaving of accesses for any set of types',
  'Tests access one type.',
  ['deser/src/extensions.rs'],[('type-keyed extension map','deser/src/extensions.rs')],None)
p('C32','Descriptors tell the source type of a value',
  'The descriptor of a value tells what Rust type it came from: every integer and float reports its type name and its width in bits as precision; hash maps and hash sets report that they are unordered; units, booleans, characters, strings, vectors, slices, arrays, tuples, ordered maps and ordered sets report a name, no precision and no lack of order. References, boxes and newtypes report what they hold reports; a derived struct reports its name, or the one given with rename. On the way in, sinks of vectors, arrays, tuples and structs are ordered, those of hash maps and hash sets are not; boxes, options and newtypes hand on the inner sink\'s descriptor, and a struct\'s sink has the struct\'s name.',
  ['inputs'],'every supported type, every value of it, every nesting of wrappers',
  'Tests look at a handful of descriptors; a wrong width or flag for one type, or a wrapper that does not forward, goes unseen.',
  ['deser/src/descriptors.rs',SI,DI,'deser-derive/src/ser.rs','deser-derive/src/de.rs'],[('Descriptor and its implementations','deser/src/descriptors.rs'),('Serialize::descriptor',SI),('Sink::descriptor',DI),('generated __Descriptor','deser-derive/src/ser.rs')],['Serialize::descriptor','Sink::descriptor'])
p('C33','Errors keep kind and cause and say what came and what was expected',
  'An error keeps what it was made of: kind() is the kind it was created with and its text is that kind\'s name, a colon and the message, whatever source is attached; source() is the source attached last, or nothing. Atom::name names the kind of an atom (null, bool, string, bytes, char, unsigned integer, signed integer, float). Atom::unexpected_error and the answer of a sink to an atom, a map or a sequence it has no method for are errors of kind Unexpected with the message "unexpected <what came>, expected <what the sink expects>"; so is every such refusal by the targets of the library. What a sink expects is the name of its descriptor, or "compatible type" if it has none, unless the sink says otherwise; boxes and path sinks expect what the sink inside expects. A sink that implements nothing else ignores the keys and values it is handed, claims no key in flattening and can be finished. The error for a missing field is of kind MissingField and names the field.',
  ['inputs'],'every kind, message, source and chain of sources, every atom, every sink',
  'Tests compare a few messages; an error that loses its source or kind, or one that blames the wrong kind of value, passes them.',
  ['deser/src/error.rs','deser/src/event.rs','deser/src/de/mod.rs','deser/src/lib.rs',DI,'deser-path/src/de.rs'],[('Error','deser/src/error.rs'),('Atom::name, unexpected_error','deser/src/event.rs'),('default methods of Sink','deser/src/de/mod.rs'),('new_missing_field_error','deser/src/lib.rs')],['Error::kind','Display and source of Error','Sink'])
p('C34','Drivers let go of what they hold innermost first',
  'Sinks may borrow from the sink that handed them out, emitters from their value, values from the emitter that handed them out. The drivers respect this in every history: before a sink is asked for its next key or value or finished, what it handed out before is dropped; an emitter is asked again only after the value it handed out before is dropped. When a driver is dropped, after any number of events, after an error and after a panic in user code, whatever it still holds is dropped exactly once, in the reverse order of its making: the pending event and the current sink first, then from the innermost container out, of a container in serialization its emitter before its value. The descriptors the state shows are those of objects the driver still holds. An owned sink drops its sink before the slot the sink fills. A driver made from a sink cannot outlive what that sink borrows (such a program does not compile).',
  ['histories'],'every sequence of events and calls, every point at which a driver is dropped or user code fails or panics, every user implementation',
  'Nothing shows when handles are trivially dropped; an order that is wrong reads freed memory only if user code looks at it while being dropped.',
  [DD,SD,'deser/src/de/owned.rs'],[('Drop of the drivers',DD),('update_current_sink, _emit',DD),('Drop and advance',SD),('Drop of OwnedSink','deser/src/de/owned.rs')],['Drop of sinks, emitters and values handed to a driver'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
assert all(len(x['title'])<=80 for x in P)
