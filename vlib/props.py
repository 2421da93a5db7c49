"""What decides each property: the Verus units whose contracts state it and
the bounded harness run that stands beside them."""

T = "deductive verification: Verus contracts woven into the functions of /repo (z3)"

B = "bounded run of the compiled crates against an independent model, standing in for contracts still under construction (no proof)"

# property -> dict(units, safety, level, note, unchecked)
PROPS = {}


def P(pid, units, note, unchecked=(), safety=False, level=None, harness=True, features=((),), program=False):
    level = level or ("proof" if units else "exploration")
    PROPS[pid] = dict(units=units, note=note, unchecked=list(unchecked), safety=safety, level=level, harness=harness,
                      features=features, program=program, technique=T if units else B)


DE = "Rests on the assumed contract of DeserializeDriver::emit (decided by C18) and of the std/core functions listed in the evidence as trusted."
FL = "Floating-point *, /, u64 as f64 are uninterpreted wrappers around the real operators (IEEE-754 double arithmetic of the machine)."
P("C01", ["json_de"], "Every function of deser-json/src/de.rs proved free of panics, out-of-range accesses, overflow and non-termination for all inputs. " + DE, [FL], safety=True)
P("C02", ["json_de", "json_round"], "The token loop and lexer proved equal to a byte-level grammar for all inputs: accepted exactly when the grammar derives the input, and the events fed are exactly the grammar's, which are always one well nested value. " + DE, [FL])
P("C03", ["json_de"], "String literal functions proved equal to a decoding specification over all byte sequences, UTF-8 validity included. " + DE)
P("C04", ["json_de"], "Number functions proved equal to a digit-level specification for all inputs. " + DE, [FL])
P("C05", ["json_de"], "Digit accumulation, decimal exponent and scaling proved equal to their specification for all inputs; that the scaling is correctly rounded within 2^53 and 10^22 follows from IEEE-754 exactness of the operands, which is assumed. " + DE, [FL])
SER = "Rests on the assumed contract of SerializeDriver::next (decided by C17) and of the std/alloc functions listed in the evidence as trusted; built without and with the speedups feature."
BOTH = ((), ("speedups",))
P("C06", ["json_ser", "json_ser_fast"], "write_escaped_str proved to append exactly the escaped literal for every string (all characters, all lengths). " + SER, features=BOTH)
P("C07", ["json_ser", "json_ser_fast", "json_round"], "The serializer's event loop proved to write exactly the text a structural specification assigns to any sequence of events, and to fail exactly where it assigns none; that text is proved to be a document of the parser's byte grammar whenever the events are one well nested value. " + SER, ["The text of a finite double (std Display, ryu) is assumed to be one number token."], features=BOTH)
P("C08", ["json_ser", "json_ser_fast", "json_de", "json_round"], "Both directions are proved against specifications (text written for events; events read from text), and the two specifications are proved inverse: the text of any one well nested value is accepted and gives the same events back, for all strings, integers, nesting. That a finite double keeps its value through its text is left to the bounded run. " + SER + " " + DE, [FL, "The text of a finite double (std Display, ryu) is assumed to be one number token; the value read back from it is bounded only."], features=BOTH)

DERIVE = (("derive",),)
OWN = "OwnedSink and the handles proved (unit handles) with the lifetime transmutes as identities, the alias an OwnedSink holds to its own slot as that slot, and NonuniqueBox<T> as Box<T>."
SINK = "Handles are opaque: what a SinkHandle does with a call is stated by uninterpreted relations. That the driver delivers the calls in protocol order and finishes each child before its parent is C18's; formatting and descriptors are left out."
P("C09", ["de_impls"], "Every integer target's atom() (macro expanded) proved: in range the exact value, out of range OutOfRange, anything else Unexpected, slot untouched on error. " + SINK)
P("C10", ["de_impls"], "Every scalar target's sink and the default methods of Sink proved: accepted atoms give exactly the stated value, everything else is an Unexpected error that leaves the slot alone. " + SINK, ["Conversions between float types and from integers are the machine's `as` casts (uninterpreted)."])
P("C11", ["de_impls"], "Vec, BTreeSet and HashSet sinks proved step by step (each child fresh, flushed exactly once) and by induction over any number of elements. " + SINK, ["Sets: the element type's Ord / Hash / Eq obey vstd's key_obeys_cmp_spec / obeys_key_model."])
P("C12", ["de_impls"], "Tuples of 1 to 12 and arrays of every length proved: too many children or too few are WrongLength, otherwise the value is exactly the children's; the array buffer is read only when every element was written, and its Drop drops exactly the elements that are there. " + SINK, ["An element whose own Drop panics is left out."])
P("C13", ["de_impls"], "BTreeMap and HashMap sinks proved step by step and by induction over any number of entries: the last value of a key wins. " + SINK, ["The key type's Ord / Hash / Eq obey vstd's key_obeys_cmp_spec / obeys_key_model."])
P("C14", ["de_impls", "handles"], "Option's and Box's sinks proved to forward every call, and Option to turn exactly null into None. " + SINK, [OWN], features=DERIVE)
P("C19", ["de_impls", "ser_impls"], "Byte strings into Vec<T> and [T; N] proved accepted exactly when T is u8, with the exact bytes and length; the reinterpreting transmutes' preconditions are obligations. Vec, slices and arrays proved to serialize as bytes exactly when the element type is u8. " + SINK, features=DERIVE)
P("C20", ["de_impls", "handles"], "The ignoring sink proved to accept every call and to hand out ignoring handles, as do the defaults for unknown keys. " + SINK, features=DERIVE)
DYN = "Values, emitters and sinks are opaque objects whose behaviour is an uninterpreted relation between the object before, the result and the object after a call; lifetimes extended by transmute are identities and ManuallyDrop is transparent (use after free is C29)."
P("C17", ["driver_ser", "handles"], "SerializeDriver::advance/next proved equal to a transition system (no panic, terminates per event), and by induction over its runs the events handed out are the depth-first traversal of the value, for all values and emitters. " + DYN)
P("C18", ["driver_de", "handles"], "DeserializeDriver::_emit/update_current_sink proved equal to a transition system, and by induction over value trees of any shape and depth every sink receives exactly its part of the value and is finished right after it. " + DYN)
SERI = "Handles and boxed emitters are opaque: what stands behind one is stated by relations that their constructors (SerializeHandle::to, Box::new) establish. That the driver asks for each item once and in protocol order is C17's; descriptors are left out."
P("C15", ["ser_impls"], "Every scalar, string, pointer and Option source (macro expanded) and the defaults of Serialize proved: one scalar event with exactly the value; references, boxes and Some forward serialize and finish, references and boxes is_optional. " + SERI, ["f32 to f64 is the machine's `as` cast (uninterpreted)."])
P("C16", ["ser_impls"], "Vec, slices, arrays, tuples of 1 to 12, sets and maps proved: the emitter holds exactly the collection's elements, every call gives the next one, and by induction over runs it gives all of them once, keys directly followed by their values. " + SERI, ["vstd's contracts of the std iterators; sets and maps: the element or key type's Ord / Hash / Eq obey vstd's key_obeys_cmp_spec / obeys_key_model."])
P("C27", ["conv"], "Every From conversion into Event and Chunk (macro expanded) and Atom/Event::to_static proved to keep kind and exact value.", ["Derived Clone and PartialEq of Atom and Event (rustc's) are used as they are."])
P("C21", ["path_ser"], "Every wrapper and emitter of deser-path's serialization side proved equal to a step relation over the tracked path; by induction over a traversal of any shape and depth every value is asked at its location (container keys: all of them at their map), with its chunk unchanged in kind and value, and the path ends as it began. Interior mutability is made explicit: the state is passed exclusively and RefCells are names in a cell store.",
  ["Values being serialized leave the tracked path alone; a sequence has fewer than 2^64 items.", "That no RefMut outlives its use (double borrow) is left to the bounded run.", "The driver makes the calls of C17, in that order."])
P("C22", ["path_de"], "Every method of PathSink proved equal to a step relation over the tracked path; by induction over value trees of any shape and depth every scalar (map keys excepted) is received at its location, siblings included, and the path ends as it began. Interior mutability is made explicit: the state is passed exclusively and RefCells are names in a cell store.",
  ["Wrapped sinks leave the tracked path alone; a sequence has fewer than 2^64 items.", "That no RefMut outlives its use (double borrow) is left to the bounded run.", "The driver makes the calls of C18, in that order."], features=DERIVE)
P("C23", ["derive_attr"], "Rename rules, names, aliases and every attribute parser of deser-derive proved equal to a character-level specification for all identifiers and attribute lists. That the generated impls use these names is checked by a bounded run over generated types.", ["syn and proc-macro2 (Ident, Meta, Lit) are assumed; malformed #[deser] attributes never reach the parsers (get_meta_items)."], features=DERIVE, program=True)
GEN = "The code rustc shows #[derive] to generate for a table of representative types (every attribute and rename rule, alone and combined; field types are type parameters) is proved against contracts worked out from the attributes, for all inputs, values and field types: validation of the generator's output, type by type. That other types get corresponding code is left to the bounded run over generated types; the quote!-based generator itself (TokenStream) is beyond the verifier's reach. "
DEP = ["The generator treats types outside the table like those in it.", "#[repr(transparent)] makes the cast of a slot to its wrapper an identity."]
P("C24", ["derive_de", "handles", "derive_dup"], GEN + "derive_struct proved to refuse exactly the structs in which two fields that are not flattened claim one key. " + "Each key reaches exactly the field it names or the first flattened field that takes it, and finish builds the value from the slots, the declared defaults and nothing else. " + SINK, DEP + [OWN], features=DERIVE, program=True, level="translation_validation")
P("C25", ["derive_ser"], GEN + "next is proved equal to a step relation over the fields, and by induction over its calls until None each field that is not skipped comes exactly once, in order, under its name, a flattened one by everything its own emitter hands out. " + SERI, DEP + ["transmute of the nested emitter's item is the identity (it changes a lifetime only)."], features=DERIVE, program=True, level="translation_validation")
P("C26", ["derive_de", "derive_ser", "handles", "derive_dup"], GEN + "derive_enum proved to refuse exactly the enums in which two variants claim one name. " + "Enums map exactly their names and aliases, newtypes forward every call. " + SINK, DEP + [OWN], features=DERIVE, program=True, level="translation_validation")

P("C28", ["debug", "driver_ser"], "deser-debug's dump proved equal to a rendering of the events of the value: every scalar, name, byte and container in order, nothing else; the loops terminate and every writer failure is returned. Starts from: the events the driver hands out are one well nested value (C17's theorem). core::fmt enters by its documented effect: builders, write! and padding-free text append to what is shown or fail. " + "", ["core::fmt (Formatter, DebugMap, DebugList, write!): what they append is an uninterpreted rendering per scalar; {:#?} indentation is theirs.", "Collecting the events of a value that fails to serialize panics by design and is left out."])
P("C31", ["ext", "driver_ser", "driver_de"], "Extensions::insert, ensure, get, get_mut and the states' get and get_mut proved to be a map from types to values: the first access creates the default, later ones see the value as it was left, other types are untouched; the drivers are proved to start with no extensions and never to touch them. RefCells are made explicit: the map is passed exclusively.", ["TypeId is distinct for distinct types; Any::downcast returns the value for its own type and nothing for others.", "Accesses whose references overlap are rejected by the cells at run time and left out."])
P("C32", ["descr", "descr_gen"], "Every Serialize::descriptor and Sink::descriptor of deser (macro expanded), the descriptor types themselves and the descriptors #[derive] generates for the table of types proved to say what the source type is. That the driver hands out the descriptor of the value an event belongs to is C17's and C18's.", ["size_of of the number types is their width (64-bit target); a static holds its initializer.", "Which sink or value another one hands calls on to is a field named sink or 0."], features=DERIVE, program=True)
P("C33", ["errors"], "Error (construction, kind, text, source), Atom::name and unexpected_error, fail_unexpected, the missing field error of the derives, every default method of Sink and every library sink that hands `expecting` on (deser, deser-path; macro expanded) proved.", ["format! and write! put the text of their arguments between the literals; strings are shown as they are and `{:?}` of a kind is the variant's name (derived Debug).", "A source behind its trait object is determined by the value it was made from."], features=DERIVE, program=False)
P("C34", ["driver_de", "driver_ser", "handles"], "The Drop implementations of both drivers and of OwnedSink proved to drop what is held innermost first and once (R-drop), from every state: the drivers are proved to keep one emitter, value and descriptor per open container on every exit, errors included, and to hold nothing a sink gave when that sink refuses. Panics in user code, and the drop of what was handed out before the next call, are checked by a bounded run.", ["Values dropped at the end of a scope inside emit and next are left to the bounded run.", "Unwinding is not modelled: after a panic the state is one between two statements."], features=DERIVE)
