"""Writes /verif/properties.jsonl (kept as a script so that wording stays reviewable)."""
import json, os

B, ST, NU, SL, CO = ("binobj/fields/base.py", "binobj/structures.py", "binobj/fields/numeric.py",
                     "binobj/fields/stringlike.py", "binobj/fields/containers.py")
VI, HE, PE, DE, ER = ("binobj/varints.py", "binobj/helpers.py", "binobj/pep526.py", "binobj/decorators.py", "binobj/errors.py")
P = []


def p(i, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        "id": i, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": None,
        },
    })


p("C01", "Fixed-size integers use the exact two's-complement layout and round-trip",
  "For every size, byte order and signedness, an integer in the representable range is dumped as exactly `size` bytes of two's complement (or plain unsigned) in the configured byte order (the machine's native order when none is given), and loading any `size` bytes gives exactly the integer they denote. Dumping and loading are therefore mutually inverse, on a field alone and inside a struct.",
  ["inputs", "configurations"], "every integer value and every byte string of the field's size; every size (1..16 and a few larger), byte order, signedness, and every predefined integer field class",
  "the tests dump and load about a dozen hand-picked values for some widths; the value space is 2^8..2^128 per width and wrong behaviour can hide at one value, one width or one byte order",
  [NU, HE, B], [("read_int/write_int", HE), ("Integer._do_load/_do_dump", NU), ("Int8..UInt64 size/signedness wiring", NU)],
  observe=["Integer.to_bytes/from_bytes", "Struct.to_bytes/from_bytes"])

p("C02", "A value that does not fit its field is rejected, never altered or truncated",
  "Dumping a value that the field cannot represent (integer out of range, string or bytes of the wrong encoded length or not encodable to the fixed size, float too large for its width, variable-length integer negative for an unsigned encoding or longer than `max_bytes`, array of the wrong length, None for a non-nullable field, no value and no default) always raises one of the library's serialization or value errors. Nothing of that field is written to the output stream, and a value that does fit is never rejected.",
  ["inputs", "configurations"], "every value inside and outside the representable range, every field kind and size configuration, dumped through a field or a struct",
  "tests try one or two oversize values per field; off-by-one boundaries, both signs and every width are only sampled, and 'never altered' is a claim about all accepted values",
  [B, NU, SL, CO, VI, ER], [("Field.to_stream size check and buffering", B), ("Integer._do_dump overflow mapping", NU), ("String._encode_and_resize", SL), ("VariableLengthInteger max_bytes", NU), ("Array count check", CO)],
  observe=["Field.to_stream", "Struct.to_stream"])

p("C03", "Variable-length integers encode canonically and decode back",
  "For each encoding (VLQ, compact/signed VLQ, ULEB128, LEB128), every integer in the encoding's domain is encoded as the unique shortest byte string the format defines for it (continuation bit set on every byte but the last, groups of 7 bits in the format's order, sign handled as the format says), and decoding that byte string returns the same integer. Unsigned encodings reject every negative integer.",
  ["inputs"], "every integer up to the stated bit bound, positive, zero and negative, for all four encodings, through the codec functions and through the field",
  "tests check a table of a few dozen values; length boundaries at every multiple of 7 bits (and 6 for compact) in both signs and every value in between cannot be enumerated",
  [VI, NU], [("encode_integer_*", VI), ("VariableLengthInteger._do_dump", NU)],
  observe=["varints.INTEGER_ENCODING_MAP[*].encode", "VariableLengthInteger.to_bytes/from_bytes"])

p("C04", "Variable-length integer decoding is exact on arbitrary bytes",
  "Decoding any byte stream consumes exactly the bytes up to and including the first byte whose continuation bit is clear, leaves everything after it unread, and returns the value that the format assigns to those bytes, including non-canonical (zero- or sign-padded) encodings. If the stream ends before such a byte, decoding raises the unexpected-end-of-input error.",
  ["inputs"], "every byte string up to the length bound, for all four encodings, at any starting offset in the stream",
  "tests decode only canonical encodings of a few values; arbitrary, padded and truncated inputs form a space no example list covers",
  [VI, HE, NU], [("decode_integer_*", VI), ("read_int EOF check", HE), ("VariableLengthInteger._do_load", NU)],
  observe=["varints.INTEGER_ENCODING_MAP[*].decode", "VariableLengthInteger.from_stream"])

p("C05", "Float fields store IEEE-754 values exactly in the configured width and order",
  "Dumping a float into a 16, 32 or 64-bit float field writes the IEEE-754 encoding of the nearest representable value in the configured byte order, and loading any bytes returns exactly the number those bytes encode (infinities, signed zeros, subnormals and NaN included), so that bytes loaded and dumped again are unchanged except for a NaN payload. A finite number too large for the width raises the library's serialization error.",
  ["inputs", "configurations"], "every 64-bit float value and every byte string of the field's width, each width and byte order",
  "tests use pi and a handful of constants; boundary values such as subnormals, negative zero and overflow limits are not sampled",
  [NU], [("Float._do_load/_do_dump", NU)], observe=["Float16/32/64.to_bytes/from_bytes"])

p("C06", "Fixed-size strings dump to exactly their size and load back",
  "A fixed-size string field writes the encoded text followed by as many pad bytes as are needed to reach exactly its size in bytes, and refuses text whose encoding is longer than the size, or shorter when no pad byte is configured. Loading reads exactly that many bytes and returns their decoding, so text that fills the field round-trips unchanged and padded text comes back as the text followed by the decoded padding.",
  ["inputs", "configurations"], "every string up to the length bound over the code points of the encoding, every size, pad byte (or none) and several single- and multi-byte encodings, with the size fixed or given by another field",
  "tests use a few literal strings per encoding; multi-byte characters straddling the size, exact-fit and one-off sizes are sampled at best",
  [SL, B], [("String._encode_and_resize", SL), ("Field.to_stream padding", B), ("Field._read_exact_size", B)], observe=["String.to_bytes/from_bytes"])

p("C07", "Null-terminated strings stop at the first terminator and round-trip",
  "A null-terminated string field writes the encoded text followed by one encoded null character, and loading returns the text up to the first encoded null character, consumes exactly the bytes through that terminator (and through its padding, when a size and a pad byte are configured) and leaves what follows unread; text without an embedded null therefore round-trips. If the input ends (or a configured maximum size is exhausted) before a terminator is found, loading raises the library's deserialization error.",
  ["inputs", "configurations"], "every string and every byte string up to the length bound, in several single- and multi-byte encodings, with arbitrary bytes following",
  "tests load a few literals in ASCII and UTF-16/32; terminators at every position, zero bytes inside multi-byte characters and truncation at every point are not covered",
  [SL, HE], [("StringZ._do_load/_do_dump", SL), ("iter_bytes", HE)], observe=["StringZ.to_bytes/from_stream"])

p("C08", "Fields sized by another field use that field's value on load and dump",
  "When a field's size is given by another field of the struct (by object or by name, in the same class or a parent class), loading consumes exactly the number of bytes that the other field's value states and dumping insists that the serialized value has exactly that length. A negative or unsatisfiable size is reported as an error and never reads other fields' data silently.",
  ["inputs", "configurations"], "every value of the size field (including zero, too large and negative), every payload, bytes/string/null-terminated payload kinds, reference by object or name, same or parent class",
  "tests use one or two literal sizes; the relation between two input-dependent values and the stream length needs all combinations",
  [B, SL], [("Field.get_expected_size", B), ("Field._read_exact_size", B), ("Bytes._do_dump", SL)], observe=["Struct.from_stream", "Struct.to_bytes"])

p("C09", "UUIDs are stored in exactly the selected format and round-trip",
  "Each storage format (big-endian binary, mixed-endian binary, canonical text, hex text) writes exactly the 16, 16, 36 or 32 bytes that format defines for the UUID, and loading those bytes returns the same UUID. Input shorter than the format's size raises the unexpected-end-of-input error.",
  ["inputs", "configurations"], "every 128-bit UUID value, every storage format, every truncation point",
  "tests round-trip a single UUID per format; a byte-order or formatting slip that depends on the value is invisible to them",
  [SL], [("UUID4._do_load/_do_dump", SL)], observe=["UUID4.to_bytes/from_bytes"])

p("C10", "Timestamps are stored as the exact offset from the Unix epoch and round-trip",
  "A timestamp field stores the number of whole units (s, ms, us, ns as configured, a fraction is dropped) between the Unix epoch and the instant, in the configured size, byte order and signedness, and loading such a number returns exactly that instant (to the microsecond), aware in UTC or naive local time as configured; a datetime that is a whole number of units therefore round-trips exactly. An instant that does not fit the integer, or a stored number outside the range datetimes can express, is reported with the library's own error.",
  ["inputs", "configurations"], "every instant from year 1 to 9999 at microsecond resolution, before and after the epoch, every resolution, size, byte order, signedness and tz_aware setting; every stored integer",
  "tests use a few instants; rounding errors affect about one in a hundred instants and only at some resolutions or distances from the epoch",
  [NU], [("Timestamp._do_load/_do_dump", NU)], observe=["Timestamp.to_bytes/from_bytes"])

p("C11", "A struct loaded from its own serialization equals the original, and vice versa",
  "For any struct definition and any values its fields accept, loading the bytes it dumps to yields a struct whose every field has the original value (as the field represents it), and which compares equal to the original when all its fields were assigned. Dumping a struct loaded from well-formed bytes reproduces exactly those bytes.",
  ["inputs", "programs", "configurations"], "every combination of field kinds up to the stated number of fields (integers, floats, strings, bytes, arrays, nested structs, unions, optional, constant, computed fields), every field value within bounds",
  "tests round-trip a handful of fixed structs with fixed values; interaction between neighbouring fields depends on combinations and data",
  [ST, B, NU, SL, CO], [("Struct.to_stream/from_stream", ST), ("Struct.__eq__", ST), ("Field.compute_value_for_dump", B)], observe=["Struct.to_bytes/from_bytes", "Struct.__eq__"])

p("C12", "A struct's bytes are its fields' bytes in declaration order, by every dump API",
  "The serialization of a struct is the concatenation, without gaps, of the serializations of its present fields in declaration order, parent-class fields first. `to_bytes()`, `bytes()`, and `to_stream()` (which writes at the stream's current position and nowhere else) produce the same bytes for the same struct, and a `context` given to the dump or load reaches every field, array element, nested struct and decision function involved.",
  ["inputs", "programs", "configurations"], "every arrangement of field kinds up to the stated number of fields, with inheritance, every value, any prior stream content",
  "tests compare fixed byte literals for a few layouts; reordering or gap bugs that need inheritance, optional or variable-size neighbours are not sampled",
  [ST, B, CO], [("Struct.to_stream", ST), ("collect_assigned_fields", ST), ("StructMetadata.from_class", ST)], observe=["Struct.to_bytes", "Struct.to_stream", "Struct.__bytes__"])

p("C13", "Truncated input is always reported, never turned into a value",
  "Loading any struct or field from a proper prefix of a valid serialization raises the library's unexpected-end-of-input or deserialization error, whatever byte the input is cut at and whichever field is being read. A partially read value is never returned.",
  ["inputs", "crash_points"], "every cut point of every serialization up to the length bound, for every field kind, in the middle of nested structures and arrays",
  "tests cut one input at one place for some fields; the claim quantifies over every cut point and every field kind",
  [B, HE, SL, CO, ST, VI], [("Field._read_exact_size", B), ("read_int", HE), ("UUID4._do_load", SL), ("StringZ EOF", SL)], observe=["Struct.from_bytes", "Field.from_bytes"])

p("C14", "Loading consumes exactly the struct's bytes; extra data is rejected when exact",
  "After loading from a stream, the stream is positioned exactly at the first byte after the struct, wherever in the stream it started and whatever follows. Loading from a byte string raises the extraneous-data error if and only if one or more bytes are left over and `exact` is true; with `exact=False` the leftover has no effect on the result.",
  ["inputs", "configurations"], "every valid serialization followed by 0..n arbitrary bytes, any starting offset, fields and structs, exact true and false",
  "tests use one trailing literal of several bytes; the exact number and content of trailing bytes matters",
  [ST, B], [("Struct.from_bytes", ST), ("Field.from_bytes", B)], observe=["Struct.from_stream", "Struct.from_bytes", "Field.from_bytes"])

p("C15", "Reported sizes and offsets always match the actual serialization",
  "`len(struct)` equals the number of bytes the struct dumps to, for every instance that can be dumped. When the class reports a fixed size, or a field reports a fixed size or a fixed offset, every instance's serialization really has that size and the field's bytes really start at that offset; when no fixed value exists the class size and the offset are None.",
  ["inputs", "programs", "configurations"], "every arrangement of fixed, variable, optional, computed, nested and array fields up to the stated number, every instance value",
  "tests check len/get_size on a few structs; agreement with the real serialization for all values and arrangements (especially optional and referenced-size fields) is not sampled",
  [ST, B, CO], [("StructMetadata.get_size", ST), ("Struct.__len__", ST), ("Field.get_expected_size", B), ("bind_to_container offset", B), ("Array/Nested size", CO)], observe=["Struct.__len__", "Struct.get_size", "Field.offset", "Field.size"])

p("C16", "Reading a single field equals loading everything and picking that field",
  "Whenever the full struct can be loaded from the stream, `get_field` returns for every non-discarded field the same value that a full load gives, for any starting position of the stream, whether the field lies at a fixed or a variable offset. The stream position after the call is the position before it, also when an error is raised, and an unknown field name is rejected.",
  ["inputs", "programs"], "every arrangement of fields up to the stated number (including sizes, counts, presence and choices depending on earlier fields), every content, every starting offset",
  "tests read a field or two from fixed structs; dependence on offset arithmetic and on earlier fields needs all arrangements",
  [ST, B], [("Struct.get_field", ST), ("Field.offset", B)], observe=["Struct.get_field", "stream.tell"])

p("C17", "A partial load gives the complete leading fields and rewinds to their end",
  "`partial_load` without a last field returns exactly the leading fields whose bytes are completely present (an absent optional field has its `not_present_value`), with the values a full load would give, and leaves the stream right after the last complete field; with a last field it loads up to and including that field, stops there, and raises the unexpected-end-of-input error if the data runs out first.",
  ["inputs", "crash_points", "programs"], "every cut point of every serialization up to the length bound, every field as last field, every arrangement of field kinds up to the stated number",
  "tests cover two or three cut points on fixed structs; the behaviour must hold at each cut point and for each kind of field being cut",
  [ST, B], [("Struct.partial_load", ST)], observe=["Struct.partial_load", "stream.tell"])

p("C18", "A partial dump is a prefix of the full dump, ending at a field boundary",
  "`partial_dump` up to a named field writes exactly the bytes that a full dump of the same values writes for the fields up to and including that one, optional, computed and referenced-size fields included. Without a name it writes the longest such prefix of fields that have values, and when a required value before the named field is missing it raises the missing-value error.",
  ["inputs", "programs"], "every choice of last field, every subset of assigned fields, every arrangement of field kinds up to the stated number, every value",
  "tests dump fixed structs with one missing field; the prefix relation quantifies over values, subsets and arrangements",
  [ST, B], [("Struct.partial_dump", ST)], observe=["Struct.partial_dump", "Struct.to_bytes"])

p("C19", "None is written as the null value, and only the null value loads as None",
  "A nullable field dumps None as its null value (the given bytes, the serialization of the given value, or zero bytes of the field's size for the default marker) and loading that same representation gives None and consumes exactly it; null bytes have the size of the field. Any other stored value loads as itself and never as None, and a field that is not nullable refuses to dump None.",
  ["inputs", "configurations"], "every stored value and every null representation, for each field kind that supports it, sized by constant or by another field, inside structs and arrays",
  "tests use a couple of null values on a few field kinds; values near the null representation or sharing a prefix with it are not sampled",
  [B], [("Field._get_null_repr", B), ("Field.from_stream null detection", B), ("Field.to_stream", B)], observe=["Field.to_bytes", "Field.from_bytes", "Struct.from_bytes"])

p("C20", "Constants, defaults, factories and computed values fill in unset fields",
  "For a field without an assigned value a dump uses its constant or default, else the result of its factory, else its computed value (computed from the values of the other fields that are being dumped), and raises the missing-value error if there is none of these; an explicitly assigned value always wins over default, factory and computation. Loading bytes in which a constant field has any other value raises the validation error, and constant or computed fields cannot be assigned on an instance.",
  ["inputs", "configurations", "histories"], "every combination of the sources of a value on a field, every value, set by constructor, attribute or item and then deleted, dump / to_dict / attribute access",
  "tests exercise each mechanism alone with literals; precedence among combinations and for all values is not covered",
  [B, ST], [("Field.compute_value_for_dump", B), ("Field.default", B), ("Field.__get__/__set__", B), ("Struct.to_dict", ST)], observe=["Struct.to_bytes", "Struct.to_dict", "attribute access"])

p("C21", "Optional fields are dumped and loaded exactly when their condition holds",
  "A field with a presence condition occupies bytes in the dump and is read on load exactly when the condition holds for the struct's values and the given context; otherwise the dump contains nothing for it, and loading consumes nothing for it and yields its `not_present_value`. Its validators never see the marker for an absent value. The condition sees the fields loaded (or all values about to be dumped), the context, and on load the stream.",
  ["inputs", "configurations"], "every value of the controlling fields and of the context, every optional field value, any neighbouring fields, several optional fields at once",
  "tests use one flag with two values; combinations of several conditions, of context and values, and agreement of dump, load and size are not sampled",
  [B, ST], [("Field.compute_value_for_dump present handling", B), ("Field.from_stream present handling", B), ("Struct.to_stream", ST)], observe=["Struct.to_bytes", "Struct.from_bytes"])

p("C22", "Discarded fields take part in the layout but not in the loaded result",
  "A field marked as discarded is dumped like any other field (assigned value first, then default) and is read and validated at its place on load, available to fields that depend on it while loading, but the loaded struct and its dictionary form do not contain it. `to_dict(keep_discardable=True)` includes it.",
  ["inputs", "configurations"], "every value and position of discarded fields among other field kinds, including fields whose size or count refers to a discarded one",
  "tests check one filler field with a constant value; an assigned value or a reference to a discarded field is not tested",
  [ST, B], [("Struct.from_stream discard", ST), ("Struct.to_dict", ST), ("Struct.to_stream", ST)], observe=["Struct.to_bytes", "Struct.from_bytes", "Struct.to_dict"])

p("C23", "Every validator runs on every load and dump, and a failure stops both",
  "Field validators, validator methods and whole-struct validators, inherited ones included, are called with the actual value whenever a struct is dumped or loaded (field validators also on attribute assignment), so no value a validator rejects is ever written, returned or stored. When a validator of the struct or of one of its own fields raises on dump, nothing is written to the stream, and validators of one class or field never run for another.",
  ["inputs", "programs", "configurations"], "every value against every accept/reject boundary, validators on any subset of fields and of the class hierarchy, load, dump and assignment",
  "tests use a validator that always fails or one boundary; the claim is over all values and all combinations of validator kinds with inheritance",
  [ST, B, DE], [("Struct.validate_contents", ST), ("bind_validators_to_struct", ST), ("Field.from_stream/to_stream/__set__ validators", B)], observe=["Struct.to_stream", "Struct.from_stream", "attribute assignment"])

p("C24", "Arrays hold exactly the elements their count, halt check or end of data dictates",
  "Loading an array reads elements until the count (a constant, or the value of a field given by object or name), the halt check, or the end of the data says stop, and returns them in order having consumed exactly their bytes; dumping writes all elements in order with nothing between or after them. Dumping a sequence or iterator whose length differs from the count raises the array-size error.",
  ["inputs", "configurations"], "every count, every number of elements given up to the bound, every element value, sized and unsized iterables, fixed- and variable-size and nested components",
  "tests use two or three literal arrays; counts coming from data, boundary lengths and iterator inputs are only sampled",
  [CO], [("Array.get_final_element_count", CO), ("Array.should_halt", CO), ("Array._do_dump/_dump_unsized/_do_load", CO)], observe=["Array.to_bytes", "Array.from_stream", "Struct.from_bytes"])

p("C25", "Nested structs behave exactly like the same fields written inline",
  "A nested struct given as an instance or as a mapping serializes to exactly the bytes of that struct on its own at that place, and loads back to an equal struct having consumed exactly those bytes, at any nesting depth and within arrays. Errors and validators inside the nested struct take effect in the outer operation, and its fixed size contributes to the outer size.",
  ["inputs", "programs"], "every inner and outer field arrangement within bounds, every value, nesting depth up to the bound, instance or mapping input",
  "tests nest one fixed struct with literals; equality with the inline layout is a relation between two programs over all values",
  [CO, ST], [("Nested._do_dump/_do_load", CO), ("recursive_to_dicts", ST)], observe=["Struct.to_bytes", "Struct.from_bytes", "Struct.to_dict"])

p("C26", "Unions dump and load with exactly the choice their deciders return",
  "A union field writes the data with the field or struct its dump decider returns and loads with the one its load decider returns, and the result (bytes written, value returned, bytes consumed, errors for values that do not fit) is the same as using that choice directly in its place. The deciders receive the stream or data, the choices, the context and the other fields, and a decider result that is neither a field nor a struct class is a type error.",
  ["inputs", "configurations"], "every tag value and data value, field and struct choices in any order, standalone and inside a struct, constant and nullable choices",
  "tests use two choices with literal data; equivalence with the chosen field over all values and choice options is not covered",
  [CO, B], [("Union._do_dump/_do_load", CO)], observe=["Union.to_bytes", "Union.from_stream", "Struct.from_bytes"])

p("C27", "Struct declarations keep order, and inheritance never affects the parent",
  "A subclass has its parent's fields first and then its own in declaration order, with consecutive indexes, and inherits field and struct validators; defining a subclass (its fields, validators or options) never changes the parent class or a sibling. Redefining an inherited field, inheriting from two structs, renaming a field through its `name` argument, and passing unknown field names or contradictory field options are rejected.",
  ["programs", "inputs"], "every class hierarchy up to the stated depth and number of fields and validators, every value processed by parent, child and sibling before and after the child is defined",
  "tests build a few hierarchies; parent/child independence is a property of all orders of definition and all values",
  [ST, B, DE], [("StructMetadata.from_class", ST), ("collect_assigned_fields", ST), ("maybe_assign_name", B)], observe=["class creation", "Struct.to_bytes of parent and child"])

p("C28", "Struct-wide option defaults apply exactly where no explicit option was given",
  "An option default given in a struct's Meta class applies to each of its fields that supports the option and did not receive it explicitly; a default qualified with the field type's name takes precedence over an unqualified one, and an explicit argument over both. Fields of other types, other structs and parent classes are unaffected.",
  ["configurations", "inputs"], "every combination of explicit, type-qualified and unqualified option, every field type, every value, parent and child classes",
  "tests check a couple of combinations for one option; precedence over all combinations and the effect on the actual bytes are not covered",
  [B, ST, NU], [("Field.bind_to_container", B), ("StructMetadata.load_meta_options", ST), ("__overrideable_attributes__", NU)], observe=["Struct.to_bytes", "Struct.from_bytes"])

p("C29", "Annotation-declared structs behave exactly like assignment-declared ones",
  "A struct declared with type annotations and the dataclass decorator (field classes, field instances, Annotated, Optional, struct classes, default values) serializes, loads, reports sizes and offsets, fills defaults, treats None and runs validators exactly like the struct declared by assigning the equivalent fields, also when it inherits from another struct of either style. Mixing both styles in one class, or declaring no field, is rejected.",
  ["programs", "inputs"], "every combination of annotation form, default and field kind up to the stated number of fields, with and without a parent struct, every value",
  "tests check metadata of a few declarations; behavioural equivalence of two programs over all values is not expressible as an example",
  [PE, ST, B], [("dataclass", PE), ("AnnotationInfo.from_annotation/make_field_instance", PE)], observe=["Struct.to_bytes", "Struct.from_bytes", "Struct.get_size", "Field.offset"])

p("C30", "Struct instances behave as a consistent mapping, with matching equality",
  "Reading a field (other than an absent optional one) by attribute, by item and through `to_dict()` gives the same value; assigned values are returned as assigned, deleting a field returns it to its unset state, iteration yields exactly the assigned fields, and unknown names raise KeyError (or the unexpected-value error in the constructor). Two structs, or a struct and a mapping, with the same assigned field values are equal and otherwise unequal, and a dictionary produced by `to_dict()` of a struct with all fields assigned rebuilds an equal struct, with nested structs and arrays converted to plain containers.",
  ["inputs", "histories"], "every sequence of set, delete and read operations up to the bound, every value, nested and array fields, default, constant and computed fields",
  "tests check single operations on fixed structs; consistency after arbitrary operation sequences is a property of histories",
  [ST, B], [("Struct.__getitem__/__setitem__/__delitem__/__iter__/__eq__", ST), ("Struct.to_dict", ST), ("StructMappingProxy", ST), ("Field.__get__/__set__", B)], observe=["Struct container API", "Struct.__eq__", "Struct.to_dict"])

p("C31", "Operations are pure: dumping, sizing and comparing never change anything",
  "Dumping, measuring, comparing, converting to a dictionary and reading fields leave the struct, the values given to it, the context and the class definition unchanged, so repeating an operation gives the same result. Instances of a class are independent: operations on one instance or load never affect another instance, a later load or dump, or another class using equal field definitions.",
  ["histories", "inputs"], "every sequence of two or more operations (dump, load, len, to_dict, compare, partial and single-field operations, failed ones included) on two instances, every value",
  "tests perform one operation per fresh object; state leaking from one operation to the next only shows over sequences",
  [ST, B, CO, NU, SL], [("Struct.__values__ ownership", ST), ("Field objects shared by all instances", B), ("Array result list", CO)], observe=["repeated Struct.to_bytes/len/to_dict", "second instance after operations on the first"])

p("C32", "Stream helpers read, peek and write exactly the bytes they promise",
  "The integer read and write helpers transfer exactly the requested number of bytes (or report that the data or the width is too small) at the stream's position in the given byte order and signedness, the peek helper returns the upcoming bytes (up to the count, or an end-of-file error if a short read is not allowed) without moving the position, also when reading fails, and the byte iterator yields the upcoming bytes one at a time up to the maximum or the end of data, leaving the position right after the last byte yielded.",
  ["inputs", "configurations", "fault_sequences"], "every stream content, position, count, byte order and signedness within bounds; short streams",
  "tests use a few literals; boundaries at the end of the stream for every count and position are not covered",
  [HE], [("read_int/write_int/peek_bytes/iter_bytes", HE)], observe=["binobj.helpers functions", "stream.tell"])

p("C33", "Values given to a load override loaded ones and change nothing else",
  "Loading with `init_kwargs` consumes exactly the bytes a plain load consumes, gives every field named there the given value and every other field its loaded value, and shows the given values to the fields, conditions and validators that depend on them. A given value that a validator rejects fails the load; names the class does not know are rejected, or passed to the constructor of a subclass that accepts them. The mapping given and the objects in it are never changed and never shared with the loaded struct.",
  ["inputs", "configurations"], "every data and every given value, each field and pair of fields overridden, every load entry point, subclasses with constructor arguments of their own, structs with dependent, discarded, optional and nested fields",
  "tests override one field of one struct with a literal; that the others stay untouched and the positions unshifted is a claim about every layout and value",
  [ST], [("Struct.from_stream/from_bytes", ST), ("Struct.__init__", ST)], observe=["Struct.from_stream(init_kwargs=)", "Struct.from_bytes(init_kwargs=)"])

p("C34", "Errors name the field, value and place that really caused them",
  "When a load runs out of data, the unexpected-end-of-input error names the field of the loaded struct in which the data ends, and its offset and size describe a read that starts within that field and reaches beyond the data; other load errors name the field being loaded, and the leftover-data error of a struct gives the number of bytes that were used. A refused constant, an unset required field, a value that does not fit or cannot be None, a wrong number of array elements, an assignment to a constant and unknown constructor arguments are reported with the field, the value, the counts or the names concerned.",
  ["inputs", "configurations"], "every layout of the scenario catalogue cut at every byte, arbitrary bytes for every field kind, every value outside the range of every field kind",
  "tests look at the attributes of a handful of errors; which field and offset is reported depends on where in the data the failure lies",
  [B, ST, NU, SL, CO, HE, ER], [("Field.from_stream err.field", B), ("Field._read_exact_size", B), ("read_int/iter_bytes", HE), ("Struct.from_bytes exact check", ST), ("error classes", ER)], observe=["exception attributes"])

p("C35", "Exactly the consistent declarations are accepted",
  "A declaration that contradicts itself is refused with the documented error when it is made: two sources of a value that exclude each other, a second compute function, a pad that is not one byte, an unknown timestamp resolution, float byte order or integer scheme, an array count that is no number, field or name, a field class as a union choice, a second name for a field, a field defined again in a child class, several struct bases, mixed or missing field declarations, validators without field names. The error names the field or struct concerned. Every other combination of these is accepted and works as declared, and a refused declaration leaves the classes and fields it refers to as they were.",
  ["inputs", "configurations"], "all option texts of up to 6 characters, all pads of up to 3 bytes, every pair and triple of value sources on every field kind, every field of a hierarchy redefined",
  "tests try one invalid declaration each; which declarations are accepted, and what is left after a refusal, is a statement about all of them",
  [B, ST, NU, SL, CO, PE, DE], [("Field.__init__/computes/maybe_assign_name", B), ("StructMetadata.from_class/collect_assigned_fields", ST), ("Timestamp/Float/VariableLengthInteger.__init__", NU), ("String.__init__", SL), ("Array/Union.__init__", CO), ("dataclass", PE)], observe=["declaring a class or field"])

p("C36", "User functions get the documented arguments and their errors reach the caller",
  "Presence conditions, halt checks, load and dump deciders and compute functions are called with exactly the documented arguments: on load the values of the fields of their own struct that lie before them (given values included), the caller's context and the stream positioned at the field; on dump the values that are about to be dumped, the context and no stream; halt checks get the array and the elements so far, deciders the choices in order and the value to dump, compute functions their field. This holds for every entry point and when the struct is nested, an array element or a union choice. Whatever such a function, a default factory or a validator raises reaches the caller as the same exception.",
  ["inputs", "configurations"], "every value, every load and dump entry point, every place of the struct inside others, nine exception types from ten kinds of user function raised depending on the data",
  "tests look at the arguments of one call in a flat struct; which mapping, position and context a function sees depends on the entry point, the nesting and the values before it",
  [B, ST, CO], [("Field.from_stream/compute_value_for_dump present()", B), ("Array._do_load halt_check", CO), ("Union._do_load/_do_dump", CO), ("Struct.to_stream/partial_dump/_to_dict_whatever_possible", ST)], observe=["arguments of user functions", "exceptions"])

p("C37", "Any data either loads or is refused, and what it loads as is stable",
  "Whatever bytes a struct is loaded from, the load ends and either returns a struct or raises one of the library's load errors (or a ValueError for text that cannot be decoded), the same way through every entry point, with the stream not moved beyond the data. A load that succeeds depends only on the bytes it used: they load to the same struct by themselves and with anything behind them (unless the struct reads to the end of the data), and exact loading fails exactly if there are more. A loaded struct without discarded fields can be dumped, and its dump loads to the same values and dumps to the same bytes again, even if the data was not in canonical form. What loads as a whole also loads partially and field by field, with the same values.",
  ["inputs", "configurations"], "all byte strings up to the length bound on every layout of the scenario catalogue, every field kind in every kind of place and pairs of field kinds",
  "tests load well-formed data and a few broken literals; that no data at all crashes, hangs or loads to something that cannot be written again is a statement about every input",
  [B, ST, NU, SL, CO, HE], [("Struct.from_stream/from_bytes/partial_load/get_field", ST), ("Field.from_stream", B), ("_do_load of every field class", NU)], observe=["Struct.from_bytes on arbitrary data", "Struct.to_bytes of the result"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
print(len(P), "properties")
