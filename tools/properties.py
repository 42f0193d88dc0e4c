#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of that file)."""
import json, os
P = []
D = 'prost-reflect/src/'
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[D + f if not f.startswith('prost-') else f for f in files],
                               mechanism=[dict(name=n, where=D + w if not w.startswith('prost-') else w) for n, w in mech])))

prop('C01', 'Every protobuf kind is encoded and decoded with its own wire codec',
 'For each field kind and cardinality (singular, unpacked list, packed list, group, map key, map value) a dynamic message encodes with exactly the protobuf codec of that kind (varint, zig-zag, fixed32/64, length-delimited, group), and decodes with the same codec into the value variant of that kind. The field number written is the number of the field, 1 for map keys and 2 for map values, and packable lists are accepted in packed and unpacked form whatever the declaration says.',
 ['inputs', 'programs'], 'every message schema (kind x cardinality), every field value and every byte string decoded with it',
 'The tests sample a few values of one fixed schema; the codec table has about 18 kinds x 5 positions x 3 operations and a slip in one cell (a map key kind, a group list) is only seen with that schema.',
 ['dynamic/message.rs', 'dynamic/unknown.rs'],
 [('encode / decode / length tables per kind', 'dynamic/message.rs: Value::encode_field, merge_field, encoded_len, MapKey'),])
prop('C02', 'Encoded length equals the number of bytes encoding writes',
 'For every dynamic message the length reported for the message (and used as the prefix of every nested message, map entry and packed list) is the number of bytes that encoding it writes. In particular each key, each length prefix, each group end marker and each skipped default appears in the length computation exactly when it appears in the encoder.',
 ['inputs', 'programs'], 'every schema and every message value, including unknown fields, groups, maps and packed lists',
 'A wrong length corrupts only the enclosing length prefix or panics on a full buffer; tests exercise one schema and mostly small values for which key and length prefixes take one byte.',
 ['dynamic/message.rs', 'dynamic/unknown.rs', 'dynamic/fields.rs'],
 [('length computation mirroring the encoder', 'dynamic/message.rs: encoded_len; dynamic/unknown.rs: encoded_len')])
prop('C03', 'Only values valid for a field kind are accepted, produced or defaulted',
 'A value is valid for a field exactly when its variant is that of the field kind (with lists for repeated fields, and maps with valid keys and values for map fields). The default value of every kind, every value parsed from wire bytes, JSON, text format or a default-value string, and every value accepted by the checked setters is valid for its field.',
 ['inputs', 'programs'], 'every field of every schema and every value or input parsed for it',
 'The tables are spread over half a dozen functions; tests use matching values, and a mismatch is only visible later as a panic or a wrong encoding for one kind.',
 ['dynamic/mod.rs', 'dynamic/message.rs', 'dynamic/serde/de/kind.rs', 'dynamic/text_format/parse/mod.rs', 'descriptor/build/resolve.rs', 'descriptor/api.rs'],
 [('validity predicate', 'dynamic/mod.rs: Value::is_valid_for_field'), ('defaults', 'dynamic/mod.rs: Value::default_value, default_value_for_field')])
prop('C04', 'Fields a message does not know survive decode and re-encode unchanged',
 'Decoding stores every field whose number is not in the message descriptor together with its wire type and payload, and encoding writes it back with the same number, wire type and payload; nested groups included. Nothing is dropped, reinterpreted or merged away.',
 ['inputs'], 'every byte string decoded by a message whose schema lacks some of its fields',
 'The property quantifies over arbitrary unknown wire data (six wire types, nesting); the tests try a few.',
 ['dynamic/unknown.rs', 'dynamic/message.rs', 'dynamic/fields.rs'],
 [('unknown field table', 'dynamic/unknown.rs: UnknownField'), ('storage', 'dynamic/fields.rs: add_unknown')])
prop('C05', 'At most one member of a oneof is ever set',
 'Setting a member of a oneof, by any means (setter, mutable access, wire decode, JSON, text format), clears every other member of that oneof and no other field. No operation leaves two members of one oneof present.',
 ['histories', 'inputs'], 'every sequence of mutations and every decoded input',
 'Every mutation path must clear siblings before inserting; tests check one or two orders on one oneof.',
 ['dynamic/fields.rs', 'dynamic/mod.rs', 'dynamic/message.rs'],
 [('oneof clearing', 'dynamic/fields.rs: clear_oneof_fields, set, get_mut')])
prop('C06', 'Presence queries, getters, iteration and encoding agree',
 'A field is reported present exactly when it is stored and, for fields without presence tracking, differs from its default; getters return the stored value or the default; iteration and encoding visit exactly the present fields; clearing or taking a field leaves it absent. Querying never changes the message.',
 ['histories', 'programs'], 'every field kind and every history of set, clear, take, mutable access and decode',
 'Agreement between a dozen sibling operations for each presence discipline; tests look at a few.',
 ['dynamic/fields.rs', 'dynamic/mod.rs'],
 [('field set', 'dynamic/fields.rs: DynamicMessageFieldSet')])
prop('C07', 'Checked setters reject bad input before changing the message',
 'A checked setter either stores a value that is valid for an existing field, or returns an error naming why (field not found, wrong type) and leaves the message exactly as it was. Name and number lookups report an unknown field instead of touching another one.',
 ['inputs', 'histories'], 'every field name/number and every value passed to the checked setters',
 'The absence of mutation on every error path is universal over inputs; tests check the error only.',
 ['dynamic/mod.rs'], [('checked setters', 'dynamic/mod.rs: DynamicMessage::try_set_field*')])
prop('C08', 'Decoding untrusted bytes never panics',
 'Merging any byte string into a dynamic message of any accepted schema, and re-encoding the result, returns a value or an error: no unwrap, index, arithmetic or allocation-size assumption on that path can fail because of the bytes. Reported errors leave the process usable.',
 ['inputs', 'programs'], 'every byte string and every schema accepted by a descriptor pool',
 'Malformed bytes are an infinite space; the fuzz-like tests reach only schemas that the test crate compiles.',
 ['dynamic/message.rs', 'dynamic/unknown.rs'], [('panic sites reachable from decode', 'dynamic/message.rs')])
prop('C09', 'Parsing untrusted JSON or text format never panics',
 'Deserializing any JSON document or parsing any text-format string with any accepted schema returns a value or an error: every slice bound, unwrap, numeric conversion and arithmetic operation on that path is safe for every input, multi-byte characters and extreme numbers included.',
 ['inputs', 'programs'], 'every JSON document / text and every accepted schema',
 'Inputs are unbounded; the failures sit at rare shapes (a multi-byte character after a backslash, a duration of the minimum seconds).',
 ['dynamic/serde/de/kind.rs', 'dynamic/serde/de/wkt.rs', 'dynamic/text_format/parse/mod.rs', 'dynamic/text_format/parse/lex.rs'],
 [('panic sites reachable from the parsers', 'dynamic/serde/de; dynamic/text_format/parse')])
prop('C10', 'Loading an untrusted descriptor set never panics',
 'Adding any file descriptor set, well-formed or not, to a pool, and then using the accepted descriptors, never panics: every index, lookup, string slice and number conversion made while building or reading descriptors is safe or was validated before.',
 ['inputs'], 'every file descriptor set, as bytes or as a decoded message',
 'The malformed descriptor sets in the fixtures cover the named errors, not the combinations (unknown syntax, escapes in default values, dangling references).',
 ['descriptor/build/mod.rs', 'descriptor/build/names.rs', 'descriptor/build/resolve.rs', 'descriptor/build/options.rs', 'descriptor/api.rs', 'descriptor/error.rs'],
 [('panic sites reachable from pool building', 'descriptor/build')])
prop('C11', 'Recursion driven by input is bounded',
 'Every recursion whose depth is chosen by untrusted input (nested messages, groups, JSON values, text-format messages, type references) passes through a depth budget or consumes a finite acyclic structure validated beforehand, so deeply nested input yields an error instead of exhausting the stack.',
 ['inputs'], 'every input nesting depth', 'Tests do not overflow the stack; whether each recursive cycle is cut is a property of the whole call graph.',
 ['dynamic/message.rs', 'dynamic/unknown.rs', 'dynamic/text_format/parse/mod.rs', 'dynamic/serde/de/mod.rs', 'descriptor/build/visit.rs'],
 [('depth budgets', 'prost DecodeContext; serde_json recursion limit')])
prop('C12', 'A rejected file leaves the descriptor pool as it was',
 'When adding files fails, the pool afterwards has the same files, messages, enums, services, extensions and names as before, lookups behave as before and later additions work. Each of the tables of the pool and each list inside a previously existing entry is restored.',
 ['histories', 'inputs'], 'every pool state and every rejected addition, at every stage of validation',
 'Needs a failure at each stage after each kind of partial registration; tests cover one.',
 ['descriptor/build/mod.rs'], [('rollback', 'descriptor/build/mod.rs: DescriptorPoolOffsets, rollback')])
prop('C13', 'Descriptors are immutable snapshots, shareable between threads',
 'A descriptor obtained from a pool keeps its meaning when that pool, a clone of it or the global pool is modified later, on any thread. Pools, descriptors, values and messages are Send and Sync; the data they share have no interior mutability and are reached by no unsafe code; what a descriptor answers depends on no process-wide state that changes. Adding files to a pool first copies data shared with other descriptors, and a copy (or any clone) has every part of the original.',
 ['schedules', 'histories'], 'every interleaving of pool modification and descriptor use', 'Thread schedules and sharing histories cannot be enumerated by tests; the guarantee follows from the types and from who may obtain mutable access.',
 ['descriptor/mod.rs', 'descriptor/build/mod.rs', 'descriptor/global.rs', 'descriptor/api.rs'], [('copy-on-write', 'descriptor/build/mod.rs: Arc::make_mut'), ('global pool', 'descriptor/global.rs')])
prop('C14', 'Invalid descriptors are rejected with an error, valid ones accepted',
 'Every validation the pool documents (duplicate names, numbers and JSON names, field numbers outside the legal range or in reserved or extension ranges, unresolvable or wrongly typed references, invalid oneof or default values, missing files) is performed for every definition, at every nesting level, and any error found makes the whole addition fail. Boundary numbers are on the legal side exactly as the language specification says.',
 ['inputs', 'programs'], 'every descriptor set', 'Fixture tests cover one instance of each error; validation must hold at every nesting level, boundary and definition kind.',
 ['descriptor/build/names.rs', 'descriptor/build/resolve.rs', 'descriptor/build/visit.rs', 'descriptor/error.rs'],
 [('name and number checks', 'descriptor/build/names.rs, resolve.rs')])
prop('C15', 'References resolve only to visible definitions of the right kind',
 'A type, extendee or option name in a file resolves to the innermost scope that defines it, and only to definitions of the requested kind in the file itself, its direct imports and the transitive public imports of those. A name that exists elsewhere is reported as an error, never linked.',
 ['inputs', 'programs'], 'every import graph and every reference', 'Import graphs and scopes are unbounded; tests have a handful with at most one public hop.',
 ['descriptor/build/mod.rs', 'descriptor/build/names.rs', 'descriptor/build/resolve.rs'],
 [('visibility', 'descriptor/build/names.rs, mod.rs: resolve_name')])
prop('C16', 'Descriptor protos and option bytes survive the pool unchanged',
 'The descriptor protos a pool returns or encodes are the ones it was given: every field of the file, message, enum, service and nested protos is converted in both directions and coded under the number descriptor.proto gives it, and every file given is recorded. Resolution changes only references (to a dot and the full name found), the type implied by a resolved type name, JSON names that were absent, and options. Options, custom and unknown ones included, keep their encoded bytes when decoded, converted and encoded; resolving uninterpreted options changes nothing else in them.',
 ['inputs'], 'every descriptor proto', 'About fifty fields in thirteen structures copied twice by hand; a dropped or swapped field is only visible to a schema that uses it.',
 ['descriptor/types.rs', 'descriptor/build/mod.rs', 'descriptor/build/resolve.rs', 'descriptor/api.rs'],
 [('conversion', 'descriptor/types.rs: from_prost, to_prost, Options'), ('resolved references', 'descriptor/build/resolve.rs: set_type_name')])
prop('C17', 'JSON handling of well-known types is complete and symmetric',
 'Each well-known type with a special JSON form is dispatched by its full name to the same form when serializing and deserializing, and inside Any it is wrapped under "value" exactly for those types. Every other message uses the ordinary object form.',
 ['inputs', 'programs'], 'every message type and value', 'Three name tables must agree; tests exercise each type on one side or alone, not within Any in both directions.',
 ['dynamic/serde/ser/wkt.rs', 'dynamic/serde/de/wkt.rs', 'dynamic/serde/mod.rs'], [('dispatch tables', 'dynamic/serde/*/wkt.rs: get_well_known_type_*')])
prop('C18', 'JSON and text numbers convert exactly or fail',
 'A number given in JSON or text format for an integer field is stored exactly or rejected, never saturated, wrapped or truncated; 64-bit integers are written as strings and non-finite floating-point values in their reserved spelling, in every position, wrappers included.',
 ['inputs'], 'every number and every numeric kind', 'Boundary numbers (2^63, 2^64, -0.5, NaN) per kind and position; tests sample some.',
 ['dynamic/serde/de/kind.rs', 'dynamic/serde/ser/mod.rs', 'dynamic/serde/ser/wkt.rs', 'dynamic/text_format/parse/mod.rs', 'dynamic/text_format/parse/lex.rs'],
 [('numeric conversion', 'dynamic/serde/de/kind.rs: visitors')])
prop('C19', 'Serialization options apply at every nesting level',
 'Each serialization, deserialization and text-format option changes exactly the behaviour it names, defaults to its documented value, and is passed on unchanged to every nested message, list element, map value and Any payload.',
 ['configurations', 'inputs'], 'every combination of options and every nesting position', 'The product of options and nesting positions is not sampled by the tests, which set one option on flat messages.',
 ['dynamic/serde/mod.rs', 'dynamic/serde/ser/mod.rs', 'dynamic/serde/de/mod.rs', 'dynamic/text_format/mod.rs', 'dynamic/text_format/format.rs'],
 [('options', 'dynamic/serde/mod.rs; dynamic/text_format/mod.rs')])
prop('C20', 'Text-format output is in the language the parser reads',
 'Everything the text-format writer can emit (strings and bytes with any content, floats including non-finite ones, enums, extension and Any names, unknown fields off) consists of tokens the parser accepts with the same meaning: every byte that needs an escape gets one, and every escape written is one that is read back to the same byte.',
 ['inputs', 'configurations'], 'every message value and every writer option', 'Needs every byte value in every string position; round-trip tests use sampled strings.',
 ['dynamic/text_format/format.rs', 'dynamic/text_format/parse/lex.rs', 'dynamic/mod.rs'], [('escapes and literals', 'dynamic/mod.rs: fmt_string; text_format/parse/lex.rs')])
prop('C21', 'Typed accessors and conversions of values agree with the variant',
 'Each typed accessor, mutable accessor and conversion of a value or map key yields the content of the variant it is named after and nothing for any other variant; converting to a map key and back is the identity and is refused for kinds that cannot be keys.',
 ['inputs'], 'every value', 'About thirty sibling accessors, of which tests use some.', ['dynamic/mod.rs'], [('accessors', 'dynamic/mod.rs: Value, MapKey')])
prop('C22', 'Generated types report the descriptor of their own message',
 'The descriptor reported by each well-known Rust type, and by each type using the derive macro, is that of the message with its protobuf name in the pool that declares it; no two types share or swap names. The build helper attaches the macro, with the message\'s own full name and the caller\'s pool expression, to every message. The built-in global pool holds the fields, numbers, types, labels and JSON names of Google\'s well-known files.',
 ['programs'], 'every well-known type and derived type', 'Each type has its own hand-written literal; a test would have to list them all.',
 ['reflect/wkt.rs', 'reflect/mod.rs', 'prost-reflect-derive/src/lib.rs', 'prost-reflect-build/src/lib.rs'], [('name table', 'reflect/wkt.rs')])
prop('C23', 'Timestamps and durations outside the JSON range are refused',
 'Serializing or parsing a timestamp, duration or field mask to or from JSON yields only values in the range the JSON mapping defines, with seconds and nanoseconds of one sign, and refuses everything else with an error instead of writing text that cannot be read back.',
 ['inputs'], 'every seconds/nanos pair and every string', 'The boundary of a 2^96 space; tests try several values.',
 ['dynamic/serde/ser/wkt.rs', 'dynamic/serde/de/wkt.rs'], [('range checks', 'dynamic/serde/ser/wkt.rs, de/wkt.rs')])
prop('C24', 'Descriptor accessors point at the right part of the descriptor',
 'The source location path of a descriptor is the path of field numbers of the descriptor schema that leads to it, its options are decoded as the options message of its own kind, and its parent, index and full name are those of its position in the file.',
 ['inputs', 'programs'], 'every descriptor of every accepted file', 'Deep nesting by definition kind: tests check a few paths.',
 ['descriptor/tag.rs', 'descriptor/api.rs', 'descriptor/build/visit.rs', 'descriptor/build/options.rs'], [('paths and options', 'descriptor/tag.rs; build/visit.rs')])
prop('C25', 'Parsers refuse repeated settings of singular fields and oneofs',
 'Text-format input that sets a singular field or extension that is already present, a second member of a oneof, or an expanded Any over an Any that has a value, is rejected with an error at every nesting and in every spelling; repeated and map fields accumulate instead. JSON input that gives two members of one oneof is rejected in either order, a null counting as not given.',
 ['inputs'], 'every input document', 'Order and position (field, extension, oneof sibling, nested) combine; tests check one of each.',
 ['dynamic/serde/de/mod.rs', 'dynamic/serde/de/kind.rs', 'dynamic/text_format/parse/mod.rs'], [('duplicate checks', 'serde/de/kind.rs: DynamicMessageVisitor; text_format/parse/mod.rs')])
prop('C26', 'Lookups by name, number and index return the matching element',
 'Every lookup of a file, message, field, enum value, oneof, service, method or extension returns an element whose name, number, JSON name or parent is the one asked for, or nothing when there is none; listing an owner yields each of its elements exactly once and nothing else, and a field, oneof, extension or dependency is listed under the owner that the element itself reports.',
 ['inputs', 'programs'], 'every descriptor pool and every key', 'A family of about forty sibling lookups over several indexes; tests use some on one schema.',
 ['descriptor/api.rs', 'descriptor/mod.rs', 'descriptor/build/names.rs'], [('lookups', 'descriptor/api.rs')])
prop('C27', 'Field attributes follow the language rules for syntax and label',
 'For each field, presence tracking, packed encoding, cardinality, map and group status and the reported kind are those the language defines for its syntax, label, type, options and oneof membership; extensions follow the same rules as fields. Enum fields without a stated default report the value the language defines.',
 ['inputs', 'programs'], 'every combination of syntax, label, type, packed option, proto3 optional and oneof', 'The product of the attributes is not enumerated by the tests.',
 ['descriptor/api.rs', 'descriptor/build/resolve.rs', 'descriptor/mod.rs'], [('attribute computation', 'descriptor/build/resolve.rs; descriptor/api.rs')])
prop('C28', 'JSON, text and wire round trips reproduce the message',
 'Serializing a dynamic message to JSON, text format or wire bytes and reading it back with the same schema gives an equal message.',
 ['inputs', 'programs'], 'every message of every schema', 'Universal over values.', ['dynamic/serde/mod.rs', 'dynamic/text_format/mod.rs', 'dynamic/message.rs'], [('round trip', 'dynamic')])
prop('C29', 'Concurrent users of the global pool see a linearizable history',
 'Concurrent registrations and lookups on the global pool behave as if performed one at a time in some order consistent with real time: each operation takes the lock of the one global pool exactly once, does all its work on the locked pool, reports success exactly when that work succeeded, and nothing that runs while the lock is held (or while a static is initialised) takes it again, so no operation deadlocks or loses the update of another.',
 ['schedules'], 'every interleaving', 'Schedules and reentrant use cannot be enumerated by tests.', ['descriptor/global.rs', 'descriptor/build/options.rs', 'reflect/wkt.rs'], [('global pool lock', 'descriptor/global.rs')])
prop('C30', 'Equality and cloning cover the whole descriptor, value or message',
 'Two descriptors are equal exactly when they denote the same position of the same pool (a pool that was modified is another pool); two values, map keys, unknown fields or messages compare equal only if variant, descriptor and all of the content, unknown fields included, are the same, and anything equals itself. A clone of any of them has every part of the original.',
 ['inputs', 'histories'], 'every pair of operands', 'Pairs of operands that differ in one part only are too many to sample.', ['descriptor/api.rs', 'descriptor/mod.rs', 'dynamic/mod.rs', 'dynamic/fields.rs', 'dynamic/unknown.rs'],
 [('equality and clone impls', 'descriptor/mod.rs; dynamic/mod.rs; dynamic/fields.rs')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
