AI = 'abstract interpretation of MIR (trace-partitioned, relational facts) against a specification table'
CLAIMS = {
    'C01': (AI, 'proof', 'Every kind x shape x {field, extension}: sequence of writes and codec of reads derived for all values; map key x value product in the thorough tier.'),
    'C02': ('abstract interpretation of MIR; linear forms of written and reported length compared', 'proof', 'Symbolic equality of length forms for every kind and shape, conditions included.'),
    'C03': (AI, 'proof', 'Validity predicates, defaults and every producer of values evaluated for every kind and variant.'),
    'C04': (AI, 'proof', 'decode_value fed to encode for every wire type; storage, nesting, order and hand-out of unknown fields over every slot state.'),
    'C05': (AI, 'proof', 'Every entry point that can set, default, decode or merge a oneof member, on every prior state of the slots, leaves at most one member set and other fields alone.'),
    'C06': (AI, 'proof', 'Every reader of message fields evaluated over the table of entry states x presence x default: has, get, iterators, take, encode visit the same set.'),
    'C07': (AI, 'proof', 'Every checked setter over found/not found x valid/invalid x prior state: an error leaves the slots as they were.'),
    'C11': ('abstract interpretation of MIR + dataflow and call-graph cycles', 'proof', "Text: each form of nesting is evaluated at a depth beyond the limit; mixtures are one round-robin document. Wire: what prost's message::merge, group::merge and skip_field do with the budget is taken as given. JSON reading relies on the recursion limit of the Deserializer given (serde_json: 128). Values built through the API, not read from input, may be deeper than any budget."),
    'C12': (AI, 'proof', 'symbolic execution of every public function that adds files with the validation stages opaque (restoration of each collection on each failing path, predicates of the filters per kind of definition), plus an effect analysis of every visitor (all changes of pool state are restored or in new records)'),
    'C13': (AI, 'proof', 'Type structure, call graph and symbolic execution of clones and of the functions that add files. Relies on the standard library containers and Bytes being free of observable interior mutability.'),
    'C16': (AI, 'proof', 'proof by symbolic execution of the MIR: conversions and codecs of every proto type against descriptor.proto, the options type, the recording of files and every assignment resolution makes to a recorded file'),
    'C17': (AI, 'proof', 'Every well-known type, written and read, over every variant and serde entry point; field-mask converters compared with reference transducers for every string.'),
    'C18': (AI, 'proof', 'Every JSON visitor of a scalar kind x every serde entry point x content class; every text number parser over token and sign; every JSON form written for numbers. Intervals are exact over the whole input range.'),
    'C19': (AI, 'proof', 'Setters and defaults; every function, visitor, seed and wrapper that is given options hands on its own options and nothing else; every place that consults an option is evaluated for all values of all options (JSON fields, values and well-known types; unknown names; text-format fields, values, unknown fields and entry points).'),
    'C20': ('regular-language inclusion + abstract interpretation of MIR', 'proof', "Logos is replaced by the longest-match semantics of the token patterns read from the source. A string is decided per byte and per following byte (25 representative followers); messages are decided per form of field, list, map, group, extension, expanded Any and per pair of fields, not per whole message. Nothing is claimed about unknown fields (which the parser does not read), or about names that are not identifiers (DynamicMessage::as_any's test of the domain is taken as given)."),
    'C21': (AI, 'proof', 'Every accessor and conversion evaluated on every variant.'),
    'C22': (AI, 'proof', 'Every trait implementation evaluated; the built-in descriptor set evaluated to a constant and compared with the schema protoc gives; derive macro judged on a witness crate, build helper on its attribute calls.'),
    'C23': (AI, 'proof', 'Success region over (seconds, nanos) of writer and reader compared cell by cell with the specified one; field masks by transducer equality.'),
    'C24': (AI, 'proof', 'Elements at nesting depths 0 to 3 stand for all positions; deeper ones follow the same code. The walk is shown for every depth.'),
    'C25': (AI, 'proof', 'The lexer is replaced by the token sequences: names, values, separators and nestings of each form are enumerated, not every document; oneofs of up to three members stand for all. Entries of one map list are counted, not compared.'),
    'C26': (AI, 'proof', 'Elements at nesting depths 0 to 3 stand for all positions. Which of several enum values with the same number get_value returns is not decided.'),
    'C27': (AI, 'proof', 'Valid combinations only: a oneof member is optional, required is proto2, groups are proto2. A packed option stated through an uninterpreted option, and the escapes of a bytes default, are not followed.'),
    'C29': (AI, 'proof', 'Lock typestate over all paths of the global operations plus lock reachability in the call graph. User code run under the lock (a Buf given by the caller) is outside.'),
    'C30': (AI, 'proof', 'Every PartialEq and Clone impl of the types, all paths.'),
}
NA = {
    'C08': 'Panic freedom of wire decoding: of the panic sites reachable from decode (bounds checks, unwraps, arithmetic, the kind/value mismatch arm), those guarded by invariants the pool establishes elsewhere (indices below the lengths of tables, map entries with fields 1 and 2, kinds matching stored defaults) quantify over every pool a history of additions can build. A static argument needs those invariants proved for the whole builder; without that, the reachable-site list is only an inventory. The parts that are local are decided by C03 (shape of values for a kind), C04, C11 (recursion) and C12.',
    'C09': 'Panic freedom of the JSON and text readers: about 52 reachable panic sites for text and 339 for JSON (most inside generated lexer code, serde_json and formatting), nearly all bounds checks and unwraps on runtime quantities (string slices, spans, lookups in the pool). Intervals without relations between a string and its indices discharge too few of them to claim anything. Bounded recursion is C11, exact or refused numbers are C18.',
    'C10': 'Panic freedom of loading a descriptor set: about 117 reachable panic sites, indices of descriptor tables built in earlier passes over the same file set. Discharging them needs an invariant over the whole state of the pool between the passes (names -> definitions -> tables), relational in runtime sizes; no static argument in reach covers it. Rollback (C12), options (C16), recursion (C11) and attributes (C27) are decided; three panics found while reading were repaired (known_findings.txt).',
    'C14': 'Which descriptors are invalid is decided against protoc, of which no machine-readable specification is here; the pool also knowingly accepts some that protoc refuses (two extensions with one number, reserved names). A table of conditions read off the code would only repeat the code. Not built.',
    'C15': 'Visibility depends on a search through names, packages and sets of imported files whose extent is a runtime quantity. The part that is closed - the set of transitively imported files, and what C12, C24 and C26 say of the tables searched - is covered there. Not built as a check of its own.',
    'C28': 'A round trip is an equation between two programs composed over unbounded messages. It is not decided as such: C01, C02 and C04 (wire), C17, C18 (JSON) and C20, C25 (text) decide, per kind, shape and form, that reading inverts writing; the induction over whole messages is not mechanised, and JSON and text floats are the standard library\'s printing and parsing.',
}
