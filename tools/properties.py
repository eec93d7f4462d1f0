#!/usr/bin/env python3
"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os
V, F, P = "src/validate.rs", "src/flatten.rs", "src/parser/mod.rs"
I, U, VAL = "src/ivt.rs", "src/util.rs", "src/value.rs"
J, C, CTX, N, A, PE = "src/json.rs", "src/cbor.rs", "src/context.rs", "src/normalize.rs", "src/ast.rs", "src/parser/parse_err.rs"

def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return d

VC = ["validate_cbor", "validate_json"]
ALL = ["validate_cbor", "validate_json", "validate_cbor_bytes", "validate_json_str"]
PROPS = [
p("C01", "Schema errors always surface",
  "When matching data needs a part of the schema that is broken (a missing rule, wrong generic arity, an unsupported or structurally invalid construct), validation returns that error. It is never turned into success or into an ordinary mismatch, whichever choice, occurrence, group, map-key search, cut, unwrap or array/map member it was met under, and no other alternative is tried instead.",
  ["inputs"], "every schema and value in which a schema error is encountered while matching, under any nesting of constructs",
  "The tests meet a missing rule in a handful of flat positions; each construct times each error kind times position is a separate path, and the key-search position was wrong.",
  [V, U], [("fatal/mismatch classification", U + ": ValidateError::is_fatal, is_mismatch"), ("propagation in every try-next loop", V + ": choice, occur, map_search, choiceify, group")], ALL),
p("C02", "Failed alternatives restore the data",
  "When an alternative, optional or repeated part, group or unwrap fails part-way through an array or map, everything it had provisionally matched becomes available again, in the original order, to whatever is tried next. This holds at every nesting depth, including when an inner group had already completed before the outer one failed.",
  ["inputs", "histories"], "every nesting of groups, choices, occurrences and unwraps, and every array/map, at every point of failure",
  "Needs a multi-step match that succeeds inside and then fails outside; the existing tests use one level of grouping only.",
  [V], [("snapshot / rewind / commit", V + ": WorkingArray, WorkingMap"), ("group and unwrap handling", V + ": validate_array_member, validate_map_member, *_unwrap")], ALL,
  [("working copy", "elements not yet matched", V + ": WorkingArray.array, WorkingMap.map"), ("undo stack", "elements provisionally matched per open group", V + ": snaps")]),
p("C03", "Containers are accepted only when fully accounted for",
  "An array or map is accepted only if its elements (in order) or entries are each matched by exactly one schema member and every required member found a match; leftover or missing data is a mismatch. A failing member never uses up data, and a value is used up only by the member whose type it satisfied.",
  ["inputs"], "every array/map length and every member list",
  "Tests fix small literal arrays and maps; the claim is over every length, member kind and outcome of each element match.",
  [V], [("emptiness check after the member loop", V + ": validate_array_part2, validate_map_part2"), ("consume only after success", V + ": validate_array_value, validate_map_keyvalue")], ALL),
p("C04", "Occurrence limits are exact and repetition terminates",
  "`?`, `*`, `+` and `n*m` match as many consecutive repetitions as the data allows but never more than the upper limit, and succeed only if at least the lower limit matched; `0*0` matches nothing. Repetition of something that can match without using data terminates.",
  ["inputs"], "every limit pair, every repeated node (including ones that match emptily) and every number of available elements",
  "Limits are unbounded integers and the boundary cases (0*0, m<n, empty repetition) are untested; an endless loop cannot be observed by a test that returns.",
  [V, I], [("limits table", I + ": Occur::limits"), ("occurrence loops", V + ": validate_array_occur, validate_map_occur")], ALL),
p("C05", "Ordered choice succeeds exactly when some option matches",
  "A type choice, group choice or choice made from a group with `&` accepts a value if and only if at least one of its options does; options are tried in order and the first matching option is the one whose data is used. Group keys are disregarded when a group is turned into a choice, and group names inside it are expanded.",
  ["inputs"], "every list of options, every value and every combination of option outcomes",
  "Outcome combinations grow exponentially with the number of options; tests have a few two- and three-way choices.",
  [V], [("choice loops", V + ": validate_choice, validate_array_member, validate_map_choice"), ("choiceify loops", V + ": validate_choiceify_members, validate_map_choiceify_members")], ALL),
p("C06", "Cut semantics on map entries",
  "With `:` or `^ =>`, a key that matches but whose value does not makes the enclosing map (or enclosing group alternative) fail without trying later alternatives at that level; with plain `=>` the entry stays available to later members. The effect never leaks out of the enclosing group or map, and what the caller sees is an ordinary mismatch.",
  ["inputs"], "every map schema with cut and non-cut members under occurrences, choices, groups, nested maps and unwraps",
  "Cut interacts with every surrounding construct; the tests cover about ten combinations.",
  [V, U, F, P], [("MapCut raised", V + ": validate_map_keyvalue"), ("MapCut erased", V + ": validate_map_part2, Group arm of validate_map_member; " + U + ": erase_mapcut"), ("cut flag set", P + ": assemble_basic_member, grpent_member; " + F + ": flatten_member")], ALL),
p("C07", "Map entries match by key and value; array keys are labels",
  "A map member matches an entry only if both the entry's key satisfies the key type and its value satisfies the value type, and it uses exactly that entry; a literal key selects only the entry with that very key. In arrays member keys are labels and have no influence on matching.",
  ["inputs"], "every key type, every map and every member order",
  "Tests sample specific keys; equality and search over arbitrary keys and value outcomes is a universally quantified claim.",
  [V], [("key lookup and search", V + ": validate_map_key, map_search, map_search_literal"), ("array key ignored", V + ": validate_array_member KeyValue arm")], ALL),
p("C08", "Each prelude type accepts exactly its kind of value",
  "Each built-in type accepts exactly the values of its kind and rejects all others with a mismatch: any (everything), nil, bool, int, uint (integers >= 0), nint (integers < 0), float, text and byte strings. Integers are never floats and vice versa.",
  ["inputs"], "every built-in type against every value of every kind, over the whole integer range",
  "The value space is infinite; tests check representative values.",
  [V], [("type table", V + ": validate_prelude_type")], ALL),
p("C09", "A literal matches only the identical value",
  "A literal in the schema matches exactly the values of the same kind with the same content: the integer, float, boolean, text or byte string itself. There is no coercion between kinds.",
  ["inputs"], "every literal against every value",
  "Infinite literal/value pairs; a coercion or truncation shows up only for particular ones.",
  [V, VAL], [("literal comparison", V + ": validate_literal, From<&Literal> for Value")], ALL),
p("C10", "Range bounds are exact",
  "`a..b` accepts a number v exactly when a <= v <= b and `a...b` exactly when a <= v < b, with v, a and b of the same kind (integer or float); other values are mismatches. Endpoints may be rule names resolving to literals; endpoints of different kinds or of non-literal types are reported as schema errors.",
  ["inputs"], "all endpoints and values over the whole integer domain, and every float ordering including unordered (NaN)",
  "Boundary errors occur at a single value out of 2^127; tests probe a few.",
  [V], [("comparison", V + ": check_range, validate_range"), ("endpoint resolution", V + ": deref_range_rule")], ALL),
p("C11", "Comparison controls enforce both type and bound",
  "`T .lt n`, `.le`, `.gt` and `.ge` with T one of int, uint, nint accept exactly the values of type T that satisfy the comparison with the integer n. Rule names may stand for T or n; any other T or n is reported as a schema error and never accepts.",
  ["inputs"], "every integer n and value x, each operator and each target type",
  "12 operator/target pairs over unbounded integers; off-by-one at a sign boundary is invisible to sampled values.",
  [V, F], [("per-target checks", V + ": validate_control_lt/le/gt/ge and validate_{lt,le,gt,ge}_{int,uint,nint}")], ALL),
p("C12", "Size control counts bytes and obeys its bounds",
  "`tstr .size` and `bstr .size` accept exactly the strings whose length in bytes is N, or lies in the given range (`..` inclusive, `...` exclusive of the end); `uint .size N` accepts exactly 0 <= x < 256^N, and a size range on uint bounds the number of bytes needed. Other targets, negative or non-integer sizes are schema errors; other kinds of value are mismatches.",
  ["inputs"], "every size bound, value and length",
  "Boundaries sit at powers of 256 up to 2^127 and at every N; tests sample a few N.",
  [V, N, F], [("size checks", V + ": validate_size_uint/tstr/bstr"), ("normalisation", N + ": normalize_size_range")], ALL),
p("C13", "Regexp control applies only to text, with the given pattern",
  "`tstr .regexp P` accepts a text string exactly when the compiled pattern P matches it, and rejects every other kind of value as a mismatch. Patterns that do not compile or exceed the memory limit, non-literal patterns and non-text targets are reported as schema errors when the schema is flattened.",
  ["inputs"], "every pattern/value pair and every malformed use",
  "Which branch is reached depends on value kind and pattern validity; tests use three patterns and never an oversized one.",
  [V, F], [("match", V + ": validate_control_regexp"), ("compile with size limit", F + ": control_regex")], ALL),
p("C14", "Embedded CBOR is decoded completely and validated",
  "`bstr .cbor T` accepts a byte string exactly when it is one complete well-formed CBOR item (nothing following it) whose decoded value satisfies T. Bytes that are not well-formed CBOR are a mismatch, not a schema error, so other alternatives are still tried; non-byte-string values are mismatches.",
  ["inputs"], "every byte string and nested type",
  "Malformed and trailing-byte inputs were never tested under a choice.",
  [V, F], [("decode then validate", V + ": validate_control_cbor")], ALL),
p("C15", "Rule references and generics bind correctly",
  "A rule name means its definition; a generic rule used with arguments means its body with each parameter standing for the corresponding argument, evaluated in the scope where the argument was written (so parameters are visible only in their own rule's body). A wrong number of arguments, or validating directly against a rule that has parameters, is a generic-arity error.",
  ["inputs", "programs"], "every rule graph, every nesting of generic uses, with parameter names that clash with rule names or with parameters of other rules",
  "Scoping errors need clashing names across several nested generic uses; the tests contain four small schemas.",
  [V, CTX], [("binding and scoping", V + ": Context::lookup_rule, derive, blank"), ("arity at entry", V + ": do_validate")], ALL),
p("C16", "Circular schemas end in an error",
  "Following rule references is bounded: a rule that reaches itself without consuming data, directly, mutually or through generic parameters, in any position where rule names are allowed, yields a schema error instead of endless recursion. The bound counts every rule step on the current chain and is never reset while the chain continues.",
  ["inputs", "programs"], "every cyclic rule graph and every construct through which the cycle can pass",
  "There is one test with one cycle; each reference site (type, array member, map member, unwrap, choiceify, range endpoint, control argument, generic parameter) has its own recursive path.",
  [V], [("depth limit", V + ": Context::inc_depth, MAX_DEPTH"), ("reference sites", V + ": every lookup_rule caller")], ALL,
  [("depth", "rule steps on the current chain", V + ": Context.depth")]),
p("C17", "Unwrap splices; groups used as types must be single",
  "`~name` inside an array (map) behaves as if the members of the referenced array (map) were written in its place; if the name refers to anything else it does not match. A group used where a type is expected behaves as its only member, and a group with any other number of members, a stray key, occurrence or unwrap there is reported as a schema error.",
  ["inputs", "programs"], "every unwrap target and every group used as a type",
  "Few tests use unwrap, none with failing or multi-member interplay.",
  [V], [("unwrap", V + ": validate_array_unwrap, validate_map_unwrap"), ("standalone group", V + ": validate_standalone_group, validate")], ALL),
p("C18", "Validation and flattening never panic",
  "Whatever the schema tree, value or rule lookup results, converting a parsed schema and validating data against it return a result; they never abort by panic (failed unwrap, index, arithmetic overflow, explicit panic).",
  ["inputs"], "every schema tree (also hand-built ones), every value, every outcome of nested matches",
  "A panic needs the one input that violates an implicit assumption; tests sample inputs that do not.",
  [V, F, J, C, N, I, CTX, U], [("infallible unwraps and arithmetic", V + ": WorkingArray/WorkingMap, occur counters, .size arithmetic")], ALL + ["flatten"]),
p("C19", "Type names resolve to the right built-in",
  "Every built-in type name of the CDDL prelude maps to the built-in type this library documents for it (including aliases and true/false/null); names for which no support exists are reported as unsupported rather than treated as something else, and any other name is a rule reference with exactly that name.",
  ["inputs"], "every possible name",
  "The tests look at a subset of the ~45 prelude names and few ordinary names.",
  [F], [("name table", F + ": flatten_typename")], ["flatten", "flatten_from_str"]),
p("C20", "Flattening preserves the schema's meaning",
  "The validation tree contains every rule, member, option, argument, key, cut marker, occurrence limit, range end and inclusiveness, and generic parameter of the parsed schema, in the original order and role, and nothing else. Any failure in a nested part fails the whole conversion.",
  ["inputs", "programs"], "every syntax tree",
  "Tests compare about thirty small trees; a swapped, dropped or reordered component in an untested combination would pass.",
  [F, I], [("structural recursion", F + ": flatten_rule, flatten_type, flatten_type1/2, flatten_group, flatten_member, occur_wrap, flatten_range, flatten_control, flatten_name_generic")], ["flatten", "slice_flatten"]),
p("C21", "Unsupported or ill-typed constructs are refused",
  "Control operators other than the supported ones, control arguments or targets of a kind the operator does not allow, range endpoints that are neither literals nor rule names, `~`/`&` applied to a built-in type and generic arguments on a built-in type are refused with an error when the schema is flattened; they never silently become something weaker.",
  ["inputs", "programs"], "every operator name and every kind of argument/target node",
  "The combinations operator x argument kind x target kind are mostly untested.",
  [F], [("control constructors", F + ": flatten_control, control_size/lt/le/gt/ge/regex/cbor"), ("range and generic checks", F + ": range_point, flatten_rule_generic, flatten_name_generic")], ["flatten"]),
p("C22", "JSON data is converted faithfully",
  "Converting a JSON document preserves kind and content of every part: null, booleans, strings, arrays in order, objects key by key; numbers without fraction or exponent that fit 64 bits become exactly that integer, all other numbers become floats. Nothing is dropped, and a failure in any part fails the whole.",
  ["inputs"], "every JSON value, every nesting",
  "Infinite inputs; number kinds at the i64/u64 boundary are not tested.",
  [J], [("conversion", J + ": TryFrom<&serde_json::Value> for Value")], ["validate_json", "validate_json_str"]),
p("C23", "CBOR data is converted faithfully",
  "Converting a CBOR item preserves kind and content of every part: null, booleans, integers over the full 65-bit range, floats, byte and text strings, arrays in order and maps entry by entry with any key type. Kinds that cannot be represented (such as tags) are reported as value errors, never altered or skipped, and a failure in any part fails the whole.",
  ["inputs"], "every CBOR value, every nesting, every key type",
  "Infinite inputs; only a few shapes are tested and tags never.",
  [C], [("conversion", C + ": TryFrom<&ciborium::Value> for Value")], ["validate_cbor", "validate_cbor_bytes"]),
p("C24", "Text and byte entry points agree with the tree entry points",
  "Validating from CDDL text plus encoded data gives what parsing, flattening, looking up the named rule, decoding all of the input and validating would give, with the error class of the first of these steps that fails: parse or flatten error, missing rule, value error, then the verdict. The JSON and CBOR entry points behave alike.",
  ["inputs"], "every CDDL text, rule name and encoded input, valid or not",
  "Error precedence and malformed input combinations are untested; both entry points are written out separately.",
  [J, C], [("pipelines", J + ": validate_json_str; " + C + ": validate_cbor_bytes")], ["validate_cbor_bytes", "validate_json_str"]),
p("C25", "The slice variants agree with the plain ones",
  "slice_parse_cddl and slice_flatten(_from_str) accept exactly the same texts and yield exactly the same rules as parse_cddl and flatten(_from_str), each rule paired with the source text it was parsed from.",
  ["inputs", "programs"], "every CDDL text",
  "Two parallel implementations tested on one document.",
  [P, F], [("parallel grammars", P + ": cddl, cddl_slice"), ("parallel flatteners", F + ": flatten, slice_flatten")], ["slice_parse_cddl", "slice_flatten", "slice_flatten_from_str"]),
p("C26", "The parser consumes the whole text or fails",
  "A CDDL text is accepted only if all of it, from first to last character, is whitespace, comments and rules; anything left over makes parsing fail with a parse error. No rule, entry or character between the first and the last is skipped without being part of the resulting tree, whitespace, a comment or required punctuation.",
  ["inputs"], "every input text",
  "Tests check a handful of malformed documents.",
  [P], [("all_consuming at the entry points", P + ": parse_cddl, slice_parse_cddl"), ("grammar functions", P + ": cddl, rule")], ["parse_cddl", "slice_parse_cddl"]),
p("C27", "Token alphabets are those of RFC 8610",
  "Identifiers, numbers, text and byte strings accept exactly the characters the CDDL grammar (as documented by this library) allows at each position; in particular all Unicode characters from U+0080 to U+10FFFD may appear unescaped in text and byte strings, and the quote and backslash may not.",
  ["inputs"], "every Unicode scalar value at every position of a token",
  "1.1 million code points per position; tests use ASCII samples, and the upper bound was wrong.",
  [P], [("character predicates", P + ": ealpha_char, is_unescaped_schar, is_unescaped_bchar"), ("token parsers", P + ": ident, ident_tail, uint, text_literal, bytestring")], ["parse_cddl"]),
p("C28", "Literals denote the written value or are refused",
  "A number literal denotes the value written, in the base and with the sign written; a text or byte string literal denotes its decoded content (escapes, hex or base64). A literal that cannot be represented (integer overflow, malformed escape, hex, base64 or float) is a parse error of the matching kind, never a wrapped, truncated or partial value.",
  ["inputs"], "every literal",
  "Overflow and base/sign combinations are boundary cases of an infinite domain.",
  [P, PE], [("literal conversion", P + ": uint, uint_u64, parse_int, parse_float, parse_hex, bytestring, text_literal")], ["parse_cddl"]),
p("C29", "Operators parse to the construct they denote",
  "Each CDDL operator or bracket yields the syntax-tree construct it denotes with its operands in written order: `..` inclusive and `...` exclusive ranges, `.name` controls, `?` `*` `+` `n*m` occurrences with the written limits, `:` and `^ =>` cut keys and `=>` non-cut keys, `/` and `//` choices, `~`, `&`, brackets, parentheses and `<>` generics. A rule defined with an unsupported assignment operator is refused.",
  ["inputs", "programs"], "every combination of operators and operands",
  "Tests parse some fifty fragments; operand order or limit mistakes in others pass.",
  [P, A], [("AST construction", P + ": type1, type2, occur_star, occur, grpent_member, assemble_basic_member, group, rule, rule_val, name_generic")], ["parse_cddl"]),
p("C30", "The parser never panics",
  "Parsing any text returns a syntax tree or a parse error; no input makes the parser panic (failed unwrap, out-of-range slice, integer overflow, or an explicit panic for a supposedly impossible combination).",
  ["inputs"], "every input text",
  "A panic needs the one text that defeats an implicit assumption; there is no fuzzing.",
  [P, PE], [("guarded panic", P + ": assemble_basic_member / grpent_member"), ("slice offsets", P + ": recognizer, offset"), ("sign conversion", P + ": parse_int")], ["parse_cddl", "slice_parse_cddl", "flatten_from_str"]),
p("C31", "Validation is a pure function of its inputs",
  "Parsing, flattening and validating depend only on their arguments and change nothing outside their result: no global or thread-local state, no I/O, environment, clock or randomness, no result that depends on hash-map iteration order, and neither the schema nor the value passed in is modified (the library's own code is safe code and its schema and value types have no interior mutability).",
  ["histories", "schedules", "inputs"], "every sequence and interleaving of calls",
  "Tests cannot enumerate histories or interleavings; hidden state shows only under particular ones.",
  [V, F, P, J, C, CTX, I, U], [("shared references only, no unsafe, no statics", "src/lib.rs: forbid(unsafe_code)")], ALL + ["parse_cddl", "flatten"]),
p("C32", "Schemas and results can be shared across threads",
  "Parsed schemas, flattened rule sets, lookup contexts built from them, values and errors can be sent to and shared between threads.",
  ["programs", "schedules"], "every program that uses the public types from several threads",
  "No test uses threads; the auto traits are decided by types, not by runs.",
  [A, I, CTX, U, VAL, PE], [("field types free of shared-mutability", I + ", " + A + ", " + U)], ["ast::Cddl", "ivt::RuleDef", "context::BasicContext", "value::Value", "ValidateError", "parser::ParseError"]),
p("C33", "Every feature combination builds and fails closed",
  "The library builds with any combination of its JSON and CBOR features, each providing its own entry points; without CBOR support a `.cbor` constraint is reported as unsupported and never silently accepted or ignored. Everything else behaves identically in every combination.",
  ["configurations"], "the four feature combinations",
  "The suite runs only with the default features.",
  ["src/lib.rs", V, "Cargo.toml"], [("feature gates", "src/lib.rs; " + V + ": validate_control_cbor")], ALL),
p("C34", "Parse errors are always reported as parse errors",
  "Any failure of the CDDL parser reaches the caller as a parse error carrying the kind chosen where the failure was detected, through every public function that parses. A number, string or escape error in a literal is definitive: the parser does not discard it to try another reading of the same text.",
  ["inputs"], "every rejected text and every public function that parses",
  "Tests check the kind for six malformed literals.",
  [P, PE, U, F], [("error conversions", PE + ": From impls"), ("Failure rather than Error", P + ": map_res_fail")], ["parse_cddl", "flatten_from_str", "validate_json_str"]),
p("C35", "Parsing time is polynomial in the length of the text",
  "The time to parse a text, and the stack it needs, grow polynomially (and within the default stack) with the size of the text, whatever its nesting.",
  ["inputs"], "every input text",
  "Blow-up needs adversarial nesting; the tests have one guard for one bracket pattern.",
  [P], [("ordered alternatives that re-parse", P + ": grpent_val, type2")], ["parse_cddl"]),
p("C36", "Error messages name the right thing",
  "The text of a mismatch describes the schema part that was not satisfied (literal, built-in, range, occurrence or size of the choice) as a user would write it.",
  ["inputs"], "every mismatch",
  "Messages are compared in a few tests only.",
  [V, I, U], [("Display impls", I + ": Display for Node/Literal/Range/Occur")], ALL),
p("C37", "Conversion and numeric decoding are exact to the last bit",
  "A floating-point literal or data item denotes the IEEE double nearest to the written decimal, and two such doubles compare as the float total order used for literal matching says.",
  ["inputs"], "every decimal literal",
  "Infinite numeric domain.",
  [P, VAL, J], [("str::parse::<f64>, FloatOrd", P + ": parse_float; " + VAL)], ["parse_cddl", "validate_json_str"]),
p("C38", "Greedy matching agrees with RFC 8610 on every map",
  "A map is accepted whenever some assignment of its entries to schema members satisfies the schema, whatever the order of members with overlapping key types.",
  ["inputs"], "every map schema with overlapping key types",
  "Needs a search over assignments.",
  [V], [("first-match key search", V + ": map_search")], ALL),
]
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in PROPS:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(PROPS), "properties")
