#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "The parser accepts exactly the JSON texts",
 "For every Unicode text, parsing succeeds exactly when the text is one RFC 8259 JSON value surrounded by optional whitespace (space, tab, LF, CR, and also vertical tab and form feed wherever whitespace may stand), in which every \\u escape or pair of escapes denotes a Unicode scalar value and no more than 512 non-empty arrays and objects are open inside one another. Every other text is refused with an error value, and parsing never panics, aborts or hangs. The only valid texts that may also be refused are those with an integer literal of more than 32767 digits.",
 ["inputs"], "all Unicode texts of any length and nesting",
 "The tests try about a hundred hand-picked texts; acceptance is a statement about every text, including each byte in each grammatical position and each nesting depth around the limit.",
 ["src/parser.rs"], [("byte-driven predictive parser", "src/parser.rs Parser::parse"), ("depth limit", "src/parser.rs DEPTH_LIMIT")],
 [("stack", "open containers", "src/parser.rs parse(): stack"), ("index", "bytes consumed", "src/parser.rs Parser.index")],
 ["json::parse return value"])

prop("C02", "Parsed strings and keys are exactly what the literal denotes",
 "The string value or object key obtained by parsing a JSON string literal is exactly the sequence of characters the literal denotes: raw characters unchanged, each two-character escape replaced by its character, and each \\uXXXX escape (hexadecimal digits in either case) or surrogate pair replaced by its code point. This holds for every length, for every mixture and position of escapes, for values and keys alike, and regardless of what was parsed earlier in the same document.",
 ["inputs"], "all string literals in value and key position, in all documents",
 "Tests check a handful of escapes; decoding must be right for every code unit, for every escape position relative to raw text, and for several escaped strings in one document (they share a scratch buffer).",
 ["src/parser.rs", "src/short.rs"], [("fast path slice / escape slow path", "src/parser.rs expect_string!, read_complex_string"), ("code unit decoding", "src/parser.rs read_codepoint")],
 [("buffer", "scratch bytes shared by all escaped strings of one document", "src/parser.rs Parser.buffer")],
 ["JsonValue::as_str", "Object::iter keys"])

prop("C03", "Parsed numbers have the literal's exact decimal value",
 "A number literal parses to a number with exactly the literal's decimal value and sign (negative zero keeps its sign) whenever its digits, without the point and leading zeros, form an integer below 2^64 and the resulting decimal exponent lies in the signed 16-bit range. With more digits than that, the result is within one unit of the literal's 19th significant digit and has the same sign. Resulting exponents outside the range are clamped to its nearest end; they never wrap around or change the sign of the exponent.",
 ["inputs"], "all number literals: any number of integer, fraction and exponent digits",
 "Tests check about twenty literals; digit accumulation switches algorithm near 2^59 and 2^64, in the integer and in the fraction, and the exponent arithmetic has 16-bit limits no test reaches.",
 ["src/parser.rs", "src/number.rs"], [("digit accumulation with overflow thresholds", "src/parser.rs expect_number!, expect_fraction!, read_big_number"), ("exponent", "src/parser.rs expect_exponent")],
 [("num,e", "mantissa and decimal exponent so far", "src/parser.rs expect_number!")],
 ["Number::as_parts of the parsed value"])

prop("C04", "A parsed document has the text's structure, order and last-wins keys",
 "Parsing yields a value with the structure of the text: literals by their type and value, array elements all present and in source order, object members all present under their decoded keys in the order in which each key first appears, with the value of the key's last occurrence. Containers nest as written at every depth up to the limit, and the result does not depend on whitespace between tokens.",
 ["inputs"], "all valid JSON documents",
 "Tests cover a few small documents and one duplicate key; structure must survive every nesting, duplicate keys at any distance and nested inside re-assigned members, and objects of any size.",
 ["src/parser.rs", "src/object.rs"], [("explicit stack of open containers", "src/parser.rs parse(), StackBlock"), ("duplicate key override by index", "src/object.rs insert_index, override_at")],
 [("stack", "open containers with the member index being filled", "src/parser.rs StackBlock")],
 ["json::parse result walked through the public enum"])

prop("C05", "Parse errors name the first offending character and its position",
 "When a text is refused, the error is unexpected-end exactly if the text stops where more characters are required and no earlier character was offending; otherwise it describes the first offending point. For an unexpected character it carries that character with its 1-based line (lines end at LF) and 1-based column counted in characters; going beyond the nesting limit and \\u escapes that form no scalar value are reported as their own kinds of error. The error's display text shows the same facts.",
 ["inputs"], "all refused texts",
 "Four tests look at positions; position and kind are a function of every refused text, including errors at the start of a line, after multi-byte characters and inside escapes.",
 ["src/parser.rs", "src/error.rs"], [("position recovery", "src/parser.rs unexpected_character"), ("end detection", "src/parser.rs expect_byte!")],
 [("index", "bytes consumed when the error is found", "src/parser.rs Parser.index")],
 ["json::Error returned by json::parse, its Display"])

prop("C06", "Compact output is the exact minimal JSON of the value, through every sink",
 "For every value, compact serialization is the minimal JSON text of that value: members and elements in stored order with no whitespace, strings quoted with exactly the quote, backslash and control characters escaped (short escapes where JSON has them, else lower-case \\u00xx) and all other characters raw, numbers in their canonical text, NaN as null. JsonValue::dump, json::stringify, JsonValue::write into any writer, Object::dump and Display of a container produce this same text, which is always valid UTF-8.",
 ["inputs"], "all JSON values, all strings",
 "Tests dump about thirty values; escaping must be right for every character at every position and every container shape, for four separate generator implementations.",
 ["src/codegen.rs", "src/lib.rs", "src/value/mod.rs", "src/object.rs"], [("generator trait", "src/codegen.rs Generator"), ("escape table", "src/codegen.rs ESCAPED, write_string_complex")],
 None, ["JsonValue::dump", "JsonValue::write", "json::stringify", "Object::dump", "Display"])

prop("C07", "Pretty output is the compact output with exact indentation",
 "Pretty serialization with n spaces is the compact text with one space after each member colon and, around the contents of every non-empty container, a line feed before each element or member and before the closing bracket, followed by exactly n times the nesting depth spaces; empty containers stay on one line. This holds for every value and every n of the argument's type, and JsonValue::pretty, write_pretty, json::stringify_pretty, Object::pretty and (with n = 4) alternate Display agree.",
 ["inputs"], "all JSON values and all indentation widths",
 "Tests pretty-print two small values with widths 2 and 4; layout depends on nesting depth times width for every shape.",
 ["src/codegen.rs", "src/lib.rs", "src/value/mod.rs", "src/object.rs"], [("indent bookkeeping", "src/codegen.rs PrettyGenerator, PrettyWriterGenerator")],
 [("dent", "current nesting depth", "src/codegen.rs PrettyGenerator.dent")],
 ["JsonValue::pretty", "JsonValue::write_pretty", "json::stringify_pretty", "Object::pretty", "{:#}"])

prop("C08", "Serializing and parsing back gives an equal value",
 "For every value without NaN whose nesting is within the parser's limit, parsing its compact or pretty text (any indentation) succeeds and yields a value equal to the original, with the same member order, and exactly the same strings and numeric values. Consequently serializing the parsed result again reproduces the same text.",
 ["inputs"], "all NaN-free values nested at most 512 deep, however they were built (parsed, converted, mutated)",
 "A test round-trips one file; the guarantee couples escape tables, number printing and number parsing over all values.",
 ["src/codegen.rs", "src/parser.rs", "src/util/print_dec.rs"], [("printer", "src/codegen.rs"), ("parser", "src/parser.rs")],
 None, ["json::parse(&v.dump())", "json::parse(&v.pretty(n))"])

prop("C09", "Every number prints as a JSON number with its exact value",
 "For every non-NaN number, whatever its sign, 64-bit mantissa and 16-bit decimal exponent, the printed text (in serialization and in Display) is a single valid JSON number literal that denotes exactly the number's value and sign; zero prints as 0 or -0. A number with decimal exponent zero prints as plain integer digits, and one with between 1 and 17 decimal places prints positionally, without exponent notation.",
 ["inputs"], "all (sign, mantissa, exponent) triples",
 "Tests print about twenty-five numbers; the digit writer has separate paths by digit count, exponent range and exponent sign, with a fixed 30-byte buffer.",
 ["src/util/print_dec.rs", "src/number.rs", "src/codegen.rs"], [("decimal writer", "src/util/print_dec.rs write, write_num")],
 None, ["Number Display", "JsonValue::dump of a number"])

prop("C10", "Numbers are equal exactly when their decimal values are equal",
 "Two numbers compare equal exactly when they denote the same decimal value, however mantissa and exponent split it; positive and negative zero are equal, NaN equals only NaN, and numbers of different sign or magnitude are never equal. Comparison with Rust integers follows the integer's exact value, gives the same answer with the operands swapped, and no comparison panics.",
 ["inputs"], "all pairs of numbers, all integer types",
 "Tests compare five hand-picked pairs with small exponents; equality must hold or fail correctly for all exponent differences (up to 65535) and for mantissas whose scaled products exceed 64 bits.",
 ["src/number.rs", "src/value/implements.rs"], [("scaled comparison", "src/number.rs PartialEq for Number, decimal_power")],
 None, ["Number == Number", "JsonValue == integer"])

prop("C11", "Integer conversions are exact or refused",
 "Every value of every Rust integer type converts into a number with exactly that value. Reading a number as an integer type (as_u8 to as_isize, TryFrom) yields an integer only if the number's value is exactly that integer, always does so for a number with decimal exponent zero and value in range of the type (negative zero may be refused by unsigned types), and otherwise reports absence; it never wraps, truncates or panics.",
 ["inputs"], "all integers of all widths, all numbers",
 "Tests use 42, -1, 40000 and -5.5; the edges (type minima and maxima, mantissas above 2^63, negative values at the limit) are where wrapping occurs.",
 ["src/number.rs", "src/value/mod.rs", "src/value/implements.rs"], [("From/TryFrom implementations", "src/number.rs impl_unsigned!, impl_signed!"), ("narrowing", "src/value/mod.rs number_to_unsigned!, number_to_signed!")],
 None, ["JsonValue::from(int)", "JsonValue::as_*"])

prop("C12", "Fixed-point reading scales exactly",
 "Reading a number at a fixed decimal point p (as_fixed_point_u64, as_fixed_point_i64) yields the number's exact value times 10^p truncated toward zero, whenever that result fits the target type, for every number and every p. NaN yields absence, and so does a number with negative sign for the unsigned form; the call never panics.",
 ["inputs"], "all numbers, all points 0..65535",
 "Tests use three numbers with points 0, 2 and 4; scaling factors of 10^20 and more, large mantissas and extreme exponents are untested.",
 ["src/number.rs", "src/value/mod.rs"], [("scaling", "src/number.rs as_fixed_point_u64, as_fixed_point_i64, decimal_power")],
 None, ["Number::as_fixed_point_u64", "Number::as_fixed_point_i64"])

prop("C13", "Float conversions are faithful in both directions",
 "Every finite f64 or f32 converts into a number whose decimal value is nearest to that float (as an f64) and to no other f64, with its sign; NaN and infinities become the NaN number. Reading a number as f64 (f32) gives the correctly rounded result when the decimal exponent is zero, and when the mantissa is at most 2^53 (2^24) and the exponent within 22 (10) of zero, and otherwise a result within a relative error of 2^-50 (2^-20) in the normal range, with zero only for values that underflow and infinity only for values that overflow; comparisons of a number with a float agree with that reading.",
 ["inputs"], "all floats; all (sign, mantissa, exponent) triples",
 "Tests convert about fifteen floats; the shortest-digits algorithm and the power-of-ten scaling have table- and range-dependent paths across the whole exponent range, including subnormals, zero mantissas with large exponents and the f32 range.",
 ["src/number.rs", "src/util/grisu2.rs", "src/util/diyfp.rs"], [("Grisu2", "src/util/grisu2.rs convert"), ("scaling", "src/number.rs exponentiate_f64, exponentiate_f32")],
 None, ["Number::from(f64)", "f64::from(Number)", "as_f64", "as_f32"])

prop("C14", "An object is an insertion-ordered map under every history",
 "Under every sequence of operations an object behaves as a map from string keys to values that remembers insertion order: inserting or assigning an existing key replaces its value in place, a new key goes last, lookups see the latest value or report absence, removal returns the stored value and keeps the others with their order, clear empties it. This is independent of the number, length, content, insertion order and hash collisions of the keys, of pre-allocated capacity, and of whether the object was built by inserts, from an iterator, by parsing or by cloning.",
 ["histories"], "all sequences of insert, get, get_mut, index, index_mut, remove, clear, override_last, clone, from_iter over all key sets",
 "Tests perform one insert or one remove on objects of two or three short keys; the hashed binary tree, its rebuilding on removal and its key pointers must be right after any history, including full 64-bit hash collisions.",
 ["src/object.rs", "src/value/mod.rs"], [("hashed binary tree over a vector", "src/object.rs insert_index, get, get_mut"), ("rebuild on removal", "src/object.rs remove")],
 [("store", "nodes in insertion order with left/right links", "src/object.rs Object.store")],
 ["Object::iter, get, len; JsonValue::has_key, entries"])

prop("C15", "Values own their contents: no aliasing, no dangling, no leak",
 "A clone, and any value taken, popped or removed from a container, is independent of where it came from: no later operation on one is visible in the other, and dropping one never disturbs the other. Every key and value keeps its contents unchanged across growth, moves, clearing and removal elsewhere until it is itself changed, memory outside live values is never read or written, and once all values are dropped every allocation has been released exactly once.",
 ["histories"], "all sequences of operations over several values that are cloned, moved into each other, mutated and dropped in any order",
 "No test clones an object and mutates both, drops values in varied order or looks at memory; keys are held through raw pointers into a vector that reallocates, so errors show only after particular histories.",
 ["src/object.rs", "src/short.rs", "src/value/mod.rs"], [("key pointer repair", "src/object.rs Key::attach, fix_ptr, Clone for Object"), ("key release", "src/object.rs Drop for Key")],
 [("ptr", "pointer to inline or heap key bytes", "src/object.rs Key")],
 ["full projection of every live value after each step; allocator events"])

prop("C16", "Value mutators follow array and object semantics, and refuse wrong types",
 "Under every history, push, pop, array_remove, insert, remove, take, take_string and clear change a value exactly as their documentation says: sequence operations on arrays, map operations on objects, take leaves null behind, clear empties arrays, objects and strings and turns other values into null. Applied to a value of the wrong type, or out of range, each reports its documented outcome (a wrong-type error, null, or nothing) and leaves the value unchanged.",
 ["histories"], "all sequences of mutators on values of all types, at all positions in nested documents",
 "Tests call each mutator about once on one type; outcome and resulting value depend on the current type, length and position for every history.",
 ["src/value/mod.rs", "src/object.rs"], [("mutators", "src/value/mod.rs push, pop, array_remove, insert, remove, take, take_string, clear")],
 None, ["return values and the full projection of the document after each call"])

prop("C17", "Indexing never panics, reads never change, writes create what is missing",
 "Reading any value by any key or position yields the stored member or element, or null when there is none or the value has another type, and never changes the value. Writing by key turns a non-object into an object holding just that key, replaces an existing member in place or appends a new one; writing by position replaces the element in range and appends at the end of an array otherwise, a non-array first becoming a one-null array; chained indexing composes these rules. No indexing panics, and string, String and &String keys behave alike.",
 ["histories"], "all values, keys, positions and chains of reads and writes",
 "Tests index a few existing and missing members; the rules must hold for every type at every step of every chain and for every position up to usize::MAX.",
 ["src/value/mod.rs", "src/object.rs"], [("Index/IndexMut", "src/value/mod.rs, src/object.rs")],
 None, ["index expressions and the full projection of the document"])

prop("C18", "How a string is stored is never observable",
 "A string value behaves the same whether it is held inline or on the heap, whatever its length and however it was produced (converted from &str or String, parsed, constructed): type tests, as_str, is_empty, len, equality in both directions with str, String and other values, membership tests, take_string, clear, Display, serialization and cloning give the same results.",
 ["inputs"], "all strings in both representations, all operations that accept a string value",
 "Tests compare one three-letter string in both representations; every operation is implemented separately for each representation and the representation changes with the length (30 bytes).",
 ["src/short.rs", "src/value/mod.rs", "src/value/implements.rs"], [("inline strings", "src/short.rs Short"), ("length switch", "src/value/implements.rs From<&str>")],
 None, ["all public operations on JsonValue::Short and JsonValue::String"])

prop("C19", "Value equality is structural, type-aware and an equivalence",
 "Two values are equal exactly when they have the same type and contents: null, booleans by value, strings by characters, numbers by decimal value, arrays element by element in order, objects by having equal values under the same keys whatever their order. Equality is reflexive, symmetric and transitive, agrees with comparison against Rust primitives of the same type (false against any other type), and array membership tests agree with it.",
 ["inputs"], "all pairs and triples of values",
 "Tests compare a handful of small values; equality must be right for every pair including near-misses deep inside, reordered objects and objects differing only in one key.",
 ["src/value/mod.rs", "src/value/implements.rs", "src/object.rs"], [("PartialEq for JsonValue / Object", "src/value/mod.rs, src/object.rs"), ("primitive comparisons", "src/value/implements.rs implement_eq!")],
 None, ["==, !=, JsonValue::contains"])

prop("C20", "Writing to a failing writer delivers a prefix and reports the error",
 "Serializing into a writer that accepts data in arbitrary pieces, is interrupted, or fails at any point delivers exactly the first bytes of the compact (or pretty) text, in order and without gaps or repetition. The call returns Ok exactly when the whole text was delivered, otherwise it returns the writer's own error, stops writing after it, and neither panics nor changes the value; writing again later starts afresh.",
 ["fault_sequences", "inputs"], "all values and all sequences of short writes, interruptions and failures at every byte",
 "Tests only write into a Vec, which cannot fail; each of the several write sites must propagate an error and tolerate partial writes.",
 ["src/codegen.rs", "src/value/mod.rs", "src/util/print_dec.rs"], [("WriterGenerator / PrettyWriterGenerator", "src/codegen.rs"), ("number writer", "src/util/print_dec.rs")],
 None, ["io::Result of JsonValue::write and write_pretty, bytes received by the writer"])

prop("C21", "Building values from Rust data gives the denoted value",
 "Converting Rust data gives the value it denotes: &str and String a string, booleans a boolean, numbers a number, None null and Some its content, vectors and slices an array in order, maps and key-value iterators an object in iteration order with later duplicates replacing earlier ones in place. The array! and object! macros, with identifier, literal or computed keys, nested literals, null, expressions and trailing commas, build the same value as parsing the corresponding JSON text.",
 ["programs", "inputs"], "all Rust values of the convertible types and all macro invocations",
 "Tests build about twenty values; conversion and macro expansion must be right for every nesting, size and mixture of forms.",
 ["src/lib.rs", "src/value/implements.rs", "src/object.rs"], [("macros", "src/lib.rs array!, object!, value!"), ("From implementations", "src/value/implements.rs")],
 None, ["the constructed JsonValue"])

prop("C22", "Type tests and accessors describe every value consistently",
 "For every value exactly one of is_null, is_boolean, is_number, is_string, is_array and is_object is true, and as_bool, as_number and as_str return the content exactly for the matching type. is_empty is true exactly for null, false, zero or NaN numbers, and empty strings, arrays and objects; len is the number of elements or members and 0 for everything else; has_key tells whether an object has the key, and has_key and contains are false on values that are not objects or arrays respectively.",
 ["inputs"], "all values of all types, in every state they can reach",
 "Tests query each accessor on one or two values; the answers must be consistent for every value and internal representation, including those reached by mutation.",
 ["src/value/mod.rs", "src/number.rs"], [("predicates and accessors", "src/value/mod.rs is_*, as_*, is_empty, len, has_key, contains")],
 None, ["predicates and accessors of JsonValue"])

prop("C23", "Custom generators see a faithful, balanced call protocol",
 "A user-defined generator that serializes a value through the Generator trait's default methods receives, in document order, exactly the bytes of the compact text interleaved with layout calls: one indent and new_line at the start of each non-empty container, a new_line after every comma, one dedent and new_line before its closing bracket, none of them for an empty container, and a write_min call for each member colon. indent and dedent balance at every point, and an error returned by any overridden method ends serialization at once and is returned. Strings, literals and punctuation reach the generator through its write and write_char methods; only the digits of numbers and of \\u escapes may go straight to its writer.",
 ["inputs", "fault_sequences"], "all values and all failure points of the generator's methods",
 "One test uses one custom generator on one object; the protocol holds over all shapes and all failure points.",
 ["src/codegen.rs"], [("default methods", "src/codegen.rs Generator::write_json, write_object, write_string")],
 None, ["calls received by a recording Generator implementation"])

prop("C24", "Iterators visit every element once, from both ends, and write through",
 "Iterating over an array's members or an object's entries, by shared or mutable reference and in any mixture of steps from the front and from the back, visits every element or member exactly once, in stored order from the front and reverse order from the back, and then stays exhausted. Entry and member iterators report the exact number of remaining items (len and size_hint) at each point, values changed through a mutable iterator are the ones seen afterwards, and on values of other types the iterators are empty.",
 ["histories"], "all values and all interleavings of next, next_back and len",
 "Tests iterate over two-element containers in one direction at a time; mixtures of both ends, remaining counts and larger containers are not tested.",
 ["src/object.rs", "src/value/mod.rs"], [("Iter, IterMut", "src/object.rs"), ("members, entries", "src/value/mod.rs")],
 None, ["JsonValue::members, members_mut, entries, entries_mut, Object::iter, iter_mut"])

prop("C25", "Numbers keep the parts they are made from, and negation only flips the sign",
 "A number made with from_parts_unchecked has exactly the given sign, mantissa and decimal exponent, and as_parts gives them back; from_parts makes the number of the same value and sign from which trailing zeros of the mantissa have been removed as long as the exponent is negative (zero loses a negative exponent altogether), and changes nothing else. Negation flips the sign and keeps the rest, so twice is the identity, and leaves NaN NaN. is_nan, is_zero, is_sign_positive and is_empty (zero or NaN) agree with those parts, and a number comes out of a JsonValue as it went in.",
 ["inputs"], "all (sign, mantissa, exponent) triples, NaN, and any number of negations",
 "Tests build about ten numbers from parts and never negate one; the parts are packed and sign and NaN share a byte, and stripping has to stop at the right place for every exponent and every run of zeros.",
 ["src/number.rs"], [("construction and stripping", "src/number.rs from_parts, from_parts_unchecked, as_parts"), ("negation", "src/number.rs Neg for Number")],
 [("category", "sign and NaN-ness", "src/number.rs Number.category")], ["Number::as_parts, is_nan, is_zero, is_sign_positive, is_empty"])

prop("C26", "Calls are independent: across threads, re-entry and panicking callbacks",
 "The outcome of every call is determined by its arguments alone: not by calls made before, not by calls other threads are making at the same time, and not by what the caller's own code does when the library calls back into it. Writers, generators, formatters, iterators and conversions may themselves call the library, be suspended while other threads do, or panic; a panic passes through to the caller, ends that call only, and leaves every other value and call as it was. Values, objects, numbers, errors and in-memory generators can be sent to and shared between threads; reading or serializing one shared value from several threads gives each the answers it gets alone.",
 ["inputs", "schedules"], "all interleavings of calls on any number of threads, and all nestings of calls inside callbacks",
 "No test runs two calls at once, calls the library from a callback, or lets a callback panic; scratch buffers, caches and statics shared by calls would go unnoticed.",
 ["src/parser.rs", "src/codegen.rs", "src/object.rs", "src/value/mod.rs", "src/value/implements.rs", "src/number.rs"],
 [("per-call state only", "src/parser.rs Parser, src/codegen.rs generators"), ("unsafe impl Sync, Send for Key", "src/object.rs")],
 [("NULL", "the only static values are constants", "src/object.rs NULL, src/value/mod.rs NULL")],
 ["json::parse, dump, pretty, write, write_pretty, Generator methods, Display, FromIterator, From<Vec<T>> called concurrently and from callbacks"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
