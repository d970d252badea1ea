------------------------------- MODULE MacroMC ------------------------------
(* The array! and object! macros: a source form denotes the value of a JSON  *)
(* text.  The macros consume their input one item at a time, trying their    *)
(* rules in order; this module models that consumption (Munch) on token      *)
(* trees, checks that it finds exactly the items that were written, and      *)
(* emits every case as Rust source with the JSON text it denotes.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Emitting, Pairs
VARIABLES made, rest, acc, phase
vars == <<made, rest, acc, phase>>

(* A form: its token trees (only their number and kind matter to the rules), *)
(* its Rust source, and the text it denotes.  `tick()` denotes 1, 2, 3, ...  *)
(* in order of evaluation; its place in a text is left open ("#").           *)
F(src, txt, n) == [src |-> src, txt |-> txt, n |-> n, key |-> FALSE]
Plain == <<
    F("null", "null", 1), F("true", "true", 1), F("false", "false", 1), F("7", "7", 1), F("1.5", "1.5", 1),
    F("\"a\"", "\"a\"", 1), F("\"\"", "\"\"", 1), F("\"qu\\\"ote\"", "\"qu\\\"ote\"", 1),
    F("\"a string that is longer than thirty bytes\"", "\"a string that is longer than thirty bytes\"", 1),
    F("one", "1", 1), F("text", "\"Al\"", 1), F("(4)", "4", 1),
    F("[]", "[]", 1), F("{}", "{}", 1), F("[1]", "[1]", 1), F("[1,]", "[1]", 1), F("[null, true,]", "[null,true]", 1),
    F("{a: 1}", "{\"a\":1}", 1), F("{\"a\": null,}", "{\"a\":null}", 1), F("{[text]: 1}", "{\"Al\":1}", 1),
    F("[[null], {}]", "[[null],{}]", 1), F("{a: {b: [null, {}]}}", "{\"a\":{\"b\":[null,{}]}}", 1),
    F("[-5, one + 1, {x: tick(), y: [tick()]}]", "[-5,2,{\"x\":#,\"y\":[#]}]", 1),
    F("{a: 1, b: 2, a: 3}", "{\"a\":1,\"b\":2,\"a\":3}", 1) >>
Expressions == <<
    F("-5", "-5", 2), F("-0.25", "-0.25", 2), F("!true", "false", 2), F("one + 2", "3", 3), F("double(3)", "6", 2),
    F("name.clone()", "\"Al\"", 4), F("&name[..1]", "\"A\"", 3), F("Some(2)", "2", 2), F("None::<i32>", "null", 6),
    F("vec![1, 2]", "[1,2]", 3), F("[9, 10][1]", "10", 2), F("json::Null", "null", 4), F("tick()", "#", 2),
    F("if one == 1 { \"x\" } else { \"y\" }", "\"x\"", 7), F("{ let k = 3; k } + 1", "4", 3), F("one as u8", "1", 3),
    F("json::array![1, null]", "[1,null]", 6), F("json::object!{a: 1}", "{\"a\":1}", 6), F("json::value!([null])", "[null]", 6),
    F("json::JsonValue::new_array()", "[]", 8), F("u64::max_value()", "18446744073709551615", 5), F("'x' as u8", "120", 3),
    F("one == 1", "true", 4), F("[0u8; 2].len()", "2", 4) >>
Forms == Plain \o Expressions

(* Keys: how written, what they denote, and what colon or arrow follows.     *)
K(src, txt) == [src |-> src, txt |-> txt]
KeyForms == << K("a:", "\"a\""), K("type:", "\"type\""), K("null:", "\"null\""), K("\"b c\":", "\"b c\""), K("\"\":", "\"\""),
               K("[text]:", "\"Al\""), K("[name.as_str()]:", "\"Al\""), K("[if one == 1 { \"p\" } else { \"q\" }]:", "\"p\""),
               K("[&key_tick()]:", "\"k#\""), K("\"a\":", "\"a\""), K("long_identifier_name_of_more_than_thirty_bytes:", "\"long_identifier_name_of_more_than_thirty_bytes\"") >>
Arrows == << K("\"a\" =>", "\"a\""), K("text =>", "\"Al\""), K("&name =>", "\"Al\""), K("&key_tick() =>", "\"k#\""), K("stringify!(q) =>", "\"q\"") >>

Few == {1, 4, 13, Len(Plain) + 1, Len(Plain) + 4}          \* the company a form keeps
All == 1..Len(Forms)
\* a case: the forms, the keys (empty for an array), the style, whether a comma ends it
Shapes == LET one == {<<i>> : i \in All}
              with == {<<i, j>> : i \in All, j \in Few} \cup {<<j, i>> : i \in All, j \in Few} \cup {<<i, i>> : i \in All}
              three == {<<4, i, 6>> : i \in All} \cup {<<Len(Plain) + 13, i, Len(Plain) + 13>> : i \in All}
          IN one \cup with \cup three \cup (IF Pairs THEN {<<i, j>> : i \in All, j \in All} ELSE {})
Sum[s \in Seq(Nat)] == IF s = <<>> THEN 0 ELSE s[1] + 3 * Sum[Tail(s)]
Keyed(s, style) == LET ks == IF style = "colon" THEN KeyForms ELSE Arrows
                       at == Sum[s]
                   IN [i \in 1..Len(s) |-> ks[((at + 4 * i) % Len(ks)) + 1]]
Commas(s, i) == ((Sum[s] + i) % 2) = 0
IsExpr(i) == Forms[i].src \notin {"null", "[]", "[1,]", "[null, true,]", "[1]", "[[null], {}]", "{}", "{a: 1}", "{\"a\": null,}", "{[text]: 1}",
                                  "{a: {b: [null, {}]}}", "[-5, one + 1, {x: tick(), y: [tick()]}]", "{a: 1, b: 2, a: 3}"}
Cases ==
    {[mac |-> "array", items |-> s, keys |-> <<>>, trail |-> t] : s \in Shapes, t \in BOOLEAN}
    \cup {[mac |-> "object", items |-> s, keys |-> Keyed(s, "colon"), trail |-> Commas(s, 0)] : s \in Shapes}
    \cup {[mac |-> "legacy", items |-> s, keys |-> Keyed(s, "arrow"), trail |-> Commas(s, 1)] :
              s \in {x \in Shapes : \A i \in 1..Len(x) : IsExpr(x[i])}}

-----------------------------------------------------------------------------
(* Token trees of a case.                                                    *)
Comma == [t |-> "comma", i |-> 0]
Item(i) == [j \in 1..Forms[i].n |-> [t |-> IF Forms[i].n = 1 THEN "one" ELSE "part", i |-> i]]
RECURSIVE Tokens(_, _)
Tokens(s, trail) == IF Len(s) = 1 THEN Item(s[1]) \o (IF trail THEN <<Comma>> ELSE <<>>)
                    ELSE Item(s[1]) \o <<Comma>> \o Tokens(Tail(s), trail)

\* an expression extends to the comma: what $item:expr takes
ExprLen(ts) == CHOOSE n \in 1..Len(ts) : (\A j \in 1..n : ts[j].t # "comma") /\ (n = Len(ts) \/ ts[n + 1].t = "comma")

Init == /\ made \in Cases
        /\ rest = Tokens(made.items, made.trail) /\ acc = <<>> /\ phase = "item"
Take(n, last) == /\ acc' = Append(acc, rest[1].i)
                 /\ rest' = IF last THEN <<>> ELSE SubSeq(rest, n + 2, Len(rest))
                 /\ phase' = IF last THEN "end" ELSE "item"
                 /\ UNCHANGED made
\* the rules of the macro, in the order in which they are tried
Rule1 == Len(rest) >= 3 /\ rest[2].t = "comma"                                 \* item:tt, more
Rule2 == Len(rest) = 2 /\ rest[2].t = "comma"                                  \* item:tt,
Rule3 == Len(rest) = 1                                                         \* item:tt
Rule4 == ExprLen(rest) + 1 < Len(rest)                                         \* item:expr, more
Next == /\ phase = "item"
        /\ CASE Rule1 -> Take(1, FALSE)
             [] ~Rule1 /\ (Rule2 \/ Rule3) -> Take(1, TRUE)
             [] ~Rule1 /\ ~Rule2 /\ ~Rule3 /\ Rule4 -> Take(ExprLen(rest), FALSE)
             [] OTHER -> Take(ExprLen(rest), TRUE)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Consumed == phase = "end" => acc = made.items
Never == phase = "item" => rest # <<>> /\ rest[1].t # "comma"

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Srcs(c) == [i \in 1..Len(c.items) |-> (IF c.keys = <<>> THEN "" ELSE c.keys[i].src \o " ") \o Forms[c.items[i]].src]
Txts(c) == [i \in 1..Len(c.items) |-> (IF c.keys = <<>> THEN "" ELSE c.keys[i].txt \o ":") \o Forms[c.items[i]].txt]
Source(c) == (IF c.mac = "array" THEN "json::array![" ELSE "json::object!{") \o Join(Srcs(c), ", ")
             \o (IF c.trail THEN "," ELSE "") \o (IF c.mac = "array" THEN "]" ELSE "}")
Text(c) == IF c.mac = "array" THEN "[" \o Join(Txts(c), ",") \o "]" ELSE "{" \o Join(Txts(c), ",") \o "}"
Emit == (Emitting /\ phase = "end") => PrintT("@" \o ToJson([src |-> Source(made), txt |-> Text(made), mac |-> made.mac]))
=============================================================================
