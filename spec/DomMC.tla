-------------------------------- MODULE DomMC -------------------------------
(* Laws of documents, and every operation on every small document, with its  *)
(* outcome, for replaying.                                                   *)
EXTENDS Dom, TLC, Json
CONSTANTS MaxSize, MaxPath, Indexing, Emitting

\* documents by number of nodes
LeafSet == {VNull, VBool(TRUE), VInt(7), VStr(<<97>>), VStr([i \in 1..31 |-> 98])}
KA == <<97>>
KB == [i \in 1..33 |-> 98]
Seqs(S, n) == [1..n -> S]
RECURSIVE Docs(_)
Docs(n) == IF n = 0 THEN {} ELSE IF n = 1 THEN LeafSet \cup {EmptyArr, EmptyObj}
           ELSE LET D == TLCEval([m \in 1..(n - 1) |-> Docs(m)])
                    Two == UNION {{<<x, y>> : x \in D[m], y \in D[n - 1 - m]} : m \in 1..(n - 2)}
                IN {VArr(<<x>>) : x \in D[n - 1]} \cup {VArr(s) : s \in Two}
                   \cup {VObj(<<k>>, <<x>>) : k \in {KA, KB}, x \in D[n - 1]}
                   \cup {VObj(ks, s) : ks \in {<<KA, KB>>, <<KB, KA>>}, s \in Two}
Universe == UNION {Docs(n) : n \in 1..MaxSize}
Steps == {[k |-> KA], [k |-> KB], [i |-> 0], [i |-> 1], [i |-> Huge]}
Paths == UNION {Seqs(Steps, n) : n \in 0..MaxPath}
Args == {VInt(1), VStr(<<99>>), VArr(<<VNull>>)}
Mutators == {[c |-> "pop"], [c |-> "take"], [c |-> "takestr"], [c |-> "clear"]}
    \cup {[c |-> "push", x |-> x] : x \in Args} \cup {[c |-> "aremove", i |-> i] : i \in {0, 1, Huge}}
    \cup {[c |-> "insert", k |-> k, x |-> x] : k \in {KA, KB}, x \in Args} \cup {[c |-> "remove", k |-> k] : k \in {KA, KB}}
Accesses == {[c |-> "assign", x |-> VInt(1)], [c |-> "assign", x |-> EmptyObj], [c |-> "touch"], [c |-> "read"]}
VARIABLES v, p, c, st      \* st: whether p and c have been chosen
Init == v \in Universe /\ p = <<>> /\ c = [c |-> "read"] /\ st = FALSE
Next == /\ ~st /\ st' = TRUE /\ UNCHANGED v
        /\ IF Indexing THEN p' \in Paths /\ c' \in Accesses
           ELSE p' \in {q \in Paths : Exists(v, q)} /\ c' \in Mutators
Spec == Init /\ [][Next]_<<v, p, c, st>>

Step == IF c.c = "read" THEN To(v, Gives(Read(v, p))) ELSE At(v, p, c)
Place == Read(v, p)

\* writing makes exactly the place readable, when it is not beyond the end
Reachable == \A i \in 1..Len(p) : IsKey(p[i]) \/ Exists(Touch(v, p), SubSeq(p, 1, i))
WriteRead == Indexing /\ c.c = "assign" /\ Reachable => Read(Write(v, p, c.x), p) = c.x
Overwrite == Indexing /\ c.c = "assign" /\ Reachable => Write(Write(v, p, VNull), p, c.x) = Write(v, p, c.x)
TouchSame == st /\ Indexing /\ Exists(v, p) => Touch(v, p) = v /\ Write(v, p, Read(v, p)) = v
OffPathSame == st => OffPath(v, Step.post, p)
\* places as seen through one step compose
Composes == Indexing /\ c.c = "assign" /\ Len(p) > 0 =>
    LET w == Room(v, p[1]) n == SpotIn(v, w, p[1]) IN
    Write(v, p, c.x) = WithMember(w, n, Write(Member(w, n), Tail(p), c.x))
\* refusals change nothing; nothing comes from nowhere; nothing is lost
Refuses == Step.r.is \in {"wrong", "none"} => Step.post = v
FromThere == st => Atoms(Step.post) \subseteq (Atoms(v) \cup Nothing \cup PathKeys(p) \cup (IF "x" \in DOMAIN c THEN Atoms(c.x) ELSE {})
                                         \cup (IF "k" \in DOMAIN c THEN {<<"key", c.k>>} ELSE {}))
Conserved == Step.r.is = "val" /\ c.c # "read" => Atoms(v) \subseteq (Atoms(Step.post) \cup Atoms(Step.r.x) \cup (IF "k" \in DOMAIN c THEN {<<"key", c.k>>} ELSE {}))
\* pairs that undo each other
PushPop == c.c = "push" /\ Place.t = "arr" => At(Step.post, p, [c |-> "pop"]) = To(v, Gives(c.x))
InsertRemove == c.c = "insert" /\ Place.t = "obj" /\ ~Has(Place, c.k) => At(Step.post, p, [c |-> "remove", k |-> c.k]) = To(v, Gives(c.x))
TakeAssign == c.c = "take" => Write(Step.post, p, Step.r.x) = v
ClearEmpty == c.c = "clear" => EmptyOf(Read(Step.post, p))
\* one type, told by the accessors
Emit == Emitting /\ st => PrintT("@" \o ToJson([v |-> v, p |-> p, c |-> c, r |-> Step.r, post |-> Step.post,
                                          len |-> LenOf(Step.post), empty |-> EmptyOf(Step.post)]))
=============================================================================
