-------------------------------- MODULE SinkMC ------------------------------
(* A serializer that offers its text in arbitrary pieces to a writer that    *)
(* answers in every possible way: whatever happens, what was delivered is a  *)
(* prefix of the text, Ok means all of it, and an error is the writer's own. *)
(* Each complete behaviour's answers are emitted as a plan for the real code.*)
EXTENDS Sink, FiniteSets, TLC, Json

CONSTANTS Size, MaxOffers, Emitting
Text == [i \in 1..Size |-> i]        \* distinct bytes, so gaps and repeats show

VARIABLES s, got, plan, ret
vars == <<s, got, plan, ret>>
None == [is |-> "none"]

Init == s = S0(Text) /\ got = <<>> /\ plan = <<>> /\ ret = None
Resps(n) == {[is |-> "take", k |-> k] : k \in 1..n} \cup {[is |-> "intr"], [is |-> "zero"]}
            \cup {[is |-> "fail", tag |-> t] : t \in {1, 2}}
Write == /\ ret = None /\ s.phase = "run" /\ s.rest # <<>> /\ Len(plan) < MaxOffers
         /\ \E n \in 1..Len(s.rest) : \E r \in Resps(n) :
              LET buf == SubSeq(s.rest, 1, n) IN
              /\ OfferOK(s, buf, r)
              /\ s' = Offer(s, buf, r)
              /\ got' = IF r.is = "take" THEN got \o SubSeq(buf, 1, r.k) ELSE got
              /\ plan' = Append(plan, r)
         /\ UNCHANGED ret
Return == /\ ret = None
          /\ ret' \in {r \in {[is |-> "ok"], [is |-> "zero"], [is |-> "fail", tag |-> 1], [is |-> "fail", tag |-> 2]} : ReturnOK(s, r)}
          /\ UNCHANGED <<s, got, plan>>
Next == Write \/ Return
Spec == Init /\ [][Next]_vars

PrefixDelivered == IsPrefix(got, Text) /\ got \o s.rest = Text
OkMeansAll == ret.is = "ok" => got = Text
AllMeansOk == ret # None /\ got = Text => ret.is = "ok"
OwnError == ret.is = "fail" => plan # <<>> /\ Last(plan) = ret
NothingAfterError == \A i \in 1..(Len(plan) - 1) : plan[i].is \in {"take", "intr"}
\* the outcome is decided by the answers
Determined == ret # None => Cardinality({r \in {"ok", "zero", "fail"} :
                 ReturnOK(s, IF r = "fail" THEN [is |-> r, tag |-> s.tag] ELSE [is |-> r])}) = 1
Emit == Emitting /\ ret # None => PrintT("@" \o ToJson([plan |-> plan]))
=============================================================================
