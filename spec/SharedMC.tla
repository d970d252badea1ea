------------------------------ MODULE SharedMC ------------------------------
(* Calls of the library as they interleave.  Every thread has a stack of     *)
(* calls in progress, as the caller's own code (a writer, a generator, an    *)
(* iterator, a conversion) may call the library while the library is calling *)
(* it.  A call delivers its result in pieces, with a callback for each; a    *)
(* callback may panic, which ends its call.  What a call has still to        *)
(* deliver is its own: nothing the others do can change it.                  *)
(*                                                                           *)
(* With Scratch = TRUE all calls keep it in one place; that this is seen to  *)
(* be wrong is the model's own control.                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS NThreads, MaxCalls, MaxNest, Pieces, MaxPanics, Scratch, Emitting
Threads == 1..NThreads

VARIABLES st,       \* thread -> stack of calls in progress, [c, got, rest]
          buf,      \* the one place, with Scratch
          done,     \* calls ended, [c, got, ok]
          h         \* the schedule
vars == <<st, buf, done, h>>

Text(c) == [i \in 1..Pieces |-> 10 * c + i]
Started == Len(SelectSeq(h, LAMBDA x : x[1] \in {"begin", "whole"}))
Panics == Len(SelectSeq(h, LAMBDA x : x[1] = "panic"))
Top(t) == Last(st[t])
Rest(f) == IF Scratch THEN buf ELSE f.rest

Init == st = [t \in Threads |-> <<>>] /\ buf = <<>> /\ done = <<>> /\ h = <<>>

\* a call runs up to its first callback
Begin(t) == LET c == Started + 1 IN
    /\ c <= MaxCalls /\ Len(st[t]) < MaxNest
    /\ (c = 1 => t = 1)
    /\ st' = [st EXCEPT ![t] = Append(@, [c |-> c, got |-> <<>>, rest |-> Text(c)])]
    /\ buf' = Text(c)
    /\ h' = Append(h, <<"begin", t>>)
    /\ UNCHANGED done
\* a call without callbacks
Whole(t) == LET c == Started + 1 IN
    /\ c <= MaxCalls /\ c > 1
    /\ \E u \in Threads : st[u] # <<>>             \* (of interest while others are in progress)
    /\ done' = Append(done, [c |-> c, got |-> Text(c), ok |-> TRUE])
    /\ buf' = <<>>
    /\ h' = Append(h, <<"whole", t>>)
    /\ UNCHANGED st
\* the innermost call's callback takes a piece and returns
Piece(t) ==
    /\ st[t] # <<>>
    /\ LET f == Top(t)
           r == Rest(f)
           g == [f EXCEPT !.got = IF r = <<>> THEN @ ELSE Append(@, Head(r)), !.rest = IF @ = <<>> THEN @ ELSE Tail(@)]
           over == Len(f.got) + 1 >= Pieces \/ r = <<>>
       IN /\ buf' = IF buf = <<>> THEN buf ELSE Tail(buf)
          /\ st' = [st EXCEPT ![t] = IF over THEN Front(@) ELSE Append(Front(@), g)]
          /\ done' = IF over THEN Append(done, [c |-> g.c, got |-> g.got, ok |-> TRUE]) ELSE done
    /\ h' = Append(h, <<"piece", t>>)
\* it panics
Panic(t) ==
    /\ st[t] # <<>> /\ Panics < MaxPanics
    /\ st' = [st EXCEPT ![t] = Front(@)]
    /\ done' = Append(done, [c |-> Top(t).c, got |-> Top(t).got, ok |-> FALSE])
    /\ h' = Append(h, <<"panic", t>>)
    /\ UNCHANGED buf
Next == \E t \in Threads : Begin(t) \/ Whole(t) \/ Piece(t) \/ Panic(t)
Spec == Init /\ [][Next]_vars

\* every call delivers its own text, whatever else is going on
Own == \A i \in 1..Len(done) : IF done[i].ok THEN done[i].got = Text(done[i].c) ELSE IsPrefix(done[i].got, Text(done[i].c))
Running == \A t \in Threads : \A i \in 1..Len(st[t]) : st[t][i].got \o st[t][i].rest = Text(st[t][i].c)
\* every call is in one place, and ends once
Calls == UNION {{st[t][i].c : i \in 1..Len(st[t])} : t \in Threads}
Counted == /\ Calls \cap {done[i].c : i \in 1..Len(done)} = {}
           /\ Cardinality(Calls) + Len(done) = Started
           /\ Cardinality({done[i].c : i \in 1..Len(done)}) = Len(done)
\* a call only ends if it panics itself
Survive == Cardinality({i \in 1..Len(done) : ~done[i].ok}) = Panics

Over == Started = MaxCalls /\ \A t \in Threads : st[t] = <<>>
Emit == Emitting /\ Over => PrintT("@" \o ToJson([h |-> h]))
=============================================================================
