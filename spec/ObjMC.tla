-------------------------------- MODULE ObjMC -------------------------------
(* The representation refines the insertion-ordered map, for every way of    *)
(* hashing the keys (collisions of any size) and every history.              *)
EXTENDS ObjTree, TLC, Json
CONSTANTS NKeys, NHashes, NVals, Emitting
Keys == 1..NKeys
VARIABLES hash, st, map
vars == <<hash, st, map>>

Init == hash \in [Keys -> 1..NHashes] /\ st = <<>> /\ map = EmptyObj
Set(k, x) == st' = TInsert(st, k, hash[k], x) /\ map' = Put(map, k, x)
Unset(k) == st' = TRemove(st, k, hash[k]) /\ map' = Del(map, k)
Clear == st' = <<>> /\ map' = EmptyObj
Last1(x) == st # <<>> /\ st' = [st EXCEPT ![Len(st)].v = x] /\ map' = [map EXCEPT !.v[Len(st)] = x]
\* write through a found reference
Through(k, x) == LET i == TFind(st, k, hash[k]) IN
                 i > 0 /\ st' = [st EXCEPT ![i].v = x] /\ map' = [map EXCEPT !.v[Find(map.k, k)] = x]
Next == /\ UNCHANGED hash
        /\ \/ \E k \in Keys, x \in 1..NVals : Set(k, x) \/ Through(k, x)
           \/ \E k \in Keys : Unset(k)
           \/ \E x \in 1..NVals : Last1(x)
           \/ Clear
Spec == Init /\ [][Next]_vars

Refines == Abs(st) = map
Lookups == \A k \in Keys : LET i == TFind(st, k, hash[k]) IN
              IF Has(map, k) THEN i = Find(map.k, k) /\ st[i].v = Get(map, k) ELSE i = 0
\* the tree depends on the order of the members only, not on the history
Canonical == st = TBuild(st)
Shape == Forward(st) /\ OneParent(st)
DistinctKeys == \A i, j \in 1..Len(map.k) : map.k[i] = map.k[j] => i = j

\* this state and the outcome of every operation on it
Emit == Emitting =>
    PrintT("@" \o ToJson([h |-> hash, o |-> map,
        ins |-> [k \in Keys |-> Put(map, k, 7)],
        rem |-> [k \in Keys |-> Del(map, k)],
        get |-> [k \in Keys |-> IF Has(map, k) THEN Get(map, k) ELSE 0]]))
=============================================================================
