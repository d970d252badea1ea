------------------------------ MODULE TraceFacts ----------------------------
(* Conformance of what values say about themselves: predicates, accessors,   *)
(* equality, strings in both representations, conversions, the macros, and   *)
(* iterators.                                                                *)
EXTENDS Emit, Parser, Iter, TraceLines

Types == <<"null", "bool", "num", "str", "arr", "obj">>
Only(v, t) == IF v.t = t THEN [is |-> "val", x |-> v] ELSE [is |-> "none"]
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
SameAll(s, x) == \A i \in 1..Len(s) : s[i] = x

\* C22
FactsOK(e, v) ==
    /\ \A i \in 1..6 : e.is[i] = (v.t = Types[i])
    /\ e.bool = Only(v, "bool") /\ e.num = Only(v, "num") /\ e.str = Only(v, "str")
    /\ e.empty = EmptyOf(v) /\ e.len = LenOf(v)
    /\ All(e.hk, LAMBDA q : q.r = (v.t = "obj" /\ Find(v.k, q.k) > 0))
    /\ All(e.ct, LAMBDA q : q.r => v.t = "arr")
    /\ v.t # "num" => SameAll(e.reads, FALSE)

\* C19
EqOK(e) == LET q == ValEq(e.a, e.b) IN SameAll(e.eq, q) /\ SameAll(e.ne, ~q)
Contains19(e) == LET v == e.v IN
    All(e.ct, LAMBDA q : q.r = (v.t = "arr" /\ \E i \in 1..Len(v.a) : ValEq(v.a[i], q.x)))
PrimOK(e) == All(e.ps, LAMBDA p : SameAll(p.r, IF p.kind = "float" THEN e.v.t = "num" /\ p.w ELSE ValEq(e.v, p.x)))

\* C18
StrOK(e) == LET s == e.s  same == (e.s = e.t) IN
    All(e.obs, LAMBDA o :
        /\ o.is = <<FALSE, FALSE, FALSE, TRUE, FALSE, FALSE>>
        /\ o.as = s /\ o.empty = (s = <<>>) /\ o.len = 0
        /\ SameAll(o.self, TRUE) /\ SameAll(o.other, same) /\ SameAll(o.differs, ~same)
        /\ SameAll(o.not, FALSE)
        /\ o.taken = [is |-> "val", x |-> VStr(s)] /\ o.left = VNull
        /\ o.cleared = VStr(<<>>) /\ SameAll(o.clearedeq, TRUE) /\ o.clearedempty
        /\ o.disp = s /\ o.fmts = e.obs[1].fmts
        /\ All(o.dumps, LAMBDA d : d = StrText(s))
        /\ SameAll(o.clones, VStr(s)))

\* C21
ConvOK(e) ==
    /\ LET x == IF e.kind = "pairs" THEN FromPairs([i \in 1..Len(e.ks) |-> <<e.ks[i], e.vs[i]>>]) ELSE e.x IN
       /\ All(e.got, LAMBDA g : ValSame(g, x))
       /\ All(e.texts, LAMBDA t : t = Compact(Calls(x)))
       /\ All(e.pretties, LAMBDA t : t = Pretty(Calls(x), 2))
MacroOK(e) == LET r == Run(e.i) IN Accepted(r) /\ ValSame(r.val, e.v)

\* C24
Items(v, kind) == IF kind \in {"members", "members_mut"}
                  THEN (IF v.t = "arr" THEN [i \in 1..Len(v.a) |-> [k |-> <<>>, x |-> v.a[i]]] ELSE <<>>)
                  ELSE (IF v.t = "obj" THEN [i \in 1..Len(v.k) |-> [k |-> v.k[i], x |-> v.v[i]]] ELSE <<>>)
Out(items, r) == CASE r.is = "item" -> [is |-> "item", k |-> items[r.i].k, x |-> items[r.i].x]
                   [] r.is = "all" -> [is |-> "all", xs |-> [j \in 1..Len(r.is_) |-> items[r.is_[j]]]]
                   [] OTHER -> r
\* the j-th item visited through a mutable iterator becomes the number 1000 + j
Rewritten(v, seen) ==
    LET new(i, x) == LET j == {n \in 1..Len(seen) : seen[n] = i} IN IF j = {} THEN x ELSE VInt(1000 + (CHOOSE n \in j : TRUE)) IN
    IF v.t = "arr" THEN VArr([i \in 1..Len(v.a) |-> new(i, v.a[i])]) ELSE VObj(v.k, [i \in 1..Len(v.v) |-> new(i, v.v[i])])
IterOK(e, v) ==
    LET items == Items(v, e.kind)
        run == RunScript(Len(items), e.script)
        mutable == e.kind \in {"members_mut", "entries_mut", "iter_mut"}
    IN /\ e.got = [i \in 1..Len(run.out) |-> Out(items, run.out[i])]
       /\ e.post = IF mutable /\ run.seen # <<>> THEN Rewritten(v, run.seen) ELSE v
       /\ SameAll(e.none, TRUE)

Judge(e) ==
    CASE e.op = "facts" -> IF Prop = "C22" THEN FactsOK(e, e.v) ELSE Contains19(e)
      [] e.op = "eqs" -> EqOK(e)
      [] e.op = "prim" -> PrimOK(e)
      [] e.op = "strs" -> StrOK(e)
      [] e.op = "conv" -> ConvOK(e)
      [] e.op = "macro" -> MacroOK(e)
      [] e.op = "iter" -> IterOK(e, e.v)
Accept == l > 0 => LET e == Trace[l] IN ~Panicked(e) /\ Judge(e)
=============================================================================
