------------------------------- MODULE TraceNum -----------------------------
(* Conformance of numbers: printing, comparing and converting them.          *)
EXTENDS Floats, Parser, TraceLines

All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])

\* C09: text t is one number literal with exactly n's value and sign
PrintOK(n, t) ==
    LET r == Run(t) IN
    /\ ~n.nan => /\ Accepted(r) /\ r.val.t = "num" /\ r.ln = 1 /\ ~IsWS(t[1]) /\ ~IsWS(Last(t))
                 /\ NumSame(r.val, n)
                 /\ IsZero(n) => t = (IF n.neg THEN <<45, 48>> ELSE <<48>>)
                 /\ n.e = 0 => All(t, LAMBDA c : IsDigit(c) \/ c = cMinus)
                 /\ (n.e < 0 /\ n.e >= -17) => All(t, LAMBDA c : IsDigit(c) \/ c = cMinus \/ c = cDot)

SameAll(s, b) == \A i \in 1..Len(s) : s[i] = b

Judge(e) ==
    CASE e.op = "print" -> /\ All(e.texts, LAMBDA t : PrintOK(e.n, t))
                          /\ All(e.styled, LAMBDA t : PrintOK(e.n, t))
      [] e.op = "numeq" -> LET q == NumEq(e.a, e.b) IN SameAll(e.eq, q) /\ SameAll(e.ne, ~q)
      [] e.op = "numint" -> LET q == NumEq(e.n, IntNum(e.x)) IN SameAll(e.eq, q) /\ SameAll(e.ne, ~q)
      [] e.op = "fromint" -> /\ All(e.n, LAMBDA n : NumSame(n, IntNum(e.x)))
                             /\ e.back.some => e.back.x = e.x
                             /\ All(e.n, LAMBDA n : n.e = 0) => e.back.some
      [] e.op = "toint" -> All(e.got, LAMBDA g : /\ IntReadOK(e.n, g.bits, g.signed, g.a)
                                                 /\ IntReadOK(e.n, g.bits, g.signed, g.b))
      [] e.op = "notnum" -> SameAll(e.none, TRUE)
      [] e.op = "fixed" -> /\ All(e.u, LAMBDA g : FixedReadOK(e.n, e.p, FALSE, g))
                           /\ All(e.s, LAMBDA g : FixedReadOK(e.n, e.p, TRUE, g))
      [] e.op = "fromfloat" -> /\ All(e.n, LAMBDA n : FloatToNum(e.f, n))
                               /\ NumToFloat(F64, e.n[1], e.r)
                               /\ e.eq = FloatEq(e.r, e.f)
      [] e.op = "tofloat" -> /\ All(e.r, LAMBDA f : NumToFloat(F64, e.n, f))
                             /\ All(e.s, LAMBDA f : NumToFloat(F32, e.n, f))
                             /\ SameAll(e.eq, FloatEq(e.r[1], e.w))
                             /\ SameAll(e.eq32, FloatEq(e.s[1], e.w32))
                             /\ SameAll(e.self, ~e.n.nan)
      [] e.op = "parts" -> /\ All(e.raw, LAMBDA a : Says(a, e.n)) /\ Says(e.made, FromParts(e.n))
                           /\ Says(e.minus, Negate(e.n)) /\ Says(e.minus_made, Negate(FromParts(e.n)))
      [] e.op = "minus" -> Says(e.got, IF e.times % 2 = 0 THEN e.n ELSE Negate(e.n))
Accept == l > 0 => LET e == Trace[l] IN ~Panicked(e) /\ Judge(e)
=============================================================================
