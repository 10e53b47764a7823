------------------------------- MODULE Thold -------------------------------
(***************************************************************************)
(* Thresholds: numeric, or clauses of weights, any of which may stand for  *)
(* a nested group of weights.                                              *)
(*                                                                         *)
(* An expression e is  kind "number", n  or  kind "weights", cs, clauses:  *)
(* sequences of elements [w, in]: a weight <<numerator, denominator>> and  *)
(* the weights nested in it, if nest.                                      *)
(* Places are numbered from 0 through all clauses in order, a nested group *)
(* taking one for each weight in it and none for itself.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

D == 2520
Range(s) == { s[j] : j \in 1..Len(s) }
Parts(w) == w[1] * (D \div w[2])                  \* of D, of denominators that divide it
RECURSIVE Sum(_)
Sum(ws) == IF ws = <<>> THEN 0 ELSE Parts(Head(ws)) + Sum(Tail(ws))

WeightOk(w) == w[2] > 0 /\ 0 <= w[1] /\ w[1] <= w[2]
Tops(c) == [j \in 1..Len(c) |-> c[j].w]
ClauseOk(c) == /\ \A j \in 1..Len(c) : WeightOk(c[j].w) /\ (c[j].nest => (\A w \in Range(c[j].in) : WeightOk(w)) /\ Sum(c[j].in) >= D)
               /\ Sum(Tops(c)) >= D
Valid(e) == IF e.kind = "number" THEN e.n >= 0
            ELSE e.cs # <<>> /\ \A c \in Range(e.cs) : ClauseOk(c)

Wide(x) == IF x.nest THEN Len(x.in) ELSE 1
RECURSIVE WideC(_)
WideC(c) == IF c = <<>> THEN 0 ELSE Wide(Head(c)) + WideC(Tail(c))
RECURSIVE WideE(_)
WideE(cs) == IF cs = <<>> THEN 0 ELSE WideC(Head(cs)) + WideE(Tail(cs))
Size(e) == IF e.kind = "number" THEN e.n ELSE WideE(e.cs)

----------------------------------------------------------------------------
\* the weight of those of ws at places from p on that are in S
RECURSIVE Held(_, _, _)
Held(ws, p, S) == IF ws = <<>> THEN 0 ELSE (IF p \in S THEN Parts(Head(ws)) ELSE 0) + Held(Tail(ws), p + 1, S)
RECURSIVE HeldC(_, _, _)
HeldC(c, p, S) ==
  IF c = <<>> THEN 0
  ELSE LET x == Head(c)
       IN (IF x.nest THEN (IF Held(x.in, p, S) >= D THEN Parts(x.w) ELSE 0) ELSE IF p \in S THEN Parts(x.w) ELSE 0)
          + HeldC(Tail(c), p + Wide(x), S)
RECURSIVE Clauses(_, _, _)
Clauses(cs, p, S) == cs = <<>> \/ (HeldC(Head(cs), p, S) >= D /\ Clauses(Tail(cs), p + WideC(Head(cs)), S))
\* every clause is met by those who signed; a number by so many of them, and none is never met
Satisfied(e, S) == IF e.kind = "number" THEN e.n > 0 /\ Cardinality(S) >= e.n ELSE Clauses(e.cs, 0, S)

----------------------------------------------------------------------------
\* as it is put down again: weights in lowest terms
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Low(w) == LET g == Gcd(w[1], w[2]) IN <<w[1] \div g, w[2] \div g>>
LowS(ws) == [j \in 1..Len(ws) |-> Low(ws[j])]
Norm(e) == IF e.kind = "number" THEN e
           ELSE [e EXCEPT !.cs = [j \in 1..Len(e.cs) |-> [k \in 1..Len(e.cs[j]) |-> [e.cs[j][k] EXCEPT !.w = Low(@), !.in = LowS(@)]]]]
=============================================================================
