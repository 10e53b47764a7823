------------------------------ MODULE Examples ------------------------------
(***************************************************************************)
(* The guard that keeps the specification's worked examples in step with   *)
(* the canonical ones, and the aid that tags them.                         *)
(*                                                                         *)
(* A document is a sequence of items: markers naming an example, fenced    *)
(* blocks in some language holding a value (or text that does not parse),  *)
(* blank lines and prose.  A manifest maps names to values.                *)
(* A value is a tree [t, s, c]: a type, a scalar payload, and children     *)
(* [k, v] (k is "" in lists).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* ------------------------------------------------------------- values
Keys(v)    == { v.c[j].k : j \in 1..Len(v.c) }
Child(v,k) == (CHOOSE x \in Range(v.c) : x.k = k).v

Dot(p, k)  == IF p = "" THEN k ELSE p \o "." \o k
Root(p)    == IF p = "" THEN "(root)" ELSE p

\* the set of places where value a (specification) departs from e (canonical)
RECURSIVE Diff(_, _, _)
Diff(p, e, a) ==
  IF e.t /= a.t THEN {Root(p)}
  ELSE IF e.t = "dict" THEN
     { Dot(p, k) : k \in (Keys(e) \ Keys(a)) \cup (Keys(a) \ Keys(e)) }
     \cup UNION { Diff(Dot(p, k), Child(e, k), Child(a, k)) : k \in Keys(e) \cap Keys(a) }
  ELSE IF e.t = "list" THEN
     (IF Len(e.c) /= Len(a.c) THEN {Root(p)} ELSE {})
     \cup UNION { Diff(p \o "[" \o ToString(j - 1) \o "]", e.c[j].v, a.c[j].v)
                  : j \in 1..(IF Len(e.c) < Len(a.c) THEN Len(e.c) ELSE Len(a.c)) }
  ELSE IF e.s /= a.s THEN {Root(p)} ELSE {}

Equal(e, a) == Diff("", e, a) = {}

\* ------------------------------------------------------------- documents
Governed(x) == x.t = "fence" /\ x.lang \in {"json", "python"}
Parses(x)   == x.v.t /= "bad"

\* the marker that governs item i, or 0: directly above it but for blank lines
RECURSIVE Above(_, _)
Above(d, i) == IF i = 0 THEN 0
               ELSE IF d[i].t = "blank" THEN Above(d, i - 1)
               ELSE IF d[i].t = "mark" THEN i ELSE 0
MarkOf(d, i) == Above(d, i - 1)

\* tagged blocks in order: <<name, value>>
Tagged(d) == LET at == { i \in 1..Len(d) : Governed(d[i]) /\ MarkOf(d, i) /= 0 }
                 q  == SetToSortSeq(at, <)
             IN [ j \in 1..Len(q) |-> [n |-> d[MarkOf(d, q[j])].n, v |-> d[q[j]].v] ]

\* a tagged block counts if it parses and no earlier one of its name did
Counts(tb) == { j \in 1..Len(tb) : tb[j].v.t /= "bad"
                 /\ \A i \in 1..(j-1) : tb[i].n = tb[j].n => tb[i].v.t = "bad" }
Blocks(d)  == LET tb == Tagged(d) IN { tb[j] : j \in Counts(tb) }
Errors(d)  == LET tb == Tagged(d) IN Len(tb) - Cardinality(Counts(tb))

\* ------------------------------------------------------------- comparison
\* m is a set of [n, v] with distinct names
Names(S)   == { x.n : x \in S }
Val(S, n)  == (CHOOSE x \in S : x.n = n).v
Missing(m, S) == Names(m) \ Names(S)
Extra(m, S)   == Names(S) \ Names(m)
Drifted(m, S) == { n \in Names(m) \cap Names(S) : ~Equal(Val(m, n), Val(S, n)) }
InSync(m, S)  == Missing(m, S) = {} /\ Extra(m, S) = {} /\ Drifted(m, S) = {}

\* the whole guard: exit status of a run
Guard(m, d) == IF InSync(m, Blocks(d)) /\ Errors(d) = 0 THEN 0 ELSE 1

\* ------------------------------------------------------------- tagging
Match(m, v) == { n \in Names(m) : Val(m, n).t = "dict" /\ Equal(Val(m, n), v) }
Claimed(d)  == { d[MarkOf(d, i)].n : i \in {j \in 1..Len(d) : Governed(d[j]) /\ MarkOf(d, j) /= 0} }

RECURSIVE TagFrom(_, _, _, _)
TagFrom(m, d, i, used) ==
  IF i > Len(d) THEN <<>>
  ELSE LET x == d[i]
           hit == IF Governed(x) /\ Parses(x) /\ x.v.t = "dict" THEN Match(m, x.v) ELSE {}
           n   == CHOOSE y \in hit : TRUE
       IN IF Cardinality(hit) = 1 /\ MarkOf(d, i) = 0 /\ n \notin used
          THEN << [t |-> "mark", n |-> n, lang |-> "", v |-> x.v], x >>
               \o TagFrom(m, d, i + 1, used \cup {n})
          ELSE << x >> \o TagFrom(m, d, i + 1, used)

TagDoc(m, d) == TagFrom(m, d, 1, Claimed(d))

Shape(d) == [ i \in 1..Len(d) |-> IF d[i].t = "mark" THEN "mark:" \o d[i].n ELSE d[i].t ]
=============================================================================
