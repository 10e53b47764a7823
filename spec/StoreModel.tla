----------------------------- MODULE StoreModel -----------------------------
(***************************************************************************)
(* What a keyed store of the KERI database layer means, whatever holds it. *)
(*                                                                         *)
(* A store is a set of entries [k, o, i, v]:                               *)
(*   k  the caller's key, a sequence of byte values                        *)
(*   o  the ordinal part of the key, or -1 in families that have none      *)
(*   i  the insertion ordinal that orders a set's members, or -1           *)
(*   v  the value (a string)                                               *)
(* Four families share this shape: plain values (o = i = -1), ordinal      *)
(* values (i = -1), insertion-ordered sets (o = -1), and ordinal           *)
(* insertion-ordered sets.                                                 *)
(*                                                                         *)
(* Apply(st, op) is the meaning of every call: the next content and the    *)
(* result the caller sees.  It is total and deterministic, so a recorded   *)
(* call either agrees with it or is a violation.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT MAXON        \* abstract image of the largest ordinal

NoK == <<>>

\* ---------------------------------------------------------------- results
R(t, n, its)  == [t |-> t, n |-> n, its |-> its]
RBool(b)      == R("bool", IF b THEN 1 ELSE 0, <<>>)
RInt(n)       == R("int", n, <<>>)
RNone         == R("none", 0, <<>>)
RErr          == R("err", 0, <<>>)
RVal(v)       == R("val", 0, << [k |-> NoK, o |-> -1, v |-> v] >>)
Item(k, o, v) == [k |-> k, o |-> o, v |-> v]
RItem(k,o,v)  == R("item", 0, << Item(k, o, v) >>)
RIter(its)    == R("iter", 0, its)

Same(st)      == st
Ret(st, r)    == [st |-> st, r |-> r]

\* ---------------------------------------------------------------- order
LexLt(s, t) ==
  \/ /\ Len(s) < Len(t)
     /\ \A j \in 1..Len(s) : s[j] = t[j]
  \/ \E j \in 1..(IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)) :
        /\ s[j] < t[j]
        /\ \A h \in 1..(j-1) : s[h] = t[h]

\* key as stored: families with an ordinal append the separator first
Stored(e, sep) == IF e.o = -1 /\ e.i = -1 THEN e.k ELSE Append(e.k, sep)

ELt(sep, a, b) ==
  IF a.k /= b.k THEN LexLt(Stored(a, sep), Stored(b, sep))
  ELSE IF a.o /= b.o THEN a.o < b.o
  ELSE a.i < b.i

Sorted(S, sep)   == SetToSortSeq(S, LAMBDA a, b : ELt(sep, a, b))
HasTop(e, top, sep) == IsPrefix(top, Stored(e, sep))
AtOrAfter(e, k, sep) == e.k = k \/ LexLt(Append(k, sep), Append(e.k, sep))

Items(S, sep)  == LET q == Sorted(S, sep)
                  IN [j \in 1..Len(q) |-> Item(q[j].k, q[j].o, q[j].v)]

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* the newest member of every set among S (the one with the largest i)
Lasts(S) == { e \in S : \A f \in S : (f.k = e.k /\ f.o = e.o) => f.i <= e.i }

RECURSIVE Dedup(_, _)
Dedup(vs, seen) ==
  IF vs = <<>> THEN <<>>
  ELSE IF Head(vs) \in seen THEN Dedup(Tail(vs), seen)
  ELSE <<Head(vs)>> \o Dedup(Tail(vs), seen \cup {Head(vs)})

Place(k, o, from, vs) ==
  { [k |-> k, o |-> o, i |-> from + j - 1, v |-> vs[j]] : j \in 1..Len(vs) }

At(S, k, o)      == { e \in S : e.k = k /\ e.o = o }
NextIon(S, k, o) == IF At(S, k, o) = {} THEN 0 ELSE MaxOf({e.i : e \in At(S, k, o)}) + 1

\* ---------------------------------------------------------------- sets
SetPut(S, k, o, vs) ==
  LET new == Dedup(vs, {e.v : e \in At(S, k, o)})
  IN IF new = <<>> THEN Ret(S, RBool(FALSE))
     ELSE Ret(S \cup Place(k, o, NextIon(S, k, o), new), RBool(TRUE))

SetPin(S, k, o, vs) ==
  IF vs = <<>> THEN Ret(S, RBool(FALSE))
  ELSE Ret((S \ At(S, k, o)) \cup Place(k, o, 0, Dedup(vs, {})), RBool(TRUE))

SetRem(S, k, o) ==
  Ret(S \ At(S, k, o), RBool(At(S, k, o) /= {}))

SetRemVal(S, k, o, v) ==
  LET hit == { e \in At(S, k, o) : e.v = v }
  IN Ret(S \ hit, RBool(hit /= {}))

LastOf(S) == \* S the members of one set
  IF S = {} THEN RNone
  ELSE LET e == CHOOSE x \in S : \A y \in S : y.i <= x.i IN RItem(e.k, e.o, e.v)

NextOn(S, k) == LET T == {e \in S : e.k = k}
                IN IF T = {} THEN 0 ELSE MaxOf({e.o : e \in T}) + 1

\* ---------------------------------------------------------------- meaning
\* op is a record with fields op, k, o, i, v, vs, top (those unused are
\* filler). k = <<>> is the empty key.
Apply(S, op, sep) ==
  LET k == op.k  o == op.o  i == op.i  v == op.v  vs == op.vs  top == op.top
      n == op.op
      One(kk, oo) == [k |-> kk, o |-> oo, i |-> -1, v |-> v]
      Cur(kk, oo) == At(S, kk, oo)
      FromOn(kk, oo) == { e \in S : e.k = kk /\ e.o >= oo }
      Tops(tt) == { e \in S : HasTop(e, tt, sep) }
  IN
  CASE
  \* -- plain values
     n = "putVal" ->
       IF k = NoK THEN Ret(S, RErr)
       ELSE IF Cur(k, -1) /= {} THEN Ret(S, RBool(FALSE))
       ELSE Ret(S \cup {One(k, -1)}, RBool(TRUE))
  [] n = "setVal" ->
       IF k = NoK THEN Ret(S, RErr)
       ELSE Ret((S \ Cur(k, -1)) \cup {One(k, -1)}, RBool(TRUE))
  [] n = "getVal" ->
       IF k = NoK THEN Ret(S, RErr)
       ELSE IF Cur(k, -1) = {} THEN Ret(S, RNone)
       ELSE Ret(S, RVal((CHOOSE e \in Cur(k, -1) : TRUE).v))
  [] n = "remVal" ->
       Ret(S \ Cur(k, -1), RBool(k /= NoK /\ Cur(k, -1) /= {}))
  \* -- any family
  [] n = "remTop" -> Ret(S \ Tops(top), RBool(Tops(top) /= {}))
  [] n = "cntTop" -> Ret(S, RInt(Cardinality(Tops(top))))
  [] n = "cntAll" -> Ret(S, RInt(Cardinality(S)))
  [] n = "getTopItemIter" -> Ret(S, RIter(Items(Tops(top), sep)))
  \* -- ordinal values
  [] n = "putOnVal" ->
       IF Cur(k, o) /= {} THEN Ret(S, RBool(FALSE))
       ELSE Ret(S \cup {One(k, o)}, RBool(TRUE))
  [] n = "pinOnVal" ->
       IF k = NoK THEN Ret(S, RBool(FALSE))
       ELSE Ret((S \ Cur(k, o)) \cup {One(k, o)}, RBool(TRUE))
  [] n = "appendOnVal" ->
       IF k = NoK THEN Ret(S, RErr)
       ELSE IF NextOn(S, k) > MAXON THEN Ret(S, RErr)
       ELSE Ret(S \cup {One(k, NextOn(S, k))}, RInt(NextOn(S, k)))
  [] n = "getOnVal" ->
       IF k = NoK \/ Cur(k, o) = {} THEN Ret(S, RNone)
       ELSE Ret(S, RVal((CHOOSE e \in Cur(k, o) : TRUE).v))
  [] n = "getOnItem" ->
       IF k = NoK \/ Cur(k, o) = {} THEN Ret(S, RNone)
       ELSE Ret(S, RItem(k, o, (CHOOSE e \in Cur(k, o) : TRUE).v))
  [] n = "remOn" ->
       IF k = NoK THEN Ret(S, RBool(FALSE))
       ELSE Ret(S \ Cur(k, o), RBool(Cur(k, o) /= {}))
  [] n \in {"remOnAll", "remOnAllIoSet"} ->
       LET D == IF k = NoK THEN S ELSE FromOn(k, o)
       IN Ret(S \ D, RBool(D /= {}))
  [] n \in {"cntOnAll", "cntOnAllIoSet"} ->
       Ret(S, RInt(Cardinality(IF k = NoK THEN S ELSE FromOn(k, o))))
  [] n \in {"getOnTopItemIter", "getTopIoSetItemIter", "getOnTopIoSetItemIter"} ->
       Ret(S, RIter(Items(Tops(top), sep)))
  [] n \in {"getOnAllItemIter", "getOnAllIoSetItemIter"} ->
       Ret(S, RIter(Items(IF k = NoK THEN S ELSE FromOn(k, o), sep)))
  \* -- insertion-ordered sets
  [] n = "putIoSetVals" ->
       IF k = NoK \/ vs = <<>> THEN Ret(S, RBool(FALSE)) ELSE SetPut(S, k, -1, vs)
  [] n = "addIoSetVal" ->
       IF k = NoK THEN Ret(S, RBool(FALSE)) ELSE SetPut(S, k, -1, <<v>>)
  [] n = "pinIoSetVals" ->
       IF k = NoK THEN Ret(S, RBool(FALSE)) ELSE SetPin(S, k, -1, vs)
  [] n = "remIoSet" ->
       IF k = NoK THEN Ret(S, RBool(FALSE)) ELSE SetRem(S, k, -1)
  [] n = "remIoSetVal" ->
       IF k = NoK THEN Ret(S, RBool(FALSE)) ELSE SetRemVal(S, k, -1, v)
  [] n = "cntIoSet" ->
       Ret(S, RInt(Cardinality({e \in Cur(k, -1) : e.i >= i})))
  [] n = "getIoSetItemIter" ->
       Ret(S, RIter(Items({e \in Cur(k, -1) : e.i >= i}, sep)))
  [] n = "getIoSetLastItem" -> Ret(S, LastOf(Cur(k, -1)))
  [] n \in {"getIoSetLastItemIterAll"} ->
       Ret(S, RIter(Items(Lasts(IF k = NoK THEN S
                                ELSE {e \in S : AtOrAfter(e, k, sep)}), sep)))
  \* -- ordinal insertion-ordered sets
  [] n = "putOnIoSetVals" ->
       IF k = NoK \/ vs = <<>> THEN Ret(S, RBool(FALSE)) ELSE SetPut(S, k, o, vs)
  [] n = "addOnIoSetVal" -> SetPut(S, k, o, <<v>>)
  [] n = "pinOnIoSetVals" ->
       IF k = NoK THEN Ret(S, RBool(FALSE)) ELSE SetPin(S, k, o, vs)
  [] n = "appendOnIoSetVals" ->
       IF k = NoK \/ vs = <<>> THEN Ret(S, RErr)
       ELSE IF NextOn(S, k) > MAXON THEN Ret(S, RErr)
       ELSE Ret(S \cup Place(k, NextOn(S, k), 0, Dedup(vs, {})), RInt(NextOn(S, k)))
  [] n = "remOnIoSet" -> SetRem(S, k, o)
  [] n = "remOnIoSetVal" -> SetRemVal(S, k, o, v)
  [] n = "cntOnIoSet" ->
       Ret(S, RInt(Cardinality({e \in Cur(k, o) : e.i >= i})))
  [] n = "getOnIoSetItemIter" ->
       Ret(S, RIter(Items({e \in Cur(k, o) : e.i >= i}, sep)))
  [] n = "getOnIoSetLastItem" -> Ret(S, LastOf(Cur(k, o)))
  [] n = "getOnAllIoSetLastItemIter" ->
       Ret(S, RIter(Items(Lasts(IF k = NoK THEN S ELSE FromOn(k, o)), sep)))
  [] n = "getOnAllIoSetItemBackIter" ->     \* o = -1 means from the newest
       Ret(S, RIter(Reverse(Items(IF k = NoK THEN S
            ELSE {e \in S : e.k = k /\ (o = -1 \/ e.o <= o)}, sep))))
  [] n = "getOnAllIoSetLastItemBackIter" ->
       Ret(S, RIter(Reverse(Items(Lasts(IF k = NoK THEN S
            ELSE {e \in S : e.k = k /\ (o = -1 \/ e.o <= o)}), sep))))

\* ---------------------------------------------------------------- invariants
WellFormed(S) ==
  /\ \A e, f \in S : (e.k = f.k /\ e.o = f.o /\ e.i = f.i) => e = f
  /\ \A e, f \in S : (e.i >= 0 /\ e.k = f.k /\ e.o = f.o /\ e.v = f.v) => e = f
  /\ \A e \in S : e.o <= MAXON
=============================================================================
