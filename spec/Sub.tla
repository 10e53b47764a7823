-------------------------------- MODULE Sub --------------------------------
(***************************************************************************)
(* What a typed sub-database means: the classes of subing.py and koming.py *)
(* as their callers see them, over the store contract of StoreModel.       *)
(*                                                                         *)
(* Families:                                                               *)
(*   val     one value per key            (Suber, CesrSuber, Komer, ...)   *)
(*   on      one value per key, ordinal   (OnSuber, CesrOnSuber)           *)
(*   io      an insertion ordered set per key         (IoSetSuber, ...)    *)
(*   onio    the same per key and ordinal             (OnIoSetSuber, ...)  *)
(*   dup     a set per key, in the values' own order  (DupSuber, ...)      *)
(*   iodup   an insertion ordered set held as duplicates  (IoDupSuber)     *)
(*   oniodup the same per key and ordinal             (OnIoDupSuber, ...)  *)
(*                                                                         *)
(* Values are names for typed values; ord lists them in their own order    *)
(* (that of their serialisations). In family dup the insertion ordinal of  *)
(* an entry is its value's rank in ord.                                    *)
(***************************************************************************)
EXTENDS StoreModel

Vals1(r) == \* an iteration of which only the values are shown
  [r EXCEPT !.its = [j \in 1..Len(r.its) |-> [k |-> NoK, o |-> -1, v |-> r.its[j].v]]]
ValOf(r) == IF r.t = "item" THEN RVal(r.its[1].v) ELSE r
AsVals(a)  == [a EXCEPT !.r = Vals1(a.r)]
AsVal(a)   == [a EXCEPT !.r = ValOf(a.r)]

Rank(ord, v) == CHOOSE j \in 1..Len(ord) : ord[j] = v
DupOf(ord, k, vs) == { [k |-> k, o |-> -1, i |-> Rank(ord, vs[j]), v |-> vs[j]] : j \in 1..Len(vs) }

\* the item forms of StoreModel reused under other names
Call(x, n) == [x EXCEPT !.op = n]

ApplyVal(S, x, sep) ==
  LET n == x.op A(m) == Apply(S, Call(x, m), sep) IN
  CASE n = "put" -> A("putVal")   [] n = "pin" -> A("setVal")
    [] n \in {"get", "getDict"} -> A("getVal")
    [] n = "rem" -> A("remVal")   [] n \in {"cnt", "cntAll"} -> A("cntAll")

ApplyOn(S, x, sep) ==
  LET n == x.op A(m) == Apply(S, Call(x, m), sep) IN
  CASE n = "put" -> A("putOnVal")       [] n = "pin" -> A("pinOnVal")
    [] n = "append" -> A("appendOnVal") [] n = "getItem" -> A("getOnItem")
    [] n = "get" -> A("getOnVal")       [] n = "rem" -> A("remOn")
    [] n = "remAll" -> A("remOnAll")    [] n = "cntAll" -> A("cntOnAll")
    [] n = "cnt" -> IF x.k = NoK THEN Ret(S, RInt(0)) ELSE A("cntOnAll")
    [] n = "getAllItemIter" -> A("getOnAllItemIter")
    [] n = "getAllIter" -> AsVals(A("getOnAllItemIter"))

ApplyIo(S, x, sep) ==
  LET n == x.op A(m) == Apply(S, Call(x, m), sep) IN
  CASE n = "put" -> A("putIoSetVals")   [] n = "pin" -> A("pinIoSetVals")
    [] n = "add" -> A("addIoSetVal")
    [] n = "rem" -> IF x.v = "" THEN A("remIoSet") ELSE A("remIoSetVal")
    [] n = "cnt" -> IF x.k = NoK THEN A("cntAll") ELSE A("cntIoSet")
    [] n = "cntAll" -> A("cntAll")
    [] n \in {"getItem", "getItemIter"} -> A("getIoSetItemIter")
    [] n \in {"get", "getIter"} -> AsVals(A("getIoSetItemIter"))
    [] n = "getLastItem" -> A("getIoSetLastItem")
    [] n = "getLast" -> AsVal(A("getIoSetLastItem"))
    [] n = "getLastItemIter" -> A("getIoSetLastItemIterAll")
    [] n = "getLastIter" -> AsVals(A("getIoSetLastItemIterAll"))

ApplyOnIo(S, x, sep) ==
  LET n == x.op A(m) == Apply(S, Call(x, m), sep) IN
  CASE n = "put" -> A("putOnIoSetVals")   [] n = "pin" -> A("pinOnIoSetVals")
    [] n = "append" -> A("appendOnIoSetVals") [] n = "add" -> A("addOnIoSetVal")
    [] n = "rem" -> IF x.v = "" THEN A("remOnIoSet") ELSE A("remOnIoSetVal")
    [] n = "remAll" -> A("remOnAllIoSet")
    [] n = "cnt" -> IF x.k = NoK THEN A("cntAll") ELSE A("cntOnIoSet")
    [] n = "cntAll" -> A("cntOnAllIoSet")
    [] n \in {"getItem", "getItemIter"} -> A("getOnIoSetItemIter")
    [] n \in {"get", "getIter"} -> AsVals(A("getOnIoSetItemIter"))
    [] n = "getLastItem" -> A("getOnIoSetLastItem")
    [] n = "getLast" -> AsVal(A("getOnIoSetLastItem"))
    [] n = "getAllItemIter" -> A("getOnAllIoSetItemIter")
    [] n = "getAllIter" -> AsVals(A("getOnAllIoSetItemIter"))
    [] n = "getAllLastItemIter" -> A("getOnAllIoSetLastItemIter")
    [] n = "getAllLastIter" -> AsVals(A("getOnAllIoSetLastItemIter"))
    [] n = "getAllItemBackIter" -> A("getOnAllIoSetItemBackIter")
    [] n = "getAllBackIter" -> AsVals(A("getOnAllIoSetItemBackIter"))
    [] n = "getAllLastItemBackIter" -> A("getOnAllIoSetLastItemBackIter")
    [] n = "getAllLastBackIter" -> AsVals(A("getOnAllIoSetLastItemBackIter"))

ApplyDup(S, x, ord, sep) ==
  LET n == x.op  k == x.k  cur == At(S, k, -1)
      one == {e \in cur : e.v = x.v}
  IN
  CASE n = "put" -> Ret(S \cup DupOf(ord, k, x.vs), RBool(TRUE))
    [] n = "pin" -> Ret((S \ cur) \cup DupOf(ord, k, x.vs), RBool(TRUE))
    [] n = "add" -> IF one /= {} THEN Ret(S, RBool(FALSE))
                    ELSE Ret(S \cup DupOf(ord, k, <<x.v>>), RBool(TRUE))
    [] n \in {"get", "getIter"} -> Ret(S, Vals1(RIter(Items(cur, sep))))
    [] n = "getLast" -> Ret(S, ValOf(LastOf(cur)))
    [] n = "cnt" -> Ret(S, RInt(Cardinality(IF k = NoK THEN S ELSE cur)))
    [] n = "cntAll" -> Ret(S, RInt(Cardinality(S)))
    [] n = "rem" -> LET D == IF x.v = "" THEN cur ELSE one
                    IN Ret(S \ D, RBool(D /= {}))

\* duplicates behave as sets do, except that rewriting a key with pin keeps
\* no ordinals either, and counts ignore none
ApplyIoDup(S, x, sep) == ApplyIo(S, x, sep)

ApplyOnIoDup(S, x, sep) ==
  LET n == x.op A(m) == Apply(S, Call(x, m), sep) IN
  CASE n = "put" -> A("putOnIoSetVals")   [] n = "pin" -> A("pinOnIoSetVals")
    [] n = "append" -> Apply(S, [x EXCEPT !.op = "appendOnIoSetVals", !.vs = <<x.v>>], sep)
    [] n = "add" -> A("addOnIoSetVal")
    [] n = "rem" -> IF x.v = "" THEN A("remOnIoSet") ELSE A("remOnIoSetVal")
    [] n = "remAll" -> A("remOnAllIoSet")
    [] n = "cnt" -> IF x.k = NoK THEN A("cntAll") ELSE A("cntOnIoSet")
    [] n = "cntAll" -> A("cntOnAllIoSet")
    [] n = "getItemIter" -> A("getOnIoSetItemIter")
    [] n = "getIter" -> AsVals(A("getOnIoSetItemIter"))
    [] n = "get" -> AsVals(A("getOnIoSetItemIter"))
    [] n = "getLast" -> AsVal(A("getOnIoSetLastItem"))
    [] n = "getAllItemIter" -> A("getOnAllIoSetItemIter")
    [] n = "getAllIter" -> AsVals(A("getOnAllIoSetItemIter"))
    [] n = "getLastItemIter" -> A("getOnAllIoSetLastItemIter")
    [] n = "getLastIter" -> AsVals(A("getOnAllIoSetLastItemIter"))
    [] n = "getItemBackIter" -> A("getOnAllIoSetItemBackIter")
    [] n = "getBackIter" -> AsVals(A("getOnAllIoSetItemBackIter"))

\* keys of the set families carry a hidden ordinal after the separator; those
\* of the duplicate families do not
DupTop(S, x, sep) ==
  LET hit == { e \in S : IsPrefix(x.top, e.k) } n == x.op IN
  CASE n = "trim" -> Ret(S \ hit, RBool(hit /= {}))
    [] n = "cntTop" -> Ret(S, RInt(Cardinality(hit)))
    [] n \in {"getTopItemIter", "getFullItemIter"} -> Ret(S, RIter(
         LET q == SetToSortSeq(hit, LAMBDA a, b : IF a.k /= b.k THEN LexLt(a.k, b.k) ELSE a.i < b.i)
         IN [j \in 1..Len(q) |-> Item(q[j].k, q[j].o, q[j].v)]))

SubApply(fam, ord, S, x, sep) ==
  IF x.op \in {"trim", "cntTop", "getTopItemIter", "getFullItemIter"}
  THEN IF fam \in {"dup", "iodup"} THEN DupTop(S, x, sep)
       ELSE Apply(S, Call(x, CASE x.op = "trim" -> "remTop" [] x.op = "cntTop" -> "cntTop"
                               [] OTHER -> "getTopItemIter"), sep)
  ELSE CASE fam = "val" -> ApplyVal(S, x, sep)    [] fam = "on" -> ApplyOn(S, x, sep)
         [] fam = "io" -> ApplyIo(S, x, sep)      [] fam = "onio" -> ApplyOnIo(S, x, sep)
         [] fam = "dup" -> ApplyDup(S, x, ord, sep)
         [] fam = "iodup" -> ApplyIoDup(S, x, sep)
         [] fam = "oniodup" -> ApplyOnIoDup(S, x, sep)
=============================================================================
