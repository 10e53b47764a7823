------------------------------- MODULE StoreMC -------------------------------
(***************************************************************************)
(* The store contract, enumerated: every content reachable within a small  *)
(* universe of keys, ordinals and values, and every call on every content. *)
(* With EMIT the explored transitions are printed, one JSON object each,   *)
(* and the harness drives the real store through all of them.              *)
(***************************************************************************)
EXTENDS StoreModel, TLC, Json

CONSTANTS FAM, Keys, Ons, Vals, Tops, MaxSize, SEP, EMIT

VARIABLES st, op, res
vars == <<st, op, res>>

O(n, k, o, i, v, vs, top) ==
  [op |-> n, k |-> k, o |-> o, i |-> i, v |-> v, vs |-> vs, top |-> top]

V1 == CHOOSE v \in Vals : TRUE
KV(ns, ks)  == { O(n, k, -1, -1, v, <<>>, <<>>) : n \in ns, k \in ks, v \in Vals }
KK(ns, ks)  == { O(n, k, -1, -1, "", <<>>, <<>>) : n \in ns, k \in ks }
KI(ns, ks)  == { O(n, k, -1, i, "", <<>>, <<>>) : n \in ns, k \in ks, i \in {0, 1} }
KVs(ns, ks) == { O(n, k, -1, -1, "", vs, <<>>) : n \in ns, k \in ks,
                 vs \in {<<a, b>> : a, b \in Vals} \cup {<<>>} }
KO(ns, ks)  == { O(n, k, o, -1, "", <<>>, <<>>) : n \in ns, k \in ks, o \in Ons }
KOB(ns, ks) == { O(n, k, o, -1, "", <<>>, <<>>) : n \in ns, k \in ks, o \in Ons \cup {-1} }
KOI(ns, ks) == { O(n, k, o, i, "", <<>>, <<>>) : n \in ns, k \in ks, o \in Ons, i \in {0, 1} }
KOV(ns, ks) == { O(n, k, o, -1, v, <<>>, <<>>) : n \in ns, k \in ks, o \in Ons, v \in Vals }
KOVs(ns, ks) == { O(n, k, o, -1, "", vs, <<>>) : n \in ns, k \in ks, o \in Ons,
                 vs \in {<<a, b>> : a, b \in Vals} \cup {<<>>} }
TT(ns)      == { O(n, NoK, -1, -1, "", <<>>, t) : n \in ns, t \in Tops }
NN(ns)      == { O(n, NoK, -1, -1, "", <<>>, <<>>) : n \in ns }

Keys0 == Keys \cup {NoK}
Common == TT({"remTop", "cntTop"}) \cup NN({"cntAll"})

Ops ==
  CASE FAM = "val" -> Common \cup KV({"putVal", "setVal"}, Keys0)
                      \cup KK({"getVal", "remVal"}, Keys0) \cup TT({"getTopItemIter"})
    [] FAM = "on"  -> Common \cup KOV({"putOnVal"}, Keys) \cup KOV({"pinOnVal"}, Keys0)
                      \cup KV({"appendOnVal"}, Keys0)
                      \cup KO({"getOnVal", "getOnItem", "remOn", "remOnAll", "cntOnAll",
                               "getOnAllItemIter"}, Keys0)
                      \cup TT({"getOnTopItemIter"})
    [] FAM = "io"  -> Common \cup KVs({"putIoSetVals", "pinIoSetVals"}, Keys0)
                      \cup KV({"addIoSetVal", "remIoSetVal"}, Keys0)
                      \cup KK({"remIoSet", "getIoSetLastItem", "getIoSetLastItemIterAll"}, Keys0)
                      \cup KI({"cntIoSet", "getIoSetItemIter"}, Keys0)
                      \cup TT({"getTopIoSetItemIter"})
    [] FAM = "onio" -> Common \cup KOVs({"putOnIoSetVals", "pinOnIoSetVals"}, Keys0)
                      \cup KVs({"appendOnIoSetVals"}, Keys0)
                      \cup KOV({"addOnIoSetVal", "remOnIoSetVal"}, Keys)
                      \cup KO({"remOnIoSet", "getOnIoSetLastItem"}, Keys)
                      \cup KO({"remOnAllIoSet", "cntOnAllIoSet", "getOnAllIoSetItemIter",
                               "getOnAllIoSetLastItemIter"}, Keys0)
                      \cup KOI({"cntOnIoSet", "getOnIoSetItemIter"}, Keys)
                      \cup KOB({"getOnAllIoSetItemBackIter",
                                "getOnAllIoSetLastItemBackIter"}, Keys0)
                      \cup TT({"getOnTopIoSetItemIter"})

Init == st = {} /\ op = O("init", NoK, -1, -1, "", <<>>, <<>>) /\ res = RNone

Next == \E x \in Ops : LET a == Apply(st, x, SEP) IN
          /\ Cardinality(a.st) <= MaxSize
          /\ \A e \in a.st : e.i <= MaxSize
          /\ st' = a.st /\ op' = x /\ res' = a.r

Spec == Init /\ [][Next]_vars

View == st

J(S) == Sorted(S, SEP)
Emit == ~EMIT \/ PrintT("@E " \o ToJson([a |-> J(st), x |-> op', r |-> res', b |-> J(st')]))

\* ---- what the contract promises, over every reachable content
Shape == WellFormed(st)
Ask(x) == Apply(st, x, SEP).r
Counts ==   \* a count is the length of the matching enumeration
  /\ \A t \in Tops : Ask(O("cntTop", NoK, -1, -1, "", <<>>, t)).n
       = Len(Ask(O(CASE FAM = "val" -> "getTopItemIter" [] FAM = "on" -> "getOnTopItemIter"
                     [] FAM = "io" -> "getTopIoSetItemIter"
                     [] OTHER -> "getOnTopIoSetItemIter", NoK, -1, -1, "", <<>>, t)).its)
  /\ FAM = "onio" => \A k \in Keys : \A o \in Ons :
       /\ Ask(O("cntOnAllIoSet", k, o, -1, "", <<>>, <<>>)).n
            = Len(Ask(O("getOnAllIoSetItemIter", k, o, -1, "", <<>>, <<>>)).its)
       /\ Ask(O("getOnAllIoSetItemBackIter", k, -1, -1, "", <<>>, <<>>)).its
            = Reverse(Ask(O("getOnAllIoSetItemIter", k, 0, -1, "", <<>>, <<>>)).its)
\* every call leaves other keys' entries alone (remTop and empty-key wipes aside)
Frame == [][ (op'.k /= NoK /\ op'.op /= "remTop")
              => {e \in st : e.k /= op'.k} = {e \in st' : e.k /= op'.k} ]_vars
\* a refused or reading call changes nothing
Quiet == [][ (res'.t \in {"err", "none", "val", "item", "iter"}
              \/ (res'.t = "bool" /\ res'.n = 0)) => st' = st ]_vars
AppendFresh == [][ (op'.op \in {"appendOnVal", "appendOnIoSetVals"} /\ res'.t = "int")
              => /\ st \subseteq st'
                 /\ \A e \in st : e.k = op'.k => e.o < res'.n ]_vars
=============================================================================
