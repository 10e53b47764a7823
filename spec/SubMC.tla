------------------------------- MODULE SubMC -------------------------------
(***************************************************************************)
(* The typed sub-database contract, enumerated over a small universe; the  *)
(* explored transitions are printed and driven through the real classes.   *)
(***************************************************************************)
EXTENDS Sub, TLC, Json

CONSTANTS FAM, Keys, Ons, Ord, Tops, MaxSize, SEP, EMIT

VARIABLES st, op, res
vars == <<st, op, res>>

Vals == { Ord[j] : j \in 1..Len(Ord) }
Two  == { <<a, b>> : a, b \in Vals }
O(n, k, o, i, v, vs, top) ==
  [op |-> n, k |-> k, o |-> o, i |-> i, v |-> v, vs |-> vs, top |-> top]

On == FAM \in {"on", "onio", "oniodup"}
OO == IF On THEN Ons ELSE {-1}
K0 == Keys \cup {NoK}
KO(ns)    == { O(n, k, o, -1, "", <<>>, <<>>) : n \in ns, k \in Keys, o \in OO }
KO0(ns)   == KO(ns) \cup { O(n, NoK, IF On THEN 0 ELSE -1, -1, "", <<>>, <<>>) : n \in ns }
KI(ns)    == { O(n, k, o, i, "", <<>>, <<>>) : n \in ns, k \in Keys, o \in OO, i \in {0, 1} }
KV(ns)    == { O(n, k, o, -1, v, <<>>, <<>>) : n \in ns, k \in Keys, o \in OO, v \in Vals }
KVs(ns)   == { O(n, k, o, -1, "", vs, <<>>) : n \in ns, k \in Keys, o \in OO,
                 vs \in Two \cup { <<v>> : v \in Vals } }
AV(ns)    == { O(n, k, -1, -1, v, <<>>, <<>>) : n \in ns, k \in Keys, v \in Vals }
AVs(ns)   == { O(n, k, -1, -1, "", vs, <<>>) : n \in ns, k \in Keys, vs \in Two }
KB(ns)    == KO(ns) \cup { O(n, NoK, -1, -1, "", <<>>, <<>>) : n \in ns }
NN(ns)    == { O(n, NoK, -1, -1, "", <<>>, <<>>) : n \in ns }
TT(ns)    == { O(n, NoK, -1, -1, "", <<>>, t) : n \in ns, t \in Tops }

Common == TT({"trim", "cntTop", "getTopItemIter"})

Ops == Common \cup
  CASE FAM = "val" -> KV({"put", "pin"}) \cup KO({"get", "rem"}) \cup NN({"cnt", "cntAll"})
                      \cup TT({"getFullItemIter"})
    [] FAM = "on" -> KV({"put", "pin"}) \cup AV({"append"}) \cup KO({"get", "getItem", "rem"})
                      \cup KO0({"remAll", "cnt", "cntAll", "getAllItemIter", "getAllIter"})
    [] FAM = "io" -> KVs({"put", "pin"}) \cup KV({"add", "rem"}) \cup KO({"rem", "getLast", "getLastItem"})
                      \cup KI({"getItem", "get", "getItemIter", "getIter", "cnt"}) \cup NN({"cnt", "cntAll"})
                      \cup KO0({"getLastIter", "getLastItemIter"})
    [] FAM = "onio" -> KVs({"put", "pin"}) \cup AVs({"append"}) \cup KV({"add", "rem"})
                      \cup KO({"rem", "getLast", "getLastItem"})
                      \cup KI({"getItem", "get", "getItemIter", "getIter", "cnt"}) \cup NN({"cnt"})
                      \cup KO0({"remAll", "cntAll", "getAllItemIter", "getAllIter",
                                "getAllLastItemIter", "getAllLastIter"})
                      \cup KB({"getAllItemBackIter", "getAllBackIter", "getAllLastItemBackIter",
                               "getAllLastBackIter"})
    [] FAM = "dup" -> KVs({"put", "pin"}) \cup KV({"add", "rem"})
                      \cup KO({"rem", "get", "getIter", "getLast", "cnt"}) \cup NN({"cnt", "cntAll"})
                      \cup TT({"getFullItemIter"})
    [] FAM = "iodup" -> KVs({"put", "pin"}) \cup KV({"add", "rem"})
                      \cup KO({"rem", "get", "getLast"}) \cup KI({"getItemIter", "getIter"})
                      \cup { x \in KI({"cnt"}) : x.i = 0 } \cup NN({"cnt", "cntAll"})
    [] FAM = "oniodup" -> KVs({"put", "pin"}) \cup AV({"append"}) \cup KV({"add", "rem"})
                      \cup KO({"rem", "get", "getLast"}) \cup KI({"getItemIter", "getIter"})
                      \cup { x \in KI({"cnt"}) : x.i = 0 } \cup NN({"cnt"})
                      \cup KO0({"remAll", "cntAll", "getAllItemIter", "getAllIter",
                                "getLastItemIter", "getLastIter"})
                      \cup KB({"getItemBackIter", "getBackIter"})

Init == st = {} /\ op = O("init", NoK, -1, -1, "", <<>>, <<>>) /\ res = RNone
Next == \E x \in Ops : LET a == SubApply(FAM, Ord, st, x, SEP) IN
          /\ Cardinality(a.st) <= MaxSize
          /\ \A e \in a.st : FAM = "dup" \/ e.i <= MaxSize
          /\ st' = a.st /\ op' = x /\ res' = a.r
Spec == Init /\ [][Next]_vars
View == st

J(S) == Sorted(S, SEP)
Emit == ~EMIT \/ PrintT("@E " \o ToJson([a |-> J(st), x |-> op', r |-> res', b |-> J(st')]))

\* ---- what the contract promises
Shape == WellFormed(st) /\ (FAM = "dup" => \A e \in st : e.i = Rank(Ord, e.v))
Ask(x) == SubApply(FAM, Ord, st, x, SEP).r
Counts == \A t \in Tops :
   Ask(O("cntTop", NoK, -1, -1, "", <<>>, t)).n = Len(Ask(O("getTopItemIter", NoK, -1, -1, "", <<>>, t)).its)
SetLike == \* a set shows each member once, and the last of it is its last
  FAM \in {"io", "onio", "dup", "iodup", "oniodup"} =>
    \A k \in Keys, o \in OO :
      LET g == Ask(O(IF FAM \in {"io", "onio", "dup", "iodup"} THEN "get" ELSE "get", k, o,
                     IF FAM = "dup" THEN -1 ELSE 0, "", <<>>, <<>>)).its
          last == Ask(O("getLast", k, o, -1, "", <<>>, <<>>))
      IN /\ \A i, j \in 1..Len(g) : g[i].v = g[j].v => i = j
         /\ IF g = <<>> THEN last = RNone ELSE last = RVal(g[Len(g)].v)
Frame == [][ (op'.k /= NoK /\ op'.op /= "trim")
              => {e \in st : e.k /= op'.k} = {e \in st' : e.k /= op'.k} ]_vars
Quiet == [][ (res'.t \in {"err", "none", "val", "item", "iter"}
              \/ (res'.t = "bool" /\ res'.n = 0)) => st' = st ]_vars
=============================================================================
