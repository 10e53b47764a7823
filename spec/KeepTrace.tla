------------------------------ MODULE KeepTrace ------------------------------
(***************************************************************************)
(* Executions of the real Manager on a real Keeper judged by Keep.tla.     *)
(* TRACE names a file of JSON lines:                                       *)
(*   world  a new keystore: en, root, pidx                                 *)
(*   op     an operation op (see Keep.tla), its outcome ok, the keys vk it *)
(*          revealed and dk it committed to, sg the signatures it made     *)
(*   crash  the process ended within op, and another opened the keystore   *)
(* new: keys not seen before with the path each was found to be made from  *)
(* (<<>> for none).  o: what is in the keystore after it - en, root and    *)
(* its encryption re, pidx, ids: per identifier its salt s, the encryption *)
(* e of that, stem, and the lots before, in and after use; pris: [k, e]    *)
(* the private keys and their encryption (-1: not to be read).             *)
(***************************************************************************)
EXTENDS Keep, TLCExt, Json, IOUtils, SequencesExt

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, M, P, O, ok
vars == <<i, M, P, O, ok>>

Init == i = 1 /\ M = <<>> /\ P = <<>> /\ O = <<>> /\ ok = FALSE

Learn(l) == P \o [j \in 1..Len(l.new) |-> l.new[j].p]     \* keys are numbered as they are seen

World(l) ==
  /\ M' = [en |-> l.en, open |-> TRUE, root |-> l.root, pidx |-> l.pidx, taken |-> {}, first |-> {},
           id |-> <<>>, held |-> {}]
  /\ P' = <<>> /\ O' = l.o /\ ok' = TRUE

---------------------------------------------------------------------------
More(r) == IF Last(r) THEN <<>> ELSE SubSeq(r.lots, r.at + 3, Len(r.lots))
\* what must be seen of keystore m; x: keys that may be there still
Ids(o) == [j \in Rng([n \in 1..Len(o.ids) |-> o.ids[n].h]) |-> CHOOSE y \in Rng(o.ids) : y.h = j]
Seen(m, o, x) ==
  LET ids == Ids(o)
      keys == { y.k : y \in Rng(o.pris) }
  IN (IF o.en # m.en THEN {"enmark"} ELSE {})
     \cup (IF o.root # m.root THEN {"root"} ELSE {})
     \cup (IF o.re # m.en \/ (m.en # 0 /\ o.leak # <<>>) \/ (\E y \in Rng(o.pris) : y.e # m.en) \/ (\E y \in Rng(o.ids) : y.s # 0 /\ y.e # m.en)
           THEN {"secret"} ELSE {})
     \cup (IF DOMAIN ids # DOMAIN m.id THEN {"identifiers"} ELSE {})
     \cup UNION { LET y == ids[h]
                      r == m.id[h]
                  IN (IF y.new = Cur(r) /\ y.nxt = Nxt(r) /\ y.more = More(r) THEN {} ELSE {"lots"})
                     \cup (IF y.s = r.s /\ y.st = r.st /\ y.a = r.a THEN {} ELSE {"manner"})
                  : h \in DOMAIN ids \cap DOMAIN m.id }
     \cup (IF m.held \subseteq keys THEN {} ELSE {"lostkey"})
     \cup (IF keys \subseteq m.held \cup x THEN {} ELSE {"stale"})

\* the answer of an operation done
Answer(l) ==
  LET op == l.op
      p2 == Learn(l)
      vp == Vpaths(M, op)
      dp == Dpaths(M, op, l.vk)
      fresh(k) == k > Len(P)
      from(ks, ps) == \A j \in 1..Len(ks) : ks[j] > 0 /\ IF ps[j] = <<>> THEN p2[ks[j]] = <<>> /\ fresh(ks[j]) ELSE p2[ks[j]] = ps[j]
  IN CASE op.op \in {"incept", "rotate", "ingest"} ->
            (IF op.op = "incept" /\ Len(l.vk) # op.ic THEN {"count"}
             ELSE IF op.op = "incept" /\ ~from(l.vk, vp) THEN {"path"} ELSE {})
            \cup (IF Len(l.dk) # op.nc THEN {"count"} ELSE IF ~from(l.dk, dp) THEN {"path"} ELSE {})
            \cup (IF \E a, b \in 1..Len(l.dk) : a # b /\ l.dk[a] = l.dk[b] THEN {"path"} ELSE {})
            \cup (IF op.op = "rotate" /\ l.vk # Reveals(M, op, l.vk) THEN {"reveal"} ELSE {})
            \cup (IF op.op = "ingest" /\ l.vk # FlattenSeq(op.lots) THEN {"reveal"} ELSE {})
       [] op.op = "replay" ->
            (IF l.vk # Reveals(M, op, l.vk) THEN {"reveal"} ELSE {})
            \cup (IF l.dk # Commits(M, op, l.dk) THEN {"commit"} ELSE {})
       [] op.op = "sign" -> IF l.sg = op.want THEN {} ELSE {"sign"}
       [] OTHER -> {}

Dup(l) ==
  LET op == l.op
  IN CASE op.op = "incept" -> LET vp == Vpaths(M, op)
                              IN vp # <<>> /\ vp[1] # <<>> /\ \E k \in M.first : P[k] = vp[1]
       [] op.op = "ingest" -> op.lots[1][1] \in M.first
       [] OTHER -> FALSE

Report(bad, l) == IF bad = {} THEN TRUE
                  ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> { [why |-> y, x |-> 0] : y \in bad }]))

Op(l) ==
  LET must == Ok(M, l.op, Dup(l))
      m2 == After(M, l.op, l.vk, l.dk)
      bad == IF l.ok # must THEN {IF must THEN "refused" ELSE "allowed"}
             ELSE IF ~must THEN (IF l.o = O THEN {} ELSE {"changed"})
                                \cup (IF l.op.op = "replay" /\ M.open /\ Live(M, l.op.h) /\ l.op.adv /\ Last(M.id[l.op.h])
                                         /\ ~l.end THEN {"end"} ELSE {})
             ELSE LET b == Answer(l) IN IF b # {} THEN b ELSE Seen(m2, l.o, {})
  IN /\ Report(bad, l)
     /\ P' = Learn(l) /\ O' = l.o
     /\ M' = IF bad # {} THEN M
             ELSE IF ~must THEN (IF l.op.op = "open" THEN [M EXCEPT !.open = FALSE] ELSE M)
             ELSE [m2 EXCEPT !.pidx = IF l.op.op \in {"incept", "ingest"} THEN l.o.pidx ELSE @]
     /\ ok' = (bad = {})

\* cut short: as if the operation had not been, or had been done; others are as they were
Crash(l) ==
  LET op == l.op
      p2 == Learn(l)
      ids == Ids(l.o)
      new == { k \in 1..Len(p2) : k > Len(P) }
      had == op.h \in DOMAIN ids
      vk == IF had THEN ids[op.h].new ELSE <<>>
      dk == IF had THEN ids[op.h].nxt ELSE <<>>
      m2 == After(M, op, vk, dk)
      able == Ok(M, op, FALSE) /\ had
      b2 == Seen(m2, l.o, Rng(Old(M.id[op.h])))
      keep(m) == [m EXCEPT !.held = { y.k : y \in Rng(l.o.pris) }, !.pidx = l.o.pidx]
      \* a lot made for after the next may be there already, if its private keys are
      ready == IF op.op # "incept" /\ had /\ Live(M, op.h) /\ Last(M.id[op.h]) /\ Len(ids[op.h].more) = 1
                  /\ Rng(ids[op.h].more[1]) \subseteq { y.k : y \in Rng(l.o.pris) }
               THEN [M EXCEPT !.id[op.h].lots = Append(@, ids[op.h].more[1])] ELSE M
      b1 == Seen(ready, l.o, new)
  IN IF b1 = {} THEN M' = keep(ready) /\ ok' = TRUE /\ P' = p2 /\ O' = l.o
     ELSE LET bad == IF ~able THEN b1
                     ELSE IF op.op = "incept" THEN Seen(m2, l.o, {})
                     ELSE b2
              why == IF bad # {} THEN {"torn"} \cup bad ELSE {}
          IN /\ Report(why, l)
             /\ M' = IF why # {} THEN M ELSE keep(m2)
             /\ P' = p2 /\ O' = l.o /\ ok' = (why = {})

Skip == UNCHANGED <<M, P, O, ok>>

Next ==
  /\ i <= Len(T)
  /\ LET l == T[i] IN
       IF l.e = "world" THEN World(l)
       ELSE IF ~ok THEN Skip
       ELSE IF l.e = "op" THEN Op(l)
       ELSE Crash(l)
  /\ i' = i + 1

Spec == Init /\ [][Next]_vars
Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
