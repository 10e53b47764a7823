------------------------------ MODULE HabTrace ------------------------------
(***************************************************************************)
(* Executions of the real Habery and its Habs judged by Hab.tla.  TRACE    *)
(* names a file of JSON lines:                                             *)
(*   world  a new habery                                                   *)
(*   op     an operation op (see Hab.tla) and its outcome ok               *)
(*   crash  the process ended within op, and the habery was opened again   *)
(* o: what is there then - names, and of every identifier its log's state  *)
(* (keys, nxt, n, kt, nt, wits, toad, tr, eo), its keystore ks (new, nxt,  *)
(* old, more), whether what it signs verifies (sg) and whether another     *)
(* that was given its messages (and the witnesses' receipts) has the same  *)
(* state (rem); held: the keys whose private keys are in the keystore;     *)
(* own: the handles counted own.                                           *)
(***************************************************************************)
EXTENDS Hab, TLCExt, Json, IOUtils, SequencesExt

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, M, ok
vars == <<i, M, ok>>

Init == i = 1 /\ M = <<>> /\ ok = FALSE

Ids(o) == [j \in Rng([n \in 1..Len(o.ids) |-> o.ids[n].h]) |-> CHOOSE y \in Rng(o.ids) : y.h = j]
Names(o) == [j \in Rng([n \in 1..Len(o.names) |-> o.names[n].nm]) |-> (CHOOSE y \in Rng(o.names) : y.nm = j).h]

World(l) == M' = [names |-> <<>>, spent |-> {}, maybe |-> {}, past |-> {}, used |-> {}, id |-> <<>>, loose |-> <<>>] /\ ok' = TRUE

Log(r) == <<r.keys, r.nxt, r.n, r.kt, r.nt, r.wits, r.toad, r.tr, r.eo>>
Seen(m, o) ==
  LET ids == Ids(o)
      held == Rng(o.held)
  IN (IF Names(o) = m.names THEN {} ELSE {"names"})
     \cup (IF DOMAIN ids = DOMAIN m.id /\ Rng(o.own) = DOMAIN m.id THEN {} ELSE {"identifiers"})
     \cup UNION { LET y == ids[h]
                      r == m.id[h]
                      free == h \in DOMAIN m.loose
                      instep == y.ks.new = r.keys /\ y.ks.nxt = r.nxt
                      ahead == free /\ y.ks.new = r.nxt /\ y.ks.old = r.keys
                  IN (IF Log(y) = Log(r) THEN {} ELSE {"asked"})
                     \cup (IF instep \/ ahead THEN {} ELSE {"step"})
                     \cup (IF free \/ y.ks.more = r.more THEN {} ELSE {"ahead"})
                     \cup (IF y.sg THEN {} ELSE {"unsigned"})
                     \cup (IF y.rem THEN {} ELSE {"unproved"})
                     \cup (IF Rng(r.keys) \cup Rng(r.nxt) \cup UNION { Rng(x) : x \in Rng(r.more) } \subseteq held THEN {} ELSE {"lostkey"})
                  : h \in DOMAIN ids \cap DOMAIN m.id }
     \cup (IF m.past \cap held = {} THEN {} ELSE {"stale"})

Report(bad, l) == IF bad = {} THEN TRUE
                  ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> { [why |-> y, x |-> 0] : y \in bad }]))

Has(l) == l.op.h \in DOMAIN Ids(l.o)
Vk(l) == IF Has(l) THEN Ids(l.o)[l.op.h].keys ELSE <<>>
Dk(l) == IF Has(l) THEN Ids(l.o)[l.op.h].nxt ELSE <<>>

\* the keys of a new event
Keys(m, l) ==
  LET op == l.op
      new(ks) == Rng(ks) \cap m.used = {}
  IN CASE op.op = "make" ->
            LET e == Made(op)
            IN (IF Len(Vk(l)) = e.ic /\ Len(Dk(l)) = e.nc THEN {} ELSE {"asked"})
               \cup (IF op.lots # <<>> THEN (IF Vk(l) = op.lots[op.ir + 1] THEN {} ELSE {"reveal"})
                     ELSE IF new(Vk(l)) \/ <<op.nm, op.how>> \in m.maybe THEN {} ELSE {"reveal"})
       [] op.op = "rotate" ->
            LET r == m.id[op.h]
            IN (IF Vk(l) = r.nxt THEN {} ELSE {"reveal"})
               \cup (IF Len(Dk(l)) # Turned(r, op).nc THEN {"asked"} ELSE {})
               \cup (IF r.more # <<>> THEN (IF Dk(l) = Head(r.more) THEN {} ELSE {"reveal"})
                     ELSE IF new(Dk(l)) \/ op.h \in DOMAIN m.loose THEN {} ELSE {"reveal"})
       [] OTHER -> {}

\* keys whose private keys are to be gone then
Past(m, op) == IF op.op = "rotate" THEN (Rng(m.id[op.h].prev) \ (Rng(m.id[op.h].keys) \cup Rng(m.id[op.h].nxt))) ELSE {}

Done2(m, l) ==
  LET m2 == After(m, l.op, Vk(l), Dk(l))
  IN [m2 EXCEPT !.past = @ \cup Past(m, l.op), !.used = @ \cup Rng(Vk(l)) \cup Rng(Dk(l)),
                !.loose = IF l.op.op = "rotate" THEN [x \in DOMAIN @ \ {l.op.h} |-> @[x]] ELSE @]

\* how many keys there are is as it may be after a crash
Alts(m, op) ==
  IF op.op = "rotate" /\ op.h \in DOMAIN m.loose /\ Live(m, op.h) /\ m.id[op.h].more = <<>> /\ m.loose[op.h] # <<>>
  THEN <<m, [m EXCEPT !.id[op.h].more = m.loose[op.h]]>> ELSE <<m>>

Judge(m, l) ==
  LET must == Ok(m, l.op)
      free == l.op.op = "make" /\ <<l.op.nm, l.op.how>> \in m.maybe
  IN IF l.ok # must /\ ~(free /\ must) THEN [m |-> m, bad |-> {IF must THEN "refused" ELSE "allowed"}]
     ELSE IF ~l.ok THEN LET b == Seen(m, l.o) IN [m |-> m, bad |-> IF b = {} THEN {} ELSE {"changed"} \cup b]
     ELSE LET b == Keys(m, l)
              m2 == Done2(m, l)
          IN [m |-> m2, bad |-> IF b # {} THEN b ELSE Seen(m2, l.o)]

Op(l) ==
  LET as == Alts(M, l.op)
      js == [j \in 1..Len(as) |-> Judge(as[j], l)]
      good == { j \in 1..Len(as) : js[j].bad = {} }
      r == IF good = {} THEN js[1] ELSE js[CHOOSE j \in good : \A k \in good : j <= k]
  IN /\ Report(r.bad, l)
     /\ M' = IF r.bad # {} THEN M
             ELSE IF l.ok THEN r.m
             ELSE M
     /\ ok' = (r.bad = {})

Crash(l) ==
  LET op == l.op
      \* next keys made ready by a rotation that was cut short
      left == IF ~Has(l) \/ ~Live(M, op.h) \/ M.id[op.h].more # <<>> THEN <<>>
              ELSE LET ks == Ids(l.o)[op.h].ks
                   IN IF ks.more # <<>> THEN <<Last(ks.more)>>
                      ELSE IF ks.new # M.id[op.h].keys THEN <<ks.nxt>>
                      ELSE <<>>
      m1 == [M EXCEPT !.loose = IF op.op = "rotate" /\ Live(M, op.h) THEN (op.h :> left) @@ @ ELSE @,
                      !.maybe = IF op.op = "make" THEN @ \cup {<<op.nm, op.how>>} ELSE @]
      as == Alts(M, op)
      may(m) == Ok(m, op) /\ (op.op = "make" => Has(l)) /\ Keys(m, l) = {}
      could == { j \in 1..Len(as) : may(as[j]) }
      can == could # {}
      m2 == [Done2(as[CHOOSE j \in could : TRUE], l) EXCEPT !.past = M.past]    \* what is stale may not be erased yet
      b1 == Seen(m1, l.o)
      b2 == IF can THEN Seen(m2, l.o) ELSE b1
      bad == IF b1 = {} \/ b2 = {} THEN {} ELSE {"torn"} \cup b1
  IN /\ Report(bad, l)
     /\ M' = IF b1 = {} THEN m1 ELSE IF b2 = {} THEN m2 ELSE M
     /\ ok' = (bad = {})

Next ==
  /\ i <= Len(T)
  /\ LET l == T[i] IN
       IF l.e = "world" THEN World(l)
       ELSE IF ~ok THEN UNCHANGED <<M, ok>>
       ELSE IF l.e = "op" THEN Op(l)
       ELSE Crash(l)
  /\ i' = i + 1

Spec == Init /\ [][Next]_vars
Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
