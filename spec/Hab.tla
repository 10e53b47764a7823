-------------------------------- MODULE Hab --------------------------------
(***************************************************************************)
(* What the owner of identifiers gets from a habery: identifiers by name,  *)
(* each with a log that it alone extends, as asked, and a keystore that    *)
(* keeps step with the log.                                                *)
(*                                                                         *)
(* M  names  name -> handle                                                *)
(*    spent  the <<name, how>> keys of a first lot that were used          *)
(*    id     handle -> [keys, nxt: the lots in use and committed to by the *)
(*           log, prev: the lot before, more: the lots ready ahead, n:     *)
(*           events in the log, kt, nt: thresholds, wits, toad, tr, eo]    *)
(* Keys and witnesses are numbers.  A threshold of 0, a count or toad of   *)
(* -1 in an operation leave it to the habery.                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == { s[j] : j \in 1..Len(s) }
Live(M, h) == h \in DOMAIN M.id
Half(n) == (n + 1) \div 2
Max(a, b) == IF a > b THEN a ELSE b
\* the default number of receipts of n witnesses
Ample(n) == <<0, 1, 2, 3, 3>>[n + 1]

NoDup(s) == Cardinality(Rng(s)) = Len(s)
Toad(t, wits) == IF t = -1 THEN Ample(Len(wits)) ELSE t
ToadOk(t, wits) == IF wits = <<>> THEN t = 0 ELSE t >= 1 /\ t <= Len(wits)
SithOk(t, n) == IF n = 0 THEN t = 0 ELSE t >= 1 /\ t <= n

---------------------------------------------------------------------------
\* making an identifier: what its first event says
Made(op) ==
  LET ic == IF op.lots = <<>> THEN op.ic ELSE Len(op.lots[op.ir + 1])
      ask == IF op.nc = -1 THEN op.ic ELSE op.nc
      ahead == op.ir + 2 <= Len(op.lots)                      \* the next lot was taken in too
      nc == IF ~op.tr THEN 0 ELSE IF ahead THEN Len(op.lots[op.ir + 2]) ELSE ask
      kt == IF op.kt = 0 THEN Max(1, Half(ic)) ELSE op.kt
      nt == IF ~op.tr THEN 0 ELSE IF op.nt # 0 THEN op.nt ELSE IF op.kt # 0 THEN op.kt ELSE Half(nc)
  IN [ic |-> ic, nc |-> nc, kt |-> kt, nt |-> nt, toad |-> Toad(op.toad, op.wits)]

MadeOk(M, op) ==
  LET e == Made(op)
  IN /\ op.nm \notin DOMAIN M.names
     /\ <<op.nm, op.how>> \notin M.spent
     /\ e.ic >= 1 /\ SithOk(e.kt, e.ic) /\ SithOk(e.nt, e.nc)
     /\ NoDup(op.wits) /\ ToadOk(e.toad, op.wits)
     /\ op.tr \/ (op.wits = <<>> /\ ~op.eo)

\* rotating: what the event says
Turned(r, op) ==
  LET wits == SelectSeq(r.wits, LAMBDA w : w \notin Rng(op.cuts)) \o op.adds
      nc == IF r.more # <<>> THEN Len(Head(r.more)) ELSE IF op.nc = -1 THEN Len(r.nxt) ELSE op.nc
      kt == IF op.kt = 0 THEN r.nt ELSE op.kt
      nt == IF op.nt # 0 THEN op.nt ELSE kt
  IN [wits |-> wits, nc |-> nc, kt |-> kt, nt |-> nt,
      toad |-> IF op.toad = -1 /\ op.cuts = <<>> /\ op.adds = <<>> THEN r.toad ELSE Toad(op.toad, wits)]

TurnedOk(r, op) ==
  LET e == Turned(r, op)
  IN /\ r.tr /\ r.nxt # <<>>
     /\ SithOk(e.kt, Len(r.nxt)) /\ SithOk(e.nt, e.nc)
     /\ NoDup(op.cuts) /\ NoDup(op.adds) /\ Rng(op.cuts) \subseteq Rng(r.wits) /\ Rng(op.adds) \cap (Rng(r.wits) \cup Rng(op.cuts)) = {}
     /\ ToadOk(e.toad, e.wits)

Ok(M, op) ==
  CASE op.op = "make"     -> MadeOk(M, op)
    [] op.op = "rotate"   -> Live(M, op.h) /\ TurnedOk(M.id[op.h], op)
    [] op.op = "interact" -> Live(M, op.h) /\ ~M.id[op.h].eo /\ M.id[op.h].nxt # <<>>
    [] op.op = "delete"   -> op.nm \in DOMAIN M.names
    [] op.op = "speak"    -> Live(M, op.h)
    [] op.op = "reopen"   -> TRUE

\* vk, dk: the keys of the event, and those it commits to
After(M, op, vk, dk) ==
  CASE op.op = "make" ->
         LET e == Made(op)
         IN [M EXCEPT !.names = (op.nm :> op.h) @@ @, !.spent = @ \cup {<<op.nm, op.how>>},
                      !.id = (op.h :> [keys |-> vk, nxt |-> dk, n |-> 1, kt |-> e.kt, nt |-> e.nt, wits |-> op.wits, toad |-> e.toad,
                                       tr |-> op.tr, eo |-> op.eo,
                                       prev |-> IF op.lots # <<>> /\ op.ir > 0 THEN op.lots[op.ir] ELSE <<>>,
                                       more |-> IF op.lots = <<>> \/ op.ir + 2 > Len(op.lots) THEN <<>>
                                                ELSE SubSeq(op.lots, op.ir + 3, Len(op.lots)) \o <<op.tail>>]) @@ @]
    [] op.op = "rotate" ->
         LET r == M.id[op.h]
             e == Turned(r, op)
         IN [M EXCEPT !.id[op.h] = [@ EXCEPT !.keys = vk, !.nxt = dk, !.n = @ + 1, !.kt = e.kt, !.nt = e.nt, !.wits = e.wits,
                                             !.toad = e.toad, !.prev = r.keys, !.more = IF @ = <<>> THEN <<>> ELSE Tail(@)]]
    [] op.op = "interact" -> [M EXCEPT !.id[op.h].n = @ + 1]
    [] op.op = "delete" ->
         LET h == M.names[op.nm]
         IN [M EXCEPT !.names = [x \in DOMAIN @ \ {op.nm} |-> @[x]], !.id = [x \in DOMAIN @ \ {h} |-> @[x]]]
    [] OTHER -> M
=============================================================================
