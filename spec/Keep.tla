-------------------------------- MODULE Keep --------------------------------
(***************************************************************************)
(* What a keystore does for its owner: it makes the key pairs of           *)
(* identifiers, lot by lot, keeps their private keys under an              *)
(* authentication key, signs, and reveals lot after lot.                   *)
(*                                                                         *)
(* M  en     the authentication key in force (0: none, secrets are plain)  *)
(*    open   a manager that knows its seed is at work                      *)
(*    root   the root salt                                                 *)
(*    pidx   how many identifiers were begun                               *)
(*    taken  handles that may not be used again                            *)
(*    id     handle -> [a: how its keys are made, s: their salt, st: their *)
(*           stem, t: tier, lots: the lots of keys made or taken in for it, at: the *)
(*           number of lots before the one in use]                         *)
(*    first  the first keys of all identifiers begun                       *)
(*    held   the keys whose private keys are kept                          *)
(* The lot after the one in use is the one committed to.                   *)
(* An operation is a record op with field op; vk are the keys it revealed, *)
(* dk those it committed to.                                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == { s[j] : j \in 1..Len(s) }
RECURSIVE Sum(_)
Sum(lots) == IF lots = <<>> THEN 0 ELSE Len(Head(lots)) + Sum(Tail(lots))

Live(M, h) == h \in DOMAIN M.id
Lot(r, n) == IF n >= 1 /\ n <= Len(r.lots) THEN r.lots[n] ELSE <<>>
Cur(r) == Lot(r, r.at + 1)
Nxt(r) == Lot(r, r.at + 2)
Old(r) == Lot(r, r.at)
Held(M, lot) == Rng(lot) \subseteq M.held
Last(r) == Len(r.lots) < r.at + 3          \* no lot is ready after the next

Stem(M, op) == IF op.st = "" THEN "#" \o ToString(M.pidx) ELSE op.st
Salt(M, op) == IF op.a = "randy" THEN 0 ELSE IF op.s # 0 THEN op.s ELSE M.root
\* the path of key number j of a lot made after lots
Path(a, s, st, t, lots, r, j, xf) == IF a = "randy" THEN <<>> ELSE <<s, st, t, r, Sum(SubSeq(lots, 1, r)) + j - 1, xf>>

\* where the keys an operation makes have to come from: one path per key
Vpaths(M, op) ==
  CASE op.op = "incept" -> [j \in 1..op.ic |-> Path(op.a, Salt(M, op), Stem(M, op), op.t, <<>>, 0, j, op.xf)]
    [] OTHER -> <<>>
Dpaths(M, op, vk) ==
  CASE op.op = "incept" -> [j \in 1..op.nc |-> Path(op.a, Salt(M, op), Stem(M, op), op.t, <<vk>>, 1, j, op.xf)]
    [] op.op = "rotate" -> LET r == M.id[op.h]
                           IN [j \in 1..op.nc |-> Path(r.a, r.s, r.st, r.t, r.lots, Len(r.lots), j, op.xf)]
    [] op.op = "ingest" -> [j \in 1..op.nc |-> Path(op.a, Salt(M, op), Stem(M, op), op.t, op.lots, Len(op.lots), j, op.xf)]
    [] OTHER -> <<>>

\* is the operation to be done? (dup: its first key began an identifier before)
Ok(M, op, dup) ==
  CASE op.op = "open"   -> IF M.en # 0 THEN op.sd = M.en ELSE op.ae = 0 \/ op.sd = op.ae
    [] op.op = "setae"  -> M.open /\ (op.ae = 0 \/ op.sd = op.ae)
    [] op.op = "incept" -> M.open /\ op.ic > 0 /\ op.nc >= 0 /\ ~dup
    [] op.op = "ingest" -> M.open /\ op.ir < Len(op.lots) /\ ~dup
    [] op.op = "rotate" -> M.open /\ Live(M, op.h) /\ op.nc >= 0 /\ Nxt(M.id[op.h]) # <<>> /\ Held(M, Nxt(M.id[op.h]))
    [] op.op = "replay" -> /\ M.open /\ Live(M, op.h)
                           /\ IF op.adv THEN ~Last(M.id[op.h]) /\ Held(M, Nxt(M.id[op.h]))
                              ELSE Held(M, Cur(M.id[op.h]))
    [] op.op = "undo"   -> TRUE
    [] op.op = "move"   -> M.open /\ (op.h = op.to \/ (Live(M, op.h) /\ op.to \notin M.taken))
    [] op.op = "sign"   -> M.open /\ Rng(op.ks) \subseteq M.held /\ op.okargs
    [] op.op = "unseal" -> M.open /\ op.k \in M.held /\ op.good

\* what it is to answer: the keys revealed, and those committed to, where they are not new
Reveals(M, op, vk) ==
  CASE op.op = "rotate" -> Nxt(M.id[op.h])
    [] op.op = "replay" -> IF op.adv THEN Nxt(M.id[op.h]) ELSE Cur(M.id[op.h])
    [] OTHER -> vk
Commits(M, op, dk) ==
  CASE op.op = "replay" -> IF op.adv THEN Lot(M.id[op.h], M.id[op.h].at + 3) ELSE Nxt(M.id[op.h])
    [] OTHER -> dk

Erased(M, op) == IF op.er THEN Rng(Old(M.id[op.h])) ELSE {}

\* the keystore after an operation that was done
After(M, op, vk, dk) ==
  CASE op.op = "open"   -> [M EXCEPT !.open = TRUE, !.en = IF @ # 0 THEN @ ELSE op.ae]
    [] op.op = "setae"  -> [M EXCEPT !.en = op.ae]
    [] op.op = "incept" ->
         [M EXCEPT !.pidx = @ + 1, !.taken = @ \cup {op.h}, !.first = @ \cup {vk[1]}, !.held = @ \cup Rng(vk) \cup Rng(dk),
                   !.id = (op.h :> [a |-> op.a, s |-> Salt(M, op), st |-> IF op.a = "randy" THEN "" ELSE Stem(M, op), t |-> op.t,
                                 lots |-> <<vk, dk>>, at |-> 0]) @@ @]
    [] op.op = "ingest" ->
         [M EXCEPT !.pidx = @ + 1, !.taken = @ \cup {op.h}, !.first = @ \cup {op.lots[1][1]}, !.held = @ \cup UNION { Rng(l) : l \in Rng(op.lots) } \cup Rng(dk),
                   !.id = (op.h :> [a |-> op.a, s |-> Salt(M, op), st |-> IF op.a = "randy" THEN "" ELSE Stem(M, op), t |-> op.t,
                                 lots |-> Append(op.lots, dk), at |-> op.ir]) @@ @]
    [] op.op = "rotate" ->
         [M EXCEPT !.held = (@ \cup Rng(dk)) \ Erased(M, op),
                   !.id[op.h] = [@ EXCEPT !.at = @ + 1, !.lots = Append(@, dk)]]
    [] op.op = "replay" ->
         IF ~op.adv THEN M
         ELSE [M EXCEPT !.held = @ \ Erased(M, op), !.id[op.h].at = @ + 1]
    [] op.op = "undo"   -> [M EXCEPT !.id[op.h].at = @ - 1]
    [] op.op = "move"   ->
         IF op.h = op.to THEN M
         ELSE [M EXCEPT !.taken = @ \cup {op.to},
                        !.id = [x \in (DOMAIN M.id \ {op.h}) \cup {op.to} |-> IF x = op.to THEN M.id[op.h] ELSE M.id[x]]]
    [] OTHER -> M
=============================================================================
