-------------------------------- MODULE Reply --------------------------------
(***************************************************************************)
(* What a validator makes of signed replies: endpoint roles, locations,    *)
(* watched identifiers ("end", "loc", "wat") and key state notices         *)
(* ("ksn").  A reply is about one key (a place in a table) and counts only *)
(* when signed by the identifier p its key belongs to:                     *)
(*   - a nontransferable one by a couple of its key, or                    *)
(*   - by a group of indexed signatures that names the establishment event *)
(*     whose keys made them, by sequence number and digest.                *)
(* The latest wins: of two replies about a key the one signed under the    *)
(* later establishment event, of two under the same the one of later date. *)
(*                                                                         *)
(* W  the world: ev events [p,s,est,n,kt], rp replies [k,p,d,v,ok,..],     *)
(*    ks keys [kd,p,q], nt nontransferable identifiers, own own ones       *)
(* V  [kl: per identifier the events of its log in force,                  *)
(*     acc: per key the reply accepted (0: none),                          *)
(*     sn: per key the place of the event it was accepted under]           *)
(* A signature is [s, x, i]: by key i of event x, said to be at s.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
LOCAL K == INSTANCE Kel

Rng(s) == { s[j] : j \in 1..Len(s) }
Max0(S) == IF S = {} THEN -1 ELSE CHOOSE m \in S : \A n \in S : n <= m
Min0(S) == IF S = {} THEN -1 ELSE CHOOSE m \in S : \A n \in S : m <= n

\* own signatures count only where own messages are let in
Protected(W, p, lax, loc) == ~lax /\ ~loc /\ p \in W.own

Known(V, p, s) == p \in DOMAIN V.kl /\ s >= 0 /\ s < Len(V.kl[p])
At(V, p, s) == V.kl[p][s + 1]

\* a group (s, x) by p can no longer come to count
Wrong(W, V, p, s, x) == Known(V, p, s) /\ (At(V, p, s) /= x \/ ~W.ev[x].est)
\* the signatures of set I (indices) under (s, x) by p suffice
Met(W, V, p, s, x, I) ==
  /\ Known(V, p, s) /\ At(V, p, s) = x /\ x > 0 /\ W.ev[x].p = p /\ W.ev[x].est
  /\ K!Sat(W.ev[x].kt, I)

Indices(S, s, x) == { g.i : g \in { h \in S : h.s = s /\ h.x = x } }
Places(S) == { [s |-> g.s, x |-> g.x] : g \in S }
\* sequence numbers under which the signatures S make reply r count
Under(W, V, r, S, cg) ==
  { g.s : g \in { h \in Places(S) : Met(W, V, W.rp[r].p, h.s, h.x, Indices(S, h.s, h.x)) } }
  \cup (IF cg /\ W.rp[r].p \in W.nt THEN {0} ELSE {})

\* reply r under the event at s comes after reply o under the event at t
After(W, r, s, o, t) == o = 0 \/ s > t \/ (s = t /\ W.rp[r].d > W.rp[o].d)
NotBefore(W, r, s, o, t) == o = 0 \/ s > t \/ (s = t /\ W.rp[r].d >= W.rp[o].d)

Kind(W, r) == W.ks[W.rp[r].k].kd

---------------------------------------------------------------------------
\* key state notices
Behind(W, V, r) == LET e == W.rp[r] IN V.kl[e.q] /= <<>> /\ e.s < Len(V.kl[e.q]) - 1
Disagrees(W, V, r) == LET e == W.rp[r] IN Known(V, e.q, e.s) /\ At(V, e.q, e.s) /= e.x
Untrusted(W, r, lax) == ~lax /\ ~W.rp[r].tr
NoticeOk(W, V, r, lax) == ~Untrusted(W, r, lax) /\ ~Behind(W, V, r) /\ ~Disagrees(W, V, r)

=============================================================================
