------------------------------- MODULE ReplyMC -------------------------------
(***************************************************************************)
(* Every order in which a validator can be shown a small world's key       *)
(* events and signed replies, with its escrow processed at any points in   *)
(* between.  WORLDS names a file of worlds, each with a menu of deliveries *)
(* to be made once each: key events [e "kel", x] (in the order of the      *)
(* table) and replies [e "rpy", r, cg, tg] with one couple or one group.   *)
(* Checks that what Reply.tla obliges makes sense and prints every         *)
(* complete schedule for replay against the implementation.                *)
(***************************************************************************)
EXTENDS Reply, TLC, Json, IOUtils

CONSTANT EMIT

J == JsonDeserialize(IOEnv.WORLDS)

VARIABLES wi,     \* which world
          V,      \* as in Reply
          H,      \* per reply: good signatures held in escrow
          D,      \* per reply: all good signatures delivered
          was,    \* replies that have been accepted
          left,   \* deliveries still to make
          h       \* what happened: menu positions, 0 an escrow pass

vars == <<wi, V, H, D, was, left, h>>

WO(w) == [ev |-> J[w].ev, rp |-> J[w].rp, ks |-> J[w].ks, nt |-> Rng(J[w].nt), own |-> {}]
W == WO(wi)
M == J[wi].menu

Init == \E w \in 1..Len(J) :
          /\ wi = w
          /\ V = [kl |-> [p \in 1..J[w].np |-> <<>>],
                  acc |-> [k \in 1..Len(J[w].ks) |-> 0], sn |-> [k \in 1..Len(J[w].ks) |-> -1]]
          /\ H = [r \in 1..Len(J[w].rp) |-> {}]
          /\ D = [r \in 1..Len(J[w].rp) |-> [sg |-> {}, cg |-> FALSE]]
          /\ was = {}
          /\ left = 1..Len(J[w].menu)
          /\ h = <<>>

Fresh(v, r, s) == LET k == W.rp[r].k
                      a == v.acc[k]
                  IN IF a = r THEN s >= v.sn[k] ELSE After(W, r, s, a, v.sn[k])
Accept(v, r, s) == [v EXCEPT !.acc[W.rp[r].k] = r, !.sn[W.rp[r].k] = s]

InOrder(m) == \A n \in left : M[n].e = "kel" => M[m].x <= M[n].x
DeliverKel(m) ==
  /\ M[m].e = "kel" /\ InOrder(m)
  /\ V' = [V EXCEPT !.kl[W.ev[M[m].x].p] = Append(@, M[m].x)]
  /\ UNCHANGED <<H, D, was>>

Good(l) == UNION { { [s |-> l.tg[j].s, x |-> l.tg[j].x, i |-> l.tg[j].sg[n].i]
                     : n \in { q \in DOMAIN l.tg[j].sg : l.tg[j].sg[q].ok } } : j \in DOMAIN l.tg }
Couple(l) == \E j \in DOMAIN l.cg : l.cg[j].ok /\ l.cg[j].p = W.rp[l.r].p

DeliverRpy(m) ==
  /\ M[m].e = "rpy"
  /\ LET l == M[m]
         r == l.r
         g == { z \in Good(l) : l.tg[1].p = W.rp[r].p }
         cg == Couple(l)
         ss == { s \in Under(W, V, r, g \cup { z \in H[r] : \E y \in g : y.s = z.s /\ y.x = z.x }, cg) : Fresh(V, r, s) }
         hold == { z \in g : Fresh(V, r, z.s) /\ ~Wrong(W, V, W.rp[r].p, z.s, z.x) }
     IN /\ D' = [D EXCEPT ![r] = [sg |-> @.sg \cup g, cg |-> @.cg \/ cg]]
        /\ IF ~W.rp[r].ok THEN UNCHANGED <<V, H, was>>
           ELSE IF ss /= {}
           THEN V' = Accept(V, r, Max0(ss)) /\ H' = [H EXCEPT ![r] = {}] /\ was' = was \cup {r}
           ELSE /\ V' = V /\ was' = was
                /\ H' = IF V.acc[W.rp[r].k] = r THEN H ELSE [H EXCEPT ![r] = @ \cup hold]

\* escrowed replies that count now, and that never will
Ripe(v, hh) == { r \in DOMAIN hh : hh[r] /= {} /\ \E s \in Under(W, v, r, hh[r], FALSE) : Fresh(v, r, s) }
Spoilt(v, hh) == { r \in DOMAIN hh : \E g \in hh[r] : Wrong(W, v, W.rp[r].p, g.s, g.x) }

Deliver(m) ==
  /\ m \in left
  /\ left' = left \ {m}
  /\ h' = Append(h, m)
  /\ DeliverKel(m) \/ DeliverRpy(m)
  /\ UNCHANGED wi

LastWas0 == h /= <<>> /\ h[Len(h)] = 0

Esc ==
  /\ \E r \in Ripe(V, H) :
       LET s == Max0({ z \in Under(W, V, r, H[r], FALSE) : Fresh(V, r, z) })
       IN V' = Accept(V, r, s) /\ H' = [H EXCEPT ![r] = {}] /\ was' = was \cup {r}
  /\ h' = IF LastWas0 THEN h ELSE Append(h, 0)
  /\ UNCHANGED <<wi, D, left>>

\* replies that hold what will never count may be dropped by a pass
Drop ==
  /\ ~LastWas0 /\ Ripe(V, H) = {} /\ Spoilt(V, H) /= {}
  /\ H' = [r \in DOMAIN H |-> IF r \in Spoilt(V, H) THEN {} ELSE H[r]]
  /\ h' = Append(h, 0)
  /\ UNCHANGED <<wi, V, D, was, left>>

Busy == LastWas0 /\ Ripe(V, H) /= {}

Next == Esc \/ Drop \/ (~Busy /\ \E m \in left : Deliver(m))
Spec == Init /\ [][Next]_vars

Over == left = {} /\ Ripe(V, H) = {}

---------------------------------------------------------------------------
\* what is accepted was signed by its owner, under the event it is said to be
Authentic == \A k \in DOMAIN V.acc : LET r == V.acc[k] IN
               r /= 0 => /\ W.rp[r].ok /\ W.rp[r].k = k
                         /\ V.sn[k] \in Under(W, V, r, D[r].sg, D[r].cg)

\* the accepted reply of a key is only ever replaced by a later one
Latest ==
  [][\A k \in DOMAIN V.acc :
       \/ V'.acc[k] = V.acc[k] /\ V'.sn[k] >= V.sn[k]
       \/ V'.acc[k] /= 0 /\ After(W, V'.acc[k], V'.sn[k], V.acc[k], V.sn[k])]_vars

\* in any order it comes to the latest of all that came whole, or was put together
Whole(m) == M[m].e = "rpy" /\ W.rp[M[m].r].ok
\* some of a reply's signatures were dropped as never to count
Mixed(r) == \E g \in D[r].sg : Wrong(W, V, W.rp[r].p, g.s, g.x)
Newest == (Over /\ \A r \in DOMAIN W.rp : ~W.rp[r].old) =>
  \A k \in DOMAIN V.acc :
    /\ \A m \in DOMAIN M : Whole(m) /\ W.rp[M[m].r].k = k =>
         LET r == M[m].r
             g == { z \in Good(M[m]) : M[m].tg[1].p = W.rp[r].p }
         IN \A s \in Under(W, V, r, g, Couple(M[m])) :
              \* a reply once accepted does not wait to be accepted again under a later event
              r \in was \/ (V.acc[k] /= 0 /\ NotBefore(W, V.acc[k], V.sn[k], r, s))
    /\ \A r \in DOMAIN W.rp : W.rp[r].k = k /\ W.rp[r].ok /\ r \notin was /\ ~Mixed(r) =>
         \A s \in Under(W, V, r, D[r].sg, D[r].cg) : V.acc[k] /= 0 /\ NotBefore(W, V.acc[k], V.sn[k], r, s)

\* signatures are only set aside with their reply, and an accepted reply waits for nothing
Waiting == \A r \in DOMAIN H : H[r] \subseteq D[r].sg /\ (V.acc[W.rp[r].k] = r => H[r] = {})

Emit == IF EMIT /\ Over THEN PrintT("@H " \o ToJson([w |-> wi, h |-> h])) ELSE TRUE
=============================================================================
