-------------------------------- MODULE TelMC --------------------------------
(***************************************************************************)
(* Every order in which a validator can be shown a small world's key       *)
(* events, transaction events and credentials, with its escrows processed  *)
(* at any points in between.  WORLDS names a file of worlds, each with a   *)
(* menu of deliveries to be made once each: key events [e "kel", k] (in    *)
(* the order of the table), transaction events [e "tel", x, cp, wg, loc]   *)
(* and credentials [e "cred", c].  All schemas are known from the start.   *)
(* Checks that what Tel.tla allows and obliges makes sense and prints      *)
(* every complete schedule for replay against the implementation.          *)
(***************************************************************************)
EXTENDS Tel, TLC, Json, IOUtils

CONSTANT EMIT

J == JsonDeserialize(IOEnv.WORLDS)

VARIABLES wi,     \* which world
          V,      \* as in Tel
          R,      \* per transaction event: what waits
          C,      \* credentials that wait
          left,   \* deliveries still to make
          h       \* what happened: menu positions, 0 an escrow pass of events, -1 of credentials

vars == <<wi, V, R, C, left, h>>

NoR == [on |-> FALSE, cp |-> [k |-> 0, s |-> 0], wg |-> {}, loc |-> FALSE]
WO(w) == [tev |-> J[w].tev, kev |-> J[w].kev, cr |-> J[w].cr, nr |-> J[w].nr, np |-> J[w].np, own |-> Range(J[w].own)]
W == WO(wi)
M == J[wi].menu

Init == \E w \in 1..Len(J) :
          /\ wi = w
          /\ V = [V0(J[w].np, J[w].nr + Len(J[w].cr), Len(J[w].tev)) EXCEPT !.sc = 1..J[w].nsc]
          /\ R = [x \in 1..Len(J[w].tev) |-> NoR]
          /\ C = {}
          /\ left = 1..Len(J[w].menu)
          /\ h = <<>>

Prune(v, r) == [x \in DOMAIN r |-> IF r[x].on /\ Wrong(W, v, x, r[x].loc) /= {} THEN NoR ELSE r[x]]

\* key events come in the order of the table
InOrder(m) == \A n \in left : M[n].e = "kel" => M[m].k <= M[n].k

DeliverKel(m) ==
  /\ M[m].e = "kel"
  /\ InOrder(m)
  /\ LET k == M[m].k
         e == W.kev[k]
     IN V' = [V EXCEPT !.kl[e.p] = Append(@, k)]
  /\ UNCHANGED <<R, C>>

DeliverTel(m) ==
  /\ M[m].e = "tel"
  /\ LET l == M[m]
         x == l.x
         wg == Range(l.wg)
     IN IF Fails(W, V, x, l.cp, wg, l.loc) = {}
        THEN /\ V' = Take(W, V, x)
             /\ R' = Prune(V', R)
        ELSE /\ V' = V
             /\ R' = IF l.cp.k = 0 \/ Wrong(W, V, x, l.loc) /= {} THEN R
                     ELSE [R EXCEPT ![x] = [on |-> TRUE, cp |-> l.cp, wg |-> @.wg \cup wg, loc |-> l.loc]]
  /\ C' = C

DeliverCred(m) ==
  /\ M[m].e = "cred"
  /\ LET c == M[m].c IN
     IF Verified(W, V, c)
     THEN V' = [V EXCEPT !.sv = @ \cup {c}] /\ C' = C
     ELSE V' = V /\ C' = IF Refused(W, V, c) THEN C ELSE C \cup {c}
  /\ R' = R

Ripe(v, r) == { x \in DOMAIN r : r[x].on /\ Fails(W, v, x, r[x].cp, r[x].wg, r[x].loc) = {} }
Ready(v, c) == { d \in c \ v.sv : Verified(W, v, d) }

Deliver(m) ==
  /\ m \in left
  /\ left' = left \ {m}
  /\ h' = Append(h, m)
  /\ DeliverKel(m) \/ DeliverTel(m) \/ DeliverCred(m)
  /\ UNCHANGED wi

LastWas(n) == h /= <<>> /\ h[Len(h)] = n

Tesc ==
  /\ \E x \in Ripe(V, R) : V' = Take(W, V, x) /\ R' = Prune(V', R)
  /\ h' = IF LastWas(0) THEN h ELSE Append(h, 0)
  /\ UNCHANGED <<wi, C, left>>

Cesc ==
  /\ \E d \in Ready(V, C) : V' = [V EXCEPT !.sv = @ \cup {d}] /\ C' = C \ {d}
  /\ h' = IF LastWas(-1) THEN h ELSE Append(h, -1)
  /\ UNCHANGED <<wi, R, left>>

\* a pass, once begun, runs to its end
Busy0 == LastWas(0) /\ Ripe(V, R) /= {}
Busy1 == LastWas(-1) /\ Ready(V, C) /= {}

Next == \/ ~Busy1 /\ Tesc
        \/ ~Busy0 /\ Cesc
        \/ ~Busy0 /\ ~Busy1 /\ \E m \in left : Deliver(m)

Spec == Init /\ [][Next]_vars

Over == left = {} /\ Ripe(V, R) = {} /\ Ready(V, C) = {}

---------------------------------------------------------------------------
Logs == DOMAIN V.tl

\* every log is one chain, of the kinds of event its kind of log has
Chains ==
  \A j \in Logs : LET l == V.tl[j] IN
    /\ \A n \in 1..Len(l) : W.tev[l[n]].i = j /\ W.tev[l[n]].s = n - 1
    /\ \A n \in 2..Len(l) : W.tev[l[n]].pr = l[n - 1]
    /\ l /= <<>> =>
         IF j <= W.nr
         THEN W.tev[l[1]].t = "vcp" /\ \A n \in 2..Len(l) : W.tev[l[n]].t = "vrt"
         ELSE /\ Len(l) <= 2
              /\ W.tev[l[1]].t \in Issues
              /\ Len(l) = 2 => W.tev[l[2]].t \in {"rev", "brv"} /\ W.tev[l[2]].r = W.tev[l[1]].r

\* every accepted event is sealed in the log of the issuer of its registry, which is known
Sealed ==
  \A j \in Logs : \A n \in 1..Len(V.tl[j]) :
    LET x == V.tl[j][n]
        e == W.tev[x]
        p == IF e.t = "vcp" THEN e.ii ELSE W.tev[V.tl[e.r][1]].ii
    IN \E s \in 1..Len(V.kl[p]) : W.kev[V.kl[p][s]].a = << [i |-> e.i, s |-> e.s, x |-> x] >>

\* no more, and none twice, and the threshold can be met
BackersSound ==
  \A r \in 1..W.nr : \A n \in 1..Len(V.tl[r]) :
    LET x == V.tl[r][n] IN Distinct(V.bk[x]) /\ ToadOk(V.bk[x], W.tev[x].bt)

\* simple registries have simple events, backed ones backed events
Kinds ==
  \A j \in Logs : j > W.nr => \A n \in 1..Len(V.tl[j]) :
    LET e == W.tev[V.tl[j][n]] IN (e.t \in Simple) = NoBackers(W, V, e.r)

\* what was saved was issued, by its issuer, in its registry, and its sources were saved
Saved ==
  \A c \in V.sv : /\ Issued(W, V, c)
                  /\ Issuer(W, V, W.cr[c].r) = W.cr[c].i
                  /\ \A ed \in Range(W.cr[c].ed) : ed.n \in V.sv

\* logs only grow, saved credentials stay, and a revocation is for good
Grow ==
  [][ /\ \A j \in DOMAIN V.tl : Len(V'.tl[j]) >= Len(V.tl[j]) /\ SubSeq(V'.tl[j], 1, Len(V.tl[j])) = V.tl[j]
      /\ V.sv \subseteq V'.sv
      /\ \A c \in DOMAIN J[wi].cr : Revoked(W, V, c) => Revoked(W, V', c) ]_vars

\* where no two events claim one place, what comes of it all does not depend on the order
Clean ==
  \A m, n \in 1..Len(M) :
    (M[m].e = "tel" /\ M[n].e = "tel") =>
      LET a == W.tev[M[m].x]
          b == W.tev[M[n].x]
      IN /\ (a.i = b.i /\ a.s = b.s) => m = n
         /\ M[m].cp.k > 0

Tels == { m \in 1..Len(M) : M[m].e = "tel" }
RECURSIVE Best(_)
Best(v) == LET r == { m \in Tels : Fails(W, v, M[m].x, M[m].cp, Range(M[m].wg), M[m].loc) = {} }
           IN IF r = {} THEN v ELSE Best(Take(W, v, M[CHOOSE m \in r : TRUE].x))

Confluent == (Over /\ Clean) =>
  V.tl = Best([V0(W.np, W.nr + Len(W.cr), Len(W.tev)) EXCEPT !.kl = V.kl]).tl

Emit == (EMIT /\ Over) => PrintT("@H " \o ToJson([w |-> wi, h |-> h]))
=============================================================================
