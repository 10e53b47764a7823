-------------------------------- MODULE KelMC --------------------------------
(***************************************************************************)
(* Every order in which a validator can be shown a world's messages, with  *)
(* its escrows processed at any points in between.  WORLDS names a file of *)
(* worlds, each with a menu of deliveries [x, sg, wg, cp, sl, loc] to be   *)
(* made once each.  Checks that what Kel.tla allows and obliges makes      *)
(* sense (single authoritative chains, first seen logs only grow, no       *)
(* establishment event undone, same result whatever the order when nobody  *)
(* is duplicitous) and prints every complete schedule for replay against   *)
(* the implementation.                                                     *)
(***************************************************************************)
EXTENDS Kel, TLC, Json, IOUtils

CONSTANT EMIT

J == JsonDeserialize(IOEnv.WORLDS)

VARIABLES wi,     \* which world
          V, R,   \* as in Kel
          T,      \* all evidence so far delivered, kept or not
          left,   \* deliveries still to make
          h       \* what happened: menu positions, 0 for an escrow pass

vars == <<wi, V, R, T, left, h>>

NoEv == [sg |-> {}, wg |-> {}, loc |-> FALSE, on |-> FALSE]
WO(w) == [ev |-> J[w].ev, own |-> Range(J[w].own)]
Wd == WO(wi)
M == J[wi].menu
Wigs(l) == Range(l.wg) \cup { [w |-> c, i |-> -1] : c \in Range(l.cp) }
Merge(a, l) == [sg |-> a.sg \cup Range(l.sg), wg |-> a.wg \cup Wigs(l),
                loc |-> a.loc \/ l.loc, on |-> TRUE]

Init == \E w \in 1..Len(J) :
          /\ wi = w
          /\ V = V0(J[w].np, Len(J[w].ev))
          /\ R = [x \in 1..Len(J[w].ev) |-> NoEv]
          /\ T = R
          /\ left = 1..Len(J[w].menu)
          /\ h = <<>>

Prune(v, r) == [x \in DOMAIN r |-> IF r[x].on /\ Hopeless(Wd, v, x, r[x].sg, r[x].loc) THEN NoEv ELSE r[x]]

GoodSeal(x, sl) ==
  LET e == Wd.ev[x] IN ~IsDel(e) \/ (sl > 0 /\ sl \in Sealers(Wd, V, Delegator(V, e), x))

Deliver(m) ==
  /\ m \in left
  /\ left' = left \ {m}
  /\ h' = Append(h, m)
  /\ LET l == M[m]
         x == l.x
         now == Fails(Wd, V, x, Range(l.sg), Range(l.wg), l.loc)
     IN /\ T' = [T EXCEPT ![x] = Merge(@, l)]
        /\ IF now = {} /\ GoodSeal(x, l.sl)
           THEN /\ V' = Take(Wd, V, x)
                /\ R' = Prune(V', R)
           ELSE /\ V' = V
                /\ R' = [R EXCEPT ![x] = IF Hopeless(Wd, V, x, Range(l.sg), l.loc) THEN @ ELSE Merge(@, l)]
  /\ UNCHANGED wi

Ripe(v, r) == { x \in DOMAIN r : r[x].on /\ Fails(Wd, v, x, r[x].sg, r[x].wg, r[x].loc) = {} }

\* one event leaves the escrows
Escrow ==
  /\ \E x \in Ripe(V, R) : V' = Take(Wd, V, x) /\ R' = Prune(V', R)
  /\ h' = IF h /= <<>> /\ h[Len(h)] = 0 THEN h ELSE Append(h, 0)
  /\ UNCHANGED <<wi, T, left>>

\* an escrow pass, once begun, runs to its end
Busy == h /= <<>> /\ h[Len(h)] = 0 /\ Ripe(V, R) /= {}

Next == Escrow \/ (~Busy /\ \E m \in left : Deliver(m))

Spec == Init /\ [][Next]_vars

Over == left = {} /\ Ripe(V, R) = {}

---------------------------------------------------------------------------
Pids == DOMAIN V.ks
Chain(p) == [s \in 1..(V.ks[p].s + 1) |-> LastAt(V, p, s - 1)]

\* the authoritative events form one chain from inception to the latest event
OneChain ==
  \A p \in Pids : V.ks[p].live =>
    LET c == Chain(p) IN
      /\ c[Len(c)] = V.ks[p].d
      /\ IsIncept(Wd.ev[c[1]])
      /\ \A j \in 2..Len(c) : Wd.ev[c[j]].pr = c[j - 1] /\ Wd.ev[c[j]].s = j - 1

RECURSIVE Refold(_, _, _)
Refold(v, c, j) == IF j > Len(c) THEN v ELSE Refold(Take(Wd, v, c[j]), c, j + 1)

\* the key state is what the authoritative chain alone makes it
Lineage ==
  \A p \in Pids : V.ks[p].live =>
    LET k == Refold(V0(Len(V.ks), Len(Wd.ev)), Chain(p), 1).ks[p] IN
      [V.ks[p] EXCEPT !.prev = k.prev] = k

\* every establishment event in the chain was pre-committed by the one before it
PreRotated ==
  \A p \in Pids : V.ks[p].live =>
    LET c == Chain(p)
        est == SelectSeq(c, LAMBDA x : IsEst(Wd.ev[x]))
    IN \A j \in 2..Len(est) :
         LET a == Wd.ev[est[j - 1]]
             b == Wd.ev[est[j]]
         IN Sat(a.nt, Exposed(b.k, a.n, T[est[j]].sg)) /\ Sat(b.kt, Signed(b.k, T[est[j]].sg))

\* delegated events in the chain are sealed by their delegator's log
Delegated ==
  \A p \in Pids : V.ks[p].live =>
    \A x \in Range(Chain(p)) :
      (IsDel(Wd.ev[x]) /\ ~Exempt(Wd, V, Wd.ev[x])) =>
         \E y \in Range(V.fel[V.ks[p].di]) : Seals(Wd.ev[y], x, Wd.ev[x])

Once == \A p \in Pids : NoDup(V.fel[p])

LogsAgree ==
  \A p \in Pids : { x \in Range(V.fel[p]) : TRUE } =
                  UNION { Range(V.kel[p][s]) : s \in 1..Len(V.kel[p]) }

\* logs only grow; what was first seen stays; no plain rotation is undone
Grow ==
  [][ \A p \in DOMAIN V.fel :
        /\ Len(V'.fel[p]) >= Len(V.fel[p]) /\ SubSeq(V'.fel[p], 1, Len(V.fel[p])) = V.fel[p]
        /\ \A s \in 1..Len(V.kel[p]) : SubSeq(V'.kel[p][s], 1, Len(V.kel[p][s])) = V.kel[p][s]
        /\ V.ks[p].live =>
             \A x \in { y \in Range(Chain(p)) : IsEst(Wd.ev[y]) /\ ~IsDel(Wd.ev[y]) } :
                LastAt(V', p, Wd.ev[x].s) = x ]_vars

---------------------------------------------------------------------------
\* nobody is duplicitous and nothing is lost for want of a good signature
Clean ==
  /\ Wd.own = {}
  /\ \A m, n \in 1..Len(M) :
       LET a == Wd.ev[M[m].x]
           b == Wd.ev[M[n].x]
       IN (a.p = b.p /\ a.s = b.s) => M[m].x = M[n].x
  /\ \A m \in 1..Len(M) : M[m].ok

Total == [x \in 1..Len(Wd.ev) |->
            LET ms == { m \in 1..Len(M) : M[m].x = x } IN
            [sg |-> UNION { Range(M[m].sg) : m \in ms }, wg |-> UNION { Wigs(M[m]) : m \in ms },
             loc |-> \E m \in ms : M[m].loc, on |-> ms /= {}]]

RECURSIVE Best(_)
Best(v) == LET r == { x \in 1..Len(Wd.ev) : Total[x].on /\
                        Fails(Wd, v, x, Total[x].sg, Total[x].wg, Total[x].loc) = {} }
           IN IF r = {} THEN v ELSE Best(Take(Wd, v, CHOOSE x \in r : TRUE))

Confluent == (Over /\ Clean) =>
   LET b == Best(V0(Len(V.ks), Len(Wd.ev))) IN V.ks = b.ks /\ V.kel = b.kel

Emit == (EMIT /\ Over) => PrintT("@H " \o ToJson([w |-> wi, h |-> h]))
=============================================================================
