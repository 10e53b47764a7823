------------------------------ MODULE KelTrace ------------------------------
(***************************************************************************)
(* Executions of the real validator (Parser, Kevery, Kever, Baser) judged  *)
(* by Kel.tla.  TRACE names a file of JSON lines:                          *)
(*   world  a new validator and the table of events it will be shown       *)
(*   ev     one event message delivered, with its attachments              *)
(*   rct    one receipt message delivered                                  *)
(*   esc    the escrows processed (fix: repeatedly, until nothing changes) *)
(*   att    what is stored with one accepted event                         *)
(*   restart  the process ended between two lines and another started      *)
(*   crash  the process died during the delivery or pass of this line, at  *)
(*          some commit; the event in flight may be half accepted (P)      *)
(* Every line carries what was observed after it: acc, the events newly    *)
(* first seen, in order; for each identifier changed, its key state (ks),  *)
(* its stored key state (sr), its key event log (kel) and first seen log   *)
(* (fel); and the events held as likely duplicitous (lde).                 *)
(***************************************************************************)
EXTENDS Kel, TLC, TLCExt, Json, IOUtils, SequencesExt

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,      \* next line
          W,      \* the world
          V,      \* the validator's state
          E,      \* evidence delivered, per event
          R,      \* evidence the validator was bound to keep, per event
          O,      \* what was last observed, per identifier
          S,      \* what must be stored with each event once accepted
          P,      \* events a crash may have left half accepted
        Q,      \* transferable receipts: [e: delivered, r: to be kept until decided]
          ok      \* FALSE: this world already went wrong, skip to the next

vars == <<i, W, V, E, R, O, S, P, Q, ok>>

Init == /\ i = 1 /\ W = [ev |-> <<>>, own |-> {}] /\ V = V0(0, 0)
        /\ E = <<>> /\ R = <<>> /\ O = <<>> /\ S = <<>> /\ P = {} /\ ok = FALSE
        /\ Q = [e |-> {}, r |-> {}]

NoEv == [sg |-> {}, wg |-> {}, loc |-> FALSE, on |-> FALSE]
NoSt == [sg |-> {}, ws |-> {}, rc |-> {}, tr |-> {}]
O0 == [ks |-> Dead, sr |-> Dead, kel |-> <<>>, fel |-> <<>>]

Wigs(l) == Range(l.wg) \cup { [w |-> c, i |-> -1] : c \in Range(l.cp) }

Merge(ev, sg, wg, loc) ==
  [sg |-> ev.sg \cup sg, wg |-> ev.wg \cup wg, loc |-> ev.loc \/ loc, on |-> TRUE]

\* fold the accepted events: [v, bad] where bad is a set of [x, why]
RECURSIVE Fold(_, _, _, _, _)
Fold(v, rr, bad, acc, ev) ==
  IF acc = <<>> THEN [v |-> v, r |-> rr, bad |-> bad]
  ELSE LET y == Head(acc)
           f == Fails(W, v, y, ev[y].sg, ev[y].wg, ev[y].loc)
           half == \E z \in P : Seals(W.ev[z], y, W.ev[y])
           b == bad \cup { [x |-> y, why |-> w] : w \in IF half THEN f \ {"seal"} ELSE f }
       IN IF "order" \in f \/ W.ev[y].s > Len(v.kel[W.ev[y].p]) + 1
          THEN [v |-> v, r |-> rr, bad |-> b \cup {[x |-> y, why |-> "order"]}]
          ELSE LET v2 == Take(W, v, y)
               IN Fold(v2,
                       [x \in DOMAIN rr |-> IF rr[x].on /\ Hopeless(W, v2, x, rr[x].sg, rr[x].loc)
                                            THEN NoEv ELSE rr[x]],
                       b, Tail(acc), ev)

\* the one delegating event a superseding rotation's rank is judged by is clear
Clear(v, x) ==
  LET e == W.ev[x] IN
  ~IsDel(e) \/ Exempt(W, v, e) \/ ~SupDrt(v.ks[e.p], e)

\* the couple attached names the authoritative sealing event
GoodSeal(v, x, sl) ==
  LET e == W.ev[x] IN
  \/ ~IsDel(e)
  \/ Own(W, v, e)
  \/ WitnessFor(W, v, e) /\ Delegator(v, e) \notin W.own
  \/ sl \in (IF Delegator(v, e) > 0 THEN Sealers(W, v, Delegator(v, e), x) ELSE {})

\* a delegating event is looked for only once its witnesses have signed it, which those a
\* witness accepts of the identifiers it witnesses may not yet be
Sealed(v, x) ==
  LET e == W.ev[x] IN
  \/ ~IsDel(e)
  \/ Exempt(W, v, e)
  \/ \E y \in Sealers(W, v, Delegator(v, e), x) :
       \/ Range(v.at[y].wits) \cap W.own = {} /\ Delegator(v, e) \notin W.own
       \/ Cardinality(S[y].ws) >= v.at[y].toad

\* x must be recorded as likely duplicitous
Duplicitous(v, x) ==
  LET e == W.ev[x]
      K == v.ks[e.p]
  IN /\ K.live
     /\ ~Malformed(e)
     /\ ~Accepted(v, e.p, x)
     /\ \/ IsIncept(e) /\ e.s = 0
        \/ /\ ~IsIncept(e) /\ e.s <= K.s /\ e.s >= 0
           /\ ~(e.t = "rot" /\ e.s > K.lest.s)
           /\ ~(e.t = "drt" /\ e.s >= K.lest.s)

ObsState(k) ==
  IF ~k.live THEN Dead
  ELSE [live |-> TRUE, s |-> k.s, d |-> k.d, t |-> k.t, k |-> k.k, kt |-> k.kt, n |-> k.n, nt |-> k.nt,
        wits |-> k.wits, toad |-> k.toad, br |-> k.br, ba |-> k.ba, lest |-> k.lest,
        di |-> k.di, eo |-> k.eo, dnd |-> k.dnd]

Now(l, o) ==
  [p \in DOMAIN o |->
     IF \E j \in 1..Len(l.ch) : l.ch[j].p = p
     THEN LET c == l.ch[CHOOSE j \in 1..Len(l.ch) : l.ch[j].p = p]
          IN [ks |-> c.ks, sr |-> c.sr, kel |-> c.kel, fel |-> c.fel]
     ELSE o[p]]

RECURSIVE Trim(_)
Trim(s) == IF s /= <<>> /\ s[Len(s)] = <<>> THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* the observed state against the one the accepted events make
Compare(v, o, half) ==
  UNION { LET Whole(s) == SelectSeq(s, LAMBDA x : x \notin half)
              k == ObsState(v.ks[p]) IN
            (IF k = o[p].ks THEN {} ELSE {[x |-> p, why |-> "state"]})
       \cup (IF (IF k.live /\ k.d \in Range(o[p].fel) THEN [fn |-> (CHOOSE j \in 1..Len(o[p].fel) : o[p].fel[j] = k.d) - 1, pr |-> v.ks[p].pr] @@ k ELSE k) = o[p].sr
             THEN {} ELSE {[x |-> p, why |-> "record"]})
       \cup (IF v.kel[p] = (IF half = {} THEN o[p].kel ELSE Trim([s \in DOMAIN o[p].kel |-> Whole(o[p].kel[s])])) THEN {} ELSE {[x |-> p, why |-> "kel"]})
       \cup (IF v.fel[p] = Whole(o[p].fel) THEN {} ELSE {[x |-> p, why |-> "fel"]})
        : p \in DOMAIN o }

Report(bad, l, v) ==
  IF bad = {} THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad]))

World(l) ==
  /\ W' = [ev |-> l.ev, own |-> Range(l.own)]
  /\ V' = V0(l.np, Len(l.ev))
  /\ E' = [x \in 1..Len(l.ev) |-> NoEv]
  /\ R' = [x \in 1..Len(l.ev) |-> NoEv]
  /\ O' = [p \in 1..l.np |-> O0]
  /\ S' = [x \in 1..Len(l.ev) |-> NoSt]
  /\ P' = {}
  /\ Q' = [e |-> {}, r |-> {}]
  /\ ok' = TRUE

\* everything a delivery or an escrow pass must satisfy
Keep(v, x, sg, wg) ==
  LET a == v.at[x] IN
  [sg |-> S[x].sg \cup Signed(a.k, sg),
   ws |-> S[x].ws \cup Witnessed(a.wits, { g \in wg : g.w \notin W.own }),
   rc |-> S[x].rc \cup { g.w : g \in { h \in wg : h.i = -1 /\ h.w > 0 /\ h.w \notin Range(a.wits) /\ h.w \notin W.own } },
   tr |-> S[x].tr]

---------------------------------------------------------------------------
\* Receipts by transferable identifiers.  A group is [p, s, z, g]: signatures g claimed to be
\* by the keys of event z of identifier p at sequence number s.
Sigs(x, t) == { [x |-> x, p |-> t.p, s |-> t.s, z |-> t.z, k |-> g.k, i |-> g.i] : g \in Range(t.g) }
SigsAll(x, ts) == UNION { Sigs(x, t) : t \in Range(ts) }

At(v, t) == LastAt(v, t.p, t.s)
Unmet(v, t) == At(v, t) = 0
GoodT(q) == q.z > 0 /\ Good(W.ev[q.z].k, q) /\ IsEst(W.ev[q.z]) /\ q.p \notin W.own

\* a group that spoils what comes after it in its message
Spoils(v, t) ==
  \/ t.p \in W.own
  \/ /\ ~Unmet(v, t)
     /\ \/ t.z = 0 \/ At(v, t) /= t.z
        \/ ~IsEst(W.ev[t.z])
        \/ \E g \in Range(t.g) : ~Good(W.ev[t.z].k, g)
Unspoilt(v, ts) ==
  { ts[j] : j \in { m \in 1..Len(ts) : \A n \in 1..m : ~Spoils(v, ts[n]) } }

\* what receipts of x that come with a message must leave: stored, and kept
TrNow(v, x, ts) == { q \in UNION { Sigs(x, t) : t \in { u \in Unspoilt(v, ts) : ~Unmet(v, u) } } : GoodT(q) }
TrKeep(v, x, ts) == { q \in UNION { Sigs(x, t) : t \in { u \in Unspoilt(v, ts) : Unmet(v, u) } } : GoodT(q) }

\* given up: another event stands where the receipter's was named
Undone(v, acc, q) == \/ At(v, q) \notin {0, q.z}
                     \/ \E y \in Range(acc) : y /= q.z /\ W.ev[y].p = q.p /\ W.ev[y].s = q.s
Stay(v, acc, qs) == { q \in qs : ~Undone(v, acc, q) }

\* once accepted and not superseded, good late attachments are added
Late(v, x) ==
  LET e == W.ev[x] IN
  Accepted(v, e.p, x) /\ LastAt(v, e.p, e.s) = x /\ e.s <= v.ks[e.p].s

RECURSIVE Before(_)    \* an event and those it follows
Before(x) == IF x = 0 THEN {} ELSE {x} \cup Before(IF W.ev[x].pr < x THEN W.ev[x].pr ELSE 0)

\* half accepted events that neither come through nor give way to another of their identifier
Away(acc) == { x \in P : \A y \in Range(acc) : W.ev[y].p /= W.ev[x].p }

\* accepted now, counting those half accepted before that have now come through
Acc(l) ==
  LET done == { x \in P : \E j \in 1..Len(l.ch) :
                  \/ l.ch[j].ks.live /\ x \in Before(l.ch[j].ks.d)
                  \/ x \in Range(l.ch[j].fel) /\ \E y \in Range(l.acc) : W.ev[y].p = W.ev[x].p }   \* and was superseded
  IN SelectSeq(SetToSeq(done), LAMBDA x : x \notin Range(l.acc)) \o l.acc

Finish(l, f, e2, bad0) ==
  LET o2 == Now(l, O)
      bad == bad0 \cup f.bad \cup (IF f.bad = {} THEN Compare(f.v, o2, P') ELSE {})
  IN /\ Report(bad, l, f.v)
     /\ V' = f.v /\ E' = e2 /\ R' = f.r /\ O' = o2
     /\ ok' = (bad = {})
     /\ W' = W

Ev(l) ==
  LET x == l.x
      e == W.ev[x]
      sg == Range(l.sg)
      wg == Range(l.wg)
      e2 == [E EXCEPT ![x] = Merge(@, sg, Wigs(l), l.loc)]
      keep == Merge(R[x], sg, wg, l.loc)
      r2 == [R EXCEPT ![x] = IF Hopeless(W, V, x, sg, l.loc) THEN @ ELSE keep]
      acc == Acc(l)
      f == Fold(V, r2, {}, acc, e2)
      must == /\ Fails(W, V, x, sg, wg, l.loc) = {}
              /\ GoodSeal(V, x, l.sl) /\ Clear(V, x) /\ Sealed(V, x)
      bad0 == (IF must /\ x \notin Range(acc) THEN {[x |-> x, why |-> "dropped"]} ELSE {})
         \cup (IF Range(acc) \subseteq {x} THEN {} ELSE {[x |-> x, why |-> "other"]})
         \cup (IF Duplicitous(V, x) /\ x \notin Range(l.lde) THEN {[x |-> x, why |-> "dupl"]} ELSE {})
  IN /\ P' = Away(acc)
     /\ Finish(l, f, e2, bad0)
     /\ LET late == f.bad = {} /\ Late(f.v, x)
        IN /\ S' = IF late THEN [S EXCEPT ![x] = [Keep(f.v, x, sg, Wigs(l)) EXCEPT !.tr = @ \cup TrNow(f.v, x, l.tr)]] ELSE S
           /\ Q' = [e |-> Q.e \cup SigsAll(x, l.tr),
                    r |-> Stay(f.v, acc, Q.r) \cup (IF late THEN TrKeep(f.v, x, l.tr) ELSE {})]

Rct(l) ==
  LET x == l.x
      e == W.ev[x]
      e2 == [E EXCEPT ![x] = Merge(@, {}, Wigs(l), FALSE)]
      early == LastAt(V, e.p, e.s) = 0
      r2 == IF early /\ R[x].on THEN [R EXCEPT ![x] = Merge(@, {}, Wigs(l), FALSE)] ELSE R
      f == Fold(V, r2, {}, l.acc, e2)
  IN /\ P' = P
     /\ Finish(l, f, e2, IF l.acc = <<>> THEN {} ELSE {[x |-> x, why |-> "other"]})
     /\ LET late == f.bad = {} /\ Late(f.v, x)
        IN /\ S' = IF late THEN [S EXCEPT ![x] = [Keep(f.v, x, {}, Wigs(l)) EXCEPT !.tr = @ \cup TrNow(f.v, x, l.tr)]] ELSE S
           /\ Q' = [e |-> Q.e \cup SigsAll(x, l.tr),
                    r |-> Stay(f.v, <<>>, Q.r) \cup
                          (IF late THEN TrKeep(f.v, x, l.tr)
                           ELSE IF early THEN { q \in SigsAll(x, l.tr) : GoodT(q) } ELSE {})]

Stuck(v, r) ==
  { x \in DOMAIN r : /\ r[x].on
                     /\ Fails(W, v, x, r[x].sg, r[x].wg, r[x].loc) = {}
                     /\ Sealed(v, x)
                     /\ Clear(v, x) }

Esc(l) ==
  LET acc == Acc(l)
      f == Fold(V, R, {}, acc, E)
      bad0 == IF l.fix THEN { [x |-> x, why |-> "stuck"] : x \in Stuck(f.v, f.r) } ELSE {}
  IN /\ P' = Away(acc)
     /\ Finish(l, f, E, bad0)
     /\ LET stay == Stay(f.v, acc, Q.r)
            done == { q \in stay : l.fix /\ Late(f.v, q.x) /\ ~Unmet(f.v, q) }
        IN /\ S' = IF f.bad /= {} THEN S
                   ELSE [x \in DOMAIN S |->
                          [(IF x \in Range(acc) /\ R[x].on THEN Keep(f.v, x, R[x].sg, {}) ELSE S[x])
                             EXCEPT !.tr = @ \cup { q \in done : q.x = x }]]
           /\ Q' = [Q EXCEPT !.r = stay \ done]

Restart(l) ==
  LET f == Fold(V, R, {}, l.acc, E)
  IN /\ P' = P
     /\ Finish(l, f, E, IF l.acc = <<>> THEN {} ELSE {[x |-> l.acc[1], why |-> "other"]})
     /\ UNCHANGED <<S, Q>>

\* the last event first seen may or may not have come through
Died(l) ==
  LET o2 == Now(l, O)
      n == Len(l.acc)
      full == n = 0 \/ (LET y == l.acc[n] IN o2[W.ev[y].p].sr.live /\ o2[W.ev[y].p].sr.d = y)
      acc == IF full THEN l.acc ELSE SubSeq(l.acc, 1, n - 1)
      e2 == IF l.x = 0 THEN E ELSE [E EXCEPT ![l.x] = Merge(@, Range(l.sg), Wigs(l), l.loc)]
      f == Fold(V, R, {}, acc, e2)
  IN /\ P' = P \cup (Range(l.acc) \ Range(acc))
     /\ Finish(l, f, e2, {})
     /\ Q' = [e |-> Q.e \cup SigsAll(l.x, l.tr), r |-> Stay(f.v, l.acc, Q.r)]
     /\ UNCHANGED S

\* what is stored with accepted event x, and what should be
Att(l) ==
  LET x == l.x
      a == V.at[x]
      bad == (IF \A g \in Range(l.sg) : Good(a.k, g) THEN {} ELSE {[x |-> x, why |-> "badsig"]})
        \cup (IF \A g \in Range(l.wg) : g.i >= 0 /\ g.i < Len(a.wits) /\ a.wits[g.i + 1] = g.w
              THEN {} ELSE {[x |-> x, why |-> "badwig"]})
        \cup (IF Signed(a.k, Range(l.sg)) \subseteq Signed(a.k, E[x].sg)
              THEN {} ELSE {[x |-> x, why |-> "strangesig"]})
        \cup (IF Range(l.rc) \subseteq { g.w : g \in E[x].wg } THEN {} ELSE {[x |-> x, why |-> "badrct"]})
        \cup (IF /\ S[x].sg \subseteq { g.i : g \in Range(l.sg) }
                 /\ S[x].ws \subseteq { g.w : g \in Range(l.wg) }
                 /\ S[x].rc \subseteq Range(l.rc)
                 /\ \A q \in S[x].tr : \E r \in Range(l.vr) : r.z = q.z /\ r.i = q.i
              THEN {} ELSE {[x |-> x, why |-> "lostsig"]})
        \cup (IF \A r \in Range(l.vr) :
                    /\ r.z > 0 /\ r.k > 0
                    /\ W.ev[r.z].p = r.p /\ W.ev[r.z].s = r.s
                    /\ Good(W.ev[r.z].k, r)
                    /\ Accepted(V, r.p, r.z) \/ r.z \in P
                    /\ [x |-> x, p |-> r.p, s |-> r.s, z |-> r.z, k |-> r.k, i |-> r.i] \in Q.e
              THEN {} ELSE {[x |-> x, why |-> "badtrct"]})
        \cup (IF l.src => E[x].loc THEN {} ELSE {[x |-> x, why |-> "srcloc"]})
      out == IF x \notin P THEN bad ELSE {}     \* else first seen only, when the process died
  IN /\ Report(out, l, V)
     /\ ok' = (out = {})
     /\ UNCHANGED <<W, V, E, R, O, S, P, Q>>

\* another validator made from this one's log, first seen order and all
AsSets(a) == { [x |-> y.x, sg |-> Range(y.sg), wg |-> Range(y.wg), rc |-> Range(y.rc), dt |-> y.dt,
                 vr |-> IF Late(V, y.x) THEN { r \in Range(y.vr) : r.z > 0 /\ LastAt(V, r.p, r.s) = r.z } ELSE {}] : y \in Range(a) }

Clone(l) ==
  LET o2 == Now(l, [p \in DOMAIN O |-> O0])
      bad == Compare(V, o2, {})
        \cup { [x |-> y.x, why |-> "clone"] : y \in (AsSets(l.mine) \ AsSets(l.its)) \cup (AsSets(l.its) \ AsSets(l.mine)) }
      out == { [x |-> b.x, why |-> "clone"] : b \in bad }
  IN /\ Report(out, l, V)
     /\ ok' = (out = {})
     /\ UNCHANGED <<W, V, E, R, O, S, P, Q>>

Next ==
  /\ i <= Len(T)
  /\ i' = i + 1
  /\ LET l == T[i] IN
     IF l.e = "world" THEN World(l)
     ELSE IF ~ok THEN UNCHANGED <<W, V, E, R, O, S, P, Q, ok>>
     ELSE CASE l.e = "ev" -> Ev(l)
            [] l.e = "rct" -> Rct(l)
            [] l.e = "esc" -> Esc(l)
            [] l.e = "restart" -> Restart(l)
            [] l.e = "crash" -> Died(l)
            [] l.e = "att" -> Att(l)
            [] l.e = "clone" -> Clone(l)

Spec == Init /\ [][Next]_vars

Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
