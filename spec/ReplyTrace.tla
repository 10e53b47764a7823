----------------------------- MODULE ReplyTrace -----------------------------
(***************************************************************************)
(* Executions of the real Parser, Revery and Kevery on signed replies      *)
(* judged by Reply.tla.  TRACE names a file of JSON lines:                 *)
(*   world    a new validator and what it will be shown                    *)
(*   kel      a key event delivered                                        *)
(*   rpy      reply r delivered with couples cg and groups tg              *)
(*   esc      the reply escrow processed                                   *)
(*   restart  the process ended and another started                       *)
(* lax, loc: how the processor is set about own and local messages.  Every *)
(* line carries what was observed after it: kl the logs that changed, ch   *)
(* the keys whose record changed: [r: the reply, v: its value, st, dt: it  *)
(* and its date are stored, cg, sg: with these good signatures], stray how *)
(* many records of anything else there are.                                *)
(* Per key a range of places lo..hi is kept under which its reply may have *)
(* been accepted: signatures ever delivered may or may not be kept (E),    *)
(* those the validator is bound to keep are (R).                           *)
(***************************************************************************)
EXTENDS Reply, TLC, TLCExt, Json, IOUtils, SequencesExt

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, W, V,
          E,      \* per reply: all good signatures ever delivered [sg, cg]
          R,      \* per reply: groups the validator is bound to hold, good or not
          A,      \* per notice key: what it may show
          O,      \* what was last observed
          ok

vars == <<i, W, V, E, R, A, O, ok>>

NoE == [sg |-> {}, cg |-> FALSE]
NoRec == [r |-> 0, v |-> -1, st |-> FALSE, dt |-> FALSE, cg |-> FALSE, sg |-> <<>>]

Init == /\ i = 1 /\ W = [ev |-> <<>>] /\ V = <<>> /\ E = <<>> /\ R = <<>> /\ A = <<>> /\ O = <<>> /\ ok = FALSE

World(l) ==
  /\ W' = [ev |-> l.ev, rp |-> l.rp, ks |-> l.ks, nt |-> Rng(l.nt), own |-> Rng(l.own)]
  /\ V' = [kl |-> [p \in 1..l.np |-> <<>>], acc |-> [k \in 1..Len(l.ks) |-> 0],
           lo |-> [k \in 1..Len(l.ks) |-> -1], hi |-> [k \in 1..Len(l.ks) |-> -1]]
  /\ E' = [r \in 1..Len(l.rp) |-> NoE]
  /\ R' = [r \in 1..Len(l.rp) |-> {}]
  /\ A' = <<>>
  /\ O' = [k \in 1..Len(l.ks) |-> NoRec]
  /\ ok' = TRUE

Upd(f, ch) ==
  [k \in DOMAIN f |-> IF \E j \in 1..Len(ch) : ch[j].k = k
                      THEN ch[CHOOSE j \in 1..Len(ch) : ch[j].k = k].v ELSE f[k]]

---------------------------------------------------------------------------
Bda(k) == W.ks[k].kd /= "ksn"
NoticeAt(x, s) == { r \in DOMAIN W.rp : W.rp[r].x = x /\ W.rp[r].s = s }

\* good signatures of a delivery that count for r's owner
Groups(l) == IF Protected(W, W.rp[l.r].p, l.lax, l.loc) THEN {}
             ELSE { j \in DOMAIN l.tg : l.tg[j].p = W.rp[l.r].p }
All(l) == UNION { { [s |-> l.tg[j].s, x |-> l.tg[j].x, i |-> l.tg[j].sg[m].i, ok |-> l.tg[j].sg[m].ok]
                    : m \in DOMAIN l.tg[j].sg } : j \in Groups(l) }
GoodOf(S) == { [s |-> g.s, x |-> g.x, i |-> g.i] : g \in { h \in S : h.ok } }
Couple(l) == ~Protected(W, W.rp[l.r].p, l.lax, l.loc)
             /\ \E j \in DOMAIN l.cg : l.cg[j].ok /\ l.cg[j].p = W.rp[l.r].p

Seen(r) == { [s |-> g.s, x |-> g.x, i |-> g.i] : g \in Rng(O[W.rp[r].k].sg) }

\* what is observed of key k against what was last known of it, signatures SE at most usable for reply r
Judge(v, k, o, cands, lax) ==
  LET r == o.r
      a == v.acc[k]
  IN IF ~Bda(k) THEN
       IF o = O[k] THEN {}
       ELSE IF \E q \in cands : /\ W.rp[q].x + 1 = o.r /\ W.rp[q].s = o.v
                                \* the notice of an event is kept once whoever gave it
                                /\ W.rp[q].k = k \/ o.r = O[k].r THEN {} ELSE {"notice"}
     ELSE IF r = a THEN
            (IF r = 0 THEN (IF o.v /= -1 THEN {"record"} ELSE {})
             ELSE (IF o.v /= W.rp[r].v THEN {"record"} ELSE {})
                  \cup (IF o.st /\ o.dt THEN {} ELSE {"evidence"}))
     ELSE IF r = 0 THEN {"lost"}
     ELSE IF r < 0 \/ r \notin cands \/ W.rp[r].k /= k THEN {"strange"}
     ELSE LET e == E'[r]
              ss == Under(W, v, r, e.sg, e.cg)
          IN IF ~W.rp[r].ok THEN {"malformed"}
             ELSE IF ss = {} THEN {"forged"}
             ELSE IF ~\E s \in ss : After(W, r, s, a, v.lo[k]) THEN {"rollback"}
             ELSE (IF o.v /= W.rp[r].v THEN {"record"} ELSE {})
                  \cup (IF o.st /\ o.dt THEN {} ELSE {"evidence"})

\* the stored signatures make the reply count, under an event no earlier than it must be
Proof(v, k, o, lo) ==
  IF ~Bda(k) \/ o.r < 1 THEN {}
  ELSE LET ss == Under(W, v, o.r, { [s |-> g.s, x |-> g.x, i |-> g.i] : g \in Rng(o.sg) }, o.cg)
       IN IF \E s \in ss : s >= lo THEN {} ELSE {"unproved"}

\* replies must (r under s for each of must), and the record must not stand before them
Wanting(v, o2, must) ==
  { [x |-> m.r, why |-> m.why] :
      m \in { n \in must : LET k == W.rp[n.r].k
                               a == o2[k].r
                           IN Bda(k) /\ (a < 1 \/ ~NotBefore(W, a, v.hi[k], n.r, n.s)) } }

\* new range of places for key k: mlo(r) sequence numbers surely used, mhi(r) possibly
Range2(v, k, r, los, his) ==
  IF r < 1 THEN [lo |-> -1, hi |-> -1]
  ELSE IF r = v.acc[k]
       THEN [lo |-> Max0({v.lo[k]} \cup los), hi |-> Max0({v.hi[k]} \cup los \cup his)]
       ELSE LET lo == IF los = {} THEN Min0({ s \in his : After(W, r, s, v.acc[k], v.lo[k]) }) ELSE Max0(los)
            IN [lo |-> lo, hi |-> Max0(his \cup {lo})]

Report(bad, l) == IF bad = {} THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad]))

\* cands: replies that may be accepted on this line; must: [r, s, why]; los: per reply the places
\* under which it is surely accepted if it is
Finish(l, cands, must, los, lax, extra) ==
  LET v1 == [V EXCEPT !.kl = Upd(@, l.kl)]
      o2 == Upd(O, l.ch)
      ranges == [k \in DOMAIN O |->
                   IF ~Bda(k) THEN [lo |-> -1, hi |-> -1]
                   ELSE LET r == o2[k].r IN
                     IF r < 1 THEN [lo |-> -1, hi |-> -1]
                     ELSE IF r \in cands THEN Range2(v1, k, r, los[r], Under(W, v1, r, E'[r].sg, E'[r].cg))
                     ELSE [lo |-> v1.lo[k], hi |-> v1.hi[k]]]
      v2 == [v1 EXCEPT !.acc = [k \in DOMAIN O |-> IF Bda(k) THEN o2[k].r ELSE 0],
                       !.lo = [k \in DOMAIN O |-> ranges[k].lo], !.hi = [k \in DOMAIN O |-> ranges[k].hi]]
      bad0 == UNION { { [x |-> k, why |-> y] : y \in Judge(v1, k, o2[k], cands, lax) } : k \in DOMAIN O }
              \cup (IF l.stray > 0 THEN {[x |-> 0, why |-> "stray"]} ELSE {})
      bad1 == IF bad0 /= {} THEN bad0
              ELSE UNION { { [x |-> k, why |-> y] : y \in Proof(v2, k, o2[k], v2.lo[k]) }
                           \* what proved it stays so though a recovery supersedes the event since
                           : k \in { n \in DOMAIN O : o2[n] /= O[n] \/ v2.lo[n] /= V.lo[n] } }
                   \cup Wanting(v2, o2, must) \cup extra
  IN /\ Report(bad1, l)
     /\ V' = v2 /\ O' = o2 /\ W' = W /\ ok' = (bad1 = {})

None == [r \in DOMAIN W.rp |-> {}]

Kel(l) ==
  /\ UNCHANGED <<E, R, A>>
  /\ Finish(l, {}, {}, None, TRUE, {})

Restart(l) ==
  /\ UNCHANGED <<E, R, A>>
  /\ Finish(l, {}, {}, None, TRUE, {})

\* groups of a delivery not stale when it comes
Fresh(r, s) == LET k == W.rp[r].k
                   a == V.acc[k]
               IN IF a = r THEN s >= V.hi[k] ELSE After(W, r, s, a, V.hi[k])

Rpy(l) ==
  LET r == l.r
      e == W.rp[r]
      k == e.k
      all == All(l)
      good == GoodOf(all)
      cg == Couple(l)
      notice == Kind(W, r) = "ksn"
      \* with what is held of the same groups
      with == good \cup { h \in GoodOf(R[r]) : \E g \in all : g.s = h.s /\ g.x = h.x }
      \* each group of the message is judged in turn, with what is held
      ss == Under(W, V, r, with, cg)
      heldok == IF notice THEN TRUE ELSE V.acc[k] /= r
      \* each group by itself, and with what is held of it
      one == UNION { LET g == l.tg[j]
                         I == { g.sg[m].i : m \in { n \in DOMAIN g.sg : g.sg[n].ok } }
                         H == IF heldok THEN Indices(GoodOf(R[r]), g.s, g.x) ELSE {}
                     IN IF I /= {} /\ Met(W, V, e.p, g.s, g.x, I \cup H) THEN {g.s} ELSE {}
                     : j \in Groups(l) }
             \cup Under(W, V, r, {}, cg)
      fresh1 == { s \in one : notice \/ Fresh(r, s) }
      fresh2 == { s \in ss : notice \/ Fresh(r, s) }
      \* parts in one message come together as long as none has been enough
      fresh == IF fresh1 /= {} THEN fresh1
               ELSE IF heldok /\ fresh2 /= {} THEN {Min0(fresh2)} ELSE {}
      may == IF notice THEN NoticeOk(W, V, r, l.lax) ELSE TRUE
      must == IF e.ok /\ ~notice THEN { [r |-> r, s |-> s, why |-> "dropped"] : s \in fresh } ELSE {}
      taken == e.ok /\ may /\ fresh /= {}
      \* pending groups: event not yet known, or too few signatures
      pend == { g \in all : /\ notice \/ Fresh(r, g.s)
                            /\ \/ ~Known(V, e.p, g.s)
                               \/ /\ ~Wrong(W, V, e.p, g.s, g.x)
                                  /\ \E h \in with : h.s = g.s /\ h.x = g.x }
      o2 == Upd(O, l.ch)
      early == notice /\ (Untrusted(W, r, l.lax) \/ Behind(W, V, r))
  IN /\ E' = [E EXCEPT ![r] = [sg |-> @.sg \cup good, cg |-> @.cg \/ cg]]
     /\ R' = IF ~e.ok \/ early THEN R
             ELSE IF taken \/ ~heldok \/ ss /= {} THEN [R EXCEPT ![r] = {}]
             ELSE [R EXCEPT ![r] = @ \cup { g \in pend : g.ok \/ ~Known(V, e.p, g.s) }]
     /\ A' = A
     /\ Finish(l, IF notice /\ ~(e.ok /\ may /\ Under(W, V, r, E'[r].sg, E'[r].cg) /= {}) THEN {} ELSE {r}, must,
               [None EXCEPT ![r] = fresh], l.lax,
               IF notice /\ taken /\ ~(o2[k].r = e.x + 1 /\ o2[k].v = e.s)
               THEN {[x |-> r, why |-> "unnoted"]} ELSE {})

\* a held group that will never count, or holds nothing good now that its event is known
Spoilt(r) == \E g \in R[r] : /\ Known(V, W.rp[r].p, g.s)
                             /\ \/ Wrong(W, V, W.rp[r].p, g.s, g.x)
                                \/ ~\E h \in R[r] : h.ok /\ h.s = g.s /\ h.x = g.x
Esc(l) ==
  LET live == { r \in DOMAIN W.rp : R[r] /= {} }
      tried == { r \in live : ~W.rp[r].old /\ ~Protected(W, W.rp[r].p, l.lax, l.loc) }
      ssr(r) == Under(W, V, r, GoodOf(R[r]), FALSE)
      freshr(r) == IF Kind(W, r) = "ksn" THEN ssr(r) ELSE { s \in ssr(r) : Fresh(r, s) }
      must == UNION { { [r |-> r, s |-> s, why |-> "stuck"] : s \in freshr(r) }
                      : r \in { q \in tried : Kind(W, q) /= "ksn" } }
      usable == { r \in DOMAIN W.rp : /\ W.rp[r].ok /\ ~W.rp[r].old
                                      /\ ~Protected(W, W.rp[r].p, l.lax, l.loc) /\ E[r].sg /= {}
                                      /\ Kind(W, r) = "ksn" => /\ NoticeOk(W, V, r, l.lax)
                                                               /\ Under(W, V, r, E[r].sg, FALSE) /= {} }
      notices == { r \in tried : Kind(W, r) = "ksn" /\ NoticeOk(W, V, r, l.lax) /\ ssr(r) /= {} }
      gone == { r \in live : \/ W.rp[r].old
                             \/ r \in tried /\ Under(W, V, r, E[r].sg, FALSE) /= {}
                             \/ r \in tried /\ Spoilt(r)
                             \/ Kind(W, r) = "ksn" /\ (Behind(W, V, r) \/ Disagrees(W, V, r) \/ Untrusted(W, r, l.lax)) }
      o2 == Upd(O, l.ch)
  IN /\ R' = [r \in DOMAIN R |-> IF r \in gone THEN {} ELSE R[r]]
     /\ UNCHANGED <<E, A>>
     /\ Finish(l, usable, must, [r \in DOMAIN W.rp |-> IF r \in tried THEN freshr(r) ELSE {}], l.lax,
               { [x |-> r, why |-> "unnoted"] :
                                 r \in { q \in notices : ~\E z \in usable : W.rp[z].k = W.rp[q].k
                                          /\ o2[W.rp[z].k].r = W.rp[z].x + 1 /\ o2[W.rp[z].k].v = W.rp[z].s } })

Skip == /\ UNCHANGED <<W, V, E, R, A, O, ok>>

Next ==
  /\ i <= Len(T)
  /\ LET l == T[i] IN
       IF l.e = "world" THEN World(l)
       ELSE IF ~ok THEN Skip
       ELSE CASE l.e = "kel" -> Kel(l)
              [] l.e = "rpy" -> Rpy(l)
              [] l.e = "esc" -> Esc(l)
              [] l.e = "restart" -> Restart(l)
  /\ i' = i + 1

Spec == Init /\ [][Next]_vars

Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
