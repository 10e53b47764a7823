------------------------------ MODULE TelTrace ------------------------------
(***************************************************************************)
(* Executions of the real registry and credential validators (Parser,      *)
(* Tevery, Tever, Reger, Verifier) judged by Tel.tla.  TRACE names a file  *)
(* of JSON lines:                                                          *)
(*   world    a new validator and what it will be shown                    *)
(*   kel      a key event was delivered (kl: what its log then held)       *)
(*   tel      one transaction event delivered, with its anchor couple cp   *)
(*            and backer signatures wg                                     *)
(*   cred     one credential delivered                                     *)
(*   junk     something else delivered, which must change nothing          *)
(*   sch      a schema became known                                        *)
(*   tesc     the transaction event escrows processed                      *)
(*   cesc     the credential escrows processed                             *)
(*   restart  the process ended and another started                        *)
(*   crash    the process died during this delivery or pass                *)
(*   att      what is stored with one accepted event                       *)
(*   clone    another validator was fed what this one replays              *)
(* Every line carries what was observed after it: kl and tl, the logs that *)
(* changed; reg and sr, states of registries in memory and stored that     *)
(* changed; vc, states of credentials that changed; sv, iss, sub, scm, the *)
(* saved credentials and the indices of them.                              *)
(***************************************************************************)
EXTENDS Tel, TLC, TLCExt, Json, IOUtils, SequencesExt

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,      \* next line
          W,      \* the world
          V,      \* the validator's state
          E,      \* per event: couples and signatures ever delivered, locally or not
          R,      \* per event: what the validator was bound to keep
          C,      \* credentials [e: delivered, r: bound to be kept]
          O,      \* what was last observed
          P,      \* what a crash may have left half done
          ok      \* FALSE: this world already went wrong, skip to the next

vars == <<i, W, V, E, R, C, O, P, ok>>

None == [live |-> FALSE]
NoEv == [cp |-> {}, wg |-> {}, loc |-> {}]
NoR == [on |-> FALSE, cp |-> [k |-> 0, s |-> 0], wg |-> {}, loc |-> FALSE]

Init == /\ i = 1 /\ W = [tev |-> <<>>] /\ V = V0(0, 0, 0)
        /\ E = <<>> /\ R = <<>> /\ C = [e |-> {}, r |-> {}] /\ O = <<>> /\ P = {} /\ ok = FALSE

World(l) ==
  /\ W' = [tev |-> l.tev, kev |-> l.kev, cr |-> l.cr, nr |-> l.nr, np |-> l.np, own |-> Range(l.own)]
  /\ V' = V0(l.np, l.nr + Len(l.cr), Len(l.tev))
  /\ E' = [x \in 1..Len(l.tev) |-> NoEv]
  /\ R' = [x \in 1..Len(l.tev) |-> NoR]
  /\ C' = [e |-> {}, r |-> {}]
  /\ O' = [kl |-> [p \in 1..l.np |-> <<>>],
           tl |-> [j \in 1..(l.nr + Len(l.cr)) |-> <<>>],
           reg |-> [r \in 1..l.nr |-> None],
           sr |-> [r \in 1..l.nr |-> None],
           vc |-> [c \in 1..Len(l.cr) |-> None],
           sv |-> {}, iss |-> {}, sub |-> {}, scm |-> {}]
  /\ P' = {}
  /\ ok' = TRUE

Upd(f, ch) ==
  [k \in DOMAIN f |-> IF \E j \in 1..Len(ch) : ch[j].k = k
                      THEN ch[CHOOSE j \in 1..Len(ch) : ch[j].k = k].v ELSE f[k]]
Now(l, o) ==
  [kl |-> Upd(o.kl, l.kl), tl |-> Upd(o.tl, l.tl), reg |-> Upd(o.reg, l.reg), sr |-> Upd(o.sr, l.sr),
   vc |-> Upd(o.vc, l.vc), sv |-> Range(l.sv), iss |-> Range(l.iss), sub |-> Range(l.sub), scm |-> Range(l.scm)]

---------------------------------------------------------------------------
\* what is known of each event: best of what was delivered
Bad(v, x, ev) ==
  LET ts == { Fails(W, v, x, cp, ev.wg, loc) : cp \in ev.cp, loc \in ev.loc }
  IN IF ts = {} THEN {"undelivered"}
     ELSE IF {} \in ts THEN {} ELSE CHOOSE t \in ts : \A u \in ts : Cardinality(t) <= Cardinality(u)

\* replay the growth of the logs up to tl, in some order that allows it
RECURSIVE Grow(_, _, _)
Next1(v, tl) == { j \in DOMAIN tl : Len(v.tl[j]) < Len(tl[j]) }
Grow(v, tl, ev) ==
  LET more == Next1(v, tl)
      NextOf(j) == tl[j][Len(v.tl[j]) + 1]
      can == { j \in more : NextOf(j) > 0 /\ W.tev[NextOf(j)].i = j /\ Bad(v, NextOf(j), ev[NextOf(j)]) = {} }
  IN IF more = {} THEN [v |-> v, bad |-> {}]
     ELSE IF can = {} THEN
            [v |-> v,
             bad |-> UNION { IF NextOf(j) < 1 \/ W.tev[NextOf(j)].i /= j THEN {[x |-> NextOf(j), why |-> "strange"]}
                             ELSE { [x |-> NextOf(j), why |-> w] : w \in Bad(v, NextOf(j), ev[NextOf(j)]) }
                             : j \in more }]
     ELSE Grow(Take(W, v, NextOf(CHOOSE j \in can : TRUE)), tl, ev)

\* nothing already accepted went away
Kept(v, tl) == \A j \in DOMAIN tl : Len(v.tl[j]) <= Len(tl[j]) /\ SubSeq(tl[j], 1, Len(v.tl[j])) = v.tl[j]

RegState(v, r) ==
  LET x == Last(v.tl[r])
      e == W.tev[x]
  IN [live |-> TRUE, ii |-> Issuer(W, v, r), s |-> e.s, d |-> x, t |-> e.t, b |-> v.bk[x], bt |-> e.bt,
      nb |-> NoBackers(W, v, r)]

CredState(v, c) ==
  LET l == v.tl[Log(W, c)]
      nb == NoBackers(W, v, W.cr[c].r)
  IN [live |-> TRUE, s |-> Len(l) - 1, d |-> Last(l), t |-> W.tev[Last(l)].t, r |-> W.cr[c].r]

\* what is observed is what the accepted events make
RegOk(v, r, seen) == seen = (IF Known(v, r) THEN RegState(v, r) ELSE None)
VcOk(v, c, seen) == seen = (IF Issued(W, v, c) THEN CredState(v, c) ELSE None)
IndexOk(v, o) == /\ o.iss = { <<W.cr[c].i, c>> : c \in v.sv }
                 /\ o.scm = { <<W.cr[c].sc, c>> : c \in v.sv }
                 /\ o.sub = { <<W.cr[c].sub, c>> : c \in { d \in v.sv : W.cr[d].sub > 0 } }
Compare(v, o, half) ==
       UNION { IF o.tl[j] = v.tl[j] THEN {} ELSE {[x |-> j, why |-> "log"]} : j \in DOMAIN v.tl }
  \cup { [x |-> r, why |-> "state"] : r \in { q \in (1..W.nr) \ half : ~RegOk(v, q, o.reg[q]) } }
  \cup { [x |-> r, why |-> "record"] : r \in { q \in (1..W.nr) \ half : ~RegOk(v, q, o.sr[q]) } }
  \cup { [x |-> c, why |-> "status"] : c \in { d \in DOMAIN W.cr : W.cr[d].r \notin half /\ ~VcOk(v, d, o.vc[d]) } }
  \cup (IF 0 \in half \/ IndexOk(v, o) THEN {} ELSE {[x |-> 0, why |-> "index"]})

\* what a crash left half done, and still is
StillHalf(v, o, half) ==
       { r \in half \ {0} : ~RegOk(v, r, o.reg[r]) \/ ~RegOk(v, r, o.sr[r])
                           \/ \E c \in DOMAIN W.cr : W.cr[c].r = r /\ ~VcOk(v, c, o.vc[c]) }
  \cup { z \in half \cap {0} : ~IndexOk(v, o) }

Report(bad, l) == IF bad = {} THEN TRUE ELSE PrintT("@BAD " \o ToJson([line |-> i, bad |-> bad]))

\* credentials saved must be verified, one after another
RECURSIVE Save(_, _)
Save(v, sv) ==
  LET more == sv \ v.sv
      can == { c \in more : c \in C'.e /\ Verified(W, v, c) }
  IN IF more = {} THEN [v |-> v, bad |-> {}]
     ELSE IF can = {} THEN [v |-> v, bad |-> { [x |-> c, why |-> "forged"] : c \in more }]
     ELSE Save([v EXCEPT !.sv = @ \cup {CHOOSE c \in can : TRUE}], sv)

\* common to all lines: grow the logs, then the saved credentials
Finish(l, o2, g, logs, bad0, half) ==
  LET kept == Kept(V, o2.tl) /\ V.sv \subseteq o2.sv
      s == Save(g.v, o2.sv)
      bad1 == bad0 \cup (IF kept THEN {} ELSE {[x |-> 0, why |-> "lost"]})
              \cup (IF logs THEN {} ELSE {[x |-> 0, why |-> "other"]})
              \cup g.bad \cup (IF g.bad = {} THEN s.bad ELSE {})
      bad == bad1 \cup (IF bad1 = {} THEN Compare(s.v, o2, half) ELSE {})
  IN /\ Report(bad, l)
     /\ V' = s.v /\ O' = o2 /\ ok' = (bad = {}) /\ W' = W
     /\ P' = StillHalf(s.v, o2, half)

Kl(o2) == [V EXCEPT !.kl = o2.kl]
SameTl(o2) == o2.tl = O.tl
SameSv(o2) == o2.sv = O.sv

Kel(l) ==
  LET o2 == Now(l, O) IN
  /\ UNCHANGED <<E, R, C>>
  /\ Finish(l, o2, [v |-> Kl(o2), bad |-> {}], SameTl(o2) /\ SameSv(o2), {}, P)

Junk(l) ==
  LET o2 == Now(l, O) IN
  /\ UNCHANGED <<E, R, C>>
  /\ Finish(l, o2, [v |-> V, bad |-> {}], o2 = O, {}, P)

Sch(l) ==
  LET o2 == Now(l, O) IN
  /\ UNCHANGED <<E, R, C>>
  /\ Finish(l, o2, [v |-> [V EXCEPT !.sc = @ \cup {l.c}], bad |-> {}], o2 = O, {}, P)

Deliver(l) ==
  LET x == l.x
      wg == Range(l.wg)
  IN /\ E' = [E EXCEPT ![x] = [cp |-> @.cp \cup {l.cp}, wg |-> @.wg \cup wg, loc |-> @.loc \cup {l.loc}]]
     /\ R' = IF l.cp.k = 0 \/ Wrong(W, V, x, l.loc) /= {} THEN R
             ELSE [R EXCEPT ![x] = [on |-> TRUE, cp |-> l.cp, wg |-> @.wg \cup wg, loc |-> l.loc]]
     /\ C' = C

Tel(l) ==
  LET x == l.x
      wg == Range(l.wg)
      o2 == Now(l, O)
      g == Grow(V, o2.tl, E')
      must == Fails(W, V, x, l.cp, wg, l.loc) = {}
      r == W.tev[x].r
      \* what a crash left half done is finished when it comes again
      undone == [V EXCEPT !.tl[r] = SubSeq(@, 1, Len(@) - 1)]
      again == /\ r \in P /\ W.tev[x].i = r /\ V.tl[r] /= <<>> /\ Last(V.tl[r]) = x
               /\ Fails(W, undone, x, l.cp, wg, l.loc) = {}
      only == \A j \in DOMAIN o2.tl : o2.tl[j] = O.tl[j] \/ (j = W.tev[x].i /\ Len(o2.tl[j]) = Len(O.tl[j]) + 1 /\ Last(o2.tl[j]) = x)
  IN /\ Deliver(l)
     /\ Finish(l, o2, g, SameSv(o2) /\ only,
               IF must /\ r \notin P /\ (o2.tl[W.tev[x].i] = <<>> \/ Last(o2.tl[W.tev[x].i]) /= x)
               THEN {[x |-> x, why |-> "dropped"]} ELSE {},
               IF again THEN P \ {r} ELSE P)

Stuck(v) == { x \in DOMAIN R : R[x].on /\ W.tev[x].r \notin P /\ Fails(W, v, x, R[x].cp, R[x].wg, R[x].loc) = {} }

Tesc(l) ==
  LET o2 == Now(l, O)
      g == Grow(V, o2.tl, E)
  IN /\ UNCHANGED <<E, R, C>>
     /\ Finish(l, o2, g, SameSv(o2),
               IF g.bad = {} THEN { [x |-> x, why |-> "stuck"] : x \in Stuck(g.v) } ELSE {}, P)

Indexed(o, c) == /\ <<W.cr[c].i, c>> \in o.iss /\ <<W.cr[c].sc, c>> \in o.scm
                 /\ W.cr[c].sub > 0 => <<W.cr[c].sub, c>> \in o.sub

Cred(l) ==
  LET o2 == Now(l, O) IN
  /\ C' = [e |-> C.e \cup {l.c}, r |-> IF Refused(W, V, l.c) THEN C.r ELSE C.r \cup {l.c}]
  /\ UNCHANGED <<E, R>>
  /\ Finish(l, o2, [v |-> V, bad |-> {}], SameTl(o2) /\ o2.sv \ V.sv \subseteq {l.c},
            (IF Verified(W, V, l.c) /\ W.cr[l.c].r \notin P /\ l.c \notin o2.sv
             THEN {[x |-> l.c, why |-> "unsaved"]} ELSE {})
            \cup (IF Verified(W, V, l.c) /\ W.cr[l.c].r \notin P /\ ~Indexed(o2, l.c)
                  THEN {[x |-> l.c, why |-> "index"]} ELSE {}), P)

Cesc(l) ==
  LET o2 == Now(l, O)
      v2 == [V EXCEPT !.sv = o2.sv]
  IN /\ UNCHANGED <<E, R, C>>
     /\ Finish(l, o2, [v |-> V, bad |-> {}], SameTl(o2),
               { [x |-> c, why |-> "unsaved"] : c \in { d \in C.r \ o2.sv : Verified(W, v2, d) /\ W.cr[d].r \notin P } }, P)

Restart(l) ==
  LET o2 == Now(l, O) IN
  /\ UNCHANGED <<E, R, C>>
  /\ Finish(l, o2, [v |-> V, bad |-> {}], SameTl(o2) /\ SameSv(o2), {}, P)

\* the process died: what was under way may be done, undone or half done
Died(l) ==
  LET o2 == Now(l, O)
      e2 == IF l.x = 0 THEN E
            ELSE [E EXCEPT ![l.x] = [cp |-> @.cp \cup {l.cp}, wg |-> @.wg \cup Range(l.wg), loc |-> @.loc \cup {l.loc}]]
      g == Grow(V, o2.tl, e2)
  IN /\ E' = e2
     \* what waited may have to be shown again
     /\ R' = IF l.x > 0 THEN [R EXCEPT ![l.x] = NoR] ELSE IF l.c > 0 THEN R ELSE [x \in DOMAIN R |-> NoR]
     /\ C' = IF l.c > 0 THEN [e |-> C.e \cup {l.c}, r |-> C.r \ {l.c}]
             ELSE IF l.x > 0 THEN C ELSE [C EXCEPT !.r = {}]
     /\ Finish(l, o2, g, TRUE, {},
               P \cup { W.tev[x].r : x \in UNION { Range(o2.tl[j]) \ Range(O.tl[j]) : j \in DOMAIN o2.tl } }
                 \cup (IF l.c > 0 \/ l.x = 0 THEN {0} ELSE {}))

Att(l) ==
  LET e == W.tev[l.x]
      b == IF e.t \in Backed THEN V.bk[e.ra] ELSE V.bk[l.x]
      k == l.cp.k
      bad == (IF /\ k > 0
                 /\ W.kev[k].a = << [i |-> e.i, s |-> e.s, x |-> l.x] >>
                 /\ W.kev[k].s = l.cp.s
                 /\ W.kev[k].p = AnchorOf(W, V, l.x)
              THEN {} ELSE {[x |-> l.x, why |-> "badanchor"]})
        \cup (IF l.loc \/ b = <<>> \/ Toad(W, l.x) <= Cardinality(Witnessed(b, Range(l.wg)))
              THEN {} ELSE {[x |-> l.x, why |-> "lostsig"]})
        \cup (IF \A w \in Range(l.wg) : \E u \in E[l.x].wg : u.i = w.i /\ u.w = w.w
              THEN {} ELSE {[x |-> l.x, why |-> "strangesig"]})
  IN /\ Report(bad, l)
     /\ ok' = (bad = {})
     /\ UNCHANGED <<W, V, E, R, C, O, P>>

\* another validator fed this one's key events and replays comes to the same
Clone(l) ==
  LET mine == { r \in 1..W.nr : Known(V, r) }
      bad == { [x |-> r, why |-> "clone"] : r \in { q \in mine : l.tl[q] /= O.tl[q] \/ l.reg[q] /= O.reg[q] } }
        \cup { [x |-> c, why |-> "clone"] : c \in { d \in DOMAIN W.cr : l.tl[Log(W, d)] /= O.tl[Log(W, d)] \/ l.vc[d] /= O.vc[d] } }
      seals(x, cp) == /\ cp.k > 0
                      /\ W.kev[cp.k].a = << [i |-> W.tev[x].i, s |-> W.tev[x].s, x |-> x] >>
      \* an anchor superseded since is not to be shown again
      gone == \E j \in DOMAIN O.tl : \E x \in Range(O.tl[j]) :
                \E cp \in E[x].cp : seals(x, cp) /\ ~Anchored(W, V, x, cp)
      out == IF P = {} /\ ~gone THEN bad ELSE {}
  IN /\ Report(out, l)
     /\ ok' = (out = {})
     /\ UNCHANGED <<W, V, E, R, C, O, P>>

Next ==
  /\ i <= Len(T)
  /\ i' = i + 1
  /\ LET l == T[i] IN
     IF l.e = "world" THEN World(l)
     ELSE IF ~ok THEN UNCHANGED <<W, V, E, R, C, O, P, ok>>
     ELSE CASE l.e = "kel" -> Kel(l)
            [] l.e = "tel" -> Tel(l)
            [] l.e = "cred" -> Cred(l)
            [] l.e = "junk" -> Junk(l)
            [] l.e = "sch" -> Sch(l)
            [] l.e = "tesc" -> Tesc(l)
            [] l.e = "cesc" -> Cesc(l)
            [] l.e = "restart" -> Restart(l)
            [] l.e = "crash" -> Died(l)
            [] l.e = "att" -> Att(l)
            [] l.e = "clone" -> Clone(l)

Spec == Init /\ [][Next]_vars

Done == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))
=============================================================================
