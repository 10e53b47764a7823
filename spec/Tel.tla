-------------------------------- MODULE Tel --------------------------------
(***************************************************************************)
(* Registries and credentials as a validator must keep them.               *)
(*                                                                         *)
(* W.tev  transaction events: t its kind; i its log (1..nr registries,     *)
(*        then credentials); r the registry it names; s, pr; ii issuer of  *)
(*        a registry; nb no backers; b, br, ba, bt; ra the registry event  *)
(*        a backed event names                                             *)
(* W.kev  key events: p whose, s, a its seals [i, s, x] (x = 0: other)     *)
(* W.cr   credentials: i issuer, r registry, sub issuee (0 none), sc its   *)
(*        schema, sat the schemas it satisfies, ed its edges [n, o, s]     *)
(*                                                                         *)
(* v.kl[p]  last key event at each sequence number of identifier p's log,  *)
(*          as Kel.tla has it                                              *)
(* v.tl[i]  the events accepted in log i                                   *)
(* v.bk[x]  the backers in force at an accepted registry event             *)
(* v.sv     credentials verified and saved;  v.sc  schemas known           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == { s[j] : j \in 1..Len(s) }
Last(s) == s[Len(s)]

RegEv == {"vcp", "vrt"}
Simple == {"iss", "rev"}
Backed == {"bis", "brv"}
Issues == {"iss", "bis"}

V0(np, nl, nx) ==
  [kl |-> [p \in 1..np |-> <<>>],
   tl |-> [i \in 1..nl |-> <<>>],
   bk |-> [x \in 1..nx |-> <<>>],
   sv |-> {}, sc |-> {}]

Known(v, r) == r > 0 /\ v.tl[r] /= <<>>
Inception(W, v, r) == W.tev[v.tl[r][1]]
Issuer(W, v, r) == Inception(W, v, r).ii
NoBackers(W, v, r) == Inception(W, v, r).nb

Distinct(s) == Cardinality(Range(s)) = Len(s)
ToadOk(b, bt) == IF b = <<>> THEN bt = 0 ELSE bt >= 1 /\ bt <= Len(b)

\* backers once x is accepted
Keep(b, cut) == SelectSeq(b, LAMBDA w : w \notin Range(cut))
BackersAfter(W, v, x) ==
  LET e == W.tev[x] IN
  CASE e.t = "vcp" -> e.b
    [] e.t = "vrt" -> Keep(v.bk[Last(v.tl[e.i])], e.br) \o e.ba
    [] OTHER -> <<>>

\* the backers whose signatures x needs, and how many of them
Baks(W, v, x) == LET e == W.tev[x] IN
  IF e.t \in Backed THEN v.bk[e.ra] ELSE BackersAfter(W, v, x)
Toad(W, x) == LET e == W.tev[x] IN IF e.t \in Backed THEN W.tev[e.ra].bt ELSE e.bt

Witnessed(b, wg) == { g.w : g \in { h \in wg : h.i >= 0 /\ h.i < Len(b) /\ b[h.i + 1] = h.w } }

\* x is sealed, alone, by the key event the couple names, in its registry's issuer's log
AnchorOf(W, v, x) == LET e == W.tev[x] IN IF e.t = "vcp" THEN e.ii ELSE Issuer(W, v, e.r)
Anchored(W, v, x, cp) ==
  LET e == W.tev[x]
      p == AnchorOf(W, v, x)
  IN /\ cp.k > 0
     /\ p > 0
     /\ cp.s >= 0 /\ cp.s < Len(v.kl[p])
     /\ v.kl[p][cp.s + 1] = cp.k
     /\ W.kev[cp.k].a = << [i |-> e.i, s |-> e.s, x |-> x] >>

\* what keeps x out now and may yet come
Waits(W, v, x) ==
  LET e == W.tev[x] IN
       (IF e.t /= "vcp" /\ ~Known(v, e.r) THEN {"registry"} ELSE {})
  \cup (IF e.s > Len(v.tl[e.i]) THEN {"prior"} ELSE {})
  \cup (IF e.t \in Backed /\ (e.ra = 0 \/ ~Known(v, e.r) \/ e.ra \notin Range(v.tl[e.r])) THEN {"backing"} ELSE {})

\* what keeps x out for good
Wrong(W, v, x, loc) ==
  LET e == W.tev[x]
      own == e.r \in W.own
  IN (IF own /= loc THEN {"source"} ELSE {})
     \cup (IF e.s < Len(v.tl[e.i]) THEN {"taken"} ELSE {})
     \cup (IF (e.t \in Issues \cup {"vcp"}) /= (e.s = 0) THEN {"place"} ELSE {})
     \cup (IF e.t = "vcp" /\ ~(Distinct(e.b) /\ ToadOk(e.b, e.bt)) THEN {"backers"} ELSE {})
     \cup (IF e.t /= "vcp" /\ Known(v, e.r) /\ (NoBackers(W, v, e.r) /= (e.t \in Simple)) THEN {"kind"} ELSE {})
     \cup (IF e.s > 0 /\ e.s = Len(v.tl[e.i]) /\ e.pr /= Last(v.tl[e.i]) THEN {"chain"} ELSE {})
     \cup (IF e.t \in {"rev", "brv"} /\ e.s = Len(v.tl[e.i]) /\ e.s > 0 /\
              LET z == W.tev[Last(v.tl[e.i])] IN z.t \notin Issues \/ z.r /= e.r
           THEN {"foreign"} ELSE {})
     \cup (IF e.t = "vrt" /\ Known(v, e.r) /\ e.s = Len(v.tl[e.i]) /\ e.s > 0 /\
              LET b == v.bk[Last(v.tl[e.i])]
              IN ~(/\ Distinct(e.br) /\ Distinct(e.ba)
                   /\ Range(e.br) \subseteq Range(b)
                   /\ Range(e.ba) \cap (Range(b) \cup Range(e.br)) = {}
                   /\ ToadOk(BackersAfter(W, v, x), e.bt))
           THEN {"backers"} ELSE {})
     \cup (IF e.t \in Backed /\ e.ra > 0 /\ W.tev[e.ra].i /= e.r THEN {"backing"} ELSE {})

\* may x be accepted with this anchor and these signatures
Anchor(W, v, x, cp) == IF Anchored(W, v, x, cp) THEN {} ELSE {"anchor"}
Backing(W, v, x, wg, loc) ==
  LET b == Baks(W, v, x) IN
  IF b = <<>> \/ Toad(W, x) = 0 \/ loc \/ Cardinality(Witnessed(b, wg)) >= Toad(W, x) THEN {} ELSE {"toad"}

Fails(W, v, x, cp, wg, loc) ==
  LET w == Wrong(W, v, x, loc) \cup Waits(W, v, x)
  IN IF w /= {} THEN w ELSE Anchor(W, v, x, cp) \cup Backing(W, v, x, wg, loc)

Take(W, v, x) ==
  LET e == W.tev[x] IN
  [v EXCEPT !.tl[e.i] = Append(@, x), !.bk[x] = BackersAfter(W, v, x)]

---------------------------------------------------------------------------
\* Credentials.  The log of credential c is W.nr + c.
Log(W, c) == W.nr + c
Issued(W, v, c) ==
  LET l == v.tl[Log(W, c)] IN
  Known(v, W.cr[c].r) /\ l /= <<>> /\ W.tev[l[1]].r = W.cr[c].r
Revoked(W, v, c) == Len(v.tl[Log(W, c)]) > 1

Delegative == {"I2I", "NI2I", "DI2I"}
Unary == Delegative \cup {"E1E", "NOT"}

Ops(ed) == SelectSeq(ed.o, LAMBDA q : q \in Unary)
Op(W, ed) ==
  LET d == SelectSeq(Ops(ed), LAMBDA q : q \in Delegative)
  IN IF Ops(ed) = <<>> THEN IF W.cr[ed.n].sub > 0 THEN "I2I" ELSE "NI2I"
     ELSE IF d = <<>> THEN "" ELSE Last(d)

EdgeWrong(W, v, c, ed) ==
  /\ ed.n > 0
  /\ ed.n \in v.sv
  /\ \/ "NOT" \in Range(Ops(ed))
     \/ Op(W, ed) = "DI2I"
     \/ Revoked(W, v, ed.n)

EdgeOk(W, v, c, ed) ==
  LET near == W.cr[c]
      far == W.cr[ed.n]
  IN /\ ed.n > 0
     /\ ed.n \in v.sv
     /\ ~EdgeWrong(W, v, c, ed)
     /\ Op(W, ed) = "I2I" => far.sub > 0 /\ near.i = far.sub
     /\ "E1E" \in Range(Ops(ed)) => far.sub > 0 /\ near.sub = far.sub
     /\ ed.s = 0 \/ ed.s = far.sc \/ (ed.s \in v.sc /\ ed.s \in Range(far.sat))

Refused(W, v, c) ==
  LET k == W.cr[c] IN
  \/ Known(v, k.r) /\ Issuer(W, v, k.r) /= k.i
  \/ k.sc \in v.sc /\ k.sc \notin Range(k.sat)
  \/ \E ed \in Range(k.ed) : EdgeWrong(W, v, c, ed)

Verified(W, v, c) ==
  LET k == W.cr[c] IN
  /\ Issued(W, v, c)
  /\ Issuer(W, v, k.r) = k.i
  /\ k.sc \in v.sc /\ k.sc \in Range(k.sat)
  /\ \A ed \in Range(k.ed) : EdgeOk(W, v, c, ed)
=============================================================================
