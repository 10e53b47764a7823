-------------------------------- MODULE Kel --------------------------------
(***************************************************************************)
(* What a KERI validator may, and must, accept into its key event logs.    *)
(*                                                                         *)
(* A world is a table of events.  Event x has                              *)
(*   p  identifier       t  "icp" "rot" "ixn" "dip" "drt"                  *)
(*   s  sequence number  pr the event its prior digest names (0: none)     *)
(*   k  signing keys     kt signing threshold                              *)
(*   n  keys its next-key digests commit to (0: a digest of nothing known) *)
(*   nt threshold for those                                                *)
(*   b  witnesses (inception)  br/ba witnesses cut/added (rotation)        *)
(*   bt witness threshold      c  traits     a  seals <<[p,s,x]>>          *)
(*   di delegator (0: none)    xf whether the identifier is transferable   *)
(*   dg whether the identifier is the digest of its inception            *)
(*                                                                         *)
(* Signatures are abstract: [k |-> signing key or 0, i |-> index claimed,  *)
(* o |-> index claimed into the prior next digests, -1 none].  A witness   *)
(* signature is [w |-> witness or 0, i |-> index claimed, -1 for a couple  *)
(* that names the witness itself].                                         *)
(*                                                                         *)
(* The validator's state V:                                                *)
(*   ks[p]   key state of p ([live |-> FALSE] before its inception)        *)
(*   kel[p]  for each sequence number, the events accepted there in order  *)
(*   fel[p]  every event accepted, in order first seen                     *)
(*   at[x]   the keys and witnesses event x was judged by                  *)
(* Evidence E accumulates everything delivered; R is the part of it the    *)
(* validator was obliged to keep for events it could not decide yet.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Range(s) == { s[j] : j \in 1..Len(s) }
Last(s) == s[Len(s)]

RECURSIVE SumOver(_, _)   \* sum of f[j] for j in a set of integers
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET j == CHOOSE j \in S : TRUE IN f[j] + SumOver(f, S \ {j})

---------------------------------------------------------------------------
\* Thresholds.  [kind |-> "num", n |-> 2] or
\* [kind |-> "w", d |-> 12, c |-> << clause ... >>], a clause being a sequence
\* of [k |-> weight, v |-> <<>>] or, nested, [k |-> weight, v |-> <<weights>>].
Span(el) == IF el.v = <<>> THEN 1 ELSE Len(el.v)

RECURSIVE SpanUpTo(_, _)
SpanUpTo(cl, j) == IF j = 0 THEN 0 ELSE SpanUpTo(cl, j - 1) + Span(cl[j])
RECURSIVE ClauseOff(_, _)
ClauseOff(th, j) == IF j <= 1 THEN 0
                    ELSE ClauseOff(th, j - 1) + SpanUpTo(th.c[j - 1], Len(th.c[j - 1]))

Size(th) == IF th.kind = "num" THEN th.n ELSE ClauseOff(th, Len(th.c) + 1)

ElemWeight(th, el, off, S) ==
  IF el.v = <<>> THEN IF off \in S THEN el.k ELSE 0
  ELSE IF SumOver([j \in 1..Len(el.v) |-> IF (off + j - 1) \in S THEN el.v[j] ELSE 0],
                  1..Len(el.v)) >= th.d
       THEN el.k ELSE 0

ClauseHolds(th, j, S) ==
  LET cl == th.c[j]
      off == ClauseOff(th, j)
  IN SumOver([m \in 1..Len(cl) |-> ElemWeight(th, cl[m], off + SpanUpTo(cl, m - 1), S)],
             1..Len(cl)) >= th.d

\* the distinct 0-based indices in S satisfy threshold th
Sat(th, S) == IF th.kind = "num" THEN th.n > 0 /\ Cardinality(S) >= th.n
              ELSE S /= {} /\ \A j \in 1..Len(th.c) : ClauseHolds(th, j, S)

---------------------------------------------------------------------------
IsIncept(e) == e.t \in {"icp", "dip"}
IsRotate(e) == e.t \in {"rot", "drt"}
IsEst(e) == IsIncept(e) \/ IsRotate(e)
IsDel(e) == e.t \in {"dip", "drt"}

Dead == [live |-> FALSE]

NoDup(s) == Cardinality(Range(s)) = Len(s)

\* the last event accepted at sequence number s of p (0 none)
LastAt(V, p, s) == IF s >= 0 /\ s < Len(V.kel[p]) /\ V.kel[p][s + 1] /= <<>>
                   THEN Last(V.kel[p][s + 1]) ELSE 0

Accepted(V, p, x) == x \in Range(V.fel[p])

\* A rotation may supersede: any interaction after the last establishment event;
\* a delegated rotation may also supersede the last establishment event itself
\* when that is a delegated rotation.
SupIxn(K, e) == IsRotate(e) /\ e.s > K.lest.s /\ e.s <= K.s
SupDrt(K, e) == e.t = "drt" /\ e.s = K.lest.s /\ e.s > 0

\* commitments and witnesses a rotation is judged by: those of the establishment
\* event before it in its own chain
Ctx(K, e) == IF SupDrt(K, e) THEN K.prev
             ELSE [n |-> K.n, nt |-> K.nt, wits |-> K.wits]

Minus(s, S) == SelectSeq(s, LAMBDA y : y \notin S)

NewWits(base, e) == Minus(base, Range(e.br)) \o e.ba

ToadOk(e, wits) == IF wits = <<>> THEN e.bt = 0 ELSE e.bt >= 1 /\ e.bt <= Len(wits)

\* e does not even read as a key event: no validator looks at it further
Malformed(e) == \/ IsDel(e) /\ ~e.dg
                \/ ~e.xf /\ (e.n /= <<>> \/ e.b /= <<>> \/ e.a /= <<>>)

\* Everything about e's place and content that no attachment can mend.
Struct(V, e) ==
  LET K == V.ks[e.p] IN
  IF Malformed(e) THEN {"malformed"}
  ELSE IF IsIncept(e) THEN
       (IF K.live THEN {"again"} ELSE {})
    \cup (IF e.s /= 0 THEN {"place"} ELSE {})
    \cup (IF Len(e.k) < Size(e.kt) THEN {"keys"} ELSE {})
    \cup (IF ~NoDup(e.b) \/ ~ToadOk(e, e.b) THEN {"wits"} ELSE {})
    \cup (IF e.t = "dip" /\ e.di = 0 THEN {"deleg"} ELSE {})
  ELSE IF ~K.live THEN {"order"}
  ELSE IF e.t = "ixn" THEN
       (IF K.n = <<>> \/ ~e.xf THEN {"nontrans"} ELSE {})
    \cup (IF K.eo THEN {"trait"} ELSE {})
    \cup (IF e.s /= K.s + 1 THEN {"place"} ELSE {})
    \cup (IF e.pr /= K.d THEN {"chain"} ELSE {})
  ELSE LET ctx == Ctx(K, e) IN
       (IF K.n = <<>> \/ ~e.xf THEN {"nontrans"} ELSE {})
    \cup (IF (e.t = "drt") /= (K.di /= 0) THEN {"deleg"} ELSE {})
    \cup (IF ~(e.s = K.s + 1 \/ SupIxn(K, e) \/ SupDrt(K, e)) THEN {"place"} ELSE {})
    \cup (IF e.pr = 0 \/ e.pr /= LastAt(V, e.p, e.s - 1) THEN {"chain"} ELSE {})
    \cup (IF Len(e.k) < Size(e.kt) THEN {"keys"} ELSE {})
    \cup (IF \/ ~NoDup(e.br) \/ ~NoDup(e.ba)
             \/ ~(Range(e.br) \subseteq Range(ctx.wits))
             \/ Range(e.ba) \cap Range(e.br) /= {}
             \/ Range(e.ba) \cap Range(ctx.wits) /= {}
             \/ ~ToadOk(e, NewWits(ctx.wits, e)) THEN {"wits"} ELSE {})

\* keys, threshold and witnesses that signatures on e are judged by
KeysOf(V, e) == IF IsEst(e) THEN e.k ELSE V.ks[e.p].k
ThOf(V, e) == IF IsEst(e) THEN e.kt ELSE V.ks[e.p].kt
WitsOf(V, e) == IF IsIncept(e) THEN e.b
                ELSE IF IsRotate(e) THEN NewWits(Ctx(V.ks[e.p], e).wits, e)
                ELSE V.ks[e.p].wits
ToadOf(V, e) == IF IsEst(e) THEN e.bt ELSE V.ks[e.p].toad

Good(keys, g) == g.k /= 0 /\ g.i < Len(keys) /\ keys[g.i + 1] = g.k
Signed(keys, sigs) == { g.i : g \in { h \in sigs : Good(keys, h) } }
Exposed(keys, n, sigs) ==
  { g.o : g \in { h \in sigs : Good(keys, h) /\ h.o >= 0 /\ h.o < Len(n) /\ n[h.o + 1] = h.k } }
Witnessed(wits, wigs) ==
  { w \in Range(wits) : \E g \in wigs : g.w = w /\ (g.i = -1 \/ (g.i < Len(wits) /\ wits[g.i + 1] = w)) }

Seals(e, x, f) == \E j \in 1..Len(e.a) : e.a[j].p = f.p /\ e.a[j].s = f.s /\ e.a[j].x = x
SealAt(e, x, f) == CHOOSE j \in 1..Len(e.a) :
                     /\ e.a[j].p = f.p /\ e.a[j].s = f.s /\ e.a[j].x = x
                     /\ \A i \in 1..(j - 1) : ~(e.a[i].p = f.p /\ e.a[i].s = f.s /\ e.a[i].x = x)

Delegator(V, e) == IF e.t = "dip" THEN e.di ELSE V.ks[e.p].di

\* the authoritative events of delegator d that seal event x
Sealers(W, V, d, x) ==
  { y \in { LastAt(V, d, s) : s \in 0..(Len(V.kel[d]) - 1) } : y /= 0 /\ Seals(W.ev[y], x, W.ev[x]) }

Own(W, V, e) == e.p \in W.own
WitnessFor(W, V, e) == Range(WitsOf(V, e)) \cap W.own /= {}
Exempt(W, V, e) == Own(W, V, e) \/ WitnessFor(W, V, e)

\* Rules B and C: may delegated rotation x, delegated by bn, supersede delegated
\* rotation o that bo delegated, both delegated by identifier d?
RECURSIVE Outranks(_, _, _, _, _, _, _)
Outranks(W, V, d, x, bn, o, bo) ==
  LET B == W.ev[bn]
      A == W.ev[bo]
  IN IF B.s > A.s THEN TRUE
     ELSE IF bn = bo THEN SealAt(B, x, W.ev[x]) > SealAt(A, o, W.ev[o])
     ELSE IF B.s = A.s /\ IsRotate(B) /\ A.t = "ixn" THEN TRUE
     ELSE IF V.ks[d].di = 0 \/ ~IsDel(A) \/ ~IsDel(B) THEN FALSE
     ELSE LET dd == V.ks[d].di
              sn == Sealers(W, V, dd, bn)
              so == { y \in Range(V.fel[dd]) : Seals(W.ev[y], bo, A) }
          IN sn /= {} /\ so /= {}
             /\ Outranks(W, V, dd, bn, CHOOSE y \in sn : \A z \in sn : W.ev[y].s >= W.ev[z].s,
                         bo, CHOOSE y \in so : \A z \in so : W.ev[y].s <= W.ev[z].s)

\* Clauses that attachments decide.  Empty: everything needed is there.
Auth(W, V, x, sigs, wigs, loc) ==
  LET e == W.ev[x]
      K == V.ks[e.p]
      keys == KeysOf(V, e)
      wits == WitsOf(V, e)
      d == IF IsDel(e) THEN Delegator(V, e) ELSE 0
      ex == Exempt(W, V, e)
  IN   (IF Sat(ThOf(V, e), Signed(keys, sigs)) THEN {} ELSE {"sigs"})
  \cup (IF IsRotate(e) /\ ~Sat(Ctx(K, e).nt, Exposed(keys, Ctx(K, e).n, sigs))
        THEN {"prerot"} ELSE {})
  \cup (IF ex \/ Cardinality(Witnessed(wits, wigs)) >= ToadOf(V, e) THEN {} ELSE {"toad"})
  \cup (IF ~loc /\ (ex \/ (d /= 0 /\ d \in W.own)) THEN {"source"} ELSE {})
  \cup (IF d = 0 \/ ex THEN {}
        ELSE IF ~V.ks[d].live \/ V.ks[d].dnd THEN {"seal"}
        ELSE IF Sealers(W, V, d, x) = {} THEN {"seal"}
        ELSE IF SupDrt(K, e) /\ LET o == K.d0
                                    so == { y \in Range(V.fel[d]) : Seals(W.ev[y], o, W.ev[o]) }
                                IN ~\E bn \in Sealers(W, V, d, x) : \E bo \in so :
                                       Outranks(W, V, d, x, bn, o, bo)
             THEN {"rank"} ELSE {})

Fails(W, V, x, sigs, wigs, loc) ==
  LET s == Struct(V, W.ev[x]) IN
  IF s /= {} THEN s
  ELSE (IF Accepted(V, W.ev[x].p, x) THEN {"again"} ELSE {})
       \cup Auth(W, V, x, sigs, wigs, loc)

---------------------------------------------------------------------------
\* The key state after e is accepted.
Pad(q, n) == IF Len(q) >= n THEN q ELSE q \o [j \in 1..(n - Len(q)) |-> <<>>]

KsAfter(V, x, e) ==
  LET K == V.ks[e.p] IN
  IF IsIncept(e) THEN
    [live |-> TRUE, s |-> 0, d |-> x, t |-> e.t, k |-> e.k, kt |-> e.kt, n |-> e.n, nt |-> e.nt,
     wits |-> e.b, toad |-> e.bt, br |-> <<>>, ba |-> <<>>, lest |-> [s |-> 0, d |-> x],
     d0 |-> x, di |-> e.di, eo |-> "EO" \in Range(e.c), dnd |-> "DND" \in Range(e.c),
     prev |-> [n |-> <<>>, nt |-> e.nt, wits |-> <<>>], pr |-> 0]
  ELSE IF e.t = "ixn" THEN [K EXCEPT !.s = e.s, !.d = x, !.t = "ixn", !.pr = e.pr]
  ELSE [K EXCEPT !.s = e.s, !.d = x, !.t = e.t, !.k = e.k, !.kt = e.kt, !.n = e.n, !.nt = e.nt,
                 !.wits = NewWits(Ctx(K, e).wits, e), !.toad = e.bt, !.br = e.br, !.ba = e.ba,
                 !.lest = [s |-> e.s, d |-> x], !.d0 = x, !.prev = Ctx(K, e), !.pr = e.pr]

Take(W, V, x) ==
  LET e == W.ev[x]
      q == Pad(V.kel[e.p], e.s + 1)
  IN [ks |-> [V.ks EXCEPT ![e.p] = KsAfter(V, x, e)],
      kel |-> [V.kel EXCEPT ![e.p] = [q EXCEPT ![e.s + 1] = Append(@, x)]],
      fel |-> [V.fel EXCEPT ![e.p] = Append(@, x)],
      at |-> [V.at EXCEPT ![x] = [k |-> KeysOf(V, e), wits |-> WitsOf(V, e), toad |-> ToadOf(V, e)]]]

V0(np, nx) == [ks |-> [p \in 1..np |-> Dead], kel |-> [p \in 1..np |-> <<>>],
               fel |-> [p \in 1..np |-> <<>>], at |-> [x \in 1..nx |-> Dead]]

---------------------------------------------------------------------------
\* What the validator must keep of a delivery it cannot decide yet.

\* e can no longer be called out of order
Reach(V, e) == IsIncept(e) \/ (V.ks[e.p].live /\ e.s <= V.ks[e.p].s + 1)

\* e is beyond repair right now, or its fate is left to redelivery
Hopeless(W, V, x, sigs, loc) ==
  LET e == W.ev[x] IN
  \/ Accepted(V, e.p, x)
  \/ /\ Reach(V, e)
     /\ \/ Struct(V, e) /= {}
        \/ Signed(KeysOf(V, e), sigs) = {}
        \/ SupDrt(V.ks[e.p], e) /\ IsRotate(e)
        \/ ~loc /\ (Exempt(W, V, e) \/ (IsDel(e) /\ Delegator(V, e) \in W.own))
        \/ IsDel(e) /\ Delegator(V, e) \in W.own
        \/ IsDel(e) /\ V.ks[Delegator(V, e)].live /\ V.ks[Delegator(V, e)].dnd
=============================================================================
