------------------------------- MODULE BodyMC -------------------------------
(***************************************************************************)
(* Every kind of message body made as its maker may make it, and then      *)
(* altered in every way, up to Alters times.  What is acceptable in        *)
(* Body.tla is what could have been made, and nothing else.  The altered   *)
(* bodies are written out to be written and read by the real code.         *)
(***************************************************************************)
EXTENDS Body, Json

CONSTANTS Alters, EMIT
VARIABLES b, n
vars == <<b, n>>

B0(t, fs) == [proto |-> t[1], v |-> t[2], ilk |-> t[3], fields |-> fs, said |-> TRUE, isaid |-> TRUE, inner |-> TRUE, size |-> "right",
              form |-> "canonical", pre |-> "digest"]
Sp(t) == Spec0(t[1], t[2], t[3])
\* the optional fields a maker may choose
Choices(sp) == { o \in SUBSET sp.opts : \A alt \in sp.alts : ~(alt \subseteq o) }
Kept(sp, o) == SelectSeq(sp.alls, LAMBDA f : f \in o \/ f \notin sp.opts)
Goods(t) == LET sp == Sp(t) IN { Kept(sp, o) : o \in Choices(sp) }
Some(t) == LET sp == Sp(t) IN { Kept(sp, o) : o \in { x \in Choices(sp) : x \in {{}, {"a"}} \/ Cardinality(x) >= Cardinality(sp.opts) - 1 } }

Init == \E t \in Real : b \in { B0(t, fs) : fs \in Some(t) } /\ n = 0

Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
With(s, j, x) == SubSeq(s, 1, j) \o <<x>> \o SubSeq(s, j + 1, Len(s))
Ilk(fs) == IF "t" \in Range(fs) THEN b.ilk ELSE "None"
Set(fs) == b' = [b EXCEPT !.fields = fs, !.ilk = IF "t" \in Range(fs) THEN b.ilk ELSE "None"]
Alter ==
  /\ n < Alters /\ n' = n + 1
  /\ \/ \E j \in 2..Len(b.fields) : Set(Without(b.fields, j))
     \/ \E j \in 2..Len(b.fields) - 1 : Set([b.fields EXCEPT ![j] = b.fields[j + 1], ![j + 1] = b.fields[j]])
     \/ \E j \in {2, Len(b.fields)} : "zz" \notin Range(b.fields) /\ Set(With(b.fields, j, "zz"))
     \/ \E f \in {"u", "a", "A", "c", "i"} \ Range(b.fields) : \E j \in {2, Len(b.fields) - 1, Len(b.fields)} : Set(With(b.fields, j, f))
     \/ "t" \in Range(b.fields) /\ \E k \in {"rot", "drt", "icp", "rpy", "qry", "exn", "ace", "acm", "att", "zzz"} \ {b.ilk} : b' = [b EXCEPT !.ilk = k]
     \/ b.said /\ "d" \in Range(b.fields) /\ b' = [b EXCEPT !.said = FALSE]
     \/ b.isaid /\ b.ilk \in {"icp", "dip", "vcp"} /\ "i" \in Range(b.fields) /\ b' = [b EXCEPT !.isaid = FALSE]
     \/ b.size = "right" /\ \E z \in {"short", "long"} : b' = [b EXCEPT !.size = z]
     \/ b.form = "canonical" /\ \E z \in {"spaced", "padded", "twice", "kind"} : b' = [b EXCEPT !.form = z]
Next == Alter
Spec == Init /\ [][Next]_vars

Emit == EMIT => PrintT("@E " \o ToJson(b'))
ASSUME EMIT => \A t \in Real : PrintT("@T " \o ToJson([t |-> t, alls |-> Sp(t).alls, opts |-> Sp(t).opts, alts |-> Sp(t).alts, more |-> Sp(t).more,
                                                      saids |-> Sp(t).saids]))
----------------------------------------------------------------------------
Could == \E t \in Real : t = Key(b.proto, b.v, b.ilk) /\
           LET sp == Sp(t)
               k == CHOOSE k \in 0..Len(b.fields) : k = Len(b.fields) \/ (b.fields[k + 1] \notin Range(sp.alls) /\ \A j \in 1..k : b.fields[j] \in Range(sp.alls))
           IN SubSeq(b.fields, 1, k) \in Goods(t) /\ (k < Len(b.fields) => sp.more /\ \A j \in k + 1..Len(b.fields) : b.fields[j] \notin Range(sp.alls))
Same == Acceptable(b) <=> Could /\ (b.said \/ Sp(Key(b.proto, b.v, b.ilk)).saids = {}) /\ (b.isaid \/ b.ilk \notin {"icp", "dip", "vcp"})
                          /\ b.size = "right" /\ b.form = "canonical"
\* one alteration of what identifies or delimits a body makes it unacceptable
Guarded == n > 0 /\ Acceptable(b) => b.form = "canonical" /\ b.size = "right"
=============================================================================
