-------------------------------- MODULE Body --------------------------------
(***************************************************************************)
(* Message bodies: which a reader takes, and what a maker makes.           *)
(*                                                                         *)
(* A body as it is on the wire:                                            *)
(*   proto, v   protocol and major version      fields  labels in order    *)
(*   ilk        its type, "None" when it says none                         *)
(*   said, isaid   its identifier (and that of who it begins) is right     *)
(*   inner      the identifiers of what is expanded in it are right        *)
(*   size       the size it gives: right, short, long                      *)
(*   form       canonical, or other bytes (padded, spaced, a field twice,  *)
(*              another serialization than it says, flipped, cut)          *)
(*   pre        what its identifier prefix is: digest, basic, basicnt (not *)
(*              transferable), xbasic (not its only key), junk             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Key(proto, v, ilk) == <<proto, v, ilk>>
F(alls) == [alls |-> alls, opts |-> {}, alts |-> {}, more |-> FALSE, saids |-> {"d"}]
I(alls) == [F(alls) EXCEPT !.saids = {"d", "i"}]
O(alls, opts, more) == [F(alls) EXCEPT !.opts = opts, !.alts = {{"a", "A"}}, !.more = more]

Kel == [icp |-> I(<<"v", "t", "d", "i", "s", "kt", "k", "nt", "n", "bt", "b", "c", "a">>),
        dip |-> I(<<"v", "t", "d", "i", "s", "kt", "k", "nt", "n", "bt", "b", "c", "a", "di">>),
        ixn |-> F(<<"v", "t", "d", "i", "s", "p", "a">>),
        rct |-> [F(<<"v", "t", "d", "i", "s">>) EXCEPT !.saids = {}]]
Rot1 == F(<<"v", "t", "d", "i", "s", "p", "kt", "k", "nt", "n", "bt", "br", "ba", "a">>)
Rot2 == F(<<"v", "t", "d", "i", "s", "p", "kt", "k", "nt", "n", "bt", "br", "ba", "c", "a">>)
Ask1 == F(<<"v", "t", "d", "dt", "r", "rr", "q">>)
Ask2 == F(<<"v", "t", "d", "i", "dt", "r", "rr", "q">>)
Say1 == F(<<"v", "t", "d", "dt", "r", "a">>)
Say2 == F(<<"v", "t", "d", "i", "dt", "r", "a">>)
Keri1 == Kel @@ [rot |-> Rot1, drt |-> Rot1, qry |-> Ask1, pro |-> Ask1, rpy |-> Say1, bar |-> Say1,
                 exn |-> F(<<"v", "t", "d", "i", "rp", "p", "dt", "r", "q", "a", "e">>),
                 vcp |-> I(<<"v", "t", "d", "i", "ii", "s", "c", "bt", "b", "n">>),
                 vrt |-> F(<<"v", "t", "d", "i", "p", "s", "bt", "br", "ba">>),
                 iss |-> F(<<"v", "t", "d", "i", "s", "ri", "dt">>),
                 rev |-> F(<<"v", "t", "d", "i", "s", "ri", "p", "dt">>),
                 bis |-> F(<<"v", "t", "d", "i", "ii", "s", "ra", "dt">>),
                 brv |-> F(<<"v", "t", "d", "i", "s", "p", "ra", "dt">>)]
Keri2 == Kel @@ [rot |-> Rot2, drt |-> Rot2, qry |-> Ask2, pro |-> Ask2, rpy |-> Say2, bar |-> Say2,
                 xip |-> F(<<"v", "t", "d", "u", "i", "ri", "dt", "r", "q", "a">>),
                 exn |-> F(<<"v", "t", "d", "i", "ri", "x", "p", "dt", "r", "q", "a">>)]
Ace == O(<<"v", "t", "d", "u", "i", "ri", "s", "a", "A", "e", "r">>, {"u", "ri", "a", "A", "e", "r"}, TRUE)
Acdc1 == [None |-> O(<<"v", "d", "u", "i", "ri", "s", "a", "A", "e", "r">>, {"u", "ri", "a", "A", "e", "r"}, FALSE), ace |-> Ace]
Acdc2 == [None |-> O(<<"v", "d", "u", "i", "rd", "s", "a", "A", "e", "r">>, {"u", "rd", "a", "A", "e", "r"}, FALSE), ace |-> Ace,
          acm |-> O(<<"v", "t", "d", "u", "i", "rd", "s", "a", "A", "e", "r">>, {"u", "rd", "a", "A", "e", "r"}, FALSE),
          act |-> F(<<"v", "t", "d", "u", "i", "rd", "s", "a", "e", "r">>), acg |-> F(<<"v", "t", "d", "u", "i", "rd", "s", "A", "e", "r">>),
          sch |-> F(<<"v", "t", "d", "s">>), att |-> F(<<"v", "t", "d", "a">>), agg |-> F(<<"v", "t", "d", "A">>),
          edg |-> F(<<"v", "t", "d", "e">>), rul |-> F(<<"v", "t", "d", "r">>),
          rip |-> F(<<"v", "t", "d", "u", "i", "n", "dt">>), bup |-> F(<<"v", "t", "d", "rd", "n", "p", "dt", "b">>),
          upd |-> F(<<"v", "t", "d", "rd", "n", "p", "dt", "td", "ts">>)]
Table == [KERI |-> <<Keri1, Keri2>>, ACDC |-> <<Acdc1, Acdc2>>]
Ilks(proto, v) == DOMAIN Table[proto][v]
Spec0(proto, v, ilk) == Table[proto][v][ilk]
Types == { Key(p, v, k) : p \in {"KERI", "ACDC"}, v \in {1, 2}, k \in UNION { Ilks(p, v) : p \in {"KERI", "ACDC"}, v \in {1, 2} } }
Real == { t \in Types : t[3] \in Ilks(t[1], t[2]) }

Range(s) == { s[j] : j \in 1..Len(s) }
Distinct(s) == \A j, k \in 1..Len(s) : s[j] = s[k] => j = k

----------------------------------------------------------------------------
\* fields as a reader checks them: those needed, in order, then more only where more may be
FieldsOk(sp, fs) ==
  LET known == SelectSeq(sp.alls, LAMBDA f : f \in Range(fs))
  IN /\ Distinct(fs)
     /\ \A f \in Range(sp.alls) \ sp.opts : f \in Range(fs)
     /\ \A alt \in sp.alts : ~(alt \subseteq Range(fs))
     /\ Len(known) <= Len(fs) /\ SubSeq(fs, 1, Len(known)) = known
     /\ sp.more \/ Len(fs) = Len(known)

\* no prefix is looked at in these of version 1
Plain(b) == b.proto = "KERI" /\ b.v = 1 /\ b.ilk \in {"qry", "rpy", "pro", "bar", "exn"}
Issued(b) == b.proto = "ACDC" /\ b.ilk \in {"None", "acm", "ace", "act", "acg", "rip"}
PreOk(b) ==
  IF b.proto = "KERI" THEN
    IF Plain(b) THEN TRUE
    ELSE CASE b.pre = "digest" -> TRUE
           [] b.ilk \in {"dip", "drt"} -> FALSE
           [] b.pre = "xbasic" -> b.ilk # "icp"
           [] OTHER -> b.pre \in {"basic", "basicnt"}
  ELSE Issued(b) => b.pre # "junk"

Acceptable(b) ==
  /\ b.ilk \in Ilks(b.proto, b.v)
  /\ LET sp == Spec0(b.proto, b.v, b.ilk)
     IN FieldsOk(sp, b.fields) /\ (b.said \/ sp.saids = {}) /\ (b.isaid \/ "i" \notin sp.saids \/ b.pre # "digest")
  /\ b.inner /\ b.size = "right" /\ b.form = "canonical" /\ PreOk(b)

----------------------------------------------------------------------------
\* what is made of fields given in any order, all that are needed among them
Makeable(sp, given) == (\A alt \in sp.alts : ~(alt \subseteq Range(given))) /\ (sp.more \/ Range(given) \subseteq Range(sp.alls))
Made(sp, given) == SelectSeq(sp.alls, LAMBDA f : f \in Range(given)) \o SelectSeq(given, LAMBDA f : f \notin Range(sp.alls))
=============================================================================
