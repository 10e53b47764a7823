------------------------------ MODULE TholdMC ------------------------------
(***************************************************************************)
(* All small threshold expressions, and signers who sign one after the     *)
(* other: a threshold once met stays met, all together meet one that is    *)
(* valid, who is not asked changes nothing, and none alone meets what      *)
(* needs more.  The expressions are written out for the real code.         *)
(***************************************************************************)
EXTENDS Thold, Json

CONSTANTS EMIT, Extra
VARIABLES e, signed
vars == <<e, signed>>

W == {<<0, 1>>, <<1, 3>>, <<1, 2>>, <<2, 3>>, <<1, 1>>} \cup Extra
P(w) == [w |-> w, nest |-> FALSE, in |-> <<>>]
N(w, ws) == [w |-> w, nest |-> TRUE, in |-> ws]
SeqsOf(S, n) == UNION { [1..k -> S] : k \in 1..n }
Plain == { P(w) : w \in W }
Nested == { N(w, ws) : w \in {<<1, 3>>, <<1, 2>>, <<1, 1>>}, ws \in SeqsOf({<<1, 3>>, <<1, 2>>, <<1, 1>>}, 2) }
Weights(cs) == [kind |-> "weights", n |-> 0, cs |-> cs]
Number(k) == [kind |-> "number", n |-> k, cs |-> <<>>]
Exprs == { Number(k) : k \in 0..5 }
         \cup { Weights(<<c>>) : c \in SeqsOf(Plain, 3) }
         \cup { Weights(<<c>>) : c \in SeqsOf(Plain \cup Nested, 2) }
         \cup { Weights(<<c, d>>) : c \in SeqsOf(Plain, 2), d \in SeqsOf(Plain, 2) }
         \cup { Weights(<<c, d>>) : c \in SeqsOf({P(<<1, 2>>), P(<<1, 1>>)}, 2), d \in [1..1 -> Nested] }

Init == e \in Exprs /\ signed = {}
Sign == \E p \in 0..Size(e) : p \notin signed /\ signed' = signed \cup {p} /\ UNCHANGED e
Next == Valid(e) /\ Size(e) <= 4 /\ Sign
Spec == Init /\ [][Next]_vars

EmitAll == ~EMIT \/ \A x \in Exprs : PrintT("@E " \o ToJson(x))
ASSUME EmitAll
----------------------------------------------------------------------------
Stays == [][Satisfied(e, signed) => Satisfied(e, signed')]_vars
Together == Valid(e) /\ (e.kind = "number" => e.n > 0) => Satisfied(e, 0..(Size(e) - 1))
Nobody == ~Satisfied(e, {})
\* signatures at places that are not there do nothing
Asked == e.kind = "weights" /\ Satisfied(e, signed) => Satisfied(e, signed \ {Size(e)})
\* lowest terms mean the same
Same == Valid(e) => Size(Norm(e)) = Size(e) /\ (Satisfied(e, signed) <=> Satisfied(Norm(e), signed))
=============================================================================
