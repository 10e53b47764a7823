----------------------------- MODULE ExamplesMC -----------------------------
(* Every document up to a length over a small alphabet of items, against   *)
(* every manifest over a small set of values; each is printed with what    *)
(* the guard and the tagger must do with it.                               *)
EXTENDS Examples, Json

CONSTANTS MaxLen, EMIT

N(x)  == [t |-> "num", s |-> x, c |-> <<>>]
D(x)  == [t |-> "dict", s |-> "", c |-> <<[k |-> "d", v |-> N(x)]>>]
Bad   == [t |-> "bad", s |-> "", c |-> <<>>]
L1    == [t |-> "list", s |-> "", c |-> <<[k |-> "", v |-> N("1")]>>]
NoV   == [t |-> "null", s |-> "", c |-> <<>>]

Mark(n)     == [t |-> "mark", n |-> n, lang |-> "", v |-> NoV]
Fence(l, v) == [t |-> "fence", n |-> "", lang |-> l, v |-> v]
Alphabet == { Mark("a"), Mark("b"), Mark("c"),
              Fence("json", D("1")), Fence("python", D("1")), Fence("json", D("2")),
              Fence("python", L1), Fence("json", Bad), Fence("yaml", D("1")),
              [t |-> "blank", n |-> "", lang |-> "", v |-> NoV],
              [t |-> "text", n |-> "", lang |-> "", v |-> NoV] }
Manifests == { {},
               {[n |-> "a", v |-> D("1")]},
               {[n |-> "a", v |-> D("1")], [n |-> "b", v |-> D("2")]},
               {[n |-> "a", v |-> D("1")], [n |-> "b", v |-> D("1")]},
               {[n |-> "a", v |-> L1]} }

VARIABLES doc, m
Init == doc = <<>> /\ m \in Manifests
Next == Len(doc) < MaxLen /\ m' = m /\ \E x \in Alphabet : doc' = Append(doc, x)
Spec == Init /\ [][Next]_<<doc, m>>

\* ---- what the guard and the tagger promise
Idempotent == TagDoc(m, TagDoc(m, doc)) = TagDoc(m, doc)
OnlyAdds   == LET t == TagDoc(m, doc) IN      \* markers only, nothing lost
              SelectSeq(t, LAMBDA x : x.t /= "mark") = SelectSeq(doc, LAMBDA x : x.t /= "mark")
Honest     == \* tagging never introduces an error or drift
              LET t == TagDoc(m, doc) IN
              /\ Errors(t) = Errors(doc)
              /\ Drifted(m, Blocks(t)) \subseteq Drifted(m, Blocks(doc))
              /\ Names(Blocks(doc)) \subseteq Names(Blocks(t))
GuardSound == Guard(m, doc) = 0 => (Names(m) = Names(Blocks(doc)) /\ Len(Tagged(doc)) = Cardinality(m))

Emit == ~EMIT \/ PrintT("@D " \o ToJson([d |-> doc', m |-> m, g |-> Guard(m, doc'),
          e |-> Errors(doc'), mi |-> Missing(m, Blocks(doc')), ex |-> Extra(m, Blocks(doc')),
          dr |-> Drifted(m, Blocks(doc')), tg |-> Shape(TagDoc(m, doc'))]))
=============================================================================
