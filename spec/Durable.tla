------------------------------- MODULE Durable -------------------------------
(***************************************************************************)
(* The flush protocol of the browser store as a state machine: stores are  *)
(* written in memory and marked dirty; a flush walks the stores in order,  *)
(* hands each dirty one's current content to asynchronous storage, waits,  *)
(* and then decides whether it is still dirty.  Writes may land while it   *)
(* waits, the wait may fail before or after storage committed, two flushes *)
(* may overlap, and the process may die anywhere.                          *)
(*                                                                         *)
(* Contents are version numbers: mem[s] counts the writes to store s.      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Stores,      \* 1..n, flushed in this order
          Flushes,     \* identities of flushes that may overlap
          MaxWrites,
          KEEPDIRTY    \* TRUE: dirty is cleared only if nothing changed meanwhile

VARIABLES mem, dirty, dur,
          pc,          \* flush -> 0 idle, s waiting at store s, "done" handled at once
          sent,        \* flush -> version handed to storage at the current store
          start,       \* flush -> what mem was when it began
          ok           \* what the last completed flush promised: min version per store
vars == <<mem, dirty, dur, pc, sent, start, ok>>

Zero == [s \in Stores |-> 0]
Init == mem = Zero /\ dur = Zero /\ dirty = [s \in Stores |-> FALSE]
        /\ pc = [f \in Flushes |-> 0] /\ sent = [f \in Flushes |-> 0]
        /\ start = [f \in Flushes |-> Zero] /\ ok = Zero

Write(s) == /\ mem[s] < MaxWrites
            /\ mem' = [mem EXCEPT ![s] = @ + 1]
            /\ dirty' = [dirty EXCEPT ![s] = TRUE]
            /\ UNCHANGED <<dur, pc, sent, start, ok>>

Later(s) == { t \in Stores : t > s /\ dirty[t] }
Next1(s) == IF Later(s) = {} THEN 0 ELSE CHOOSE t \in Later(s) : \A u \in Later(s) : t <= u

\* move flush f to the next dirty store after s, or finish it
Advance(f, s, d2) ==
  LET L == { t \in Stores : t > s /\ d2[t] }
      t == IF L = {} THEN 0 ELSE CHOOSE x \in L : \A u \in L : x <= u
  IN /\ pc' = [pc EXCEPT ![f] = t]
     /\ sent' = [sent EXCEPT ![f] = IF t = 0 THEN 0 ELSE mem[t]]
     /\ ok' = IF t = 0
              THEN [x \in Stores |-> IF start'[f][x] > ok[x] THEN start'[f][x] ELSE ok[x]]
              ELSE ok

Begin(f) == /\ pc[f] = 0
            /\ start' = [start EXCEPT ![f] = mem]
            /\ Advance(f, 0, dirty)
            /\ UNCHANGED <<mem, dirty, dur>>

Newest(f, s) == \* a handle commits the newest content handed to it by anyone
  LET V == { sent[g] : g \in {g \in Flushes : pc[g] = s} }
  IN CHOOSE v \in V : \A w \in V : w <= v

Land(f) == /\ pc[f] /= 0
           /\ LET s == pc[f]
                  d2 == [dirty EXCEPT ![s] = IF KEEPDIRTY THEN mem[s] /= sent[f] ELSE FALSE]
              IN /\ dur' = [dur EXCEPT ![s] = IF Newest(f, s) > @ THEN Newest(f, s) ELSE @]
                 /\ dirty' = d2
                 /\ start' = start
                 /\ Advance(f, s, d2)
           /\ UNCHANGED mem

Fail(f, landed) ==
           /\ pc[f] /= 0
           /\ dur' = IF landed THEN [dur EXCEPT ![pc[f]] =
                        IF Newest(f, pc[f]) > @ THEN Newest(f, pc[f]) ELSE @] ELSE dur
           /\ pc' = [pc EXCEPT ![f] = 0] /\ sent' = [sent EXCEPT ![f] = 0]
           /\ UNCHANGED <<mem, dirty, start, ok>>

Crash == /\ mem' = dur /\ dirty' = [s \in Stores |-> FALSE]
         /\ pc' = [f \in Flushes |-> 0] /\ sent' = [f \in Flushes |-> 0]
         /\ start' = [f \in Flushes |-> Zero]
         /\ ok' = [s \in Stores |-> IF ok[s] > dur[s] THEN ok[s] ELSE dur[s]]
         /\ UNCHANGED dur

Next == \/ \E s \in Stores : Write(s)
        \/ \E f \in Flushes : Begin(f) \/ Land(f) \/ \E b \in BOOLEAN : Fail(f, b)
        \/ Crash
Spec == Init /\ [][Next]_vars

\* a completed flush promises that storage holds at least what it began with
Promise == \A s \in Stores : dur[s] >= ok[s]
\* nothing is forgotten: what is not durable is still marked
Marked  == \A s \in Stores : mem[s] /= dur[s] =>
              dirty[s] \/ \E f \in Flushes : pc[f] = s /\ sent[f] = mem[s]
=============================================================================
