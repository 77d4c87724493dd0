------------------------------ MODULE Emplace ------------------------------
(* C14: the emplacement queue.  Craters are handed over in lists; each one   *)
(* that is large enough is queued, batches of mutually disjoint craters are  *)
(* taken from the queue and formed.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------ the contract
\* over : set of pairs <<i, j>> (i < j) of hand-over numbers whose areas overlap
Ov(over, i, j) == IF i < j THEN <<i, j>> \in over ELSE <<j, i>> \in over
Disjoint(over, B) == \A i, j \in B : i # j => ~Ov(over, i, j)
\* F : sequence of hand-over numbers in the order of formation
Once(F) == \A a, b \in 1 .. Len(F) : F[a] = F[b] => a = b
InOrder(over, F) == \A a, b \in 1 .. Len(F) : (a < b /\ Ov(over, F[a], F[b])) => F[a] < F[b]
Range(F) == {F[a] : a \in 1 .. Len(F)}
\* a batch that may be taken from a queue: disjoint, and nothing it overlaps is queued before it
Legal(over, q, B) == /\ B # {} /\ B \subseteq Range(q)
                     /\ Disjoint(over, B)
                     /\ \A i \in B : \A j \in Range(q) \ B : Ov(over, i, j) => i < j
\* the batch the code takes: the longest disjoint prefix
RECURSIVE Prefix(_, _)
Prefix(over, q) ==
    IF q = <<>> THEN <<>>
    ELSE LET p == Prefix(over, SubSeq(q, 1, Len(q) - 1))
         IN  IF Len(p) = Len(q) - 1 /\ Disjoint(over, Range(q)) THEN q ELSE p

\* -------------------------------------------------------------- state machine
CONSTANTS N, FreeBatches
VARIABLES over, small, handed, queue, active, formed
vars == <<over, small, handed, queue, active, formed>>

Pairs == {<<i, j>> \in (1 .. N) \X (1 .. N) : i < j}
Init == /\ over \in SUBSET Pairs /\ small \in SUBSET (1 .. N)
        /\ handed = 0 /\ queue = <<>> /\ active = {} /\ formed = <<>>
Idle == queue = <<>> /\ active = {}
\* hand over k craters at once (the previous call has finished)
Hand(k) == /\ Idle /\ handed + k <= N
           /\ queue' = SelectSeq([i \in 1 .. k |-> handed + i], LAMBDA i : i \notin small)
           /\ handed' = handed + k
           /\ UNCHANGED <<over, small, active, formed>>
Take(B) == /\ active = {} /\ B # {}
           /\ active' = B
           /\ queue' = SelectSeq(queue, LAMBDA i : i \notin B)
           /\ UNCHANGED <<over, small, handed, formed>>
TakeSome == IF FreeBatches
            THEN \E B \in SUBSET Range(queue) : Legal(over, queue, B) /\ Take(B)
            ELSE queue # <<>> /\ Take(Range(Prefix(over, queue)))
Form(i) == /\ i \in active
           /\ formed' = Append(formed, i) /\ active' = active \ {i}
           /\ UNCHANGED <<over, small, handed, queue>>
Next == (\E k \in 1 .. N : Hand(k)) \/ TakeSome \/ (\E i \in 1 .. N : Form(i))
Spec == Init /\ [][Next]_vars /\ WF_vars(TakeSome) /\ WF_vars(\E i \in 1 .. N : Form(i))

\* ------------------------------------------------------------------ properties
PrefixLegal == queue # <<>> => Legal(over, queue, Range(Prefix(over, queue)))
ActiveDisjoint == Disjoint(over, active)
FormedOnce == Once(formed) /\ Range(formed) \cap Range(queue) = {} /\ Range(formed) \cap active = {}
OrderKept == InOrder(over, formed)
SmallNever == Range(formed) \cap small = {}
NoneLost == Range(formed) \cup Range(queue) \cup active = (1 .. handed) \ small
AllFormed == \A k \in 1 .. N : (handed >= k /\ k \notin small) ~> (k \in Range(formed))
=============================================================================
