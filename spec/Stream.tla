------------------------------- MODULE Stream --------------------------------
(* One generator per simulation, shared by all its components.  Simulations   *)
(* "a" and "b" are given the same seed and the same operations, "c" another   *)
(* seed and operations of its own; "g" is a generator outside all of them.    *)
(* A draw yields <<seed, position>>, which stands for the number drawn.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Comps, MaxOps, Seeds
VARIABLES ref,     \* simulation -> component -> generator
          gen,     \* generator -> <<seed, position>>
          mem,     \* simulation -> recorded states
          out,     \* simulation -> what its operations returned
          todo,    \* operations "b" has still to follow
          n
vars == <<ref, gen, mem, out, todo, n>>
Sims == {"a", "b", "c"}
Gens == Sims \cup {"g"}

Init == /\ ref = [s \in Sims |-> [c \in Comps |-> s]]
        /\ \E x, y \in Seeds : x # y /\ gen = [g \in Gens |-> <<IF g \in {"a", "b"} THEN x ELSE y, 0>>]
        /\ mem = [s \in Sims |-> <<>>] /\ out = [s \in Sims |-> <<>>] /\ todo = <<>> /\ n = 0

\* k draws through component c
RECURSIVE Drawn(_, _)
Drawn(st, k) == IF k = 0 THEN <<>> ELSE <<<<st[1], st[2] + 1>>>> \o Drawn(<<st[1], st[2] + 1>>, k - 1)
Do(s, o) ==
    LET g == ref[s][o.c] IN
    CASE o.op = "draw"    -> /\ gen' = [gen EXCEPT ![g] = <<@[1], @[2] + o.k>>]
                             /\ out' = [out EXCEPT ![s] = Append(@, Drawn(gen[g], o.k))] /\ UNCHANGED <<ref, mem>>
      [] o.op = "read"    -> out' = [out EXCEPT ![s] = Append(@, <<gen[g]>>)] /\ UNCHANGED <<gen, ref, mem>>
      [] o.op = "record"  -> mem' = [mem EXCEPT ![s] = Append(@, gen[g])] /\ UNCHANGED <<gen, ref, out>>
      [] o.op = "restore" -> IF mem[s] = <<>> THEN UNCHANGED <<gen, ref, mem, out>>
                             ELSE gen' = [gen EXCEPT ![g] = mem[s][(o.k % Len(mem[s])) + 1]] /\ UNCHANGED <<ref, mem, out>>
      \* a new component is made with the simulation's common arguments
      [] o.op = "replace" -> ref' = [ref EXCEPT ![s][o.c] = ref[s][CHOOSE c \in Comps : TRUE]] /\ UNCHANGED <<gen, mem, out>>
Ops == [op : {"draw", "read", "record", "restore", "replace"}, c : Comps, k : 1 .. 2]
Next == \/ /\ n < MaxOps /\ Len(todo) < 2
           /\ \E o \in Ops : Do("a", o) /\ todo' = Append(todo, o)
           /\ n' = n + 1
        \/ todo # <<>> /\ Do("b", Head(todo)) /\ todo' = Tail(todo) /\ n' = n
        \/ n < MaxOps /\ \E o \in Ops : Do("c", o) /\ UNCHANGED todo /\ n' = n + 1
        \* others use the generator outside
        \/ n < MaxOps /\ gen' = [gen EXCEPT !["g"][2] = @ + 1] /\ UNCHANGED <<ref, mem, out, todo>> /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Shared == \A s \in Sims : \A c \in Comps : ref[s][c] = s
\* what "b" returned is what "a" returned, so far
SameResults == Len(out["b"]) <= Len(out["a"]) /\ \A i \in 1 .. Len(out["b"]) : out["b"][i] = out["a"][i]
SameState == todo = <<>> => gen["a"] = gen["b"] /\ mem["a"] = mem["b"] /\ out["a"] = out["b"]
OwnSeed == \A s \in Sims : \A i \in DOMAIN out[s] : \A j \in DOMAIN out[s][i] : out[s][i][j][1] = gen[s][1]
Alone == [][\A g, h \in Gens : gen'[g] # gen[g] /\ gen'[h] # gen[h] => g = h]_vars
=============================================================================
