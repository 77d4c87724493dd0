------------------------------- MODULE Schedule -------------------------------
(* Giving formation times to scheduled craters.  Everything is measured by    *)
(* the crater number N(1 km), which rises with age, so "older" is "larger n". *)
(*                                                                            *)
(* A crater's own constraint is a mean and a deviation (or none at all), and  *)
(* it may carry a stratigraphic sequence number: craters with a smaller       *)
(* number formed earlier.  Before times are drawn, every sequence is given an *)
(* extent; the extents of successive sequences touch and do not overlap.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NSeq,    \* sequences in use
          Top,     \* constraints lie in 0 .. Top
          MaxPer,  \* craters of one sequence that state something (1 or 2)
          NMax     \* the end of the chronology (the spec's unit is Unit times finer)
VARIABLES con,     \* con[s] = set of <<lo, hi>> (mean minus / plus deviation), {} when the crater has no constraint
          ext, round, drawn, phase
vars == <<con, ext, round, drawn, phase>>
Seqs == 1 .. NSeq
Unit == 64
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : x >= y
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* the range a sequence states itself: the envelope of its craters' ranges
Own(c) == IF c = {} THEN <<>> ELSE <<Lo({p[1] : p \in c}), Min2(Hi({p[2] : p \in c}), NMax * Unit)>>
Stated == {s \in Seqs : con[s] # {}}
\* sequences that state nothing lie between their neighbours (the youngest reaches to the present)
MidOf(s) == LET o == Own(con[s]) IN (o[1] + o[2]) \div 2
Anchors == Stated \cup {NSeq}
MidA(s) == IF s \in Stated THEN MidOf(s) ELSE 0
Interp(s) == LET a == Hi({x \in Anchors : x < s})  b == Lo({x \in Anchors : x > s})
             IN MidA(a) + ((MidA(b) - MidA(a)) * (s - a)) \div (b - a)
First == [s \in Seqs |-> IF s \in Stated THEN Own(con[s]) ELSE IF s = NSeq THEN <<0, 0>> ELSE <<Interp(s), Interp(s)>>]
\* one pass: a boundary between neighbours is put half way between their ranges
Pass(e) == LET bound(s) == (e[s][1] + e[s + 1][2]) \div 2         \* between s and s + 1
               raw(s) == <<IF s = NSeq THEN e[s][1] ELSE bound(s), IF s = 1 THEN e[s][2] ELSE bound(s - 1)>>
           IN [s \in Seqs |-> IF raw(s)[1] <= raw(s)[2] THEN raw(s) ELSE <<raw(s)[2], raw(s)[1]>>]
Joined(e) == [s \in Seqs |-> <<IF s = NSeq THEN e[s][1] ELSE (e[s][1] + e[s + 1][2]) \div 2,
                               IF s = 1 THEN e[s][2] ELSE (e[s - 1][1] + e[s][2]) \div 2>>]
Ordered(e) == \A s \in 1 .. NSeq - 1 : e[s][1] >= e[s + 1][1] /\ e[s][2] >= e[s + 1][2]
Tight(e) == \A s \in 1 .. NSeq - 1 : e[s][1] >= e[s + 1][2]

Ranges == {<<a * Unit, b * Unit>> : a \in 0 .. Top, b \in 0 .. Top}
Legal == {q \in Ranges : q[1] <= q[2]}
Init == /\ con \in [Seqs -> {{}} \cup {{p[1], p[2]} : p \in {q \in Legal \X Legal : MaxPer = 2 \/ q[1] = q[2]}}]
        /\ ext = <<>> /\ round = 0 /\ drawn = <<>> /\ phase = "given"
Refuse == /\ phase = "given" /\ con[1] = {}
          /\ phase' = "refused" /\ UNCHANGED <<con, ext, round, drawn>>
Open == /\ phase = "given" /\ con[1] # {}
        /\ ext' = First /\ phase' = "extents" /\ round' = 0 /\ UNCHANGED <<con, drawn>>
Refine == /\ phase = "extents" /\ round < 10
          /\ ext' = Joined(Pass(ext)) /\ round' = round + 1
          /\ phase' = IF Ordered(ext') THEN "draw" ELSE "extents"
          /\ UNCHANGED <<con, drawn>>
GiveUp == /\ phase = "extents" /\ round >= 10 /\ phase' = "draw" /\ UNCHANGED <<con, ext, round, drawn>>
\* a stated crater is drawn inside the extent, an exact one is put as near to its value as the extent allows
Exact(s) == con[s] # {} /\ \E p \in con[s] : p[1] = p[2]
Clamp(x, e) == Max2(Min2(x, e[2]), e[1])
Draw == /\ phase = "draw" /\ Len(drawn) < NSeq
        /\ LET s == Len(drawn) + 1 IN
           \E x \in IF Exact(s) THEN {Clamp(Lo({p[1] : p \in con[s]}), ext[s])} ELSE {ext[s][1], ext[s][2], (ext[s][1] + ext[s][2]) \div 2} :
              drawn' = Append(drawn, x)
        /\ UNCHANGED <<con, ext, round, phase>>
InOrder(d) == \A i \in 1 .. Len(d) - 1 : d[i] >= d[i + 1]
Finish == /\ phase = "draw" /\ Len(drawn) = NSeq
          /\ phase' = IF InOrder(drawn) THEN "done" ELSE "refused"
          /\ UNCHANGED <<con, ext, round, drawn>>
Next == Refuse \/ Open \/ Refine \/ GiveUp \/ Draw \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Separated == \A s, t \in Stated : s < t => Own(con[s])[1] > Own(con[t])[2]
MeansOrdered == \A s, t \in Stated : s < t => MidOf(s) >= MidOf(t)
OrderHolds == phase = "done" => \A s, t \in Seqs : s < t => drawn[s] >= drawn[t]
InRange == phase = "done" => \A s \in Seqs : drawn[s] \in 0 .. NMax * Unit
\* what is stated apart keeps its own range, and exact values are kept
KeepsRange == (phase = "draw" /\ Separated /\ \A s \in Seqs : con[s] # {}) =>
                 \A s \in Seqs : ext[s][1] <= Own(con[s])[1] /\ Own(con[s])[2] <= ext[s][2]
ExactKept == (phase = "done" /\ Separated) =>
                 \A s \in Seqs : (con[s] # {} /\ Own(con[s])[1] = Own(con[s])[2]) => drawn[s] = Own(con[s])[1]
NotRefused == (phase = "refused" /\ con[1] # {}) => ~Separated
Extents == phase = "draw" /\ Ordered(ext) => Tight(ext)
Ends == <>(phase \in {"done", "refused"})

-----------------------------------------------------------------------------
\* Judging what came back.  Times and the deviations are in 0.001 My, crater
\* numbers in units the driver scales; -1 stands for none.
\* c : [seq, kind, lo, hi, mean, sd] ; out : times (a sequence parallel to the offers, <<>> when left out)
Has(c) == c.kind # "none" \/ c.seq >= 0
TaggedIdx(cs) == {i \in DOMAIN cs : cs[i].seq >= 0}
StatedIdx(cs) == {i \in TaggedIdx(cs) : cs[i].kind # "none"}
LowestStated(cs) == TaggedIdx(cs) = {} \/ \E i \in StatedIdx(cs) : \A j \in TaggedIdx(cs) : cs[i].seq <= cs[j].seq
Apart(cs) == \A i, j \in StatedIdx(cs) : cs[i].seq < cs[j].seq => cs[i].lo > cs[j].hi + 10
AllStated(cs) == \A i \in TaggedIdx(cs) : \E j \in StatedIdx(cs) : cs[j].seq = cs[i].seq
OrderOk(cs, out) == \A i, j \in TaggedIdx(cs) : (cs[i].seq < cs[j].seq /\ out[i] # <<>> /\ out[j] # <<>>) => out[i][1] >= out[j][1]
MustSucceed(cs) == LowestStated(cs) /\ (\A i \in DOMAIN cs : cs[i].inr) /\ Apart(cs)
\* an exact crater whose time nothing else can move
Free(cs, i) == cs[i].seq < 0 \/ (Apart(cs) /\ AllStated(cs))
=============================================================================
