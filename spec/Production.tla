------------------------------ MODULE Production ------------------------------
(* A production function: the number of craters larger than a diameter that   *)
(* form on a unit area between two times before present.  It is the product   *)
(* of a size distribution and a chronology; both depend on settings that can  *)
(* be changed at any moment, and coefficients of the chronology are computed  *)
(* once and remembered.  The inverse questions (which age, which diameter)    *)
(* are answered by bracketed search on the forward function.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Versions,   \* number of model versions
          Diams, Tmax, MaxOps
VARIABLES version, cache, search, ans, n
vars == <<version, cache, search, ans, n>>

-----------------------------------------------------------------------------
\* The forward function of the abstract model: sizes fall with diameter, the
\* chronology rises with time from zero.
Size(v, d) == (Diams - d + 1) * (v + 1) - (IF d > 2 THEN v ELSE 0)
Rate(v)    == 2 * v + 1
Chron(r, t) == r * (t * t + 3 * t)
N(v, d, a, b) == Size(v, d) * (Chron(Rate(v), a) - Chron(Rate(v), b))
Vs == 0 .. Versions - 1
Ds == 1 .. Diams
Ts == 0 .. Tmax

NoAns == [kind |-> "none", v |-> 0, d |-> 0, a |-> 0, b |-> 0, val |-> 0, num |-> 0]
Idle == [on |-> FALSE, d |-> 0, num |-> 0, lo |-> 0, hi |-> 0]
Init == /\ version \in Vs /\ cache = 0 /\ search = Idle /\ ans = NoAns /\ n = 0
Step == n < MaxOps /\ n' = n + 1
\* Changing a setting forgets everything computed from the old ones.
SetVersion(v) == /\ Step /\ ~search.on
                 /\ version' = v /\ cache' = 0 /\ UNCHANGED <<search, ans>>
Filled == IF cache = 0 THEN Rate(version) ELSE cache
Ask(d, a, b) == /\ Step /\ ~search.on /\ a >= b
                /\ cache' = Filled
                /\ ans' = [NoAns EXCEPT !.kind = "number", !.v = version, !.d = d, !.a = a, !.b = b,
                                        !.val = Size(version, d) * (Chron(Filled, a) - Chron(Filled, b))]
                /\ UNCHANGED <<version, search>>
\* Which age gives this number?  Answered only for numbers the range reaches.
AskAge(d, num) == /\ Step /\ ~search.on
                  /\ num <= Size(version, d) * Chron(Filled, Tmax)
                  /\ search' = [on |-> TRUE, d |-> d, num |-> num, lo |-> 0, hi |-> Tmax]
                  /\ cache' = Filled /\ UNCHANGED <<version, ans>>
Halve == /\ search.on /\ search.hi - search.lo > 1
         /\ LET m == (search.lo + search.hi) \div 2
                f == Size(version, search.d) * Chron(cache, m)
            IN search' = IF f >= search.num THEN [search EXCEPT !.hi = m] ELSE [search EXCEPT !.lo = m]
         /\ UNCHANGED <<version, cache, ans, n>>
Found == /\ search.on /\ search.hi - search.lo <= 1
         /\ LET low == Size(version, search.d) * Chron(cache, search.lo)
                a == IF low >= search.num THEN search.lo ELSE search.hi
            IN ans' = [NoAns EXCEPT !.kind = "age", !.v = version, !.d = search.d, !.num = search.num, !.a = a]
         /\ search' = Idle /\ UNCHANGED <<version, cache, n>>
Next == \/ \E v \in Vs : SetVersion(v)
        \/ \E d \in Ds, a \in Ts, b \in Ts : Ask(d, a, b)
        \/ \E d \in Ds, a \in Ts : AskAge(d, N(version, d, a, 0))
        \/ \E d \in Ds, k \in {1, 7} : AskAge(d, k)
        \/ Halve \/ Found
Spec == Init /\ [][Next]_vars /\ WF_vars(Halve \/ Found)

-----------------------------------------------------------------------------
\* The function itself
FallsWithDiameter == \A v \in Vs, d \in Ds, a \in Ts, b \in Ts : d < Diams /\ b <= a => N(v, d + 1, a, b) <= N(v, d, a, b)
RisesWithSpan == \A v \in Vs, d \in Ds, a \in Ts, b \in Ts : b <= a =>
                    /\ a < Tmax => N(v, d, a + 1, b) >= N(v, d, a, b)
                    /\ b > 0 => N(v, d, a, b - 1) >= N(v, d, a, b)
EmptySpan == \A v \in Vs, d \in Ds, a \in Ts : N(v, d, a, a) = 0
Adds == \A v \in Vs, d \in Ds, a \in Ts, b \in Ts, c \in Ts : c <= b /\ b <= a => N(v, d, a, c) = N(v, d, a, b) + N(v, d, b, c)
\* The object that answers
CacheFresh == cache \in {0, Rate(version)}
AnswersBySettings == ans.kind = "number" => ans.val = N(ans.v, ans.d, ans.a, ans.b)
Bracketed == search.on => /\ N(version, search.d, search.hi, 0) >= search.num
                          /\ search.lo > 0 => N(version, search.d, search.lo, 0) < search.num
\* the age found is the first one whose number is reached; exact when one is exact
AgeReproduces == ans.kind = "age" =>
    /\ N(ans.v, ans.d, ans.a, 0) >= ans.num
    /\ ans.a > 0 => N(ans.v, ans.d, ans.a - 1, 0) < ans.num
    /\ (\E a \in Ts : N(ans.v, ans.d, a, 0) = ans.num) => N(ans.v, ans.d, ans.a, 0) = ans.num
SearchEnds == search.on ~> ~search.on

-----------------------------------------------------------------------------
\* Judging recorded answers.  Values are integers scaled by the driver.
Abs(x) == IF x < 0 THEN -x ELSE x
Falling(s) == \A i \in 1 .. Len(s) - 1 : s[i + 1] <= s[i]
Rising(s) == \A i \in 1 .. Len(s) - 1 : s[i + 1] >= s[i]
\* tbl[i][j] : rank (0 is the number zero) of the number at the i-th diameter and j-th time
TableFalls(tbl) == \A j \in 1 .. Len(tbl[1]) : Falling([i \in 1 .. Len(tbl) |-> tbl[i][j]])
TableRises(tbl) == \A i \in 1 .. Len(tbl) : Rising(tbl[i])
ZeroAt(tbl, j) == \A i \in 1 .. Len(tbl) : tbl[i][j] = 0
\* a >= b >= c : numbers relative to 10^8
SpanAdds(v) == Abs(v.ac - v.ab - v.bc) <= 3
SpanGrows(v) == v.ab <= v.ac + 1 /\ v.bc <= v.ac + 1 /\ v.ab >= 0 /\ v.bc >= 0
SpanEmpty(v) == v.aa = 0 /\ v.bb = 0 /\ v.cc = 0
\* forms of one question: relative to 10^9 of the plain answer
FormOk(f) == \A i \in 1 .. Len(f.v) : Abs(f.v[i] - 1000000000) <= 1
\* an inverse answer reproduces the number (1e8 scale) or is within the search's own tolerance
Reproduces(e) == Abs(e.fwd - 100000000) <= 20 \/ e.err <= 100
\* settings
Title(s) == IF s \in {"Moon", "moon", "MOON", "mOON"} THEN "Moon"
            ELSE IF s \in {"Mars", "mars", "MARS"} THEN "Mars"
            ELSE IF s \in {"Projectile", "projectile", "PROJECTILE"} THEN "Projectile" ELSE ""
LegalSet(key, val) == CASE key = "version" -> Title(val) # ""
                        [] key = "slope" -> TRUE
                        [] key = "N1_coef" -> val >= 0
                        [] key = "generator_type" -> val \in {"crater", "projectile", "Crater", "PROJECTILE"}
                        [] OTHER -> FALSE
SetTo(key, val) == CASE key = "version" -> Title(val)
                     [] key = "slope" -> -Abs(val)
                     [] key = "generator_type" -> IF val \in {"crater", "Crater"} THEN "crater" ELSE "projectile"
                     [] OTHER -> val
\* times in units of 0.001 My; a model with a valid range refuses what lies outside
LegalSpan(ranged, lo, hi, a, b) == a >= b /\ (ranged => a <= hi /\ b >= lo)
=============================================================================
