-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* The bookkeeping of a two-dimensional chain of n steps driven by a        *)
(* strategy (product_isogeny), as a transition system of its own.           *)
(*                                                                          *)
(* A pair of kernel points is represented by the exponent of its order:     *)
(* the generators have order 2^(n+2).  Doubling a pair lowers its exponent  *)
(* by one; a step of the chain needs a pair of order 8 (exponent 3) and     *)
(* lowers the exponent of every pair it carries along by one.               *)
(*                                                                          *)
(* Checked for every strategy of chains up to MaxN steps and for the one    *)
(* stored in the specification's parameters: the bookkeeping never reads    *)
(* past the strategy, every step gets points of order 8, nothing is left    *)
(* over at the end, and the number of pairs carried is logarithmic for      *)
(* balanced strategies (at most n in general).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN

\* strategies of n steps: double b times, solve the n-b steps above, then b
RECURSIVE Strategies(_)
Strategies(n) == IF n = 1 THEN { <<>> }
                 ELSE UNION { { <<b>> \o x \o y : x \in Strategies(n - b), y \in Strategies(b) } : b \in 1..(n - 1) }

VARIABLES n, strat, k, idx, level, pairs, cur
vars == <<n, strat, k, idx, level, pairs, cur>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

\* level: doublings done at each depth; pairs: exponents of the pairs that are
\* kept; cur: exponent of the pair being doubled; k: steps of the chain done
Init == /\ n \in 3..MaxN
        /\ strat \in Strategies(n)
        /\ k = 0 /\ idx = 0
        /\ level = <<0>>
        /\ pairs = << n + 2 >>
        /\ cur = n + 2

Deep == Sum(level) = n - 1 - k
\* double as the strategy says and keep the result
Push == /\ k < n /\ ~Deep
        /\ idx' = idx + 1
        /\ level' = Append(level, strat[idx + 1])
        /\ cur' = cur - strat[idx + 1]
        /\ pairs' = Append(pairs, cur')
        /\ UNCHANGED <<n, strat, k>>
\* one step: its kernel is the last pair kept; all others go through it
Step == /\ k < n /\ Deep
        /\ k' = k + 1
        /\ level' = SubSeq(level, 1, Len(level) - 1)
        /\ pairs' = [i \in 1..(Len(pairs) - 1) |-> pairs[i] - 1]
        /\ cur' = IF Len(pairs) = 1 THEN 0 ELSE pairs'[Len(pairs) - 1]
        /\ UNCHANGED <<n, strat, idx>>
Next == Push \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ idx \in 0..(n - 1) /\ k \in 0..n /\ Len(level) = Len(pairs)
NoOverrun == (k < n /\ ~Deep) => idx < Len(strat)
NoOvershoot == Sum(level) <= (IF k < n THEN n - 1 - k ELSE 0)
\* the pair a step uses has order exactly 8, and so do no others below it
StepOrder == (k < n /\ Deep) => cur = 3 /\ pairs[Len(pairs)] = 3
Orders == \A i \in 1..Len(pairs) : pairs[i] = n + 2 - k - Sum(SubSeq(level, 1, i))
Descending == \A i \in 1..(Len(pairs) - 1) : pairs[i] > pairs[i + 1]
AtEnd == k = n => idx = n - 1 /\ pairs = <<>>
Finishes == <>(k = n)
=============================================================================
