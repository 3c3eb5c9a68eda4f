------------------------------ MODULE GenBase -------------------------------
(* Writing groups of cases: a group is <<event, event, ...>>.              *)
EXTENDS Pool, Json
\* TLC keeps a function as an expression and evaluates it at every application;
\* a concatenation is a tuple of values
Force(s) == <<>> \o s
Ev(op, a) == [op |-> op, a |-> a]
\* split a sequence of independent events into groups of size n
Chunks(evs, n) == [k \in 1..((Len(evs) + n - 1) \div n) |->
                     SubSeq(evs, (k - 1) * n + 1, IF k * n < Len(evs) THEN k * n ELSE Len(evs))]
Concat(seqs) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, seqs)
WriteGroups(groups) ==
  ndJsonSerialize(IOEnv.CASES, [k \in 1..Len(groups) |-> [g |-> k, ev |-> groups[k]]])
\* byte strings as hex text, little-endian
HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
ByteStr(v) == HexDigits[1 + (v \div 16)] \o HexDigits[1 + (v % 16)]
LEBytes(v, n) == FoldLeft(LAMBDA acc, j : acc \o ByteStr(BToInt(BMod(BShr(v, 8 * (j - 1)), BNat(256)))), "",
                          [j \in 1..n |-> j])
Tier == EnvOr("VERIF_TIER", "quick")
=============================================================================
