------------------------------ MODULE MCProtocol ------------------------------
(* Parameter sets for Protocol, chosen by PSET and FOCUS.                   *)
EXTENDS Integers, Sequences, IOUtils, TLC
PSet == IOEnv.PSET
Row == CASE PSet = "P" -> <<7, <<<<5, 1>>, <<13, 1>>>>, <<<<7, 1>>>>, 1, 3, 1, 1>>
         [] PSet = "Q" -> <<8, <<<<5, 2>>>>, <<<<31, 1>>>>, 3, 1, 1, 1>>
         [] PSet = "R" -> <<11, <<<<3, 3>>>>, <<<<29, 1>>>>, 7, 5, 1, 1>>
         [] PSet = "S" -> <<7, <<<<7, 1>>>>, <<<<5, 1>>, <<13, 1>>>>, 1, 1, 3, 1>>
N2 == Row[1]
D1f == Row[2]
D2f == Row[3]
A1 == Row[4]
A2 == Row[5]
M1 == Row[6]
M2 == Row[7]
Focus == CASE IOEnv.FOCUS = "d1" -> {"d1"} [] IOEnv.FOCUS = "d2" -> {"d2"} [] IOEnv.FOCUS = "mask" -> {"mask", "sign"}
           [] IOEnv.FOCUS = "key" -> {"key", "sign"} [] IOEnv.FOCUS = "sign" -> {"sign"}
VARIABLES pc, sk, msg, ct, ch, out
INSTANCE Protocol
=============================================================================
