------------------------------- MODULE MCBase --------------------------------
(* Common part of the exhaustive configurations.  `op` records the call that *)
(* led to a state (name and arguments, exactly the words of a driver script) *)
(* and is hidden from the state by the VIEW of each configuration; Edge      *)
(* prints every explored transition so that check.py can build call          *)
(* sequences that take each of them in the real code.                        *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

VARIABLE op

Edge(s, t) == PrintT(<<"EDGE", ToJson(<<s, op', t>>)>>)
==============================================================================
