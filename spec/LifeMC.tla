------------------------------ MODULE LifeMC --------------------------------
EXTENDS Life
(* Two that share and one alone ...                                          *)
G == [m \in Members |-> IF m <= 2 THEN "g" ELSE "h"]
(* ... two alone, and then two that share.                                   *)
H == [m \in Members |-> IF m = 1 THEN "f" ELSE IF m = 2 THEN "h" ELSE "g"]
=============================================================================
