-------------------------------- MODULE Why ---------------------------------
(* Names the parts of a relational Match, so that a rejection says which part failed. *)
LOCAL INSTANCE TLC
Why(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name>>) /\ FALSE
=============================================================================
