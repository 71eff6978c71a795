------------------------------ MODULE Product ------------------------------
(***************************************************************************)
(* Lockstep on cases recorded from the library.                             *)
(***************************************************************************)
EXTENDS TimedAutomata, Json, IOUtils

Recorded == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, q, r, act

INSTANCE Lockstep WITH Cases <- Recorded
=============================================================================
