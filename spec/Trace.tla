-------------------------------- MODULE Trace ---------------------------------
(* Checks recorded histories of the real library against the specification.     *)
(* The observed state is adopted after every event, so one rejected step does    *)
(* not hide later ones.                                                          *)
EXTENDS Steps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, ei, docs

Init == ti \in DOMAIN Traces /\ ei = 0 /\ docs = EmptyF
Next ==
  /\ ei < Len(Traces[ti].ev)
  /\ LET ev == Traces[ti].ev[ei + 1]
         f  == Failures(docs, ev)
     IN /\ IF f = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([t |-> ti, e |-> ei + 1, f |-> f]))
        /\ docs' = Adopt(docs, ev)
  /\ ei' = ei + 1
  /\ ti' = ti
vars == <<ti, ei, docs>>
TView == <<ti, ei>>
Spec == Init /\ [][Next]_vars
===============================================================================
