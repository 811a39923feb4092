------------------------------- MODULE THarvest -------------------------------
(* Trace specification: every recorded run must be a behaviour of Harvest. *)
EXTENDS Harvest, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Init == tr \in 1..Len(Traces) /\ i = 0 /\ s = Init0(Traces[tr].cfg)
Next == /\ i < Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[i + 1]
               b == Guard(s, e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT(<<"BAD", tr, i + 1, b>>)
              /\ s' = Upd(s, e)
        /\ i' = i + 1 /\ tr' = tr
View == <<tr, i>>
Spec == Init /\ [][Next]_vars
=============================================================================
