---------------------------- MODULE DocumentsTV ----------------------------
EXTENDS Documents, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Ev == Runs[r].ev
e == Ev[l]
Is(k) == l <= Len(Ev) /\ e.e = k
Step == l' = l + 1 /\ r' = r
TVInit == r \in DOMAIN Runs /\ l = 1
\* Read from text and written again.
DoRead == /\ Is("read") /\ Step
          /\ LET S == Root(e.t) IN
             IF Reads(S, e.doc) THEN e.ok = 1 /\ Alike(e.out, Canon(S, e.doc)) ELSE e.ok = 0
\* What the system writes of its own is complete.
DoWrote == Is("wrote") /\ Reads(Root(e.t), e.doc) /\ Alike(e.doc, Canon(Root(e.t), e.doc)) /\ Step
Finished == l > Len(Ev) /\ UNCHANGED <<r, l>>
TVNext == DoRead \/ DoWrote \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<r, l>>
=============================================================================
