------------------------------ MODULE BufferTV ------------------------------
(* cfg: [ivms, on, biv] -- input interval in ms, whether a larger bucket is   *)
(* used, and the bucket interval (Calendar).                                  *)
EXTENDS Buffer, Json, IOUtils
Cal == INSTANCE Calendar
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, l
Cfg == Runs[r].cfg
Ev == Runs[r].ev
e == Ev[l]
Is(k) == l <= Len(Ev) /\ e.e = k
TVInit == r \in DOMAIN Runs /\ l = 1 /\ Init
Bucket == Cal!Floor(e.t, Cfg.biv)
Last == Cal!IsBoundary(Cal!Plus(e.t, Cfg.ivms), Cfg.biv)
Keep == l' = l + 1 /\ r' = r
Emits(x) == IF ~x.on THEN e.emit = 0
            ELSE e.emit = 1 /\ e.out.t = x.b /\ e.out.o = x.o /\ e.out.h = x.h /\ e.out.l = x.l
                 /\ e.out.c = x.c /\ e.out.v = x.v
DoBegin == Is("c") /\ Cfg.on = 1 /\ Begin(Bucket, e.x, Last) /\ Emits(out') /\ Keep
DoContinue == Is("c") /\ Cfg.on = 1 /\ Continue(Bucket, e.x, Last) /\ Emits(out') /\ Keep
DoOvertake == Is("c") /\ Cfg.on = 1 /\ Overtake(Bucket, e.x, Last) /\ Emits(out') /\ Keep
DoRefuse == Is("refused") /\ Cfg.on = 1 /\ Refused(Bucket, Last) /\ l = Len(Ev) /\ Keep /\ UNCHANGED <<cur, out>>
DoPass == Is("c") /\ Cfg.on = 0 /\ cur' = Empty /\ out' = Fresh(e.t, e.x) /\ Emits(out') /\ Keep
Finished == l > Len(Ev) /\ UNCHANGED <<cur, out, r, l>>
TVNext == DoBegin \/ DoContinue \/ DoOvertake \/ DoRefuse \/ DoPass \/ Finished
TVSpec == TVInit /\ [][TVNext]_<<cur, out, r, l>>
=============================================================================
