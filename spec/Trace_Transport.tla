---------------------------- MODULE Trace_Transport ----------------------------
(* Recorded deliveries to the mailboxes of real workers over HTTP.            *)
(* A slot s stands for receiver, sender and key; values are classes of equal  *)
(* values.                                                                    *)
(* Events:                                                                    *)
(*   good s v ok   a correct delivery of v, answered without an error or not  *)
(*   bad s ok      a malformed delivery, or one whose sending must fail       *)
(*   recv s v      what the receiver took (0: nothing came)                   *)
(*   start s v / end s ok   a correct delivery sent in the background         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, box, air
tv == <<tid, l, box, air>>
T == Traces[tid]
\* air: background deliveries [s, v, st]: not yet effective (0), filed (1), refused (2)
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ box = [s \in 1 .. T.slots |-> 0] /\ air = {}
E == T.ev[l]
Adv == l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tid
Good == /\ Adv /\ E.e = "good" /\ UNCHANGED air
        /\ IF box[E.s] = 0 THEN E.ok /\ box' = [box EXCEPT ![E.s] = E.v] ELSE ~E.ok /\ UNCHANGED box
Bad == Adv /\ E.e = "bad" /\ ~E.ok /\ UNCHANGED <<box, air>>
Recv == /\ Adv /\ E.e = "recv" /\ UNCHANGED air
        /\ E.v = box[E.s] /\ box' = [box EXCEPT ![E.s] = 0]
Start == Adv /\ E.e = "start" /\ air' = air \cup {[s |-> E.s, v |-> E.v, st |-> 0]} /\ UNCHANGED box
File == /\ \E a \in air : /\ a.st = 0
                          /\ IF box[a.s] = 0 THEN box' = [box EXCEPT ![a.s] = a.v] /\ air' = (air \ {a}) \cup {[a EXCEPT !.st = 1]}
                             ELSE air' = (air \ {a}) \cup {[a EXCEPT !.st = 2]} /\ UNCHANGED box
        /\ UNCHANGED <<tid, l>>
End == /\ Adv /\ E.e = "end" /\ UNCHANGED box
       /\ \E a \in air : a.s = E.s /\ a.v = E.v /\ a.st = (IF E.ok THEN 1 ELSE 2) /\ air' = air \ {a}
Next == Good \/ Bad \/ Recv \/ Start \/ File \/ End
TraceSpec == Init /\ [][Next]_tv
Accept == /\ (l = Len(T.ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
