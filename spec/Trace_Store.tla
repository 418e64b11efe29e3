------------------------------ MODULE Trace_Store ------------------------------
(* Recorded histories of real stores (one per host) with several callers.     *)
(*   T.kind[r]  "mem" or "fs";  T.host[r];  T.bad[r]: not usable as a key     *)
(*   T.under    pairs <<a, b>>: b lies beneath a                              *)
(* Events: call t op r v h (op: put, new, get, del, exists, list, twrite,     *)
(*   tread; v: 0, a value, or -1: one that cannot be stored; f: something     *)
(*   failed underneath), ret t s v rs (s: "ok", "missing", "refused",         *)
(*   "error"), close h (calls that are open then may or may not have had      *)
(*   their effect).                                                           *)
EXTENDS Store, Integers, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, used, open
tv == <<tid, l, st, used, open>>
T == Traces[tid]
E == T.ev[l]
Refs == 1 .. Len(T.kind)
Of(h) == {r \in Refs : T.host[r] = h}
MemOf(h) == {r \in Of(h) : T.kind[r] = "mem"}
Init == tid \in 1 .. Len(Traces) /\ l = 1 /\ st = [r \in Refs |-> None] /\ used = {} /\ open = {}
Adv == l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tid
\* someone stored, at some time, a key above or beneath this one
Crowded(r) == \E p \in 1 .. Len(T.under) : \E q \in used \cup {y.r : y \in open} : T.under[p] = <<r, q>> \/ T.under[p] = <<q, r>>
Call == /\ Adv /\ E.e = "call"
        /\ open' = open \cup {[t |-> E.t, op |-> E.op, r |-> E.r, v |-> E.v, h |-> E.h, f |-> E.f, done |-> E.op = "list", s |-> "ok", got |-> 0, lo |-> Listed(st, Of(E.h)), hi |-> Listed(st, Of(E.h))]}
        /\ UNCHANGED <<st, used>>
\* a listing that is made while others are at work shows at least what is there
\* all the time and at most what is there at some time
See(x) == IF x.op = "list" THEN [x EXCEPT !.lo = @ \cap Listed(st', Of(x.h)), !.hi = @ \cup Listed(st', Of(x.h))] ELSE x
Answer(x, s, got) == open' = {See(y) : y \in open \ {x}} \cup {[x EXCEPT !.done = TRUE, !.s = s, !.got = got]}
Store1(x) == st' = Put(st, x.r, x.v) /\ used' = used \cup {x.r}
\* what is refused may still leave directories behind
Refuse(x) == UNCHANGED st /\ used' = used \cup {x.r} /\ Answer(x, "refused", 0)
Take ==
  /\ UNCHANGED <<tid, l>>
  /\ \E x \in open :
       /\ ~x.done
       /\ CASE x.op = "put" -> \/ x.v > 0 /\ Store1(x) /\ Answer(x, "ok", x.r)
                               \/ (x.v < 0 \/ x.f \/ T.bad[x.r] \/ Crowded(x.r)) /\ Refuse(x)
            [] x.op = "twrite" -> \/ st[x.r] \in {None, x.v} /\ Store1(x) /\ Answer(x, "ok", x.r)
                                  \/ (st[x.r] \notin {None, x.v} \/ Crowded(x.r) \/ x.f) /\ Refuse(x)
            [] x.op = "new" -> \E r \in MemOf(x.h) : st[r] = None /\ st' = Put(st, r, x.v) /\ used' = used \cup {r} /\ Answer(x, "ok", r)
            [] x.op \in {"get", "tread"} -> /\ UNCHANGED <<st, used>>
                               /\ \/ st[x.r] # None /\ Answer(x, "ok", st[x.r])
                                  \/ st[x.r] = None /\ Answer(x, "missing", 0)
                                  \/ T.bad[x.r] /\ Answer(x, "refused", 0)
                                  \* a directory of other tables
                                  \/ x.op = "tread" /\ st[x.r] = None /\ Crowded(x.r) /\ Answer(x, "refused", 0)
                                  \/ x.op = "tread" /\ st[x.r] = None /\ \E q \in used : (\E p \in 1 .. Len(T.under) : T.under[p] = <<x.r, q>>) /\ st[q] # None /\ Answer(x, "ok", st[q])
            [] x.op = "del" -> \/ st' = Drop(st, x.r) /\ UNCHANGED used /\ Answer(x, "ok", 0)
                               \/ (st[x.r] = None /\ UNCHANGED <<st, used>> /\ Answer(x, "missing", 0))
                               \/ (T.bad[x.r] /\ Refuse(x))
            [] x.op = "exists" -> /\ UNCHANGED <<st, used>>
                                  /\ \/ Answer(x, "ok", IF st[x.r] # None THEN 1 ELSE 0)
                                     \/ T.bad[x.r] /\ Answer(x, "refused", 0)
Ret == /\ Adv /\ E.e = "ret"
       /\ \E x \in open : /\ x.t = E.t /\ x.done /\ x.s = E.s /\ x.got = E.v
                          /\ x.op = "list" => LET rs == {E.rs[i] : i \in 1 .. Len(E.rs)} IN x.lo \subseteq rs /\ rs \subseteq x.hi
                          /\ open' = open \ {x}
       /\ UNCHANGED <<st, used>>
\* several parties were to read together: one of them has nothing to read
GaveUp == /\ Adv /\ E.e = "gave up" /\ (\E i \in 1 .. Len(E.rs) : st[E.rs[i]] = None)
          /\ open' = {} /\ UNCHANGED <<st, used>>
Close == /\ Adv /\ E.e = "close" /\ st' = Closed(st, MemOf(E.h)) /\ open' = {x \in open : x.h # E.h} /\ UNCHANGED used
Next == Call \/ Take \/ Ret \/ GaveUp \/ Close
TraceSpec == Init /\ [][Next]_tv
Accept == /\ (l = Len(T.ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
