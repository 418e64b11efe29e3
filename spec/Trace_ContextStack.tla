---------------------------- MODULE Trace_ContextStack ----------------------------
(* Recorded histories of real contexts. c: a context (0: none, or the default *)
(* one), k: a state or a kind of context, u: operations, b: a flag.           *)
(*   enter c k b   a block with context c of kind k (t: tracer, i:            *)
(*                 interpreter) was entered; b: one nobody knew before        *)
(*   leave c       it was left, normally or by an exception                   *)
(*   cur c         the current context, as the library tells it               *)
(*   apply c u     operation u was recorded or executed by c                  *)
(*   ran c u       c executed the operations recorded by the block just left  *)
(*   hide c        the operations of the block just left were withdrawn       *)
(*   find c k / findi c / tracing b / ambient b / set c k / root c b / popped c *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, stack, has, kind, rec
tv == <<tid, l, stack, has, kind, rec>>
T == Traces[tid]
Init == /\ tid \in 1 .. Len(Traces) /\ l = 1 /\ stack = <<>>
        /\ kind = [c \in 1 .. T.ctxs |-> "new"] /\ has = [c \in 1 .. T.ctxs |-> {}] /\ rec = [c \in 1 .. T.ctxs |-> {}]
E == T.ev[l]
Top == IF stack = <<>> THEN 0 ELSE stack[Len(stack)]
\* with no block open, operations go to the default context
Where == IF Top = 0 THEN T.default ELSE Top
RECURSIVE Innermost(_, _)
Innermost(s, S) == IF s = <<>> THEN 0 ELSE IF s[Len(s)] \in S THEN s[Len(s)] ELSE Innermost(SubSeq(s, 1, Len(s) - 1), S)
Uids == {E.u[i] : i \in 1 .. Len(E.u)}
Step ==
  /\ l <= Len(T.ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE E.e = "enter" -> /\ E.c # 0 /\ (E.b => kind[E.c] = "new")
                           /\ stack' = Append(stack, E.c) /\ kind' = [kind EXCEPT ![E.c] = E.k] /\ UNCHANGED <<has, rec>>
       [] E.e = "leave" -> /\ Top = E.c /\ Top # 0 /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<has, kind, rec>>
       [] E.e = "popped" -> /\ E.c = Top /\ stack' = (IF Top = 0 THEN stack ELSE SubSeq(stack, 1, Len(stack) - 1)) /\ UNCHANGED <<has, kind, rec>>
       [] E.e = "cur" -> E.c = Top /\ UNCHANGED <<stack, has, kind, rec>>
       [] E.e = "apply" -> /\ E.c = Where /\ rec' = [rec EXCEPT ![E.c] = @ \cup Uids] /\ UNCHANGED <<stack, has, kind>>
       [] E.e = "ran" -> /\ E.c = Where /\ Uids = rec[E.f] /\ UNCHANGED <<stack, has, kind, rec>>
       [] E.e = "find" -> /\ E.c = Innermost(stack, {c \in 1 .. T.ctxs : E.k \in has[c]}) /\ UNCHANGED <<stack, has, kind, rec>>
       [] E.e = "findi" -> /\ E.c = Innermost(stack, {c \in 1 .. T.ctxs : kind[c] = "i"}) /\ UNCHANGED <<stack, has, kind, rec>>
       [] E.e = "tracing" -> /\ E.b = (Top # 0 /\ kind[IF Top = 0 THEN 1 ELSE Top] = "t") /\ UNCHANGED <<stack, has, kind, rec>>
       [] E.e = "ambient" -> /\ E.b = (Top # 0 /\ kind[IF Top = 0 THEN 1 ELSE Top] = "i") /\ UNCHANGED <<stack, has, kind, rec>>
       [] E.e = "set" -> /\ has' = [has EXCEPT ![E.c] = @ \cup {E.k}] /\ UNCHANGED <<stack, kind, rec>>
       \* b: forced; f: 1 if it was refused
       [] E.e = "root" -> IF E.b THEN E.f = 0 /\ stack' = <<E.c>> /\ kind' = [kind EXCEPT ![E.c] = E.k] /\ UNCHANGED <<has, rec>>
                          ELSE IF stack # <<>> THEN E.f = 1 /\ UNCHANGED <<stack, has, kind, rec>>
                          ELSE E.f = 0 /\ stack' = <<E.c>> /\ kind' = [kind EXCEPT ![E.c] = E.k] /\ UNCHANGED <<has, rec>>
Next == Step
TraceSpec == Init /\ [][Next]_tv
Accept == /\ (l = Len(T.ev) + 1) => PrintT("@" \o ToJson([acc |-> tid]))
          /\ (IOEnv.TRACE_DIAG = "1") => PrintT("@" \o ToJson([at |-> l]))
=============================================================================
