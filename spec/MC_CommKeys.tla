---------------------------- MODULE MC_CommKeys -----------------------------
(***************************************************************************)
(* The key derivation of the implementation (CommContext.spawn, sequence   *)
(* numbers per peer) executed by two parties that run the same program of  *)
(* operations, each in an order of its own.  Operation i of the outer      *)
(* graph exchanges Msgs(i) messages and, if Nested(i), evaluates the same  *)
(* inner graph twice on its own context.  EarlySpawn: the contexts of all  *)
(* operations are created when a graph starts (in program order) rather    *)
(* than when the operation starts.  The naming is checked for all orders.  *)
(***************************************************************************)
EXTENDS CommKeys
CONSTANTS EarlySpawn, N, M, UseCounter
P == {1, 2}
Peer(p) == 3 - p
\* contexts are named by ids: sequences of (counter, suffix)
VARIABLES stk,   \* [party |-> sequence of frames]
          ctx    \* [party |-> [id |-> [sp |-> spawn counter]]]
vars == <<kvars, stk, ctx>>
Nested(i) == i = 1
Root == <<"job">>
Zero == [sp |-> 0]
Get0(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Zero
ChildId(p, id, suffix) == Append(id, IF UseCounter THEN <<Get0(ctx[p], id).sp, suffix>> ELSE <<0, suffix>>)
Bump(f, x) == Put(f, x, [Get0(f, x) EXCEPT !.sp = @ + 1])
\* frame: graph name, path (logical), its context id, contexts of its ops, ops to do, op in progress
RECURSIVE SpawnAll(_, _, _, _)
SpawnAll(f, id, g, n) == \* spawn counters after spawning children 1..n
  IF n = 0 THEN f ELSE SpawnAll(Bump(f, id), id, g, n - 1)
Size(g) == IF g = "outer" THEN N ELSE M
Frame(p, f, g, path, id) ==
  [g |-> g, path |-> path, id |-> id, todo |-> 1 .. Size(g), cur |-> 0, iter |-> 0, sent |-> 0,
   kids |-> [i \in 1 .. Size(g) |-> IF EarlySpawn THEN Append(id, IF UseCounter THEN <<Get0(f, id).sp + i - 1, <<g, i>>>> ELSE <<0, <<g, i>>>>) ELSE <<>>]]
Init == /\ cnt = [p \in P |-> <<>>] /\ log = {}
        /\ ctx = [p \in P |-> IF EarlySpawn THEN SpawnAll(<<>>, Root, "outer", N) ELSE <<>>]
        /\ stk = [p \in P |-> <<Frame(p, <<>>, "outer", <<>>, Root)>>]
Top(p) == stk[p][Len(stk[p])]
SetTop(p, fr) == [stk EXCEPT ![p][Len(stk[p])] = fr]
Begin(p) == \E i \in Top(p).todo :
  /\ Top(p).cur = 0
  /\ LET fr == Top(p)
         id == IF EarlySpawn THEN fr.kids[i] ELSE ChildId(p, fr.id, <<fr.g, i>>)
     IN /\ stk' = SetTop(p, [fr EXCEPT !.cur = i, !.todo = @ \ {i}, !.iter = 0, !.sent = 0, !.kids[i] = id])
        /\ ctx' = IF EarlySpawn THEN ctx ELSE [ctx EXCEPT ![p] = Bump(@, fr.id)]
        /\ UNCHANGED kvars
\* every operation exchanges two messages with the peer
Msg(p) == LET fr == Top(p) IN
  /\ fr.cur # 0 /\ fr.sent < 2
  /\ LET id == fr.kids[fr.cur]
         path == Append(fr.path, fr.cur)
         dir == IF (p = 1) = (fr.sent = 0) THEN "send" ELSE "recv"
         pl == Place(p, path, Peer(p))
         key == <<id, fr.sent>>  \* a fresh context counts from 0
     IN /\ log' = log \cup {[pl |-> pl, from |-> Sender(p, Peer(p), dir), to |-> Receiver(p, Peer(p), dir), key |-> key]}
        /\ cnt' = [cnt EXCEPT ![p] = Put(@, <<path, Peer(p)>>, pl.n + 1)]
        /\ UNCHANGED ctx
        /\ stk' = SetTop(p, [fr EXCEPT !.sent = @ + 1])
Enter(p) == LET fr == Top(p) IN
  /\ fr.cur # 0 /\ fr.sent = 2 /\ fr.g = "outer" /\ Nested(fr.cur) /\ fr.iter < 2
  /\ LET id == fr.kids[fr.cur]
         nf == Frame(p, ctx[p], "inner", Append(Append(fr.path, fr.cur), 100 + fr.iter), id)
     IN /\ stk' = [stk EXCEPT ![p] = Append(SetTop(p, [fr EXCEPT !.iter = @ + 1])[p], nf)]
        /\ ctx' = IF EarlySpawn THEN [ctx EXCEPT ![p] = SpawnAll(@, id, "inner", M)] ELSE ctx
        /\ UNCHANGED kvars
Leave(p) == LET fr == Top(p) IN
  /\ \/ /\ fr.cur # 0 /\ fr.sent = 2 /\ (fr.g = "inner" \/ ~Nested(fr.cur) \/ fr.iter = 2)
        /\ stk' = SetTop(p, [fr EXCEPT !.cur = 0])
     \/ /\ fr.cur = 0 /\ fr.todo = {} /\ Len(stk[p]) > 1
        /\ stk' = [stk EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<kvars, ctx>>
Next == \E p \in P : Begin(p) \/ Msg(p) \/ Enter(p) \/ Leave(p)
Spec == Init /\ [][Next]_vars
=============================================================================
