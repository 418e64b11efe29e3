------------------------------ MODULE ContextStack ------------------------------
(* The ambient context (mplang/edsl/context.py). Blocks are entered with a    *)
(* context and left normally or by an exception that is caught by an outer    *)
(* block; operations are applied in between. blocks is what the program text  *)
(* says (the blocks that are open, innermost last); stack is what the         *)
(* implementation keeps.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Ctxs, Interps, Keys, MaxDepth, MaxSteps,
          Bug            \* "none", or the mistake the implementation makes
ASSUME Interps \subseteq Ctxs
VARIABLES blocks, stack, has, got, steps
vars == <<blocks, stack, has, got, steps>>
\* has: which states a context carries; got: the last answer given and the right one
Default == 0
Top(s) == IF s = <<>> THEN Default ELSE s[Len(s)]
RECURSIVE Innermost(_, _)
Innermost(s, S) == IF s = <<>> THEN Default ELSE IF s[Len(s)] \in S THEN s[Len(s)] ELSE Innermost(SubSeq(s, 1, Len(s) - 1), S)
RECURSIVE Oldest(_, _)
Oldest(s, S) == IF s = <<>> THEN Default ELSE IF s[1] \in S THEN s[1] ELSE Oldest(Tail(s), S)
Cut(s, n) == SubSeq(s, 1, n)
\* what leaving the innermost block does to the stack
Pop(s) == IF s = <<>> THEN s
          ELSE IF Bug = "RemoveFirst" THEN LET i == CHOOSE i \in 1 .. Len(s) : s[i] = Top(s) /\ \A j \in 1 .. i - 1 : s[j] # Top(s) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
          ELSE IF Bug = "OncePerContext" /\ Len(s) > 1 /\ s[Len(s) - 1] = Top(s) THEN Cut(s, Len(s) - 2)
          ELSE Cut(s, Len(s) - 1)
RECURSIVE PopN(_, _)
PopN(s, n) == IF n = 0 THEN s ELSE PopN(Pop(s), n - 1)
Step == steps < MaxSteps /\ steps' = steps + 1
Init == blocks = <<>> /\ stack = <<>> /\ has = [c \in Ctxs |-> {}] /\ got = <<0, 0>> /\ steps = 0
Enter(c) == /\ Step /\ Len(blocks) < MaxDepth /\ blocks' = Append(blocks, c)
            /\ stack' = IF Bug = "NoReentry" /\ Top(stack) = c THEN stack ELSE Append(stack, c)
            /\ UNCHANGED <<has, got>>
Leave == /\ Step /\ blocks # <<>> /\ blocks' = Cut(blocks, Len(blocks) - 1) /\ stack' = Pop(stack)
         /\ UNCHANGED <<has, got>>
\* an exception leaves all blocks down to the one that catches it
Throw(n) == /\ Step /\ n < Len(blocks) /\ blocks' = Cut(blocks, n)
            /\ stack' = IF Bug = "LeakOnError" THEN stack ELSE PopN(stack, Len(blocks) - n)
            /\ UNCHANGED <<has, got>>
SetState(c, k) == Step /\ has' = [has EXCEPT ![c] = @ \cup {k}] /\ UNCHANGED <<blocks, stack, got>>
Apply == Step /\ got' = <<Top(stack), Top(blocks)>> /\ UNCHANGED <<blocks, stack, has>>
Search(s, S) == IF Bug = "OldestFirst" THEN Oldest(s, S) ELSE IF Bug = "TopOnly" THEN (IF Top(s) \in S THEN Top(s) ELSE Default) ELSE Innermost(s, S)
Find(k) == LET S == {c \in Ctxs : k \in has[c]} IN Step /\ got' = <<Search(stack, S), Innermost(blocks, S)>> /\ UNCHANGED <<blocks, stack, has>>
FindI == Step /\ got' = <<Search(stack, Interps), Innermost(blocks, Interps)>> /\ UNCHANGED <<blocks, stack, has>>
Next == (\E c \in Ctxs : Enter(c)) \/ Leave \/ (\E n \in 0 .. MaxDepth : Throw(n)) \/ (\E c \in Ctxs, k \in Keys : SetState(c, k)) \/ Apply \/ (\E k \in Keys : Find(k)) \/ FindI
Spec == Init /\ [][Next]_vars
Restored == stack = blocks
Answered == got[1] = got[2]
=============================================================================
