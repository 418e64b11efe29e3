------------------------------- MODULE MC_Store -------------------------------
(* The store over files: an object is written to a temporary file which then  *)
(* takes the place of the old one; several clients; failures and crashes in   *)
(* the middle of writing. st is what the user may rely on.                    *)
EXTENDS Store
CONSTANTS Mem, Disk, Vals, Clients, MaxSteps, Bug
Refs == Mem \cup Disk
Torn == 99
VARIABLES st, mem, file, tmp, pc, cache, ans, up, n
vars == <<st, mem, file, tmp, pc, cache, ans, up, n>>
Idle == [op |-> "idle", r |-> 0, v |-> 0]
Fil(r) == IF Bug = "Alias" THEN CHOOSE d \in Disk : TRUE ELSE r
Init == /\ st = [r \in Refs |-> None] /\ mem = [r \in Mem |-> None] /\ file = [r \in Disk |-> None] /\ tmp = {}
        /\ pc = [c \in Clients |-> Idle] /\ cache = [r \in Disk |-> None] /\ ans = [op |-> "none", got |-> {}, want |-> {}]
        /\ up = TRUE /\ n = 0
Held(r) == IF r \in Mem THEN mem[r]
           ELSE IF Bug = "Cache" /\ cache[r] # None THEN cache[r] ELSE file[Fil(r)]
Free(c) == pc[c].op = "idle" /\ up
\* a new object: in memory, under a reference that is not in use
New(c, r, v) == /\ Free(c) /\ r \in Mem /\ (Bug = "ReuseRef" \/ mem[r] = None)
                /\ ans' = [op |-> "new", got |-> {mem[r]}, want |-> {None}]
                /\ mem' = [mem EXCEPT ![r] = v] /\ st' = Put(st, r, v)
                /\ file' = IF Bug = "Spill" THEN [file EXCEPT ![CHOOSE d \in Disk : TRUE] = v] ELSE file
                /\ UNCHANGED <<tmp, pc, cache, up>>
PutMem(c, r, v) == /\ Free(c) /\ r \in Mem /\ mem' = [mem EXCEPT ![r] = v] /\ st' = Put(st, r, v)
                   /\ UNCHANGED <<file, tmp, pc, cache, ans, up>>
Begin(c, r, v) == /\ Free(c) /\ r \in Disk /\ pc' = [pc EXCEPT ![c] = [op |-> "put", r |-> r, v |-> v]]
                  /\ tmp' = tmp \cup {<<c, r>>}
                  /\ file' = IF Bug = "InPlace" THEN [file EXCEPT ![r] = Torn] ELSE file
                  /\ UNCHANGED <<st, mem, cache, ans, up>>
Commit(c) == /\ pc[c].op = "put" /\ up
             /\ file' = [file EXCEPT ![Fil(pc[c].r)] = pc[c].v] /\ st' = Put(st, pc[c].r, pc[c].v)
             /\ tmp' = tmp \ {<<c, pc[c].r>>} /\ cache' = [cache EXCEPT ![pc[c].r] = pc[c].v]
             /\ pc' = [pc EXCEPT ![c] = Idle] /\ UNCHANGED <<mem, ans, up>>
Fail(c) == /\ pc[c].op = "put" /\ up /\ pc' = [pc EXCEPT ![c] = Idle] /\ tmp' = tmp \ {<<c, pc[c].r>>}
           /\ UNCHANGED <<st, mem, file, cache, ans, up>>
Delete(c, r) == /\ Free(c) /\ st' = Drop(st, r)
                /\ IF r \in Mem THEN mem' = [mem EXCEPT ![r] = None] /\ UNCHANGED file
                   ELSE file' = [file EXCEPT ![Fil(r)] = None] /\ UNCHANGED mem
                /\ UNCHANGED <<tmp, pc, cache, ans, up>>
Get(c, r) == Free(c) /\ ans' = [op |-> "get", got |-> {Held(r)}, want |-> {st[r]}] /\ UNCHANGED <<st, mem, file, tmp, pc, cache, up>>
Exists(c, r) == Free(c) /\ ans' = [op |-> "exists", got |-> {IF Held(r) # None THEN 1 ELSE 0}, want |-> {IF st[r] # None THEN 1 ELSE 0}]
                /\ UNCHANGED <<st, mem, file, tmp, pc, cache, up>>
List(c) == Free(c) /\ ans' = [op |-> "list", want |-> Listed(st, Refs),
                              got |-> {r \in Mem : mem[r] # None} \cup {r \in Disk : file[Fil(r)] # None}
                                      \cup (IF Bug = "ListTemps" THEN {100 + t[2] : t \in tmp} ELSE {})]
           /\ UNCHANGED <<st, mem, file, tmp, pc, cache, up>>
Crash == /\ up /\ up' = FALSE /\ pc' = [c \in Clients |-> Idle] /\ st' = Closed(st, Mem)
         /\ mem' = [r \in Mem |-> None] /\ cache' = (IF Bug = "Cache" THEN cache ELSE [r \in Disk |-> None])
         /\ UNCHANGED <<file, tmp, ans>>
Open == ~up /\ up' = TRUE /\ UNCHANGED <<st, mem, file, tmp, pc, cache, ans>>
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E c \in Clients, r \in Refs, v \in Vals : New(c, r, v) \/ PutMem(c, r, v) \/ Begin(c, r, v)
           \/ \E c \in Clients, r \in Refs : Delete(c, r) \/ Get(c, r) \/ Exists(c, r)
           \/ \E c \in Clients : Commit(c) \/ Fail(c) \/ List(c)
           \/ Crash \/ Open
Spec == Init /\ [][Next]_vars
Answered == ans.got = ans.want
\* at any moment, reopening would show exactly what the user may rely on
Durable == \A r \in Disk : (Bug # "none" \/ file[r] = st[r])
=============================================================================
