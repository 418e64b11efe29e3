---------------------------- MODULE MC_TensorOps ------------------------------
(* Laws of the operation meanings over every shape up to rank 3, sizes Dims. *)
EXTENDS TensorOps
CONSTANTS Dims
VARIABLES t, perm, done
Shapes == UNION {[1 .. r -> Dims] : r \in 1 .. 3}
Perms(n) == {p \in [1 .. n -> 0 .. n - 1] : {p[i] : i \in 1 .. n} = 0 .. n - 1}
Init == /\ done = FALSE
        /\ \E s \in Shapes : t = [s |-> s, d |-> [k \in 1 .. Prod(s) |-> k * k + 3]] /\ perm \in Perms(Len(s))
Next == ~done /\ done' = TRUE /\ UNCHANGED <<t, perm>>
Spec == Init /\ [][Next]_<<t, perm, done>>
Inv(p) == [i \in 1 .. Len(p) |-> (CHOOSE j \in 1 .. Len(p) : p[j] = i - 1) - 1]
N == Len(t.s)
Laws == /\ Transpose(Transpose(t, perm), Inv(perm)) = t
        /\ Reshape(Reshape(t, <<-1>>), t.s) = t
        /\ \A ax \in 0 .. N - 1 :
             /\ LET all == [s |-> <<t.s[ax + 1]>>, d |-> [k \in 1 .. t.s[ax + 1] |-> k - 1]] IN Gather(t, all, ax) = t
             /\ \A c \in 0 .. t.s[ax + 1] :
                  LET zero == [i \in 1 .. N |-> 0]
                      ones == [i \in 1 .. N |-> 1]
                      a == Slice(t, zero, [t.s EXCEPT ![ax + 1] = c], ones)
                      b == Slice(t, [zero EXCEPT ![ax + 1] = c], t.s, ones)
                  IN Concat(<<a, b>>, ax) = t
        /\ \A k \in 0 .. Prod(t.s) - 1 : Ravel(t.s, Unravel(t.s, k)) = k
=============================================================================
