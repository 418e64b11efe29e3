------------------------------ MODULE Transport ------------------------------
(* Messages over HTTP: the key travels in the path of the request, the value  *)
(* and the sender in its body and headers; the server rebuilds all three or   *)
(* refuses the request.                                                       *)
(* Keys are sequences of characters.  "/" "." "%" are special in a path; the  *)
(* letters S D P stand for their codes after "%".  A path is normalised on    *)
(* its way: "." and ".." segments disappear.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Chars, MaxLen, MaxSteps, EscapeDot, EscapePercent, CheckFirst
VARIABLES box, want, last, n
vars == <<box, want, last, n>>
Strings(m) == UNION {[1 .. k -> Chars] : k \in 0 .. m}
Keys == Strings(MaxLen)
Values == {"v", "w"}
Code(c) == CASE c = "/" -> "S" [] c = "." -> "D" [] c = "%" -> "P"
IsSpecial(c) == c = "/" \/ (c = "." /\ EscapeDot) \/ (c = "%" /\ EscapePercent)
RECURSIVE Esc(_), Unesc(_), Segs(_, _), Norm(_, _), Join(_)
Esc(k) == IF k = <<>> THEN <<>> ELSE (IF IsSpecial(k[1]) THEN <<"%", Code(k[1])>> ELSE <<k[1]>>) \o Esc(Tail(k))
Unesc(p) == IF p = <<>> THEN <<>>
            ELSE IF p[1] = "%" /\ Len(p) > 1 /\ p[2] \in {"S", "D", "P"}
                 THEN <<CASE p[2] = "S" -> "/" [] p[2] = "D" -> "." [] p[2] = "P" -> "%">> \o Unesc(SubSeq(p, 3, Len(p)))
                 ELSE <<p[1]>> \o Unesc(Tail(p))
\* split at "/", drop "." and apply ".." segments, join
Segs(p, cur) == IF p = <<>> THEN <<cur>> ELSE IF p[1] = "/" THEN <<cur>> \o Segs(Tail(p), <<>>) ELSE Segs(Tail(p), Append(cur, p[1]))
Norm(ss, out) == IF ss = <<>> THEN out
                 ELSE LET s == ss[1] IN
                      IF s = <<".">> THEN Norm(Tail(ss), IF Len(ss) = 1 THEN Append(out, <<>>) ELSE out)
                      ELSE IF s = <<".", ".">> THEN Norm(Tail(ss), IF out = <<>> THEN out ELSE SubSeq(out, 1, Len(out) - 1))
                      ELSE Norm(Tail(ss), Append(out, s))
Join(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<"/">> \o Join(Tail(ss))
Prefix == <<"c">>   \* the route
Path(k) == Norm(<<Prefix>> \o Segs(Esc(k), <<>>), <<>>)
\* where the server files the message: the key, or nowhere
Routed(k) == LET p == Path(k) IN IF p = <<>> \/ p[1] # Prefix \/ Len(p) < 2 THEN <<"nowhere">> ELSE Unesc(Join(Tail(p)))
\* ------------------------------------------------------------- behaviour
None == "none"
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE None
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Init == box = <<>> /\ want = <<>> /\ last = <<"init">> /\ n = 0
\* a correct delivery is refused only if the message before it under this key was not taken yet
Good(k, v) == LET r == Routed(k) IN
  IF r # <<"nowhere">> /\ Get(box, r) = None
  THEN box' = Set(box, r, v) /\ want' = Set(want, k, v) /\ last' = <<"good", k, TRUE>>
  ELSE UNCHANGED <<box, want>> /\ last' = <<"good", k, FALSE>>
\* a malformed one: a worker that files first and checks later leaves something behind
Malformed(k) == LET r == Routed(k) IN
  /\ box' = IF ~CheckFirst /\ r # <<"nowhere">> /\ Get(box, r) = None THEN Set(box, r, "junk") ELSE box
  /\ UNCHANGED want /\ last' = <<"malformed", k, FALSE>>
Recv(k) == /\ Get(box, k) # None /\ last' = <<"recv", k, Get(box, k) = Get(want, k)>>
           /\ box' = Drop(box, k) /\ want' = Drop(want, k)
Next == n < MaxSteps /\ n' = n + 1 /\ \E k \in Keys : (\E v \in Values : Good(k, v)) \/ Malformed(k) \/ Recv(k)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- properties
KeysFaithful == \A k \in Keys : Routed(k) = k
Faithful == box = want
Accepted == [][last'[1] = "good" => (last'[3] = (Get(want, last'[2]) = None))]_vars
=============================================================================
