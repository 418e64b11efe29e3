--------------------------------- MODULE Serde ---------------------------------
(* How values are written and read back (mplang/edsl/serde.py).               *)
(*                                                                            *)
(* A term is a value: its kind k, an atom a (the scalar, the class of a       *)
(* registered value, the shape of an object array) and its parts.             *)
(*   null bool int str                     leaves of the text                 *)
(*   bytes                                 leaves that are moved to segments  *)
(*   list tuple dict pairs                 containers                         *)
(*   reg                                   a registered class                 *)
(* The text form is the sequence of its tokens. The container holds the       *)
(* length of the metadata, the metadata (the text form, with references to    *)
(* segments in the place of bytes), then each segment behind its length.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Depth,      \* how deep containers may be nested
          Width,      \* parts of a container
          Bug         \* "none", or the mistake the machine makes
Atoms == 0 .. 1
Leaf(k, a) == [k |-> k, a |-> a, kids |-> <<>>]
Node(k, a, s) == [k |-> k, a |-> a, kids |-> s]
Leaves == {Leaf("null", 0)} \cup {Leaf(k, a) : k \in {"bool", "int", "str", "bytes"}, a \in Atoms}
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET R == SeqsUpTo(S, n - 1) IN R \cup {Append(s, x) : s \in {r \in R : Len(r) = n - 1}, x \in S}
\* keys of a mapping: text only (dict), or with at least one that is not (pairs)
Keys(s) == [i \in 1 .. (Len(s) \div 2) |-> s[2 * i - 1]]
Text(s) == \A i \in 1 .. Len(s) : s[i].k = "str"
Distinct(s) == Cardinality({s[i] : i \in 1 .. Len(s)}) = Len(s)
KeyLeaves == {Leaf("int", 0), Leaf("str", 0), Leaf("str", 1)}
Interleave(ks, vs) == [i \in 1 .. 2 * Len(ks) |-> IF i % 2 = 1 THEN ks[(i + 1) \div 2] ELSE vs[i \div 2]]
Mappings(S, n) == {Interleave(kv[1], kv[2]) : kv \in {p \in SeqsUpTo(KeyLeaves, n) \X SeqsUpTo(S, n) : Len(p[1]) = Len(p[2]) /\ Distinct(p[1])}}
RECURSIVE Terms(_)
Terms(d) == IF d = 0 THEN Leaves
            ELSE LET S == Terms(d - 1) w == IF d = 1 THEN Width ELSE 1 Q == SeqsUpTo(S, w) IN
                 S \cup {Node(k, 0, s) : k \in {"list", "tuple"}, s \in Q}
                   \cup {Node("reg", a, s) : a \in Atoms, s \in SeqsUpTo(S, 1)}
                   \cup {Node(IF Text(Keys(s)) THEN "dict" ELSE "pairs", 0, s) : s \in Mappings(S, w)}

--------------------------------------------------------------------------------
\* writing: tokens <<kind, atom, number of parts>>, and the segments
Tok(k, a, n) == [k |-> k, a |-> a, n |-> n]
WKind(k) == IF Bug = "TupleAsList" /\ k = "tuple" THEN "list"
            ELSE IF Bug = "BoolAsInt" /\ k = "bool" THEN "int"
            ELSE IF Bug = "KeysAsText" /\ k = "pairs" THEN "dict" ELSE k
KeyOut(k) == IF Bug = "KeysAsText" THEN Leaf("str", k.a) ELSE k
RECURSIVE WriteT(_), WriteAllT(_)
WriteT(t) == LET s == IF t.k = "pairs" THEN [i \in 1 .. Len(t.kids) |-> IF i % 2 = 1 THEN KeyOut(t.kids[i]) ELSE t.kids[i]] ELSE t.kids
             IN <<Tok(WKind(t.k), t.a, Len(s))>> \o WriteAllT(s)
WriteAllT(s) == IF s = <<>> THEN <<>> ELSE WriteT(Head(s)) \o WriteAllT(Tail(s))
\* the container: every bytes leaf becomes a reference, numbered in the order of writing
RECURSIVE Refs(_, _), RefsAll(_, _)
Refs(t, n) == \* <<the term with references, the next segment number>>
  IF t.k = "bytes" THEN <<Leaf("ref", IF Bug = "SameSegment" THEN 0 ELSE n), n + 1>>
  ELSE LET r == RefsAll(t.kids, n) IN <<Node(t.k, t.a, r[1]), r[2]>>
RefsAll(s, n) == IF s = <<>> THEN <<<<>>, n>>
                 ELSE LET h == Refs(Head(s), n) r == RefsAll(Tail(s), h[2]) IN <<<<h[1]>> \o r[1], r[2]>>
RECURSIVE Segs(_), SegsAll(_)
Segs(t) == IF t.k = "bytes" THEN <<t.a>> ELSE SegsAll(t.kids)
SegsAll(s) == IF s = <<>> THEN <<>> ELSE Segs(Head(s)) \o SegsAll(Tail(s))
\* a segment of atom a is a bytes long
Unit(x) == [k |-> "byte", a |-> x, n |-> 0]
Size(n) == [k |-> "size", a |-> n, n |-> 0]
SegOut(a) == <<Size(a)>> \o [i \in 1 .. a |-> Unit(i)]
RECURSIVE FlatSegs(_)
FlatSegs(s) == IF s = <<>> THEN <<>> ELSE SegOut(Head(s)) \o FlatSegs(Tail(s))
WriteB(t) == LET m == WriteT(Refs(t, 0)[1]) IN <<Size(Len(m))>> \o m \o FlatSegs(Segs(t))

--------------------------------------------------------------------------------
\* reading
Err == Leaf("error", 0)
Bad(t) == t.k = "error"
RECURSIVE Read(_), ReadN(_, _)
Read(toks) == \* <<term or error, remaining tokens>>
  IF toks = <<>> THEN <<Err, <<>>>>
  ELSE LET h == Head(toks) r == ReadN(Tail(toks), h.n) IN
       IF h.k \notin {"null", "bool", "int", "str", "bytes", "list", "tuple", "dict", "pairs", "reg", "ref"} THEN <<Err, <<>>>>
       ELSE IF \E i \in 1 .. Len(r[1]) : Bad(r[1][i]) THEN <<Err, <<>>>>
       ELSE <<Node(h.k, h.a, r[1]), r[2]>>
ReadN(toks, n) == IF n = 0 THEN <<<<>>, toks>>
                  ELSE LET x == Read(toks) r == ReadN(x[2], n - 1) IN <<<<x[1]>> \o r[1], r[2]>>
ReadT(toks) == LET r == Read(toks) IN IF Bad(r[1]) \/ r[2] # <<>> THEN Err ELSE r[1]
\* the segments behind the metadata: <<TRUE, segments>> or <<FALSE, ..>> if one is cut short
RECURSIVE Cut(_)
Cut(b) == IF b = <<>> THEN <<TRUE, <<>>>>
          ELSE LET n == Head(b).a IN
               IF Len(b) - 1 < n THEN IF Bug = "ShortSegment" THEN <<TRUE, <<Len(b) - 1>>>> ELSE <<FALSE, <<>>>>
               ELSE LET r == Cut(SubSeq(b, n + 2, Len(b))) IN <<r[1], <<n>> \o r[2]>>
RECURSIVE Fill(_, _)
Fill(t, segs) ==
  IF t.k = "ref" THEN IF t.a >= Len(segs) THEN IF Bug = "EmptyForMissing" THEN Leaf("bytes", 0) ELSE Err ELSE Leaf("bytes", segs[t.a + 1])
  ELSE LET s == [i \in 1 .. Len(t.kids) |-> Fill(t.kids[i], segs)] IN
       IF \E i \in 1 .. Len(s) : Bad(s[i]) THEN Err ELSE Node(t.k, t.a, s)
ReadB(b) == IF b = <<>> \/ Head(b).k # "size" THEN Err
            ELSE LET n == Head(b).a IN
                 IF Len(b) < n + 1 THEN Err
                 ELSE LET t == ReadT(SubSeq(b, 2, n + 1)) c == Cut(SubSeq(b, n + 2, Len(b))) IN
                      IF Bad(t) \/ ~c[1] THEN Err ELSE Fill(t, c[2])

--------------------------------------------------------------------------------
\* a channel of written objects: the machine writes terms and reads what was written, whole or cut
VARIABLES term, form, wire, got
vars == <<term, form, wire, got>>
Init == /\ term \in Terms(Depth) /\ form \in {"text", "container"} /\ got = Leaf("nothing", 0)
        /\ wire = IF form = "text" THEN WriteT(term) ELSE WriteB(term)
ReadBack(w) == IF form = "text" THEN ReadT(w) ELSE ReadB(w)
Whole == got.k = "nothing" /\ got' = ReadBack(wire) /\ UNCHANGED <<term, form, wire>>
Short == /\ got.k = "nothing" /\ \E n \in 0 .. Len(wire) - 1 : wire' = SubSeq(wire, 1, n) /\ got' = ReadBack(wire')
         /\ UNCHANGED <<term, form>>
Alien == /\ got.k = "nothing" /\ \E n \in 1 .. Len(wire) : wire[n].k \notin {"byte", "size"} /\ wire' = [wire EXCEPT ![n].k = "alien"] /\ got' = ReadBack(wire')
         /\ UNCHANGED <<term, form>>
Next == Whole \/ Short \/ Alien
Spec == Init /\ [][Next]_vars
Full == IF form = "text" THEN WriteT(term) ELSE WriteB(term)
ReadsBackEqual == got.k # "nothing" /\ wire = Full => got = term
DamageIsSeen == got.k # "nothing" /\ wire # Full => Bad(got)
=============================================================================
