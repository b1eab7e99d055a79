------------------------------ MODULE TagsTrace -----------------------------
(***************************************************************************)
(* Recorded cycles of branch-tag handling against Tags.                     *)
(* cycle: <<t, announce, control, decoded, dispatched, resolved, report,    *)
(*          moving, retired>>                                               *)
(*  announce   [flush, redirect tag or -1, redirect index, cleared tags]    *)
(*  control    [rename ready, interrupt]                                    *)
(*  decoded    [branch, tag, carried mask or -1 if refused]                 *)
(*  dispatched [branch, mask, index]                                        *)
(*  resolved   [index, mispredicted]                                        *)
(*  report     [mispredicted, tag, index, cleared tags] -> announced next   *)
(*  moving     [index, mask, tag or -1] work entering or leaving the issue  *)
(*             queues; branch work names its own tag                        *)
(***************************************************************************)
EXTENDS Tags, TLC, Json, IOUtils, Bitwise
Traces == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT NTAG                       \* tags are 1..NTAG-1

VARIABLES tid, l, w, nd, rep, bad   \* nd: dispatched prefix of w; rep: last report
vars == <<tid, l, w, nd, rep, bad>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
\* a mask of 32 tags is recorded as a signed word
Low(m) == IF m < 0 THEN (m + 2147483647) + 1 ELSE m
TagSet(m) == {k \in 0..(NTAG - 1) : IF k = 31 THEN m < 0 ELSE (Low(m) \div (2 ^ k)) % 2 = 1}
Quiet == <<0, -1, -1, {}>>

Init == tid \in 1..Len(Traces) /\ l = 1 /\ w = <<>> /\ nd = 0 /\ rep = Quiet /\ bad = <<>>

PosOfId(v, n, id) == IF \E k \in 1..n : v[k].id = id THEN CHOOSE k \in 1..n : v[k].id = id ELSE 0

\* decoded slots from k on: <<window, mismatches>>
RECURSIVE Decode(_, _, _, _)
Decode(v, d, k, C) ==
  IF k > Len(d) THEN <<v, <<>>>>
  ELSE IF d[k][3] = -1
       THEN <<v, Fl(d[k][1] = 1 /\ Cardinality(InUse(v)) >= NTAG - 1, "refused with tags free")>>
  ELSE LET br == d[k][1] = 1
           b == Fl(TagSet(d[k][3]) \ C = InUse(v) \ C, "decoded mask")
                \o Fl(br => d[k][2] \in 1..(NTAG - 1) /\ MayTake(v, d[k][2]), "tag in use")
       IN IF b # <<>> THEN <<v, b>>
          ELSE Decode(Append(v, [tag |-> IF br THEN d[k][2] ELSE 0, open |-> br, id |-> -1]), d, k + 1, C)

Next ==
  /\ bad = <<>> /\ l <= Len(Traces[tid].pt)
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ \E e \in {Traces[tid].pt[l]} :
     \E C \in {TagSet(e[2][4])} :
     \* dispatch names the next undispatched instructions
     \E named \in {IF nd + Len(e[5]) <= Len(w) /\ e[2][2] < 0
                   THEN [k \in 1..Len(w) |-> IF k > nd /\ k <= nd + Len(e[5])
                                              THEN [w[k] EXCEPT !.id = e[5][k - nd][3]] ELSE w[k]] ELSE w} :
     \E dec \in {IF e[2][1] = 1 \/ e[2][2] >= 0 \/ e[3][1] = 0 THEN <<named, <<>>>> ELSE Decode(named, e[4], 1, C)} :
     LET a == e[2]
         flush == a[1] = 1
         mis == a[2] >= 0
         n == Len(e[5])
         known == nd + n <= Len(w)
         nd1 == IF mis THEN nd ELSE nd + n
         pos(id) == PosOfId(named, nd1, id)
         okMask(k, m) == TagSet(m) \ C = Carried(named, k) \ C
         \* resolution
         res == e[6]
         rep1 == e[7]
         mp == {k \in 1..Len(res) : res[k][2] = 1}
         rpos(k) == pos(res[k][1])
         oldest == CHOOSE k \in mp : \A j \in mp : rpos(k) <= rpos(j)
         resTags == {named[rpos(k)].tag : k \in {j \in 1..Len(res) : rpos(j) > 0}} \ {0}
         w1 == ClearTags(dec[1], C)
         w2 == IF mis THEN SquashAfter(named, a[2]) ELSE w1
         w3 == IF mis THEN ClearTags(w2, C) ELSE w2
         nret == IF e[9] > Len(w3) THEN Len(w3) ELSE e[9]
         w4 == SubSeq(w3, nret + 1, Len(w3))
         ndw == IF mis THEN (IF nd1 > Len(w3) THEN Len(w3) ELSE nd1) ELSE nd1
     IN /\ w' = IF flush THEN <<>> ELSE w4
        /\ nd' = IF flush THEN 0 ELSE ndw - nret
        /\ rep' = IF flush THEN Quiet ELSE <<rep1[1], rep1[2], rep1[3], TagSet(rep1[4]) \ {0}>>
        /\ bad' = Fl(Traces[tid].end # "stuck", "stuck")
                  \o Fl(<<IF mis THEN 1 ELSE 0, a[2], a[3], C \ {0}>> = rep, "announced something else")
                  \o Fl(mis => PosOfTag(w, a[2]) > 0 /\ w[PosOfTag(w, a[2])].id = a[3], "redirect names another branch")
                  \o Fl(mis \/ known, "dispatched nothing")
                  \o Fl(~mis /\ known => \A k \in 1..n :
                          /\ okMask(nd + k, e[5][k][2])
                          /\ (e[5][k][1] = 1) = (w[nd + k].tag > 0), "dispatched tags")
                  \o Fl(\A k \in 1..Len(e[8]) : pos(e[8][k][1]) > 0, "squashed work still moving")
                  \o Fl(\A k \in 1..Len(e[8]) : pos(e[8][k][1]) > 0 => okMask(pos(e[8][k][1]), e[8][k][2]), "carried tags")
                  \o Fl(\A k \in 1..Len(e[8]) : pos(e[8][k][1]) > 0 /\ e[8][k][3] >= 0 =>
                          named[pos(e[8][k][1])].tag = e[8][k][3], "own tag")
                  \o Fl(\A k \in 1..Len(res) : rpos(k) > 0, "squashed branch resolved")
                  \o Fl((\A k \in 1..Len(res) : rpos(k) > 0) =>
                          /\ TagSet(rep1[4]) \ {0} = resTags
                          /\ (rep1[1] = 1) = (mp # {})
                          /\ (mp # {} => rep1[3] = res[oldest][1] /\ rep1[2] = named[rpos(oldest)].tag), "report")
                  \o dec[2]

Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, w |-> w, nd |-> nd, rep |-> rep,
          e |-> IF l <= Len(Traces[tid].pt) THEN Traces[tid].pt[l] ELSE <<>>]
=============================================================================
