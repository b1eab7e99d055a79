---------------------------- MODULE RenameTrace -----------------------------
(***************************************************************************)
(* Recorded cycles of the rename stage against Rename.                      *)
(* cycle: <<t, dec ready, dis ready, flush, interrupt, mispredicted tag,    *)
(*          decoded, renamed, retired>>                                     *)
(*  decoded [da,den,s1en,s1a,s2en,s2a,tag]                                  *)
(*  renamed [da,den,dp,old,s1en,s1a,s1p,s2en,s2a,s2p,tag]                   *)
(*  retired [da,den,dp,old,exception]                                       *)
(* The first element of a run is the committed map it starts with.          *)
(***************************************************************************)
EXTENDS Rename, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT NP
Preg == 0..(NP - 1)

VARIABLES tid, l, arch, win, lat, bad
vars == <<tid, l, arch, win, lat, bad>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>

Init ==
  /\ tid \in 1..Len(Traces) /\ l = 2 /\ win = <<>> /\ lat = <<>> /\ bad = <<>>
  /\ arch = [a \in 0..(Len(Traces[tid].pt[1]) - 1) |-> Traces[tid].pt[1][a + 1]]

Item(r) == [da |-> IF r[2] = 1 THEN r[1] ELSE -1, dp |-> r[3], old |-> r[4], tag |-> r[11]]

\* retire the entries of c from position k on: <<arch, win, mismatches>>
RECURSIVE Commit(_, _, _, _, _)
Commit(a, w, c, k, irq) ==
  IF k > Len(c) THEN <<a, w, <<>>>>
  ELSE IF w = <<>> THEN <<a, w, <<"retired nothing">>>>
  ELSE LET h == w[1]
           e == c[k]
           same == IF e[2] = 1 THEN h.da = e[1] /\ h.dp = e[3] /\ h.old = e[4] ELSE h.da < 0
       IN IF ~same THEN <<a, w, <<"retired another">>>>
          ELSE IF e[5] = 1 \/ irq THEN <<a, w, Fl(k = Len(c), "retired past a trap")>>
          ELSE Commit(Retire(a, w), Tail(w), c, k + 1, irq)

\* rename the slots of r from position k on: <<win, mismatches>>
RECURSIVE Fire(_, _, _, _, _)
Fire(a, w, mp, r, k) ==
  IF k > Len(r) THEN <<w, <<>>>>
  ELSE LET e == r[k]
           q == IF k > Len(lat) THEN <<>> ELSE lat[k]
           b == IF q = <<>> THEN <<"renamed nothing">>
                ELSE Fl(<<e[1], e[2], e[5], e[6], e[8], e[9], e[11]>> = q, "fields")
                     \o Fl(e[5] = 1 => e[7] = mp[e[6]], "source 1")
                     \o Fl(e[8] = 1 => e[10] = mp[e[9]], "source 2")
                     \o Fl(e[2] = 1 => e[3] \in FreeOf(Preg, a, w), "not free")
                     \o Fl(e[2] = 1 => e[4] = mp[e[1]], "overwritten")
                     \o Fl(e[2] = 1 => e[1] # 0, "x0 renamed")
       IN IF b # <<>> THEN <<w, b>>
          ELSE Fire(a, Enter(w, Item(e)), IF e[2] = 1 THEN [mp EXCEPT ![e[1]] = e[3]] ELSE mp, r, k + 1)

\* destinations needed by the first k waiting instructions
Need(k) == Cardinality({i \in 1..k : lat[i][2] = 1})
Refused(e) == Len(e[8]) < Len(lat)
              /\ Need(Len(e[8]) + 1) <= Cardinality(FreeOf(Preg, arch, win))

Drop(q, n) == SubSeq(q, n + 1, Len(q))

Next ==
  /\ bad = <<>> /\ l <= Len(Traces[tid].pt)
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ \E e \in {Traces[tid].pt[l]} :
     \E c \in {Commit(arch, win, e[9], 1, e[5] = 1)} :
     LET
         trap == e[5] = 1 \/ \E k \in 1..Len(e[9]) : e[9][k][5] = 1
         gone == e[4] = 1 \/ e[6] >= 0
         fire == e[3] = 1 /\ ~gone
         f == IF fire /\ c[3] = <<>> THEN Fire(c[1], c[2], MapOf(c[1], c[2]), e[8], 1) ELSE <<c[2], <<>>>>
     IN /\ arch' = c[1]
        /\ win' = IF e[4] = 1 THEN <<>>
                  ELSE IF e[6] >= 0 THEN Squash(c[2], e[6]) ELSE f[1]
        /\ lat' = IF gone THEN <<>>
                  ELSE IF e[2] = 1 THEN e[7]
                  ELSE IF fire THEN Drop(lat, Len(e[8])) ELSE lat
        /\ bad' = c[3] \o f[2]
                  \o Fl(trap => e[4] = 1, "trap without flush")
                  \o Fl(e[6] >= 0 /\ e[4] = 0 => LastTag(c[2], e[6], Len(c[2])) > 0, "no such branch")
                  \o Fl(~gone /\ e[2] = 1 => (lat = <<>> \/ (fire /\ Len(e[8]) = Len(lat))), "accepted over waiting")
                  \o Fl(~gone => ~Refused(e), "register leaked")
                  \o Fl(~gone => Len(e[8]) <= Len(lat), "renamed more than waiting")
                  \o Fl(Distinct(arch, win), "shared register")

Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, arch |-> arch, win |-> win, lat |-> lat,
          e |-> IF l <= Len(Traces[tid].pt) THEN Traces[tid].pt[l] ELSE <<>>]
=============================================================================
