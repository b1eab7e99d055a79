------------------------------ MODULE LsuTrace ------------------------------
(***************************************************************************)
(* Runs of the load/store unit.  v: operations in the order they retire,    *)
(*   <<kind, size, va, data, value written back, faults, interrupted>>;     *)
(* d: accesses the devices saw, <<write, address, data, size, value given>>;*)
(* m, e: memory before and after.                                           *)
(***************************************************************************)
EXTENDS Lsu, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, s, cut, bad
vars == <<tid, l, s, cut, bad>>
Mem(q) == [a \in {q[i][1] : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i][1] = a][2]]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>> /\ cut = 0
        /\ s = [m |-> Mem(Traces[tid].m), r |-> <<>>, p |-> 0]
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Dev == Traces[tid].d
\* the access of a retiring device load; attempts cancelled by an interrupt may have read too
\* (at most a group of two for each interrupt), but only loads of the program read
Ours(d) == d[1] = 0 /\ \E i \in l..Len(Traces[tid].v) :
             LET e == Traces[tid].v[i] IN e[1] = LoadK /\ IsDevice(e[3]) /\ d[2] = Phys(e[3]) /\ d[4] = e[2]
LoadAcc(e) == {n \in s.p + 1..s.p + 1 + 2 * cut :
                 /\ n <= Len(Dev) /\ Dev[n][1] = 0 /\ Dev[n][2] = Phys(e[3]) /\ Dev[n][4] = e[2] /\ Dev[n][5] = e[5]
                 /\ \A i \in s.p + 1..n - 1 : Ours(Dev[i])}
StoreAcc(e) == /\ s.p < Len(Dev)
               /\ LET d == Dev[s.p + 1]
                  IN d[1] = 1 /\ d[2] = Phys(e[3]) /\ d[4] % 4 = e[2] % 4 /\ WAnd(d[3], SizeMask(e[2])) = WAnd(e[4], SizeMask(e[2]))
Op(e) ==
  LET k == e[1]
      lf == LoadFaults(k, e[3])
      sf == StoreFaults(k, e[3])
      isdev == k \in {LoadK, StoreK} /\ IsDevice(e[3])
  IN IF e[7] = 1 THEN cut' = cut + 1 /\ UNCHANGED <<s, bad>>
     ELSE IF k \notin 1..6 THEN UNCHANGED <<s, cut, bad>>
     ELSE IF lf \/ sf
     THEN /\ bad' = Fl(e[6] = (IF lf THEN 1 ELSE 0) + (IF sf THEN 2 ELSE 0), "fault")
          /\ UNCHANGED <<s, cut>>
     ELSE IF isdev /\ k = LoadK
     THEN \E n \in {LoadAcc(e)} :
            /\ bad' = Fl(e[6] = 0, "fault") \o Fl(n # {}, "device load")
            /\ s' = [s EXCEPT !.p = IF n = {} THEN @ ELSE CHOOSE x \in n : TRUE]
            /\ cut' = 0
     ELSE IF isdev
     THEN /\ bad' = Fl(e[6] = 0, "fault") \o Fl(StoreAcc(e), "device store")
          /\ s' = [s EXCEPT !.p = @ + 1, !.r = IF @ = <<Phys(e[3])>> THEN <<>> ELSE @]
          /\ cut' = 0
     ELSE \E x \in {Retire(s, k, e[2], e[3], e[4])} :
            /\ bad' = Fl(e[6] = 0, "fault") \o Fl(~(Reads(k) \/ k = ScK) \/ e[5] = x[2], "value")
            /\ s' = x[1] /\ UNCHANGED cut
End == /\ bad' = Fl(Traces[tid].ended = 1, "does not finish")
             \o Fl(s.m = Mem(Traces[tid].e), "memory")
             \o Fl(s.p = Len(Dev), "device accesses left over")
       /\ UNCHANGED <<s, cut>>
Next == /\ bad = <<>> /\ l <= Len(Traces[tid].v) + 1 /\ l' = l + 1 /\ UNCHANGED tid
        /\ IF l = Len(Traces[tid].v) + 1 THEN End
           ELSE \E e \in {Traces[tid].v[l]} : Op(e)
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, s |-> s, cut |-> cut,
          at |-> IF l > 1 /\ l - 1 <= Len(Traces[tid].v) THEN Traces[tid].v[l - 1] ELSE <<>>]
=============================================================================
