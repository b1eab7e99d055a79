---------------------------- MODULE DcacheTrace ----------------------------
(***************************************************************************)
(* Runs recorded at the ports of the memory subsystem: what the load/store  *)
(* unit, the instruction cache and the page walker asked and were answered,  *)
(* and what reached the fabric.  Each event is                               *)
(*   <<kind, operation, outcome, data, extra, extra>>                         *)
(***************************************************************************)
EXTENDS MemOps, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
LINE == 64
VARIABLES tid, l, m, fl, bad
vars == <<tid, l, m, fl, bad>>
Asleep == -1
Over == -2
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
        /\ m = [mem |-> [a \in {Traces[tid].w[k][1] : k \in 1..Len(Traces[tid].w)} |->
                           Traces[tid].w[CHOOSE k \in 1..Len(Traces[tid].w) : Traces[tid].w[k][1] = a][2]],
                log |-> <<>>]
        /\ fl = [k \in 1..Len(Traces[tid].ops) |-> Asleep]
Fl(b, name) == IF b THEN <<>> ELSE <<name>>

\* one event on s = [m, fl, bad]
Asked(s, k) == IF s.fl[k] = Asleep THEN [s EXCEPT !.fl[k] = Now(s.m)]
               ELSE [s EXCEPT !.bad = @ \o <<"asked twice">>]
Finish(s, k) == [s EXCEPT !.fl[k] = Over]
Check(s, ok, name) == IF ok THEN s ELSE [s EXCEPT !.bad = @ \o <<name>>]
Event(s, e, ops) ==
  IF e[1] >= 20
  THEN LET s1 == Check(s, e[4] % LINE = 0 /\ e[5] = LINE - 1, "the fabric is asked for something that is not a line")
       IN IF e[1] = 20 THEN s1
          ELSE Check(s1, \E k \in 1..Len(ops) : ops[k][1] = 1 /\ s.fl[k] # Asleep /\ LineAddr(ops[k][2], LINE) = e[4],
                     "a line is written back that was never written")
  ELSE IF e[1] >= 10 THEN Asked(s, e[2])
  ELSE IF e[2] = 0 THEN [s EXCEPT !.bad = @ \o <<"answered without being asked">>]
  ELSE IF s.fl[e[2]] < 0 THEN [s EXCEPT !.bad = @ \o <<"answered without being asked">>]
  ELSE
    LET o == ops[e[2]]
        a == WordAddr(o[2])
        k == s.fl[e[2]]
    IN CASE e[1] = 1 -> IF e[3] = 0 THEN Finish([s EXCEPT !.m = Put(s.m, a, o[3], o[4])], e[2])
                        ELSE [s EXCEPT !.fl[e[2]] = Asleep]
         [] e[1] = 0 -> IF e[3] = 0 THEN Finish(Check(s, e[4] \in Seen(s.m, a, k), "value loaded"), e[2])
                        ELSE [s EXCEPT !.fl[e[2]] = Asleep]
         [] e[1] = 2 -> Finish(Check(s, e[3] = 9 \/ e[4] \in Seen(s.m, a, k),
                                     IF e[3] = 0 THEN "value probed" ELSE "a probe misses while memory is out of date"), e[2])
         [] e[1] \in {3, 4} -> Finish(Check(s, e[4] \in Seen(s.m, a, k), "word read by the walker"), e[2])
         [] OTHER -> Finish(Check(s, e[3] = 9 \/ (<<e[3], e[4], e[5]>> \in Walks(s.m, k, o[3] % 4194304, o[2]) /\ e[6] = o[2]),
                                  "result of a walk"), e[2])
RECURSIVE Events(_, _, _, _)
Events(s, es, i, ops) == IF i > Len(es) THEN s ELSE Events(Event(s, es[i], ops), es, i + 1, ops)
End(s, t) == Fl(t.drained = 1, "requests left without an answer")
             \o Fl(\A k \in 1..Len(t.w) : t.fin[k] = s.m.mem[t.w[k][1]], "memory after everything was written back")
             \o Fl(t.extra = 0, "memory outside the lines of the run")
Next == /\ bad = <<>> /\ l <= Len(Traces[tid].v) /\ l' = l + 1 /\ UNCHANGED tid
        /\ \E s \in {Events([m |-> m, fl |-> fl, bad |-> <<>>], Traces[tid].v[l], 1, Traces[tid].ops)} :
             /\ m' = s.m /\ fl' = s.fl
             /\ bad' = s.bad \o (IF l = Len(Traces[tid].v) /\ s.bad = <<>> THEN End(s, Traces[tid]) ELSE <<>>)
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, m |-> m, asked |-> {k \in DOMAIN fl : fl[k] >= 0},
          at |-> IF l > 1 THEN Traces[tid].v[l - 1] ELSE <<>>]
=============================================================================
